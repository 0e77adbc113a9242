"""Connections: authentication, the client's buffering and reconnection, the server's sessions, reading frames."""
from rules import *
from remote import NOCONV, RAS, adts, uncall

SESS = API + CTXAPI + NOCONV + [r"StreamData>?::read_from_bytes$", r"RemoteSession>?::write$", r"RemoteActorSystem>?::get_nodes$",
                                r"get_capabilities", r"get_attributes", r"ActorContext>?::log$"]
WB = r"remote::net::client::send::write_bytes$"


def truth(ev):
    return {"True": True, "1": True, "False": False, "0": False}.get(str(ev.out))


@prop("R04")
def auth(c):
    c.rule("gate", "A session sends nothing about this node and reads no further frames until the configured authentication has accepted the token of the peer's "
           "Identify event, which has to be its first frame; otherwise the session is stopped.")
    b = c.method("Actor", r"session::RemoteSession$", "started")

    def mon(s, ev, q):
        st, stop, loop = s
        if ev.kind == "branch":
            if canon(q, ev.value).endswith("a1.read") and str(ev.out) == "None" and st == "start":
                return ("noread", stop, loop)
            v = strip(q, ev.value)
            neg = q.val(ev.value).tag == "un"
            if v.tag == "call" and v.a[1].endswith("validate_token") and truth(ev) is not None:
                a = [canon(q, x, 9) for x in v.a[2]]
                if not re.search(r"security\.client_auth$|client_authentication\(", a[0]):
                    return Bad("policy", "the token is validated against %s" % cut(a[0]))
                if not re.search(r"next\(a1\.read\?\).*@Identify\.0\.token$", a[1]):
                    return Bad("token", "the token validated is %s" % cut(a[1]))
                return ("ok" if truth(ev) != neg else "rejected", stop, loop)
        if called(ev, r"ActorContext>?::stop$") or ev.kind == "write" and canon(q, ev.value) == "Stopping":
            return (st, True, loop)
        x = message(ev, q)
        if x and canon(q, x[2]) == "'<stop>'":
            return (st, True, loop)
        if called(ev, r"remote::net::receive_loop(::<.*>)?$"):
            if st not in ("ok", "noread"):
                return Bad("read", "frames of a peer are handled that was not accepted (%s)" % st)
            return (st, stop, True)
        if (awaited(ev, q, r"RemoteSession>?::write$") or called(ev, r"SinkExt::send$|FramedWrite.*::send$")) and st not in ("ok", "noread"):
            return Bad("write", "a peer that was not accepted is sent something (%s)" % st)
        if ev.kind == "leave" and ev.out:
            if st in ("start", "rejected") and not stop:
                return Bad("open", "the session of a peer that was not accepted stays open")
            if st == "ok" and not loop:
                return Bad("deaf", "an accepted peer's frames are not read")
        return None
    c.watch(b, mon, ("start", False, False), "gate", opaque=SESS + [r"ClientAuth>?::validate_token$", r"remote::net::receive_loop"])
    ok = lambda i: bool(re.search(r"RemoteSession as .*Actor>::started$", i))
    for cb, ln, _ in callers(c.p, r"SessionMessageReceiver::new$"):
        c.check(only_via(c.p, cb, ok), "other:" + short(root_fn(cb.id)), "%s starts handling the frames of a peer" % short(root_fn(cb.id)))

    c.rule("token", "A token is accepted when no authentication is configured, or when its signature verifies under the configured secret and it has not "
           "outlived the configured time to live; tokens are signed with the same secret and their time of creation.")
    jv = c.inherent(r"jwt::Jwt$", "validate_token")
    for o in c.run(jv, br):
        if o.kind != "return":
            continue
        r = c.ret(o, 9)
        obs = [(canon(None, v, 12) if not isinstance(v, str) else v, out) for _, v, out in o.obs]
        good = any(re.search(r"verify_with_key\(a2,a1\.secret\)$", v) and out == "Ok" for v, out in obs)
        expr = [(v, out) for v, out in obs if "Utc::now" in v and "timestamp" in v]
        if r not in ("True", "False"):
            expr.append((r, "True"))
        if r == "False":
            if good:
                ttl = any(v.endswith("token_ttl") and out == "Some" for v, out in obs)
                c.check(ttl or expr, "reject", "a correctly signed token without time to live is rejected", out=o)
                for v, out in expr:
                    c.check(fresh(v, out) is not True, "expired:reject", "a token that has not expired is rejected: %s" % cut(v), out=o)
            continue
        if "verify_with_key" in r and re.match(r"^Result::is_ok", r):
            good = True
        c.check(good, "signature", "a token is accepted without its signature having been verified under the configured secret", out=o)
        if not any(v.endswith("token_ttl") and out == "None" for v, out in obs):
            c.check(expr, "ttl", "a token is accepted whatever its age", out=o)
            for v, out in expr:
                c.check(v.count("token_ttl") <= 1 and not re.search(r"\b(days|hours|minutes|seconds|weeks|milliseconds)\(", v), "age", "a token's age is judged by %s" % cut(v, 250), out=o)
                c.check(fresh(v, out) is not False, "expired", "a token is accepted although it expired: %s" % cut(v), out=o)
    jg = c.inherent(r"jwt::Jwt$", "generate_token")
    for o in c.run(jg, None):
        r = c.ret(o, 9)
        if r.startswith("Some{"):
            c.check(re.search(r"sign_with_key\(.*timestamp:Utc::now\(\).*,a1\.secret\)", r), "sign", "a token is made as %s" % cut(r), out=o)
    js = c.inherent(r"jwt::Jwt$", "from_secret")
    for o in c.run(js, None):
        r = c.ret(o, 9)
        if o.kind == "return" and r.startswith("Jwt{"):
            c.check(re.search(r"secret:[\w:<>]*new_from_slice\(a1\)\?.*token_ttl:a2\}$", r), "secret", "the authentication is made as %s" % cut(r), out=o)
    for name in ("validate_token", "generate_token"):
        b = c.inherent(r"auth::ClientAuth$", name)
        for o in c.run(b, br, opaque=[r"jwt::Jwt>?::\w+$"]):
            if o.kind != "return":
                continue
            jwt = any(canon(None, v) == "a1" and out == "Jwt" for _, v, out in o.obs if not isinstance(v, str))
            r = c.ret(o, 9)
            if jwt:
                c.check(re.search(r"Jwt::%s\(a1@Jwt\.0" % name, r), "delegate:" + name, "with authentication configured, %s yields %s" % (name, cut(r)), out=o)
    b = c.inherent(r"RemoteActorSystemBuilder$", "client_auth_jwt")
    for o in c.run(b, setlab("client_auth"), opaque=[r"jwt::Jwt>?::\w+"]):
        if o.kind == "return":
            sets = [x[1] for x in o.obs]
            v = sets[-1] if sets else c.ret(o, 9)
            c.check(re.search(r"Some\{0:Jwt\{0:Jwt::from_secret\((a2|.*a2.*),a3\)", v), "configure", "configuring authentication stores %s" % cut(v), out=o)
    b = c.inherent(r"config::RemoteSystemSecurity$", "new")
    for o in c.run(b, None):
        c.check("client_auth:a1" in c.ret(o), "security", "the security settings are %s" % c.ret(o), out=o)

    c.rule("client", "A client's first frame is an Identify event carrying a token of the configured authentication.")
    b = c.inherent(r"net::client::RemoteClient$", "connect")

    def mon2(s, ev, q):
        v = awaited(ev, q, WB)
        if v:
            if s == "start":
                t = canon(q, v.a[2][0], 12)
                if "write_to_bytes(Identify{" not in t or not re.search(r"token:ClientAuth::generate_token\(.*client_auth\)", t):
                    return Bad("identify", "the first frame a client sends is %s" % cut(t))
                return "sent"
        if called(ev, r"remote::net::receive_loop(::<.*>)?$") and s == "start":
            return Bad("order", "a client reads frames before it identified itself")
        return None
    c.watch(b, mon2, "start", "client", opaque=API + CTXAPI + NOCONV + [WB, r"remote::net::receive_loop", r"ClientAuth>?::generate_token$", r"StreamData>?::write_to_bytes$", r"Timer>?::start", r"ActorContext>?::log$"])


def br(ev, q):
    if ev.kind == "branch":
        return ("br", q.full(ev.value), str(ev.out))
    return None


def setlab(field):
    def f(ev, q):
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == "." + field:
            return ("set", canon(q, ev.value, 9))
    return f


def fresh(expr, out):
    """does the outcome of an age comparison mean the token is still valid? None: not recognised"""
    mm = re.match(r"^(Not\()?\((.*?) (Lt|Le|Gt|Ge) (.*)\)\)?$", expr)
    if not mm:
        return None
    tr = {"True": True, "1": True}.get(out, False) != bool(mm.group(1))
    a, op, b = mm.group(2), mm.group(3), mm.group(4)
    ia = "Utc::now" in a and "timestamp" not in a
    ib = "Utc::now" in b and "timestamp" not in b
    if ia and "timestamp" in b and "Sub" not in b:      # now ? expiry
        return tr == (op in ("Lt", "Le"))
    if ib and "timestamp" in a and "Sub" not in a:
        return tr == (op in ("Gt", "Ge"))
    if "Utc::now" in a and "timestamp" in a and "ttl" in b:     # age ? ttl
        return tr == (op in ("Lt", "Le"))
    if "Utc::now" in b and "timestamp" in b and "ttl" in a:
        return tr == (op in ("Gt", "Ge"))
    return None


CL = r"net::client::RemoteClient$"
DISC = r"Handler<.*client::connect::Disconnected> for .*>::handle$"
ENC = r"StreamData>?::write_to_bytes$"


def state_of(ev, q, names=("Idle", "Connected", "Terminated")):
    """the client state a branch establishes"""
    if ev.kind == "branch" and re.match(r"^a1\.state\?$", canon(q, ev.value)):
        return str(ev.out)
    return None


def set_state(ev, q):
    if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".state":
        return canon(q, ev.value, 9)
    return None


def buf(x):
    return x[1] == "a1.write_buffer"


@prop("R05")
def client(c):
    OP = API + CTXAPI + NOCONV + [WB, ENC]
    c.rule("write", "What is written through a client goes out over the connection or into the buffer, exactly one of them: buffered at the end while there is no "
           "connection, and buffered and followed by the handling of the lost connection when writing to the connection fails. Only a message that cannot be encoded is refused.")
    b = c.inherent(CL, "write")

    def mon(s, ev, q):
        st, enc, put, wr, disc = s
        if ev.kind == "branch":
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(ENC, v.a[1]) and canon(q, v.a[2][0]) == "a2":
                return (st, str(ev.out), put, wr, disc)
            if v.tag == "call" and re.search(WB, v.a[1]) and str(ev.out) in ("Ok", "Err") and wr != "no":
                return (st, enc, put, str(ev.out), disc)
            if canon(q, ev.value).endswith("write_bytes(%s)" % "") or re.search(r"^send::write_bytes\(.*\)!$", canon(q, ev.value)) and str(ev.out) == "Encoding":
                return ("impossible", enc, put, wr, disc)
        x = state_of(ev, q)
        if x:
            return (x, enc, put, wr, disc)
        v = awaited(ev, q, WB)
        if v:
            if "write_to_bytes(a2)" not in canon(q, v.a[2][0], 9):
                return Bad("bytes", "what is written is %s" % cut(canon(q, v.a[2][0])))
            if "@Connected.0.write" not in canon(q, v.a[2][1], 9):
                return Bad("connection", "the message is written to %s" % cut(canon(q, v.a[2][1])))
            if wr != "no":
                return Bad("twice", "the message is written twice")
            return (st, enc, put, "?", disc)
        y = mutation(ev, q)
        if y and buf(y):
            if y[0] != "push_back":
                return Bad("order", "the buffer gets %s" % y[0])
            if "write_to_bytes(a2)" not in y[2][0]:
                return Bad("buffered", "what is buffered is %s" % cut(y[2][0]))
            if put:
                return Bad("twice", "the message is buffered twice")
            return (st, enc, True, wr, disc)
        if awaited(ev, q, DISC):
            return (st, enc, put, wr, True)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Disconnected":
            return (st, enc, put, wr, True)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value) if ev.value is not None else ""
            if enc == "None":
                return None if r.startswith("Err{") and not put else Bad("unencoded", "a message that cannot be encoded is reported as %s" % r)
            if st in ("Terminated", "impossible") or st.startswith("!") and "Idle" in st and "Connected" in st:
                return None
            if wr == "Ok" and put:
                return Bad("duplicate", "a message that was written is buffered as well: it will be sent twice")
            if wr in ("no", "Err", "?") and not put and not (wr == "?"):
                return Bad("lost", "a message is dropped while the client is %s" % st)
            if wr == "Err" and not disc:
                return Bad("unnoticed", "a failed write does not lead to reconnecting")
            if wr == "Ok" and disc:
                return Bad("disconnect", "a successful write drops the connection")
            if r.startswith("Err{"):
                return Bad("refused", "a message that was accepted is reported as failed")
        return None
    c.watch(b, mon, ("?", "?", False, "no", False), "write", opaque=OP + [DISC])
    h = c.one([b for b in c.p.handler(CL, r"send::Write<")], "Handler<Write>")
    for o in c.run(h, None, opaque=[r"RemoteClient>?::write(::<.*>)?$"]):
        if o.kind == "return":
            c.check(re.match(r"^send::write\(a1,a2\.0,a3\)$", c.ret(o)), "handler", "writing is done by %s" % c.ret(o), out=o)

    c.rule("flush", "Once connected, buffered messages are written oldest first; one that cannot be written goes back to the front and nothing after it is tried.")
    b = c.inherent(CL, "flush_buffered_writes")

    def mon2(s, ev, q):
        if ev.kind == "next" and "a1.write_buffer" in canon(q, ev.value):
            if s == "held":
                return Bad("lost", "a buffered message is dropped")
            if s == "failed":
                return Bad("reorder", "later messages are written although an earlier one failed")
            return "held" if str(ev.out) == "Some" else "empty"
        y = mutation(ev, q)
        if y and buf(y):
            if y[0] in ("pop_front",):
                return None
            if y[0] == "push_front":
                return "failed" if s in ("tried", "Err") and "write_buffer" in y[2][0] else Bad("requeue", "%s is put back after %s" % (y[2][0], s))
            if y[0] in ("front", "len"):
                return None
            return Bad("order", "flushing does %s on the buffer" % y[0])
        v = awaited(ev, q, WB)
        if v:
            if s != "held":
                return Bad("write", "a message is written in state %s" % s)
            if "write_buffer" not in canon(q, v.a[2][0]):
                return Bad("bytes", "what is written is %s" % canon(q, v.a[2][0]))
            return "tried"
        if ev.kind == "branch" and s == "tried":
            t = strip(q, ev.value)
            if t.tag == "call" and re.search(WB, t.a[1]) and str(ev.out) in ("Ok", "Err"):
                return "sent" if str(ev.out) == "Ok" else "Err"
        if ev.kind == "branch" and canon(q, ev.value) in ("a1.state", "a1.state?") and s == "start":
            return "start" if str(ev.out) in ("Some",) else ("conn" if str(ev.out) == "Connected" else "idle")
        if ev.kind == "leave" and ev.out:
            if s in ("held", "Err", "tried"):
                return Bad("lost", "a buffered message that could not be written is dropped")
            if s in ("conn", "sent"):
                return Bad("partial", "buffered messages are left although the connection works")
        return None
    ops = {x for o in c.run(b, bufops, opaque=OP) for x in o.obs}
    c.check("pop_back" not in ops and "pop" not in ops, "newest", "the buffer is flushed from its end")
    if "pop_front" in ops:
        c.watch(b, mon2, "start", "flush", opaque=OP)

    def keep(s, ev, q):
        y = mutation(ev, q)
        if y and buf(y) and y[0] != "entry":
            return Bad("touched", "messages in the buffer are subject to %s" % y[0])
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".write_buffer":
            return Bad("replaced", "the buffer is replaced")
        if y and y[1] in ("a1.on_handshake_ack_callbacks", "a1.on_identified_callbacks") and y[0] in ("clear", "truncate", "retain", "split_off"):
            return Bad("callbacks", "callers waiting for an answer are subject to %s" % y[0])
        return None
    for h in c.p.handler(CL, r"client::.*(Connect|Disconnected|BeginHandshake|HandshakeAcknowledge|PingTick|Identify)$") + [c.method("Actor", CL, "stopped")]:
        c.watch(h, keep, "", "kept", opaque=OP + [r"RemoteClient>?::(connect|write|flush_buffered_writes)(::<.*>)?$", DISC])

    c.rule("connect", "When a connection is established it is announced with the peer's identity and address, its address is put up for discovery, everyone waiting for the identity gets it, the connection "
           "becomes the client's state, and then the buffer is flushed. When it fails, everyone waiting is told and the failure is handled as a lost connection.")
    b = c.handler(CL, r"connect::Connect$")

    def mon3(s, ev, q):
        st, reg, state, fl = s
        if ev.kind == "branch":
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(r"RemoteClient>?::connect$|::connect::.*connect$", v.a[1]) and str(ev.out) in ("Some", "None"):
                return ("up" if str(ev.out) == "Some" else "down", reg, state, fl)
        if state_of(ev, q) == "Connected" and st == "?":
            return ("already", reg, state, fl)
        if st == "already" and ev.kind == "await" and re.search(r"^connect::connect\(|RemoteClient::connect\(", canon(q, ev.value)):
            return Bad("reconnect", "a client that is connected connects again")
        x = message(ev, q)
        if x and msgname(q, x[2]) == "ClientConnected":
            f = {k: canon(q, v, 9) for k, v in strip(q, x[2]).a[2]}
            if st != "up" or not f["addr"].endswith("?.identity.node.addr") or not f["remote_node_id"].endswith("?.identity.node.id") or "actor_ref" not in f["client_actor_ref"]:
                return Bad("announce", "the client announces %s" % f)
            return (st, "both" if reg else True, state, fl)
        if x and msgname(q, x[2]) == "Discover" and "Addr{0:a1.addr}" in canon(q, x[2], 6):
            return (st, "both" if reg else "seed", state, fl)
        y = set_state(ev, q)
        if y:
            if st != "up" or not re.match(r"^Some\{0:Connected\{0:connect::connect\(.*\)\?\}\}$", y):
                return Bad("state", "after connecting (%s) the state becomes %s" % (st, cut(y)))
            return (st, reg, True, fl)
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".node_id" and not canon(q, ev.value, 9).endswith("?.identity.node.id}"):
            return Bad("node", "the client takes %s for its peer" % canon(q, ev.value, 9))
        if awaited(ev, q, r"flush_buffered_writes$"):
            if not state:
                return Bad("flush-order", "the buffer is flushed before the connection is in place")
            return (st, reg, state, True)
        if awaited(ev, q, DISC):
            return (st, reg, state, True) if st == "down" else Bad("disconnect", "a connection that is %s is handled as lost" % st)
        if called(ev, ONESHOT) and "on_identified_callbacks" in canon(q, ev.args[0]):
            r = canon(q, ev.args[1], 9)
            if st == "up" and not re.match(r"^Some\{0:.*\?\.identity\}$", r) or st == "down" and r != "None":
                return Bad("identity", "whoever waits for the identity of a peer that is %s gets %s" % (st, cut(r)))
        if ev.kind == "leave" and ev.out:
            if st == "up" and not (reg == "both" and state and fl):
                return Bad("incomplete", "a connection is made but not %s" % ("announced" if reg in ("seed", False) else "discovered" if reg is True else "used" if not state else "flushed"))
            if st == "down" and not fl:
                return Bad("given-up", "a failed connection attempt is not handled as a lost connection")
        return None
    def asked(s, ev, q):
        if ev.kind == "branch":
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(r"RemoteClient>?::connect$|::connect::.*connect$", v.a[1]) and str(ev.out) in ("Some", "None"):
                return "due"
        if ev.kind == "next" and canon(q, ev.value) == "a1.on_identified_callbacks":
            return "done"
        if ev.kind == "leave" and ev.out and s == "due":
            return Bad("untold", "nobody waiting for the identity is told how the connection attempt ended")
        return None
    i, mm = combine(told=("?", asked), main=(("?", False, False, False), mon3), callbacks=foreach(r"on_identified_callbacks$", lambda ev, q: called(ev, ONESHOT), "callbacks waiting for the identity"))
    c.watch(b, mm, i, "connect", opaque=OP + [r"RemoteClient>?::connect$", r"flush_buffered_writes$", DISC])
    b = c.handler(CL, r"client::Identify$")

    def mon4(s, ev, q):
        x = state_of(ev, q)
        if x or ev.kind == "branch" and canon(q, ev.value) == "a1.state" and str(ev.out) == "None":
            return x or "None" if s in ("?", "None") else None
        if called(ev, ONESHOT) and canon(q, ev.args[0]) == "a2.callback":
            r = canon(q, ev.args[1], 9)
            if s != "Connected" or not r.endswith("@Connected.0.identity}"):
                return Bad("answer", "an identity request while %s is answered with %s" % (s, r))
            return "done"
        y = mutation(ev, q)
        if y and y[1] == "a1.on_identified_callbacks" and y[0].startswith("push"):
            return "done" if s != "Connected" else Bad("wait", "an identity request is kept waiting although the identity is known")
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("dropped", "an identity request is dropped while %s" % s)
        return None
    c.watch(b, mon4, "?", "identify", opaque=OP)

    c.rule("reconnect", "A lost connection and a failed attempt lead to another attempt after a delay, counting failed attempts in a row; only after a fixed number of them the client "
           "gives up: it then asks for its removal from the registry under its own address and node and stops.")
    b = c.one([b for b in c.p.handler(CL, r"connect::Disconnected$")], "Handler<Disconnected>")

    def mon5(s, ev, q):
        st, lim, nxt, act, rem = s
        x = state_of(ev, q)
        if x and not x.startswith("!"):
            st = x
            return (st, lim, nxt, act, rem)
        if x and x.startswith("!"):
            return (st, lim, nxt, act, rem)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if "connection_attempts" in t and truth(ev) is not None:
                z = re.match(r"^\((.*) (Gt|Ge|Lt|Le|Eq|Ne) (.*)\)$", t)
                if z:
                    big = z.group(2) in ("Gt", "Ge", "Eq") if "connection_attempts" in z.group(1) else z.group(2) in ("Lt", "Le", "Eq")
                    return (st, "over" if big == truth(ev) else "under", nxt, act, rem)
        y = set_state(ev, q)
        if y and y != "None":
            if st == "Idle" and lim == "over":
                if "Terminated" not in y:
                    return Bad("limit", "after too many attempts the state becomes %s" % cut(y))
            elif st == "Idle":
                if not re.search(r"Idle\{connection_attempts:\(.*connection_attempts Add 1\)\}", y):
                    return Bad("count", "after a failed attempt the state becomes %s" % cut(y))
                if lim != "under":
                    return Bad("unbounded", "attempts are not limited")
            elif st == "Connected":
                if not re.search(r"Idle\{connection_attempts:[01]\}", y):
                    return Bad("lost", "after a lost connection the state becomes %s" % cut(y))
            return (st, lim, "set", act, rem)
        x = message(ev, q)
        if x:
            n = msgname(q, x[2])
            if n == "Connect":
                if lim == "over":
                    return Bad("again", "the client keeps trying after it gave up")
                return (st, lim, nxt, "reconnect" if act else Bad, rem) if act else Bad("immediate", "the next attempt is made without delay")
            if n == "RemoveClient":
                f = {k: canon(q, v) for k, v in strip(q, x[2]).a[2]}
                if f.get("addr") != "a1.addr" or f.get("node_id") != "a1.node_id" or lim != "over":
                    return Bad("remove", "a client that is %s asks for the removal of %s" % (lim or st, f))
                return (st, lim, nxt, act, True)
            if n in ("<stop>", "'<stop>'"):
                if lim != "over":
                    return Bad("stop", "a client stops although it is to reconnect")
                return (st, lim, nxt, "stop", rem)
        if ev.kind == "await" and "sleep" in canon(q, ev.value):
            return (st, lim, nxt, "slept", rem)
        if called(ev, r"ActorContext>?::stop$"):
            return (st, lim, nxt, "stop", rem) if lim == "over" else Bad("stop", "a client stops although it is to reconnect")
        if ev.kind == "leave" and ev.out and st in ("Idle", "Connected"):
            if nxt != "set":
                return Bad("state", "the client's state is not updated after a lost connection")
            if lim == "over" and not (act == "stop" and rem):
                return Bad("linger", "a client that gave up %s" % ("is not removed from the registry" if not rem else "does not stop"))
            if lim != "over" and act != "reconnect":
                return Bad("no-retry", "a lost connection (%s) is not followed by another attempt" % st)
        return None
    c.watch(b, mon5, ("?", None, None, None, False), "reconnect", opaque=OP, spawn="inline")
    b = c.method("StreamReceiver", "ClientMessageReceiver", "on_close")

    def mon6(s, ev, q):
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Disconnected" and canon(q, x[1]) == "a1.actor_ref":
            return "told"
        if ev.kind == "leave" and ev.out and s != "told":
            return Bad("untold", "the client is not told that its connection closed")
        return None
    c.watch(b, mon6, "no", "on_close", opaque=OP)

    c.rule("handshake", "A handshake is written once per connection, carrying this node's id, tag and the given nodes; everyone asking for it meanwhile is told when it is acknowledged, "
           "and at once when it already has been.")
    b = c.handler(CL, r"client::BeginHandshake$")

    def mon7(s, ev, q):
        st, wr, pend, cb = s
        if ev.kind == "branch":
            t = canon(q, ev.value)
            if t.endswith("@Connected.0.handshake"):
                return (str(ev.out), wr, pend, cb)
            if t == "a1.state" and str(ev.out) == "None" or t == "a1.state?" and "Connected" != str(ev.out):
                return ("off", wr, pend, cb)
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(WB, v.a[1]) and str(ev.out) == "Err":
                return ("off", wr, pend, cb)
        v = awaited(ev, q, WB)
        if v:
            t = canon(q, v.a[2][0], 14)
            if st in ("Pending", "Acknowledged") or wr:
                return Bad("again", "the handshake is written although it is %s" % st)
            nodes = re.search(r"nodes:coll\(a2\.seed_nodes\|(.*?),\w+:", t)
            if nodes and any(re.search(r"\b%s\b" % x, nodes.group(1)) for x in RESTRICT | {"filter"}):
                return Bad("nodes", "only some of the nodes are passed on: %s" % nodes.group(0))
            if not re.search(r"node_id:[\w.?]*\.node_id\b", t) or "node_tag:" not in t or not re.search(r"nodes:coll\((empty|a2\.seed_nodes)\|", t) or "a2.request_id" not in t:
                return Bad("content", "the handshake written is %s" % cut(t, 300))
            return (st, True, pend, cb)
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".handshake":
            if canon(q, ev.value) != "Pending" or st in ("Acknowledged", "Pending"):
                return Bad("status", "the handshake's status goes from %s to %s" % (st, canon(q, ev.value)))
            return (st, wr, True, cb)
        y = mutation(ev, q)
        if y and y[1] == "a1.on_handshake_ack_callbacks" and (y[0].startswith("push") or y[0] in ("insert", "extend")):
            if "callback:a2.on_handshake_complete" not in y[2][-1]:
                return Bad("callback", "what is kept is %s" % y[2][-1])
            if st == "Acknowledged":
                return Bad("wait", "a handshake that was acknowledged is waited for")
            return (st, wr, pend, True)
        if called(ev, ONESHOT) and canon(q, ev.args[0]) == "a2.on_handshake_complete":
            if st != "Acknowledged":
                return Bad("early", "a handshake is reported complete while %s" % st)
            return (st, wr, pend, True)
        if ev.kind == "leave" and ev.out and st not in ("off", "?"):
            if st not in ("Pending", "Acknowledged") and not (wr and pend):
                return Bad("unwritten", "a handshake is not %s" % ("written" if not wr else "recorded as pending"))
            if not cb:
                return Bad("dropped", "whoever asked for a handshake is never told (%s)" % st)
        return None
    i, mm = combine(a=(("?", False, False, False), mon7), nodes=gathers(r"^a2\.seed_nodes$", "nodes to pass on", lambda ev, q: awaited(ev, q, WB)))
    c.watch(b, mm, i, "begin", opaque=OP)
    b = c.handler(CL, r"receive::HandshakeAcknowledge$")

    def mon8(s, ev, q):
        x = state_of(ev, q)
        if x:
            return x if s == "?" else None
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".handshake":
            return "acked" if canon(q, ev.value) == "Acknowledged{0:a2}" else Bad("status", "an acknowledged handshake is recorded as %s" % canon(q, ev.value))
        if ev.kind == "leave" and ev.out and s == "Connected":
            return Bad("unrecorded", "an acknowledgement is not recorded")
        return None

    def told(ev, q):
        return called(ev, ONESHOT) and "on_handshake_ack_callbacks" in canon(q, ev.args[0])
    i, mm = combine(main=("?", mon8), cb=foreach(r"on_handshake_ack_callbacks$", told, "callbacks waiting for the handshake"))

    def traversed(s, ev, q):
        if ev.kind == "next" and "on_handshake_ack_callbacks" in canon(q, ev.value):
            return "yes"
        x = state_of(ev, q)
        if x and s == "?":
            return x
        if ev.kind == "leave" and ev.out and s == "Connected":
            return Bad("untold", "nobody is told of an acknowledged handshake")
    i, mm = combine(a=(i, mm), b=("?", traversed))
    c.watch(b, mm, i, "acknowledge", opaque=OP)
    b = c.method("StreamReceiver", "ClientMessageReceiver", "on_receive")

    def mon9(s, ev, q):
        x = message(ev, q)
        if x and msgname(q, x[2]) == "HandshakeAcknowledge":
            f = {k: canon(q, v, 9) for k, v in strip(q, x[2]).a[2]}
            if not f["node_id"].endswith("@Handshake.0.node_id") or not f["node_tag"].endswith("@Handshake.0.node_tag"):
                return Bad("who", "the acknowledgement names %s" % f["node_id"])
            return "told" if canon(q, x[1]) == "a1.actor_ref" else None
        if ev.kind == "leave" and ev.out and s != "told":
            return Bad("ignored", "an acknowledged handshake is ignored")
        return None
    c.watch(b, mon9, "no", "receive", opaque=OP + [r"timestamp_to_datetime$"], facts={T("arg", 2): ("is", "Handshake")})

    def mon10(s, ev, q):
        if ev.kind == "branch" and canon(q, ev.value) == "a1.identity_sender" and str(ev.out) == "None":
            return "done"
        if called(ev, ONESHOT):
            t = canon(q, ev.args[1], 9)
            if not re.search(r"node:(RemoteNode::from\()?a2@Identity\.0\b", t):
                return Bad("identity", "the identity of the peer is taken as %s" % cut(t))
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("ignored", "a peer's identity is ignored")
        return None
    c.watch(b, mon10, "no", "identity", opaque=OP + [r"timestamp_to_datetime$"], facts={T("arg", 2): ("is", "Identity")})
    b = c.inherent(r"client::RemoteClientRef$", "handshake")

    def ends(name):
        def f(s, ev, q):
            if ev.kind == "branch" and canon(q, ev.value) == "oneshot::channel().1" and str(ev.out) in ("Ok", "Err"):
                return "Ok" if str(ev.out) == "Ok" else "closed"
            if ev.kind == "timeout":
                return "late"
            if ev.kind == "branch" and re.search(r"::notify\(", canon(q, ev.value)) and str(ev.out) == "Err":
                return "dead"
            if ev.kind == "leave" and ev.out and ev.value is not None:
                t = canon(q, ev.value, 6)
                want = {"Ok": r"^Ok\{0:oneshot::channel\(\)\.1\?\}|^oneshot::channel\(\)\.1$|^Ok\{0:\(\)\}", "closed": r"ResultChannelClosed", "late": "Timeout"}.get(s)
                if want and not re.search(want, t) and re.match(r"^(Ok|Err)\{", t):
                    return Bad("result", "%s that ended as %s yields %s" % (name, s, cut(t)))
                if s == "dead" and t.startswith("Ok"):
                    return Bad("result", "%s of a client that is gone yields %s" % (name, cut(t)))
            return None
        return f
    for name in ("handshake_attempt", "identify"):
        c.watch(c.inherent(r"client::RemoteClientRef$", name), ends(name), "?", name, opaque=API)
    outs = c.run(b, None, opaque=API + [r"RemoteClientRef>?::handshake_attempt$"])
    for o in outs:
        if o.kind == "return":
            r = c.ret(o, 9)
            if r.startswith("Ok"):
                c.fail("result", "a handshake is reported complete as %s" % r, out=o)
            else:
                c.check(re.match(r"^Err\{|.*handshake_attempt\(", r), "result2", "a handshake is reported as %s" % cut(r), out=o)

    c.rule("ping", "While connected a client pings and reports to the heartbeat how the ping with the peer's id ended: answered, failed or timed out. While not connected it reports the "
           "peer as disconnected, has its address forgotten and stops pinging.")
    b = c.handler(CL, r"ping::PingTick$")

    def mon12(s, ev, q):
        st, rep, forget = s
        x = state_of(ev, q)
        if x and st == "?":
            return ("Connected" if x == "Connected" else "off", rep, forget)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a1.node_id" and str(ev.out) == "None" and st == "off":
                return (st, True, forget)
            mm = re.match(r"^oneshot::channel\(\)\.1(\??)$", t)
            if mm and str(ev.out) in ("Ok", "Err") and st in ("Connected", "ok"):
                return ("failed" if str(ev.out) == "Err" else "ok", rep, forget)
            if "write(" in t and str(ev.out) == "Err":
                return ("unwritten", rep, forget)
        if ev.kind == "timeout" and st == "Connected":
            return ("timeout", rep, forget)
        if ev.kind == "branch" and canon(q, ev.value) == "a1.ping_timer" and str(ev.out) == "None" and st == "off" or \
                called(ev, ONESHOT) and canon(q, ev.args[0]).startswith("a1.ping_timer") and st == "off":
            return ("off", rep, "both" if forget else "stopped")
        x = message(ev, q)
        if x and msgname(q, x[2]) == "NodePing":
            f = [canon(q, v, 9) for k, v in strip(q, x[2]).a[2]]
            v = strip(q, strip(q, x[2]).a[2][1][1])
            kind = v.a[1] if v.tag == "adt" else "?"
            want = {"off": "Disconnected", "timeout": "Timeout", "failed": "Err", "ok": "Ok"}.get(st)
            if want and kind != "?" and kind != want:
                return Bad("result", "a ping that ended as %s is reported as %s" % (st, kind))
            if st == "off" and f[0] not in ("a1.node_id?",) or st in ("ok", "timeout", "failed") and not f[0].endswith("identity.node.id"):
                return Bad("node", "a ping's result is reported for node %s" % f[0])
            if "heartbeat" not in canon(q, x[1]):
                return Bad("target", "a ping's result is reported to %s" % canon(q, x[1]))
            return (st, True, forget)
        if x and msgname(q, x[2]) == "Forget":
            if canon(q, strip(q, x[2]).a[2][0][1]) != "a1.addr":
                return Bad("forget", "what is forgotten is %s" % canon(q, x[2]))
            return (st, rep, "both" if forget else True) if st == "off" else Bad("forgotten", "a connected peer is forgotten")
        if ev.kind == "leave" and ev.out:
            if st == "off" and not (rep and forget == "both"):
                return Bad("silent", "a lost peer is not %s" % ("reported" if not rep else "forgotten" if forget != True else "left in peace: the pinging goes on"))
            if st in ("ok", "timeout", "failed") and not rep:
                return Bad("unreported", "the result of a ping (%s) is not reported" % st)
        return None
    c.watch(b, mon12, ("?", False, False), "ping", opaque=OP + [r"RemoteClient>?::write(::<.*>)?$"], spawn="inline")

    c.rule("goodbye", "A connected client that stops because its system terminates says so to the peer, naming this node, and in any case closes the connection.")
    b = c.method("Actor", CL, "stopped")

    def mon13(s, ev, q):
        st, bye, cl = s
        x = state_of(ev, q)
        if x and st == "?":
            return (x, bye, cl)
        if ev.kind == "branch" and st == "Connected" and "terminat" in canon(q, ev.value, 9):
            t = canon(q, ev.value, 9)
            return ("down" if truth(ev) != t.startswith("Not(") else "up", bye, cl)
        v = awaited(ev, q, WB)
        if v:
            t = canon(q, v.a[2][0], 14)
            if "system_terminated:True" not in t or not re.search(r"node_id:a2\.[\w.?]*node_id\b", t):
                return Bad("content", "the last thing a client sends is %s" % cut(t, 250))
            if st == "up":
                return Bad("false", "a node says it terminates although it does not")
            if cl:
                return Bad("late", "the peer is told after the connection was closed")
            return (st, True, cl)
        if ev.kind == "await" and re.search(r"close\(.*@Connected\.0\.write", canon(q, ev.value, 9)):
            return (st, bye, True)
        if ev.kind == "leave" and ev.out:
            if st == "down" and not bye:
                return Bad("silent", "the peer is not told that this system terminates")
            if st in ("down", "up", "Connected") and not cl:
                return Bad("open", "the connection is not closed")
        return None
    c.watch(b, mon13, ("?", False, False), "goodbye", opaque=OP + [r"ActorSystem>?::is_terminated$"])


def bufops(ev, q):
    y = mutation(ev, q)
    return y[0] if y and buf(y) else None
