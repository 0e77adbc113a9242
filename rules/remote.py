"""Remoting: request correlation, answering, wire formats, authentication, clients, cluster membership, pub/sub."""
from rules import *

RAS = r"remote::system::RemoteActorSystem$"
NOCONV = [r"convert::From<.*ActorRefErr>", r"convert::From<.*RemoteNode\w*>", r"convert::From<.*NodeIdentity>"]
RSYS = [r"RemoteActorSystem>?::(locate_actor_node|get_nodes|register_node|update_nodes|get_remote_client)$"]
CWRITE = [r"remote::net::client::.*RemoteClient>?::write(::<.*>)?$", r"remote::net::client::send::write_bytes$"]


def is_req(coll):
    return coll.endswith("handler_ref.requests") or coll.endswith(".requests")


def adts(q, t, names, d=9):
    """field values of the given names inside a message"""
    t = strip(q, t)
    if d < 0:
        return
    if t.tag == "adt":
        for k, v in t.a[2]:
            if k in names:
                yield k, strip(q, v)
            else:
                yield from adts(q, v, names, d - 1)
    elif t.tag in ("tup", "arr"):
        for v in t.a[0]:
            yield from adts(q, v, names, d - 1)


def uncall(q, t, rx):
    t = strip(q, t)
    while t.tag in ("call", "fld") and (t.tag == "fld" and t.a[1] in ("@Ok", "@Some", ".0") or t.tag == "call" and re.search(rx, t.a[1]) and t.a[2]):
        t = strip(q, t.a[0] if t.tag == "fld" else t.a[2][0])
    return t


ID = r"(parse|from_str|to_string|to_owned|clone|unwrap|expect)$"


def sent_request(ev, q):
    """the message of an event that leaves this node (or is written to a connection)"""
    x = message(ev, q)
    if x:
        return x[2]
    v = awaited(ev, q, CWRITE[0])
    if v:
        return v.a[2][1]
    v = awaited(ev, q, CWRITE[1])
    if v:
        return v.a[2][0]
    return None


@prop("R01")
def correlation(c):
    c.rule("register", "Wherever a remote request is made, a fresh answer channel is registered under the request's id before the request "
           "carrying that very id is handed over for sending, the answer is awaited on that channel, and no path registers a request it "
           "does not send.")
    roots = {root_fn(b.id): 1 for b, _, _ in callers(c.p, r"RemoteActorSystem>?::push_request$")}
    c.all(list(roots), "functions registering remote requests", 5)

    for r in sorted(roots):
        b = c.fn(r)

        def mon(s, ev, q):
            st, key, ch = s
            x = mutation(ev, q)
            if x and x[0] == "insert" and is_req(x[1]):
                if st == "pushed":
                    return Bad("twice", "two requests are registered for one")
                k = strip(q, ev.args[1])
                tx = [v for _, v in adts(q, ev.args[2], ("res_tx",))]
                return ("pushed", k, strip(q, tx[0]) if tx else None)
            mt = sent_request(ev, q)
            if mt is not None:
                ids = [uncall(q, v, ID) for n, v in adts(q, mt, ("message_id", "request_id"))]
                fw = msgname(q, mt) == "ClientWrite" and not ids
                if ids or fw:
                    if st == "none":
                        return Bad("unregistered", "%s is sent before its answer channel is registered" % msgname(q, mt))
                    if st == "pushed" and ids and uncall(q, key, ID) not in ids:
                        return Bad("id", "%s is sent with id %s but registered under %s" % (msgname(q, mt), canon(q, ids[0]), canon(q, key)))
                    return ("sent", key, ch)
            if ev.kind == "await" and ch is not None:
                v = strip(q, ev.value)
                if v.tag == "fld" and v.a[1] == ".1" and ch.tag == "fld" and v.a[0] == ch.a[0] and st == "pushed":
                    return Bad("await", "the answer is awaited before the request is sent")
            if ev.kind == "leave" and ev.out and st == "pushed":
                return Bad("unsent", "a path registers a request and never sends it: the pending entry is never removed")
            return None
        c.watch_up(b, mon, ("none", None, None), "register:" + short(r), opaque=API + CTXAPI + RSYS + CWRITE + NOCONV, spawn="inline")

    c.rule("ids", "Whoever asks for a remote call passes the id that the event it sends carries.")
    for i in sorted({root_fn(b.id) for b, _, _ in callers(c.p, r"RemoteActorSystem>?::node_rpc\w*(::<.*>)?$")}):
        r = c.fn(i)
        if re.search(r"::node_rpc\w*$", r.id):
            continue

        def mon2(s, ev, q):
            v = awaited(ev, q, r"RemoteActorSystem>?::node_rpc\w*(::<.*>)?$")
            if v:
                ids = [uncall(q, x, ID) for n, x in adts(q, v.a[2][2], ("message_id", "request_id"))]
                if ids and uncall(q, v.a[2][1], ID) not in ids:
                    return Bad("id", "a remote call is made with id %s for an event carrying %s" % (canon(q, v.a[2][1]), canon(q, ids[0])))
                return "ok"
        c.watch(r, mon2, "none", "ids:" + short(r.id), opaque=API + RSYS + NOCONV + [r"RemoteActorSystem>?::(node_rpc\w*|handle_create_actor)(::<.*>)?$"])

    c.rule("deliver", "An answer that arrives removes the request registered under the answer's id and hands that request the answer's "
           "content, results as results and errors as errors; nothing else completes or removes a request.")
    want = {"Result": ("Ok", r"^%s\.result$"), "Err": ("Err", r"ActorRefErr.*\(%s\.error|::from\(%s\.error|^%s\.error"), "Pong": ("Ok", r"PongEvent\{message_id:%s\.message_id|^%s")}
    for cls, evs in (("ClientMessageReceiver", ("Result", "Err", "Pong")), ("SessionMessageReceiver", ("Result", "Err"))):
        b = c.method("StreamReceiver", cls, "on_receive")
        for var in evs:
            kind, rx = want[var]
            base = r"a2(?:@%s\.0|!|\?)" % var
            rx = rx.replace("%s", base)

            def mon3(s, ev, q, kind=kind, rx=rx, base=base, var=var):
                x = mutation(ev, q)
                if x and is_req(x[1]):
                    if x[0] != "remove":
                        return Bad("table", "receiving an answer does %s on the pending requests" % x[0])
                    k = canon(q, uncall(q, ev.args[1], ID))
                    if not re.match(r"^%s\.message_id$" % base, k):
                        return Bad("key", "the request removed is %s, not the one the answer names" % k)
                    return "removed"
                y = member(ev, q)
                if y and is_req(y[0]) and s == "removed":
                    return "found" if y[2] else "unknown"
                if called(ev, ONESHOT) and "res_tx" in canon(q, ev.args[0]):
                    if s not in ("found", "removed"):
                        return Bad("twice", "a request is completed while %s" % s)
                    v = strip(q, ev.args[1])
                    if v.tag != "adt" or v.a[1] != kind:
                        return Bad("kind", "a%s answer completes the request with %s" % (" " + var, cut(canon(q, v))))
                    got = canon(q, v.a[2][0][1], 9) if v.a[2] else ""
                    if not re.search(rx, got):
                        return Bad("content", "a %s answer completes the request with %s" % (var, cut(got)))
                    return "done"
                if ev.kind == "leave" and ev.out:
                    if s == "found":
                        return Bad("lost", "the answer to a pending request is dropped")
                    if s == "start":
                        return Bad("ignored", "a %s answer is ignored" % var)
                return None
            c.watch(b, mon3, "start", "deliver:%s.%s" % (cls, var), opaque=API + NOCONV, facts={T("arg", 2): ("is", var)})
    ok = lambda i: bool(re.search(r"on_receive|notify_raw_rpc_result|notify_rpc_err", i))
    for b, ln, _ in callers(c.p, r"RemoteActorSystem>?::pop_request$"):
        c.check(only_via(c.p, b, ok), "pop:" + short(root_fn(b.id)), "%s removes pending requests" % short(root_fn(b.id)))

    c.rule("result", "A remote call returns the content its channel delivered: a result decoded by the message type, an error as that error.")
    b = c.inherent(r"RemoteActorRef", "send")
    outs = c.run(b, None, opaque=API[:-1] + NOCONV + RSYS)
    oks = 0
    for o in outs:
        if o.kind != "return":
            continue
        r = c.ret(o)
        if r.startswith("Ok{"):
            oks += 1
            c.check(re.search(r"read_remote_result\(.*channel\(\)\.1", r), "result:ok", "a remote send returns %s" % cut(r), out=o)
        else:
            c.check(r.startswith("Err{"), "result:kind", "a remote send returns %s" % cut(r), out=o)
    c.check(oks, "result:none", "no path of a remote send returns the answer")
    b = c.inherent(RAS, "node_rpc_raw")
    for o in c.run(b, None, opaque=API + NOCONV):
        if o.kind == "return":
            r = c.ret(o)
            c.check(re.match(r"^Ok\{0:oneshot::channel\(\)\.1\?\?\}$|^Err\{", r), "result:raw", "a remote call returns %s" % cut(r), out=o)


# ---------------------------------------------------------------------------------------------
def answer_to(ev, q):
    """(kind, id, content) when the event answers a remote request: a Result / Err / Pong written to the session or sent to a node,
    or the local pending request completed"""
    x = message(ev, q)
    if x and msgname(q, x[2]) in ("SessionWrite", "ClientWrite"):
        t = strip(q, x[2])
        for _, v in t.a[2]:
            v = strip(q, v)
            if v.tag == "adt" and v.a[1] in ("Result", "Err", "Pong", "Handshake", "Identity"):
                p = strip(q, v.a[2][0][1]) if v.a[2] else v
                f = dict(p.a[2]) if p.tag == "adt" else {}
                i = f.get("message_id")
                return (v.a[1], canon(q, uncall(q, i, ID)) if i is not None else "?", f, x)
    if called(ev, ONESHOT):
        a = strip(q, ev.args[0])
        s = canon(q, a, 9)
        mm = re.search(r"HashMap::remove\(.*\.requests,(.*)\)\?\.res_tx$", s)
        if mm:
            v = strip(q, ev.args[1])
            key = a
            while key.tag == "fld":
                key = strip(q, key.a[0])
            k = canon(q, uncall(q, key.a[2][1], ID)) if key.tag == "call" and len(key.a[2]) > 1 else mm.group(1)
            return ("Result" if v.tag == "adt" and v.a[1] == "Ok" else "Err", k, {"result": v.a[2][0][1] if v.tag == "adt" and v.a[2] else v}, None)
    return None


@prop("R02")
def answered(c):
    on_receive = c.method("StreamReceiver", "SessionMessageReceiver", "on_receive")
    OP = API + NOCONV + RSYS

    def facts(var):
        return {T("arg", 2): ("is", var)}

    c.rule("message", "A message request from another node is handed to the handler registered for its type with its actor id and bytes, and "
           "answered under its own id: with the handler's result exactly when a response was asked for, with the error whenever it failed.")

    def mon(s, ev, q):
        st, n = s
        v = awaited(ev, q, r"ActorMessageHandler::handle_attempt$")
        if v:
            if st != "start":
                return Bad("twice", "the message is delivered twice")
            h = canon(q, v.a[2][0], 9)
            if not re.search(r"message_handlers,a2@NotifyActor\.0\.handler_type", h):
                return Bad("handler", "the message is delivered by the handler %s" % cut(h))
            if canon(q, v.a[2][1]) != "a2@NotifyActor.0.actor_id" or canon(q, v.a[2][2]) != "a2@NotifyActor.0.message":
                return Bad("args", "the handler gets %s, %s" % (canon(q, v.a[2][1]), canon(q, v.a[2][2])))
            return ("handling", n)
        if ev.kind == "branch":
            t = canon(q, ev.value)
            if re.match(r"^oneshot::channel\(\)\.1$", t) and str(ev.out) == "Err":
                return ("failed", n)
            if re.match(r"^oneshot::channel\(\)\.1\?$", t):
                return ("ok" if str(ev.out) == "Ok" else "failed", n)
            if re.search(r"a2@NotifyActor\.0\.requires_response\)?$", t):
                neg = t.startswith(("Not(", "!("))
                return (st, 1 if (str(ev.out) in ("True", "1")) != neg else 2)
            y = member(ev, q)
            if y and is_req(y[0]) and not y[2]:
                return ("answered", n)      # the requester is this node and no longer waits
            if y and y[0].endswith("message_handlers") and not y[2]:
                return ("failed", n)
        a = answer_to(ev, q)
        if a:
            if a[1] != "a2@NotifyActor.0.message_id":
                return Bad("id", "the answer carries the id %s" % a[1])
            if st == "answered":
                return Bad("again", "a message request is answered twice")
            if st == "ok" and n != 1:
                return Bad("unasked", "a result is sent although no response was asked for")
            if st in ("start", "handling"):
                return Bad("early", "a message request is answered before it was handled")
            if st == "ok":
                if a[0] != "Result":
                    return Bad("kind", "a successful message is answered with %s" % a[0])
                if not re.match(r"^oneshot::channel\(\)\.1\?\?$", canon(q, a[2].get("result"))):
                    return Bad("content", "a successful message is answered with %s" % canon(q, a[2].get("result")))
            if st == "failed" and a[0] != "Err":
                return Bad("kind", "a failed message is answered with %s" % a[0])
            if a[3] and msgname(q, a[3][2]) == "ClientWrite" and canon(q, strip(q, a[3][2]).a[2][0][1]) != "a2@NotifyActor.0.origin_node_id":
                return Bad("node", "the answer goes to node %s" % canon(q, strip(q, a[3][2]).a[2][0][1]))
            return ("answered", n)
        if ev.kind == "leave" and ev.out:
            if st == "ok" and n != 2:
                return Bad("silent", "a message that asked for a response and succeeded is not answered")
            if st == "failed":
                return Bad("silent-error", "a failed message request is not answered: the sender waits forever")
            if st in ("start",):
                return Bad("ignored", "a message request is neither handled nor answered")
        return None
    c.watch(on_receive, mon, ("start", 0), "message", opaque=OP, spawn="inline", facts=facts("NotifyActor"))

    c.rule("create", "A request to create an actor is answered under its own id: with the new actor's address when it was created, with an "
           "error when it was not.")

    def mon2(s, ev, q):
        v = awaited(ev, q, r"handle_create_actor$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            if a[2] != "a2@CreateActor.0.actor_type" or a[3] != "a2@CreateActor.0.recipe":
                return Bad("args", "the actor is created from %s" % a[2:])
            return "handling" if s == "start" else Bad("twice", "the actor is created twice")
        if ev.kind == "branch" and str(ev.out) in ("Ok", "Err") and s in ("handling", "Ok", "Err"):
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(r"handle_create_actor$", v.a[1]):
                return str(ev.out)
        a = answer_to(ev, q)
        if a:
            if a[1] != "a2@CreateActor.0.message_id":
                return Bad("id", "the answer carries the id %s" % a[1])
            if s == "answered":
                return Bad("again", "the request is answered twice")
            if s == "Ok" and (a[0] != "Result" or "handle_create_actor(" not in canon(q, a[2].get("result"), 9)):
                return Bad("kind", "a created actor is answered with %s" % a[0])
            if s == "Err" and a[0] != "Err":
                return Bad("kind", "a failed creation is answered with %s" % a[0])
            return "answered"
        if ev.kind == "leave" and ev.out and s != "answered":
            return Bad("silent", "a request to create an actor is not answered (%s): the creator waits forever" % s)
        return None
    c.watch(on_receive, mon2, "start", "create", opaque=OP + [r"RemoteActorSystem>?::handle_create_actor$"], spawn="inline", facts=facts("CreateActor"))

    c.rule("lookup", "A request to locate an actor is answered under its own id with the node the actor was located on.")

    def mon3(s, ev, q):
        v = awaited(ev, q, r"locate_actor_node$")
        if v:
            if canon(q, v.a[2][1]) != "a2@FindActor.0.actor_id":
                return Bad("actor", "the actor located is %s" % canon(q, v.a[2][1]))
            return "located"
        if ev.kind == "branch" and s == "located":
            v = strip(q, ev.value)
            if v.tag == "call" and v.a[1].endswith("locate_actor_node") and str(ev.out) in ("Some", "None"):
                return "found" if str(ev.out) == "Some" else "nowhere"
        a = answer_to(ev, q)
        if a:
            if a[1] != "a2@FindActor.0.message_id":
                return Bad("id", "the answer carries the id %s" % a[1])
            if s in ("start", "answered"):
                return Bad("order", "the lookup is answered while %s" % s)
            r = canon(q, a[2].get("result"), 12) if "result" in a[2] else "?"
            mm = re.search(r"node_id:(.*)", r)
            if a[0] == "Result" and mm:
                none = bool(re.match(r"None|(ActorAddress|MessageField)::default\(|MessageField::none\(", mm.group(1)))
                if s == "nowhere" and not none or s == "found" and (none or not re.search(r"^(Some\{0:)?(cut|.*locate_actor_node\()", mm.group(1))):
                    return Bad("content", "the lookup of an actor that was %s is answered with %s" % (s, cut(r)))
            return "answered"
        if ev.kind == "branch" and "write_to_bytes" in canon(q, ev.value) and str(ev.out) == "Err":
            return "answered"      # an address always encodes
        if ev.kind == "leave" and ev.out and s != "answered":
            return Bad("silent", "a lookup is not answered (%s)" % s)
        return None
    c.watch(on_receive, mon3, "start", "lookup", opaque=OP, spawn="inline", facts=facts("FindActor"))

    c.rule("ping", "A ping from a running peer is answered with a pong of the same id; a peer's announcement of its own termination is passed "
           "on to the heartbeat with the peer's id and ends the session's reading.")

    def mon4(s, ev, q):
        st, told, closed = s
        if ev.kind == "branch":
            t = canon(q, ev.value)
            tr = str(ev.out) in ("True", "1")
            if "terminat" in t and "a3" in t and st == "start":
                return ("down" if tr != t.startswith("Not(") else "up", told, closed)
            if t.endswith("a2@Ping.0.system_terminated") or t.endswith("a2@Ping.0.system_terminated)"):
                return ("bye" if tr != t.startswith("Not(") else "alive", told, closed)
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".should_close":
            return (st, told, canon(q, ev.value) in ("True", "true", "1"))
        x = message(ev, q)
        if x and msgname(q, x[2]) == "NodeTerminated":
            if st != "bye":
                return Bad("terminated", "the peer is reported terminated while it is %s" % st)
            if canon(q, strip(q, x[2]).a[2][0][1]) != "a2@Ping.0.node_id":
                return Bad("node", "the node reported terminated is %s" % canon(q, x[2]))
            if "heartbeat" not in canon(q, x[1]):
                return Bad("target", "the termination is reported to %s" % canon(q, x[1]))
            return (st, True, closed)
        a = answer_to(ev, q)
        if a:
            if a[0] != "Pong" or a[1] != "a2@Ping.0.message_id":
                return Bad("pong", "a ping is answered with %s of id %s" % (a[0], a[1]))
            return ("answered", told, closed) if st != "answered" else Bad("again", "a ping is answered twice")
        if ev.kind == "leave" and ev.out:
            if st == "alive" or st == "start" or st == "up":
                return Bad("silent", "a ping is not answered")
            if st == "bye" and not told:
                return Bad("untold", "a peer's termination is not passed on")
            if st == "bye" and not closed:
                return Bad("open", "the session of a terminated peer keeps reading")
        return None
    c.watch(on_receive, mon4, ("start", False, False), "ping", opaque=OP, spawn="inline", facts=facts("Ping"))

    c.rule("results", "An answer made for a request of another node is sent to that node under the request's id; one made for a request of "
           "this node completes it.")
    for name, kind in (("notify_raw_rpc_result", "Result"), ("notify_rpc_err", "Err")):
        b = c.inherent(RAS, name)

        def mon5(s, ev, q, kind=kind):
            if ev.kind == "branch":
                t = canon(q, ev.value)
                if re.search(r"a4\b.*\bnode_id|node_id.*\ba4\b", t) and s == "start":
                    eq = (" Eq " in t) == (str(ev.out) in ("True", "1"))
                    return "here" if eq else "there"
                y = member(ev, q)
                if y and is_req(y[0]) and not y[2]:
                    return "done"
            a = answer_to(ev, q)
            if a:
                if a[1] != "a2":
                    return Bad("id", "the answer carries the id %s" % a[1])
                if a[0] != kind:
                    return Bad("kind", "the answer is a %s" % a[0])
                if s == "done":
                    return Bad("again", "two answers are sent")
                if a[3] and canon(q, strip(q, a[3][2]).a[2][0][1]) != "a4":
                    return Bad("node", "the answer goes to %s" % canon(q, strip(q, a[3][2]).a[2][0][1]))
                if s == "here" and a[3] is not None:
                    return Bad("here", "an answer for this node is sent over the network")
                if s == "there" and a[3] is None:
                    return Bad("there", "an answer for another node completes a request of this one")
                g = canon(q, a[2].get("result" if kind == "Result" or a[3] is None else "error"), 9)
                if "a3" not in g:
                    return Bad("content", "the answer's content is %s" % cut(g))
                return "done"
            if ev.kind == "leave" and ev.out and s != "done":
                return Bad("silent", "the answer is not sent (%s)" % s)
            return None
        c.watch(b, mon5, "start", name, opaque=OP)

    c.rule("attempt", "The registered handler decodes the message, delivers it to the local actor of that id and replies with the actor's encoded "
           "result; an actor that is not there is looked up again with an increased attempt count, at most a fixed number of times, and then "
           "reported not found.")
    b = c.method("ActorMessageHandler", "RemoteActorMessageHandler", "handle_attempt")

    def mon6(s, ev, q):
        st, lim = s
        if ev.kind == "branch":
            t = canon(q, ev.value)
            mm = re.match(r"^\((.*) (Ge|Gt|Lt|Le|Eq) (.*)\)$", t)
            if mm and "a5" in t:
                return (st, True)
        x = message(ev, q)
        if x and x[0] == "send":
            if st == "sent":
                return Bad("twice", "the message is delivered twice")
            v = canon(q, x[2], 9)
            if not re.search(r"from_envelope\(Remote\{0:a3\}\)|from_bytes\(a3\)", v):
                return Bad("message", "the actor is sent %s" % cut(v))
            if "a2" not in canon(q, x[1], 12):
                return Bad("target", "the message goes to %s" % cut(canon(q, x[1], 9)))
            return ("sent", lim)
        if x and x[0] == "notify":
            return Bad("notify", "the message is delivered without waiting for its result")
        v = awaited(ev, q, r"handle_attempt$")
        if v:
            a = [canon(q, t) for t in v.a[2]]
            if not re.match(r"^\(a5 Add [1-9]\d*\)$", a[4]):
                return Bad("attempt", "the next attempt is number %s" % a[4])
            if not lim:
                return Bad("unbounded", "attempts are not bounded")
            if a[1] != "a2" or a[2] != "a3" or "a4" not in a[3]:
                return Bad("args", "the retry gets %s" % a[1:4])
            return ("replied", lim)
        if called(ev, ONESHOT):
            r = canon(q, ev.args[1], 9)
            if canon(q, ev.args[0]) != "a4":
                return None
            if st == "replied":
                return Bad("again", "two replies")
            if r.startswith("Ok{"):
                if not re.search(r"write_remote_result\(.*send\(", r):
                    return Bad("content", "the reply is %s" % cut(r))
            return ("replied", lim)
        if ev.kind == "leave" and ev.out and st == "start":
            return Bad("silent", "a message is neither delivered nor answered")
        return None
    c.watch(b, mon6, ("start", False), "attempt", opaque=API + [r"ActorMessageHandler>::handle_attempt$", r"handler::get_actor_ref(::<.*>)?$"])

    b = c.method("ActorMessageHandler", "RemoteActorMessageHandler", "handle_direct")

    def mon7(s, ev, q):
        x = message(ev, q)
        if x and x[0] in ("send", "notify"):
            if s != "start":
                return Bad("twice", "the message is delivered twice")
            v = canon(q, x[2], 9)
            if not re.search(r"from_envelope\(Remote\{0:a3\}\)|from_bytes\(a3\)", v):
                return Bad("message", "the actor is sent %s" % cut(v))
            return "sent" if x[0] == "send" else "notified"
        if called(ev, ONESHOT):
            if s == "replied":
                return Bad("again", "two replies")
            r = canon(q, ev.args[1], 9)
            if r.startswith("Ok{") and not re.search(r"write_remote_result\(.*send\(", r):
                return Bad("content", "the reply is %s" % cut(r))
            if s == "start" and r.startswith("Ok{"):
                return Bad("unsent", "a result is replied for a message that was not delivered")
            return "replied"
        if ev.kind == "branch" and canon(q, ev.value) == "a4" and str(ev.out) == "None" and s == "start":
            return "nores"
        if ev.kind == "leave" and ev.out and s == "sent":
            return Bad("silent", "a delivered message is not answered")
        return None

    def mon7b(s, ev, q):
        st, res = s
        if ev.kind == "branch" and canon(q, ev.value) == "a4":
            res = str(ev.out)
            return (st, res)
        r = mon7(st if st != "nores" else "start", ev, q)
        if isinstance(r, Bad):
            return r
        if r is not None:
            if r == "notified" and res == "Some":
                return Bad("notify", "a message with a waiting sender is delivered without one")
            return (r if r != "nores" else st, res)
        if ev.kind == "leave" and ev.out and res == "Some" and st == "start":
            return Bad("silent2", "a request is neither delivered nor answered")
        if ev.kind == "leave" and ev.out and res == "None" and st == "start" and False:
            return Bad("undelivered", "")
        return None
    c.watch(b, mon7b, ("start", "?"), "direct", opaque=API)
