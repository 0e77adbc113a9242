"""Serving peers: the accept loop, sessions, reading frames, the handshake a session answers."""
from rules import *
from remote import NOCONV
from net import SESS, truth

SRX = r"SessionMessageReceiver$"
RS = r"session::RemoteSession$"
STORE = r"RemoteSessionStore$"


@prop("R06")
def sessions(c):
    c.rule("frames", "Frames are read one after the other; each that can be decoded is handled once, before the next one is read, and one that cannot is reported and skipped. "
           "Reading ends when the stream ends or fails or the receiver wants to close, and the receiver is then told exactly once.")
    b = c.fn("coerce::remote::net::receive_loop")

    def mon(s, ev, q):
        if ev.kind == "await" and re.search(r"::next\(", canon(q, ev.value)[:60]) and not awaited(ev, q, "on_"):
            if s in ("frame", "decoded"):
                return Bad("dropped", "a frame is dropped: the next one is read before it was handled")
            if s == "failed":
                return Bad("after", "reading goes on after the stream failed")
            if s == "handled":
                return Bad("deaf", "the next frame is read without asking whether to close")
            if s == "closing":
                return Bad("closing", "reading goes on although the receiver wants to close")
            return "reading"
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if re.search(r"^[\w:]*next\([^()]*\)$", t):
                return {"Some": "frame", "None": "end"}.get(o)
            if re.search(r"^[\w:]*next\([^()]*\)\?$", t):
                return {"Ok": "frame", "Err": "lost"}.get(o)
            if re.match(r"^[\w:]*read_from_bytes\(", t):
                return {"Some": "decoded", "None": "undecodable"}.get(o)
            if "should_close(" in t and truth(ev) is not None:
                return "closing" if truth(ev) != t.startswith("Not(") else "idle"
        v = awaited(ev, q, r"StreamReceiver>?::on_receive$")
        if v:
            if s != "decoded":
                return Bad("twice", "a frame is handled in state %s" % s)
            if not re.search(r"read_from_bytes\([\w:]*next\(.*\)\?\?\)\?$", canon(q, v.a[2][1], 9)):
                return Bad("which", "what is handled is %s" % canon(q, v.a[2][1], 9))
            return "handled"
        if called(ev, r"StreamReceiver>?::on_deserialisation_failed$"):
            return "idle" if s == "undecodable" else Bad("false", "a frame is reported as undecodable in state %s" % s)
        if called(ev, r"StreamReceiver>?::on_stream_lost$"):
            return "failed" if s == "lost" else Bad("false", "the stream is reported lost in state %s" % s)
        if awaited(ev, q, r"StreamReceiver>?::on_close$"):
            return "closed" if s in ("end", "failed", "closing", "lost") else Bad("early", "the receiver is closed in state %s" % s)
        if ev.kind == "leave" and ev.out and s != "closed":
            return Bad("open", "reading ends without the receiver being told (%s)" % s)
        return None
    c.watch(b, mon, "idle", "receive_loop")
    for rx in (SRX, r"ClientMessageReceiver$"):
        cl = c.method("StreamReceiver", rx, "close")
        sc = c.method("StreamReceiver", rx, "should_close")
        f = {c.ret(o) for o in c.run(sc, None)}
        c.check(len(f) == 1 and re.match(r"^a1\.\w+$", list(f)[0]), "should_close", "whether to close is answered with %s" % f)
        fld = "." + list(f)[0].split(".")[-1]

        def closes(s, ev, q):
            if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == fld:
                return canon(q, ev.value)
            if ev.kind == "leave" and ev.out and s != "True":
                return Bad("close", "closing does not make the receiver want to close")
            return None
        c.watch(cl, closes, "?", "close")
        if rx == SRX:
            nw = c.inherent(rx, "new")
            for o in c.run(nw, None):
                r = c.ret(o)
                c.check("should_close:False" in r and "session_id:a1" in r and "session:a2" in r, "new", "a session's receiver starts as %s" % cut(r), out=o)

    c.rule("write", "What is written to a session is encoded and sent over its own connection once; writes to a session of the store go to the session with that id.")
    b = c.inherent(RS, "write")

    def mon2(s, ev, q):
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(r"^[\w:]*write_to_bytes\(a2\)$", t):
                return {"None": "refused", "Some": "encoded"}.get(str(ev.out))
        v = ev.kind == "await" and canon(q, ev.value, 9)
        if v and re.search(r"(SinkExt|FramedWrite)::(send|feed)\(", v):
            if s != "encoded":
                return Bad("twice", "a message is sent in state %s" % s)
            if not re.search(r"\(a1\.write,.*write_to_bytes\(a2\)\?", v):
                return Bad("what", "what is sent is %s" % cut(v))
            return "sent" if "::send(" in v else "fed"
        if v and "::flush(" in v and s == "fed":
            return "sent"
        if ev.kind == "leave" and ev.out and s not in ("sent", "refused"):
            return Bad("lost", "a message is not sent")
        return None
    c.watch(b, mon2, "start", "write", opaque=API + [r"StreamData>?::write_to_bytes$"])
    b = c.handler(RS, r"SessionWrite$")

    def mon3(s, ev, q):
        v = awaited(ev, q, r"RemoteSession>?::write$")
        if v:
            return "done" if canon(q, v.a[2][1]) == "a2.1" and canon(q, v.a[2][0]) == "a1" else Bad("what", "what is written is %s" % canon(q, v.a[2][1]))
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("dropped", "a message for the peer is not written")
        return None
    c.watch(b, mon3, "no", "session", opaque=API + [r"RemoteSession>?::write$"])
    b = c.handler(STORE, r"SessionWrite$")

    def mon4(s, ev, q):
        x = message(ev, q)
        if x:
            if canon(q, x[1], 9) not in ("a1.sessions[a2.0]?", "a1.sessions[a2.0]") and not re.search(r"a1\.sessions,a2\.0\)\?$", canon(q, x[1], 9)):
                return Bad("which", "a message for a session goes to %s" % canon(q, x[1]))
            if canon(q, x[2]) not in ("a2", "SessionWrite{0:a2.0,1:a2.1}"):
                return Bad("what", "a session is given %s" % canon(q, x[2]))
            return "done"
        y = member(ev, q)
        if y and y[0] == "a1.sessions" and not y[2]:
            return "done"
        if ev.kind == "branch" and re.search(r"a1\.sessions\b.*a2\.0", canon(q, ev.value, 9)) and str(ev.out) == "None":
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("dropped", "a message for a session is dropped")
        return None
    c.watch(b, mon4, "no", "store", opaque=API)

    c.rule("store", "A session is started as an actor of its own, named after its id, and kept under its id; a session that closed is removed under its id and no other is.")
    b = c.handler(STORE, r"NewSession$")

    def mon5(s, ev, q):
        sp, ins = s
        if ev.kind == "await":
            v = strip(q, ev.value)
            if v.tag == "call" and re.search(r"ActorContext>?::(spawn|spawn_deferred)(::<.*>)?$", v.a[1]):
                a = [canon(q, x, 9) for x in v.a[2]]
                if "a2.0" != a[-1]:
                    return Bad("spawn", "the session started is %s" % a[-1])
                if "a2.0.id" not in a[1]:
                    return Bad("name", "the session is named %s" % a[1])
                return (True, ins)
        y = mutation(ev, q)
        if y and y[1] == "a1.sessions":
            if y[0] not in ("insert",) or not y[2] or y[2][0] != "a2.0.id" or not re.search(r"spawn\(", y[2][-1]):
                return Bad("insert", "the sessions get %s(%s)" % (y[0], ", ".join(cut(z) for z in y[2])))
            return (sp, True)
        if ev.kind == "leave" and ev.out and not (sp and ins):
            return Bad("missing", "a session is not %s" % ("started" if not sp else "kept"))
        return None
    c.watch(b, mon5, (False, False), "new", opaque=API + CTXAPI)
    b = c.handler(STORE, r"SessionClosed$")

    def mon6(s, ev, q):
        y = mutation(ev, q)
        if y and y[1] == "a1.sessions":
            return "done" if y[0] == "remove" and y[2] == ["a2.0"] else Bad("which", "closing a session does %s(%s)" % (y[0], y[2]))
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("kept", "a closed session is kept")
        return None
    c.watch(b, mon6, "no", "closed", opaque=API)
    b = c.method("Actor", RS, "stopped")

    def mon7(s, ev, q):
        cl, told = s
        if ev.kind == "await" and re.search(r"(close|shutdown)\(.*a1\.write", canon(q, ev.value, 9)):
            return (True, told)
        if ev.kind == "branch" and re.search(r"boxed_parent_ref", canon(q, ev.value)) and str(ev.out) == "None":
            return (cl, True)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "SessionClosed":
            if canon(q, strip(q, x[2]).a[2][0][1]) != "a1.id":
                return Bad("which", "the session says that %s closed" % canon(q, x[2]))
            return (cl, True)
        if ev.kind == "leave" and ev.out and not (cl and told):
            return Bad("leak", "a stopped session does not %s" % ("close its connection" if not cl else "tell the store"))
        return None
    c.watch(b, mon7, (False, False), "stopped", opaque=API)
    b = c.method("StreamReceiver", SRX, "on_close")

    def mon8(s, ev, q):
        x = message(ev, q)
        if x and canon(q, x[1]) == "a1.session" and canon(q, x[2]) in ("<stop>", "'<stop>'"):
            return "stop"
        if ev.kind == "await" and "a1.session" in canon(q, ev.value) and "stop" in canon(q, ev.value):
            return "stop"
        if ev.kind == "leave" and ev.out and s != "stop":
            return Bad("zombie", "the session is not stopped when its connection closed")
        return None
    c.watch(b, mon8, "no", "on_close", opaque=API)

    c.rule("accept", "Every accepted connection becomes a session of its own with an id no earlier session had; failing to accept one connection or to start one session does not end the server, only its cancellation does.")
    b = c.fn("coerce::remote::net::server::server_loop")

    def mon9(s, ev, q):
        st, last = s
        if ev.kind == "await" and re.search(r"accept\(", canon(q, ev.value)[:40]):
            return ("waiting", last) if st != "accepted" else Bad("dropped", "an accepted connection is dropped")
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if re.match(r"^[\w:]*accept\([^()]*\)$", t):
                return ("stop" if o == "None" else "some", last)
            if re.match(r"^[\w:]*accept\([^()]*\)\?$", t):
                return ({"Ok": "accepted", "Err": "error"}.get(o, st), last)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "NewSession":
            f = dict(strip(q, strip(q, x[2]).a[2][0][1]).a[2])
            i = canon(q, f["id"])
            if i == last and re.match(r"^-?\d+$", i):
                return Bad("id", "two sessions get the same id")
            t = canon(q, f["write"], 9) + canon(q, f["read"], 9)
            if t.count("accept(") < 2 or "accept(" not in canon(q, f["addr"], 9):
                return Bad("stream", "a session is made of %s" % cut(t))
            if ev.kind == "call" and st != "accepted":
                return Bad("again", "a connection becomes a session in state %s" % st)
            return ("session", i)
        if ev.kind == "leave" and ev.out:
            if st != "stop":
                return Bad("end", "the server ends in state %s" % st)
        return None
    c.watch(b, mon9, ("start", "-"), "server_loop", opaque=API + [r"server::accept$", r"server::cancellation$"])
    b = c.inherent(RS, "new")
    for o in c.run(b, None):
        r = c.ret(o, 9)
        c.check(re.search(r"^RemoteSession\{id:a1,addr:a2,write:FramedWrite::new\(io::split\(a3\)\.1.*read:Some\{0:FramedRead::new\(io::split\(a3\)\.0", r), "session", "a session is made as %s" % cut(r, 250), out=o)
    b = c.inherent(r"net::server::RemoteServer$", "start")

    def mon10(s, ev, q):
        if ev.kind == "spawn" or called(ev, r"server::server_loop$"):
            if called(ev, r"server::server_loop$"):
                a = [canon(q, x, 9) for x in ev.args]
                if "bind(a2.listen_addr)" not in a[0] or "into_actor(RemoteSessionStore{" not in a[1] or a[2] != "a1.cancellation_token" or not a[3].endswith("a2"):
                    return Bad("args", "the server runs with %s" % [cut(x) for x in a])
                return "run"
        if ev.kind == "leave" and ev.out and s != "run":
            r = canon(q, ev.value) if ev.value is not None else ""
            if not r.startswith("Err"):
                return Bad("idle", "the server reports that it started but does not accept connections")
        return None
    c.watch(b, mon10, "no", "start", opaque=API + [r"server::server_loop$", r"into_actor"])

    c.rule("identity", "An accepted peer is sent this node's identity: its id, tag, address to be reached at, start time, attributes and all nodes it knows.")
    b = c.method("Actor", RS, "started")

    def mon11(s, ev, q):
        v = awaited(ev, q, r"RemoteSession>?::write$")
        if v:
            t = canon(q, v.a[2][1], 12)
            need = [r"node_id:a2\.[\w.?]*\.node_id\b", r"node_tag:a2\.[\w.?]*node_tag\b", r"addr:a1\.remote_server_config\.external_node_addr\b", r"node_started_at:.*started_at", r"peers:coll\((empty\||[\w:]*get_nodes\()", r"attributes:.*get_attributes"]
            if "Identity{" not in t:
                return None
            for n in need:
                if not re.search(n, t):
                    return Bad("content", "the identity sent does not have %s" % n.split(":")[0])
            if re.search(r"get_nodes\([^|]*~\w+\|", t):
                return Bad("peers", "only part of the known nodes is sent")
            return "sent"
        if called(ev, r"remote::net::receive_loop(::<.*>)?$"):
            if s != "sent":
                return Bad("silent", "an accepted peer is not sent this node's identity")
            a = [canon(q, x, 9) for x in ev.args]
            if not a[1].startswith("a1.read") or "session_id:a1.id" not in a[2] and "SessionMessageReceiver::new(a1.id" not in a[2]:
                return Bad("reader", "frames are read from %s for %s" % (a[1], cut(a[2])))
        return None
    i, mm = combine(a=("no", mon11), peers=gathers(r"^[\w:]*get_nodes\(", "known nodes", lambda ev, q: awaited(ev, q, r"RemoteSession>?::write$")))
    c.watch(b, mm, i, "identity", opaque=SESS + [r"validate_session_token$", r"remote::net::receive_loop"])

    c.rule("handshake", "A handshake is answered, after the nodes it names other than this one have been put up for discovery and that has completed, with this node's id, tag, start time and all nodes it knew.")
    b = c.fn("coerce::remote::net::server::session::session_handshake")

    def mon12(s, ev, q):
        x = message(ev, q)
        n = msgname(q, x[2]) if x else None
        if n == "Discover":
            t = canon(q, x[2], 9)
            if not re.search(r"Nodes\{0:coll\((empty\||a2\.nodes)", t) or "on_discovery_complete:Some{0:oneshot::channel().0}" not in t:
                return Bad("discover", "what is discovered is %s" % cut(t, 250))
            return "discovering"
        if s == "discovering" and ev.kind == "await" and canon(q, ev.value) == "oneshot::channel().1":
            return "discovered"
        if n == "SessionWrite":
            t = canon(q, x[2], 12)
            if s != "discovered":
                return Bad("early", "a handshake is acknowledged before the nodes it names were discovered")
            if canon(q, x[1]) != "a4" or not t.startswith("SessionWrite{0:a3,1:Handshake{"):
                return Bad("target", "the acknowledgement goes to %s: %s" % (canon(q, x[1]), cut(t)))
            if not re.search(r"node_id:a1\.[\w.]*node_id\b", t) or not re.search(r"nodes:coll\((empty\||[\w:]*get_nodes\(a1\)\|)", t) or not re.search(r"node_tag:a1\.", t) or "trace_id:a2.trace_id" not in t or "started_at:" not in t:
                return Bad("content", "the acknowledgement is %s" % cut(t, 300))
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("unanswered", "a handshake is not answered")
        return None
    NEW = [r"RemoteNode>?::new$", r"timestamp_to_datetime$", r"str::split", r"fmt::format$"]
    def own(ev, q):
        # the branch under which a node named by the handshake is this node
        z = re.match(r"^(Not\()?\((.*) (Ne|Eq) (.*)\)\)?$", canon(q, ev.value)) if ev.kind == "branch" else None
        return z and truth(ev) is not None and re.search(r"each\(a2\.nodes\)\.node_id|RemoteNode::new\(.*\)\.id", z.group(0)) and re.search(r"\ba1\..*node_id", z.group(0)) and \
            ((z.group(3) == "Ne") != bool(z.group(1))) != truth(ev)

    i, mm = combine(a=("start", mon12), named=gathers(r"^a2\.nodes$", "nodes named", lambda ev, q: (message(ev, q) and msgname(q, message(ev, q)[2]) == "Discover"), skip=own),
                    known=gathers(r"^[\w:]*get_nodes\(a1\)$", "known nodes", lambda ev, q: (message(ev, q) and msgname(q, message(ev, q)[2]) == "SessionWrite")))
    c.watch(b, mm, i, "handshake", opaque=SESS + NEW, ccap=1)

    def skipself(s, ev, q):
        if ev.kind == "branch":
            t = canon(q, ev.value)
            z = re.match(r"^(Not\()?\((.*) (Ne|Eq) (.*)\)\)?$", t)
            if z and truth(ev) is not None and re.search(r"each\(a2\.nodes\)\.node_id|RemoteNode::new\(.*\)\.id", t) and re.search(r"\ba1\..*node_id", t):
                return "other" if ((z.group(3) == "Ne") != bool(z.group(1))) == truth(ev) else "self"
        if called(ev, r"RemoteNode>?::new$"):
            a = [canon(q, x, 9) for x in ev.args]
            if not re.search(r"each\(a2\.nodes\)\.node_id$", a[0]) or not re.search(r"each\(a2\.nodes\)\.tag$", a[2]):
                return Bad("node", "a node named by a handshake is taken as %s, %s" % (a[0], a[2]))
            if s == "self":
                return Bad("self", "a handshake naming this node has this node discover itself")
            return "start" if s == "other" else "made"
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Discover" and s == "made":
            return Bad("self", "a handshake may name this node and has it discover itself")
        return None
    c.watch(b, skipself, "start", "named", opaque=SESS + NEW, ccap=1)
    b = c.method("StreamReceiver", SRX, "on_receive")

    def mon13(s, ev, q):
        if called(ev, r"session::session_handshake$"):
            a = [canon(q, x, 9) for x in ev.args]
            if a[0] != "a3" or a[1] != "a2@Handshake.0" or a[2] != "a1.session_id" or a[3] != "a1.session":
                return Bad("args", "a handshake is handled with %s" % a)
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("ignored", "a handshake is ignored")
        return None
    c.watch(b, mon13, "no", "receive", opaque=SESS + [r"session::session_handshake$"], facts={T("arg", 2): ("is", "Handshake")})
