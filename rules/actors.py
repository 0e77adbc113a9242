"""Local actors: lifecycle, delivery, starting, supervision, registry, timers, watching, workers, describe."""
from rules import *

START = "coerce::actor::scheduler::start_actor"
STARTED = r"coerce::actor::Actor::started$"
STOPPED = r"coerce::actor::Actor::stopped$"
MSGHANDLE = r"coerce::actor::message::ActorMessageHandler::handle$"
RECV = r"^tokio::sync::mpsc::UnboundedReceiver::<.*>::recv$"
RECVANY = r"^tokio::sync::mpsc::UnboundedReceiver::<.*>::(try_recv|recv_many|poll_recv|blocking_recv|poll_recv_many|blocking_recv_many)$"


def first_spawn(v, st):
    """the actor's own task is followed; further tasks are not"""
    return "event" if "in-task:" in str(st.obs) else "inline"


def status_of(q, t):
    """is the term the status field of an actor context"""
    t = q.val(t)
    while t.tag in ("hv", "upd"):
        t = q.val(t.a[1] if t.tag == "hv" else t.a[0])
    return t.tag == "fld" and t.a[1] == ".status"


@prop("A01")
def lifecycle(c):
    start = c.fn(START)
    c.rule("loop", "On every path of an actor's task: the started hook completes before the first message is taken, "
           "messages are taken one at a time and each is driven to completion by the task itself before the next is "
           "taken, none is taken or handled once the context is stopping, and the stopped hook runs exactly once, last.")
    # observer: (phase, live, pending)
    #   phase: new, in-task, started, ready, got, handled, drained, stopped ; live: is the status known not Stopping
    def mon(s, ev, q):
        ph, ok = s
        if ev.kind == "spawn":
            if ph == "new":
                return ("in-task", False)
            if ph in ("got",):
                return None
            return None
        if awaited(ev, q, STARTED):
            if ph != "in-task":
                return Bad("started-twice", "the started hook runs again, or outside the actor's own task (phase %s)" % ph)
            return ("in-task:started", False)
        if ev.kind == "branch" and status_of(q, ev.value):
            if ev.out == "Stopping":
                return (ph, "stopping")
            if ev.out in ("Starting", "Started") or "Stopping" in str(ev.out):
                return (ph, True)
            return None
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".status":
            v = q.val(ev.value)
            if v.tag == "adt" and v.a[1] == "Stopping":
                return (ph, "stopping")
            if v.tag == "adt" and v.a[1] == "Started" and ok == "stopping":
                return Bad("revived", "a stopping context is set back to started")
            return None
        if called(ev, RECVANY):
            return Bad("recv", "messages are taken from the mailbox other than one at a time (%s)" % short(ev.path))
        if awaited(ev, q, RECV):
            if ph not in ("in-task:started", "in-task:handled"):
                return Bad("recv-phase", "a message is taken from the mailbox in phase %s" % ph)
            if ok is not True:
                return Bad("recv-after-stop", "the mailbox is read again without establishing that the actor is not stopping")
            return ("in-task:recv", ok)
        if ev.kind == "branch" and ph == "in-task:recv":
            v = awaited_term(q, ev.value, RECV)
            if v:
                return ("in-task:got", False) if ev.out == "Some" else ("in-task:drained", False)
        h = awaited(ev, q, MSGHANDLE)
        if h:
            if ph != "in-task:got":
                return Bad("handle-phase", "a message is handled in phase %s" % ph)
            return ("in-task:handled", False)
        if awaited(ev, q, STOPPED):
            if ph == "in-task:stopped":
                return Bad("stopped-twice", "the stopped hook runs twice")
            if ph == "in-task:got":
                return Bad("dropped", "a received message is discarded without being handled")
            if not ph.startswith("in-task:"):
                return Bad("stopped-early", "the stopped hook runs before the started hook")
            if ok is True and ph != "in-task:drained":
                return Bad("stopped-live", "the stopped hook runs although the actor is not stopping and the mailbox is open")
            return ("in-task:stopped", ok)
        if ev.kind == "leave" and ev.out:
            if ph != "in-task:stopped":
                return Bad("no-stop-hook", "the actor's task ends in phase %s without running the stopped hook" % ph)
        return None

    outs = c.watch(start, mon, ("new", False), "start_actor", spawn=first_spawn, cap=1,
                   opaque=API + [r"ActorContext>::drop"])
    c.check(len(outs) >= 2, "paths", "the actor task has no analysable complete path")

    c.rule("owner", "The started and stopped hooks and message handling are only invoked by the actor's own task.")
    for rx, what in ((STARTED, "started"), (STOPPED, "stopped"), (MSGHANDLE, "message handling")):
        sites = [(b, l, p) for b, l, p in callers(c.p, rx) if b.in_trait is None]
        c.all(sites, "call sites of " + what)
        for b, l, p in sites:
            c.check(b.id in c.fns, "%s:%s" % (what, short(b.id)), "%s is invoked outside the actor task, in %s (%s:%s)"
                    % (what, b.id, b.file, l))
            c.inst(b.id)

    c.rule("mailbox", "A message object hands itself to its handler exactly once, with the actor's own state and "
           "context, and only then answers its sender.")
    mh = c.method(r"ActorMessageHandler<", r"ActorMessage<", "handle")

    def waiting(ev, q):
        return ev.kind == "branch" and re.fullmatch(r"(Option::take\()?a1\.sender\)?", canon(q, ev.value)) and str(ev.out) == "Some"

    def mon2(s, ev, q):
        if s == "handled" and waiting(ev, q):
            return "owed"
        if ev.kind == "leave" and ev.out and s == "owed":
            return Bad("unanswered", "the sender waits for the result but is not answered")
        if awaited(ev, q, r"coerce::actor::message::Handler::handle$"):
            v = awaited(ev, q, r"coerce::actor::message::Handler::handle$")
            if s != "new":
                return Bad("twice", "the handler runs more than once for one message")
            d = [canon(q, x) for x in v.a[2]]
            if d[0] != "a2" or d[2] != "a3" or not d[1].startswith("a1.msg"):
                return Bad("wrong-args", "the handler is called with (%s)" % ", ".join(d))
            return "handled"
        if called(ev, ONESHOT):
            if s not in ("handled", "owed"):
                return Bad("early", "the sender is answered in state %s" % s)
            r = canon(q, ev.args[1])
            if not r.startswith("Handler::handle("):
                return Bad("result", "the sender is answered with %s rather than the handler's result" % r)
            return "answered"
        if ev.kind == "spawn":
            return Bad("spawn", "handling is detached from the actor task")
        if ev.kind == "leave" and ev.out and s == "new":
            return Bad("unhandled", "the message is not handed to its handler")
        return None
    outs = c.watch(mh, mon2, "new", "ActorMessage")
    c.check(any(o.obs == "answered" for o in outs), "answers", "no path answers the sender")


def awaited_term(q, t, rx):
    t = q.val(t)
    n = 0
    while n < 8:
        if t.tag == "await":
            t = q.val(t.a[0])
        elif t.tag in ("conv", "hv", "upd", "fld"):
            t = q.val(t.a[1] if t.tag == "hv" else t.a[0])
        else:
            break
        n += 1
    return t if t.tag == "call" and re.search(rx, t.a[1]) else None


# ------------------------------------------------------------------------------------------------------------ A02
CTXSTOP = r"\.on_actor_stopped"


@prop("A02")
def termination(c):
    start = c.fn(START)
    c.rule("order", "After the stopped hook: a tracked actor of a live system is removed from the registry under its own "
           "id, then every waiter of a stop call is answered, every watcher is told which actor terminated; none of it "
           "happens before the hook.")

    def mon(s, ev, q):
        ph, tracked, sysm, live, dereg, told = s
        if ev.kind == "spawn" and ph == "new":
            return ("in-task",) + s[1:]
        if awaited(ev, q, STARTED):
            return ("in-task:up",) + s[1:]
        if awaited(ev, q, STOPPED):
            return ("in-task:stopped",) + s[1:]
        if ev.kind == "branch":
            d = canon(q, ev.value)
            if d == "a3":
                return (ph, ev.out in ("Tracked", "!Anonymous"), sysm, live, dereg, told)
            if d == "a5":
                return (ph, tracked, ev.out == "Some", live, dereg, told)
            if "is_terminated" in d:
                return (ph, tracked, sysm, not ev.out if isinstance(ev.out, bool) else str(ev.out) in ("0", "False"), dereg, told)
        mm = message(ev, q)
        if mm and msgname(q, mm[2]) == "DeregisterActor":
            if ph != "in-task:stopped":
                return Bad("dereg-early", "the actor is removed from the registry before its stopped hook ran")
            d = canon(q, mm[2])
            if d != "DeregisterActor{0:a2}":
                return Bad("dereg-id", "the registry is asked to remove %s rather than the actor's own id" % d)
            if not re.search(r"^a5\??\.core\.scheduler", canon(q, mm[1])):
                return Bad("dereg-target", "the removal is sent to %s" % canon(q, mm[1]))
            if told:
                return Bad("dereg-late", "stop waiters or watchers are told before the actor left the registry")
            if mm[0] != "send":
                return Bad("dereg-unconfirmed", "the removal from the registry is not awaited before waiters are told")
            return (ph, tracked, sysm, live, True, told)
        if called(ev, ONESHOT) and re.search(CTXSTOP, canon(q, ev.args[0])):
            if ph != "in-task:stopped":
                return Bad("waiter-early", "a stop waiter is answered before the stopped hook ran")
            return (ph, tracked, sysm, live, dereg, True)
        if mm and msgname(q, mm[2]).startswith("ActorTerminated"):
            if ph != "in-task:stopped":
                return Bad("watcher-early", "a watcher is notified before the stopped hook ran")
            d = canon(q, fld(q.val(mm[2]), ".actor_ref"))
            if not (d.startswith("BoxedActorRef{0:LocalActorRef{inner:LocalActorRefInner{id:a2,") or d.endswith(".boxed_ref")):
                return Bad("watcher-what", "watchers are told about %s" % d)
            return (ph, tracked, sysm, live, dereg, True)
        if ev.kind == "leave" and ev.out and tracked and sysm and live and not dereg:
            return Bad("not-deregistered", "a tracked actor of a live system ends without being removed from the registry")
        return None

    waiters = foreach(CTXSTOP + r"\??$", lambda ev, q: called(ev, ONESHOT), "stop waiters")
    watchers = foreach(r"\.watchers\??(\.watchers)?$", lambda ev, q: bool((message(ev, q) or [0])[0] == "notify"), "watchers")

    def settled(s, ev, q):
        # the waiters and watchers held by the context are consumed on every path
        if ev.kind == "branch":
            d = canon(q, ev.value)
            if d.endswith(".on_actor_stopped"):
                return (("none" if ev.out == "None" else "some"), s[1])
            if d.endswith(".watchers"):
                return (s[0], ("none" if ev.out == "None" else "some"))
        if ev.kind == "next" and ev.out == "None":
            d = canon(q, ev.value)
            if re.search(CTXSTOP, d):
                return ("told", s[1])
            if re.search(r"\.watchers", d):
                return (s[0], "told")
        if ev.kind == "leave" and ev.out:
            if s[0] not in ("none", "told"):
                return Bad("waiters", "the actor ends without answering those waiting for it to stop")
            if s[1] not in ("none", "told"):
                return Bad("watchers", "the actor ends without notifying its watchers")
        return None
    init, mon3 = combine(order=(("new", None, None, None, False, False), mon), waiters=waiters, watchers=watchers,
                         settled=(("?", "?"), settled))
    outs = c.watch(start, mon3, init, "start_actor", spawn=first_spawn, opaque=API + [r"ActorContext>::drop"])
    c.check(any(o.obs[0][4] for o in outs), "dereg", "no path removes the actor from the registry")

    c.rule("stop", "A stop request records its waiter and marks the context as stopping, keeping earlier waiters.")
    for nm, b in (("Stop", c.handler(r".", r"^coerce::actor::lifecycle::Stop$")),
                  ("ActorContext::stop", c.inherent(r"ActorContext", "stop"))):
        def mon(s, ev, q):
            kept, stopping = s
            x = mutation(ev, q)
            if x and x[0] == "push" and re.search(CTXSTOP, x[1]):
                return (True, stopping)
            if ev.kind == "write" and ev.loc.a[1]:
                if ev.loc.a[1][-1] == ".on_actor_stopped":
                    v = q.val(ev.value)
                    if v.tag == "adt" and v.a[1] == "Some":
                        if "kept" in str(s[0]):
                            pass
                        return (True, stopping)
                if ev.loc.a[1][-1] == ".status":
                    v = q.val(ev.value)
                    return (kept, v.tag == "adt" and v.a[1] == "Stopping")
            if ev.kind == "branch":
                d = canon(q, ev.value)
                if re.match(r"a[12](\.0)?$", d) and ev.out == "None":
                    return ("n/a", stopping)
            if ev.kind == "leave" and ev.out:
                if not kept:
                    return Bad("waiter-lost", "the waiter of a stop request is not recorded")
                if not stopping:
                    return Bad("not-stopping", "a stop request does not mark the actor as stopping")
            return None
        c.watch(b, mon, (False, False), nm)
    b = c.inherent("ActorContext", "add_on_stopped_handler")
    outs = c.run(b, lambda ev, q: (
        ("some" if ev.out == "Some" else "none") if ev.kind == "branch" and canon(q, ev.value).endswith(".on_actor_stopped") else
        "push" if (mutation(ev, q) or [0])[0] == "push" else
        "set" if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".on_actor_stopped" else None))
    for o in outs:
        c.check(not has(o.obs, "set") or has(o.obs, "none"), "waiters-overwritten",
                "recording a stop waiter discards those already recorded", out=o)

    c.rule("stop-call", "A stop call returns success only once the actor acknowledged termination, and an error otherwise.")
    for b in [c.inherent(r"LocalActorRef<", "stop"), c.inherent(r"LocalActorRef<", "stop_blocking")]:
        outs = c.run(b, lambda ev, q: (
            "acked" if ev.kind == "branch" and re.search(r"oneshot::channel\(\)\.1", canon(q, ev.value)) and ev.out == "Ok" else
            "closed" if ev.kind == "branch" and re.search(r"oneshot::channel\(\)\.1", canon(q, ev.value)) and ev.out == "Err" else
            ("told", canon(q, message(ev, q)[2])) if message(ev, q) else None), opaque=API)
        n = 0
        for o in outs:
            r = c.ret(o)
            if r.startswith("Ok"):
                n += 1
                c.check(has(o.obs, "acked"), short(b.id) + ":ok", "stop reports success without the actor's acknowledgement", out=o)
                t = [x for x in o.obs if x[0] == "told"]
                c.check(bool(t) and t[0][1] == "Stop{0:Some{0:oneshot::channel().0}}", short(b.id) + ":msg",
                        "stop does not ask the actor to acknowledge (%s)" % t, out=o)
            elif has(o.obs, "acked"):
                c.fail(short(b.id) + ":err", "stop reports %s although the actor acknowledged" % r, out=o)
        c.check(n > 0 or any("map_err" in c.ret(o) for o in outs), short(b.id) + ":paths", "stop never succeeds")


# ------------------------------------------------------------------------------------------------------------ A03
ENQ = r"^tokio::sync::mpsc::UnboundedSender::<.*>::send$"
LSEND = [r"^coerce::actor::refs::LocalActorRef::<.*>::(send|notify)$", r"LocalActorRef<A>>::send_blocking$",
         r"^coerce::remote::actor_ref::RemoteActorRef::<.*>::(send|notify)$", r"^coerce::actor::(Message)?Receiver::.*(send|notify)$",
         r"^coerce::actor::MessageReceiver::\w+$", r"^coerce::actor::refs::CoreActorRef::\w+$"]


@prop("A03")
def delivery(c):
    c.rule("exec", "A closure sent to an actor runs exactly once, on that actor, and its result is what the sender gets.")
    b = c.handler(r".", r"message::Exec<")
    FN = r"^<fn value>$|std::ops::(FnMut::call_mut|FnOnce::call_once|Fn::call)$"

    def mon(s, ev, q):
        if called(ev, FN):
            f = canon(q, ev.args[0])
            if not f.startswith("a2.func"):
                return None
            if s:
                return Bad("twice", "the closure runs more than once")
            if "a1" not in canon(q, ev.args[1]):
                return Bad("who", "the closure runs on %s" % canon(q, ev.args[1]))
            return True
        if ev.kind == "leave" and ev.out and not s:
            return Bad("lost", "the closure does not run")
        return None
    c.watch(b, mon, False, "exec")
    c.rule("mailbox", "Sending enqueues exactly one copy of the caller's message with the caller's result channel; the "
           "outcome is the handler's result, or an error saying the actor is gone (enqueue refused) or that it never "
           "answered (result channel closed).")
    L = r"LocalActorRef<"
    for name, reply in (("send", "Some{0:oneshot::channel().0}"), ("send_blocking", "Some{0:oneshot::channel().0}"),
                        ("deliver", "Some{0:a3}"), ("notify", "None")):
        b = c.inherent(L, name)
        k = name

        def mon(s, ev, q):
            st, rx = s
            if called(ev, ENQ) and "inner.sender" in canon(q, ev.args[0]):
                mm = strip(q, ev.args[1])
                d, r = canon(q, fld(mm, ".msg")), canon(q, fld(mm, ".sender"))
                if canon(q, ev.args[0]) != "a1.inner.sender":
                    return Bad("target", "the message is enqueued on %s" % canon(q, ev.args[0]))
                if d != "Some{0:a2}":
                    return Bad("message", "what is enqueued is %s, not the caller's message" % d)
                if r != reply:
                    return Bad("reply", "the result channel enqueued is %s, expected %s" % (r, reply))
                if st != "new":
                    return Bad("twice", "the message is enqueued more than once")
                return ("sent", rx)
            if ev.kind == "branch":
                d = canon(q, ev.value)
                if d.startswith("UnboundedSender::send(a1.inner.sender"):
                    return ("ok" if ev.out == "Ok" else "refused", rx)
                if re.fullmatch(r"(Receiver::blocking_recv\()?oneshot::channel\(\)\.1\)?", d):
                    return (st, ev.out)
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value)
                if st == "new":
                    return Bad("unsent", "returns %s without enqueuing the message" % r)
                if st == "sent":
                    return Bad("unchecked", "the outcome of enqueuing is not examined")
                if st == "refused":
                    want = ["Err{0:InvalidRef}"]
                elif name in ("deliver", "notify"):
                    want = ["Ok{0:()}", "Ok{0:'()'}"]
                elif rx == "Ok":
                    want = ["Ok{0:oneshot::channel().1?}", "Ok{0:Receiver::blocking_recv(oneshot::channel().1)?}"]
                elif rx == "Err":
                    want = ["Err{0:ResultChannelClosed}"]
                else:
                    return Bad("unanswered", "returns %s without waiting for the result" % r)
                if r not in want:
                    return Bad("outcome:" + str(rx or st), "enqueue %s, result channel %s: returns %s, expected %s" % (st, rx, r, want[0]))
            return None
        outs = c.watch(b, mon, ("new", None), k)
        c.check(any(o.kind == "return" and o.obs[0] == "ok" for o in outs), k + ":paths", "no successful path found in " + b.id)

    c.rule("forward", "Every other way of sending hands the same message to the same actor exactly once and returns the "
           "outcome unchanged.")
    I = lambda n: c.inherent(L, n)
    C = lambda n: c.method(r"CoreActorRef", L, n)
    B = lambda n: c.method(r"CoreActorRef", r"BoxedActorRef", n)
    M = lambda n: c.method(r"actor::MessageReceiver<", L, n)
    R = lambda n: c.inherent(r"coerce::actor::Receiver<", n)
    table = [
        ("exec", I("exec"), "send", "a1", r"Exec\{func:a2"), ("notify_exec", I("notify_exec"), "notify", "a1", r"Exec\{func:a2"),
        ("exec_blocking", I("exec_blocking"), "send_blocking", "a1", r"Exec\{func:a2"),
        ("status", I("status"), "send", "a1", r"Status$"), ("describe", I("describe"), "notify", "a1", r"a2$"),
        ("notify_stop", I("notify_stop"), "notify", "a1", r"Stop\{0:None\}$"),
        ("core.status", C("status"), "send", "a1", r"Status$"), ("core.describe", C("describe"), "notify", "a1", "a2$"),
        ("core.notify_stop", C("notify_stop"), "notify", "a1", r"Stop\{0:None\}$"),
        ("core.notify_child_terminated", C("notify_child_terminated"), "notify", "a1", r"Terminated\{0:a2\}$"),
        ("boxed.describe", B("describe"), "describe", r"a1\.0", "a2$"), ("boxed.notify_stop", B("notify_stop"), "notify_stop", r"a1\.0", None),
        ("boxed.notify_child_terminated", B("notify_child_terminated"), "notify_child_terminated", r"a1\.0", "a2$"),
        ("boxed.status", B("status"), "status", r"a1\.0", None), ("boxed.stop", B("stop"), "stop", r"a1\.0", None),
        ("receiver.send", M("send"), "send", "a1", "a2$"), ("receiver.notify", M("notify"), "notify", "a1", "a2$"),
        ("Receiver.send", R("send"), "send", r"a1\.0", "a2$"), ("Receiver.notify", R("notify"), "notify", r"a1\.0", "a2$"),
    ]
    for k, b, meth, tgt, msg in table:
        def lab(ev, q):
            if ev.kind == "call" and not ev.inl and re.search(r"(%s).*::(send|notify|send_blocking|status|stop|describe|notify_stop|notify_child_terminated|deliver)$|send_blocking$" % REFS, ev.path):
                return ("to", ev.path.split("::")[-1], canon(q, ev.args[0]), canon(q, ev.args[1]) if len(ev.args) > 1 else "")
            return None
        outs = c.run(b, lab, opaque=LSEND)
        c.check(bool(outs), k + ":paths", "no path through " + b.id)
        for o in outs:
            if o.kind != "return":
                continue
            w = [x for x in o.obs if x[0] == "to"]
            ok = len(w) == 1 and w[0][1] == meth and re.fullmatch(tgt, w[0][2]) and (msg is None or re.match(msg, w[0][3]))
            c.check(ok, k + ":once", "%s delivers %s; expected one %s of %s" % (short(b.id), w, meth, msg), out=o)
            r = c.ret(o)
            c.check(re.match(r"(\w+)::%s\(" % meth, r) is not None, k + ":outcome", "%s returns %s instead of the delivery's outcome" % (short(b.id), r), out=o)

    c.rule("either", "A reference that may be local or remote sends a local message as is and a remote one as its encoding; "
           "an encoding failure is reported, and nothing is sent then.")
    for name in ("send", "notify"):
        b = c.inherent(r"refs::ActorRef<", name)

        def lab(ev, q):
            if ev.kind == "branch":
                d = canon(q, ev.value)
                if d == "a1.inner_ref":
                    return str(ev.out)
                if d == "Message::as_bytes(a2)":
                    return "enc:" + ev.out
            if ev.kind == "call" and not ev.inl and re.search(r"(Local|Remote)ActorRef::<.*>::(send|notify)$", ev.path):
                return ("to", short(ev.path), canon(q, ev.args[0]), canon(q, ev.args[1]))
            return None
        outs = c.run(b, lab, opaque=LSEND)
        seen = set()
        for o in outs:
            w = [x for x in o.obs if x[0] == "to"]
            r = c.ret(o)
            if has(o.obs, "Local"):
                seen.add("local")
                c.check(w == [("to", "LocalActorRef::" + name, "a1.inner_ref@Local.0", "a2")] and r.startswith("LocalActorRef::%s(" % name),
                        name + ":local", "a local reference delivers %s and returns %s" % (w, r), out=o)
            elif has(o.obs, "enc:Ok"):
                seen.add("remote")
                c.check(w == [("to", "RemoteActorRef::" + name, "a1.inner_ref@Remote.0", "Remote{0:Message::as_bytes(a2)?}")]
                        and r.startswith("RemoteActorRef::%s(" % name), name + ":remote", "a remote reference delivers %s and returns %s" % (w, r), out=o)
            else:
                seen.add("enc")
                c.check(not w and r == "Err{0:Serialisation{0:Message::as_bytes(a2)!}}", name + ":encoding",
                        "an encoding failure delivers %s and returns %s" % (w, r), out=o)
        c.check(seen == {"local", "remote", "enc"}, name + ":paths", "paths found: %s" % seen)

    c.rule("pipe", "A piped future's output is sent to the target once the future completed; an attached stream delivers "
           "every converted item in order and stops the actor at the end only when so configured.")
    b = c.one([x for x in c.p.impl_method(r"PipeTo<", r".", "pipe_to")], "PipeTo::pipe_to")
    outs = c.run(b, lambda ev, q: "done" if ev.kind == "await" and canon(q, ev.value) == "a1" else
                 ("to", message(ev, q)[0], canon(q, message(ev, q)[1]), canon(q, message(ev, q)[2])) if message(ev, q) else None,
                 opaque=API, spawn="inline")
    for o in c.all(outs, "paths of pipe_to"):
        c.check(o.obs == ("done", ("to", "notify", "a2", "a1")), "pipe", "pipe_to does %s" % (o.obs,), out=o)
    b = c.fn("coerce::actor::context::attach_stream")

    def mon(s, ev, q):
        v = None
        if ev.kind == "branch":
            d = canon(q, ev.value)
            if re.fullmatch(r"\w+::next\(a2\)", d):
                if s == "item" or s == "converted":
                    return Bad("skipped", "a stream item is dropped")
                return "item0" if ev.out == "Some" else "end"
            if re.fullmatch(r"\w+::next\(a2\)\?", d):
                return "item" if ev.out == "Ok" else "end"
            if "closure" in d or re.search(r"a4|call\(", d) or "Fn::call" in d:
                if s == "item":
                    return "converted" if ev.out == "Some" else "ready"
            if d.endswith("stop_on_stream_end"):
                return "stop" if ev.out in (True, "True") else "nostop"
        mm = message(ev, q)
        if mm and mm[0] == "notify" and msgname(q, mm[2]) in ("<stop>", "Stop"):
            if s != "stop":
                return Bad("stops", "the actor is stopped in state %s" % s)
            return "stopped"
        if mm:
            if s != "converted":
                return Bad("deliver", "something is delivered in state %s" % s)
            return "ready"
        if ev.kind == "leave" and ev.out and s not in ("nostop", "stopped"):
            return Bad("end", "the stream task ends in state %s" % s)
        return None
    outs = c.watch(b, mon, "new", "attach_stream", opaque=API, spawn="inline")
    c.check(any(o.obs == "stopped" for o in outs), "attach_stream:paths", "no path of attach_stream stops the actor")


# ------------------------------------------------------------------------------------------------------------ A04
STARTFN = r"^coerce::actor::scheduler::start_actor$"
AID = r"(IntoActorId::into_actor_id\()?%s\)?"


@prop("A04")
def starting(c):
    c.rule("ack", "Creating an actor returns success only after the actor's own task confirmed that its started hook "
           "completed, reports a start failure when the task ended without confirming, starts exactly one task, and hands "
           "back the reference of that task.")
    sysi = lambda n: c.inherent(r"system::ActorSystem", n)
    # (function, actor arg, id arg, type description, parent, registers)
    table = [("new_actor", sysi("new_actor"), "a3", "a2", "a4", "None", True),
             ("new_actor_blocking", sysi("new_actor_blocking"), "a3", "a2", "a4", "None", True),
             ("new_supervised_actor", sysi("new_supervised_actor"), "a3", "a2", "Anonymous", r"Some\{0:a4\}", False),
             ("Supervised::spawn", c.inherent(r"supervised::Supervised", "spawn"), "a3", "a2", "Anonymous", r"Some\{0:a5\}", False),
             ("new_actor_deferred", sysi("new_actor_deferred"), "a3", "a2", "a4", "None", True),
             ("Supervised::spawn_deferred", c.inherent(r"supervised::Supervised", "spawn_deferred"), "a3", "a2", "Anonymous", r"Some\{0:a5\}", False)]
    for k, b, actor, aid, ty, parent, reg in table:
        deferred = k.endswith("deferred")

        def mon(s, ev, q):
            started, ack, tracked, regd = s
            if called(ev, STARTFN):
                if started:
                    return Bad("twice", "the actor is started more than once")
                d = [canon(q, x) for x in ev.args]
                want = [actor, AID % aid, ty, "None" if deferred else r"Some\{0:oneshot::channel\(\)\.0\}", r"Some\{0:a\d\}", parent]
                for g, w, n in zip(d, want, ("actor", "id", "type", "start signal", "system", "parent")):
                    if not re.fullmatch(w, g):
                        return Bad("start:" + n.replace(" ", "-"), "the actor is started with %s = %s" % (n, g))
                return (True, ack, tracked, regd)
            if ev.kind == "branch":
                d = canon(q, ev.value)
                if re.fullmatch(r"(Receiver::blocking_recv\()?oneshot::channel\(\)\.1\)?", d):
                    return (started, ev.out, tracked, regd)
                if d == "a4" and reg:
                    return (started, ack, ev.out in ("Tracked", "!Anonymous"), regd)
            mm = message(ev, q)
            if not mm and called(ev, r"send_blocking$"):
                mm = ("send", ev.args[0], ev.args[1])
            if mm and msgname(q, mm[2]) == "RegisterActor":
                d = canon(q, mm[2])
                if not re.match(r"RegisterActor\{id:%s,actor_ref:scheduler::start_actor\(" % (AID % aid), d):
                    return Bad("register-what", "what is registered is %s" % d)
                if mm[0] != "send":
                    return Bad("register-unconfirmed", "registration is not confirmed before the actor is handed out")
                if canon(q, mm[1]) != "a1.core.scheduler":
                    return Bad("register-where", "registration is sent to %s" % canon(q, mm[1]))
                if tracked is not True:
                    return Bad("register-anon", "an actor that is not tracked is registered")
                return (started, ack, tracked, True)
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value)
                if r.startswith("Err{0:AlreadyExists") and not started and k.startswith("Supervised"):
                    return None
                if not started:
                    return Bad("unstarted", "returns %s without starting the actor" % r)
                if not deferred and (ack not in ("Ok", "Err")):
                    return Bad("no-ack", "returns %s without waiting for the start to be confirmed" % r)
                if ack == "Err" and r != "Err{0:ActorStartFailed}":
                    return Bad("failed", "the start was not confirmed but the result is %s" % r)
                if ack != "Err" and not re.match(r"(Ok\{0:)?scheduler::start_actor\(", r):
                    return Bad("ref", "the start was confirmed but the result is %s" % r)
                if reg and tracked is None:
                    return Bad("type", "the actor type is not consulted")
                if reg and tracked and not regd:
                    return Bad("unregistered", "a tracked actor is handed out without being registered")
            return None
        outs = c.watch(b, mon, (False, None, None, False), k, opaque=API[:-2] + [STARTFN, r"send_blocking$"])
        c.check(any(o.kind == "return" for o in outs), k + ":paths", "no complete path in " + b.id)

    c.rule("signal", "An actor's task confirms its start only after its started hook completed without asking to stop, and "
           "always before it takes its first message.")

    def mon(s, ev, q):
        ph, ok = s
        if ev.kind == "spawn" and ph == "new":
            return ("in-task", ok)
        if awaited(ev, q, STARTED):
            return ("in-task:up", None)
        if ev.kind == "branch":
            if status_of(q, ev.value) and ph == "in-task:up" and ok is None:
                return (ph, "no" if ev.out == "Stopping" else "yes")
            if canon(q, ev.value) == "a4" and ev.out == "None":
                return ("in-task:signalled", ok)
        if called(ev, ONESHOT) and canon(q, ev.args[0]) in ("a4?", "a4"):
            if ph != "in-task:up":
                return Bad("early", "the start is confirmed in phase %s" % ph)
            if ok != "yes":
                return Bad("failed", "the start is confirmed although the actor asked to stop while starting")
            return ("in-task:signalled", ok)
        if awaited(ev, q, RECV) and ph != "in-task:signalled":
            return Bad("late", "a message is taken before the start is confirmed")
        return None
    outs = c.watch(c.fn(START), mon, ("new", None), "start_actor", spawn=first_spawn, opaque=API + [r"ActorContext>::drop"])
    c.check(any(o.obs[0] == "in-task:signalled" for o in outs), "paths", "no path confirms the start")
    c.check(any(o.obs == ("in-task:up", "no") for o in outs), "paths-failed", "no path ends without confirming the start")

    c.rule("entry", "The convenience constructors create the actor under the given id (or a fresh one) with the tracking "
           "they promise.")
    NEW = r"^coerce::actor::system::ActorSystem::new_(actor|anon_actor|tracked_actor)$"
    t2 = [("new_tracked_actor", sysi("new_tracked_actor"), [("new_actor", r"IntoActorId::into_actor_id\(.*|v4::new_v4\(\)", "a2", "Tracked")]),
          ("new_anon_actor", sysi("new_anon_actor"), [("new_actor", r"IntoActorId::into_actor_id\(.*|v4::new_v4\(\)", "a2", "Anonymous")]),
          ("into_actor", c.one(c.p.impl_method(r"actor::IntoActor$", r".", "into_actor"), "IntoActor::into_actor"),
           [("new_actor", r".*a2\?\)?", "a1", "Tracked"), ("new_anon_actor", r"a1", None, None)]),
          ("into_anon_actor", c.one(c.p.impl_method(r"actor::IntoActor$", r".", "into_anon_actor"), "IntoActor::into_anon_actor"),
           [("new_actor", r".*", "a1", "Anonymous")])]
    for k, b, forms in t2:
        outs = c.run(b, lambda ev, q: ("new", ev.path.split("::")[-1], [canon(q, x) for x in ev.args[1:]].__str__()) if called(ev, NEW) else
                     ("id", ev.out) if ev.kind == "branch" and canon(q, ev.value) == "a2" else None, opaque=[NEW])
        for o in c.all(outs, "paths of " + k):
            w = [x for x in o.obs if x[0] == "new"]
            ok = len(w) == 1
            if ok:
                args = eval(w[0][2])
                ok = False
                for n, i, a, t in forms:
                    if w[0][1] == n and re.fullmatch(i, args[0]) and (a is None or args[1] == a) and (t is None or args[2] == t):
                        ok = True
                if k == "into_actor" and ("id", "Some") in o.obs:
                    ok = ok and w[0][1] == "new_actor"
                if k == "into_anon_actor" and ("id", "Some") in o.obs:
                    ok = ok and "a2" in args[0]
            c.check(ok, k, "%s creates %s" % (short(b.id), w), out=o)
            c.check(re.match(r"(Ok\{0:|Err\{0:)?ActorSystem::new_\w+\(", c.ret(o)) is not None, k + ":ret", "%s returns %s" % (short(b.id), c.ret(o)), out=o)


# ------------------------------------------------------------------------------------------------------------ A05
@prop("A05")
def supervision(c):
    c.rule("unique", "A parent has at most one child per id: spawning under an id in use is refused and starts nothing; a "
           "new child is recorded under its id before anything else can happen to it, also when its start fails later.")
    for n in ("spawn", "spawn_deferred"):
        b = c.inherent(r"supervised::Supervised", n)

        def mon(s, ev, q):
            free, started, kept = s
            x = member(ev, q)
            if x and x[0] == "a1.children" and x[1] == "a2":
                return ("free" if not x[2] else "taken", started, kept)
            if called(ev, STARTFN):
                if free != "free":
                    return Bad("dup", "a child is started without establishing that its id is free (%s)" % free)
                return (free, True, kept)
            x = mutation(ev, q)
            if x and x[1] == "a1.children":
                if x[0] != "insert":
                    return Bad("mut", "spawning does %s on the children" % x[0])
                if x[2][0] != "a2" or "scheduler::start_actor(" not in x[2][1]:
                    return Bad("record", "the child recorded is %s" % x[2])
                if "child_type:Spawned" not in x[2][1]:
                    return Bad("kind", "a spawned child is recorded as %s" % x[2][1][:60])
                return (free, started, True)
            if ev.kind == "await" and not kept and started:
                return Bad("window", "the task is suspended before the child is recorded")
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value)
                if free == "taken" and r != "Err{0:AlreadyExists{0:a2}}":
                    return Bad("refusal", "an id in use yields %s" % r)
                if started and not kept:
                    return Bad("lost", "a started child is not recorded")
            return None
        outs = c.watch(b, mon, (None, False, False), n, opaque=[STARTFN])
        c.check({"free", "taken"} <= {o.obs[0] for o in outs}, n + ":paths", "paths: %s" % {o.obs for o in outs})

    c.rule("context", "Spawning through the context supervises the child under the parent's own full path and reference, "
           "without discarding children it already has.")
    for n in ("spawn", "spawn_deferred", "add_child_ref", "attach_child_ref"):
        b = c.inherent(r"ActorContext", n)
        rx = r"supervised::Supervised::(spawn|spawn_deferred|add_child_ref|attach_child_ref)$"

        def mon(s, ev, q):
            st, done = s
            if ev.kind == "branch" and canon(q, ev.value) == "a1.supervised":
                return ("none" if ev.out in ("None",) else "some", done)
            if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".supervised":
                if st != "none":
                    return Bad("reset", "the children already supervised are discarded")
                d = canon(q, ev.value)
                if d != "Some{0:%s}" % "Supervised{actor_id:a1.boxed_ref.id,}" and not re.search(r"children:", d):
                    pass
                if n != "attach_child_ref" and not re.search(r"path:a1\.full_path", d):
                    return Bad("path", "children are supervised under %s" % d)
                return ("made", done)
            if called(ev, rx):
                args = [canon(q, x) for x in ev.args]
                if ev.path.split("::")[-1] != n:
                    return Bad("op", "the context performs %s" % ev.path)
                if n.startswith("spawn"):
                    if args[1:3] != ["a2", "a3"]:
                        return Bad("args", "the child spawned is %s" % args[1:3])
                    if args[4] != "a1.boxed_ref":
                        return Bad("parent", "the parent recorded for the child is %s" % args[4])
                elif args[1] != "a2":
                    return Bad("args", "the child recorded is %s" % args[1])
                if done:
                    return Bad("twice", "performed twice")
                return (st, True)
            if ev.kind == "leave" and ev.out and not done:
                return Bad("nothing", "the child is not supervised")
            return None
        c.watch(b, mon, (None, False), n, opaque=[rx])

    c.rule("child-stopped", "When a child terminates, the parent forgets exactly that child and its own hook is called "
           "with that id, once.")
    b = c.handler(r".", r"^coerce::actor::supervised::Terminated$")
    HOOK = r"coerce::actor::Actor::on_child_stopped$"

    def mon(s, ev, q):
        sup, rem, hook = s
        if ev.kind == "branch" and canon(q, ev.value) == "a3.supervised":
            return (ev.out, rem, hook)
        x = mutation(ev, q)
        if x and ".children" in x[1]:
            if x[0] != "remove" or x[2][0] != "a2.0":
                return Bad("remove", "the parent does %s %s on its children" % (x[0], x[2]))
            return (sup, True, hook)
        v = awaited(ev, q, HOOK)
        if v:
            if hook:
                return Bad("twice", "the hook runs twice")
            d = [canon(q, x) for x in v.a[2]]
            if d[0] != "a1" or d[1] != "a2.0":
                return Bad("args", "the hook is called with %s" % d)
            return (sup, rem, True)
        if ev.kind == "leave" and ev.out:
            if not hook:
                return Bad("hook", "the parent's hook is not called")
            if sup == "Some" and not rem:
                return Bad("kept", "the terminated child is kept")
        return None
    c.watch(b, mon, (None, False, False), "Terminated")

    c.rule("cascade", "When an actor ends, all of its children are stopped and their stop awaited before its own parent is "
           "told that it terminated; the parent is told exactly once, with the actor's own id.")
    b = c.method(r"ops::Drop$", r"ActorContext", "drop")
    STOPALL = r"supervised::Supervised::stop_all$"

    def mon(s, ev, q):
        sup, par, stopped, told = s
        if ev.kind == "branch":
            d = canon(q, ev.value)
            if d == "a1.supervised":
                return (ev.out, par, stopped, told)
            if d == "a1.boxed_parent_ref":
                return (sup, ev.out, stopped, told)
        if awaited(ev, q, STOPALL):
            return (sup, par, True, told)
        if ev.kind == "call" and not ev.inl and re.search(r"notify_child_terminated$", ev.path):
            if sup is None:
                return Bad("unknown", "the parent is told before looking whether there are children")
            if sup == "Some" and not stopped:
                return Bad("order", "the parent is told before the children stopped")
            if told:
                return Bad("twice", "the parent is told twice")
            if not canon(q, ev.args[0]).startswith("a1.boxed_parent_ref"):
                return Bad("whom", "%s is told about the termination" % canon(q, ev.args[0]))
            if not re.search(r"a1\.boxed_ref", canon(q, ev.args[1])):
                return Bad("who", "the parent is told that %s terminated" % canon(q, ev.args[1]))
            return (sup, par, stopped, True)
        if ev.kind == "leave" and ev.out:
            if sup == "Some" and not stopped:
                return Bad("children", "children are left running")
            if par == "Some" and not told:
                return Bad("parent", "the parent is not told")
            if par is None:
                return Bad("parent-unknown", "the parent is not consulted")
        return None
    outs = c.watch(b, mon, (None, None, False, False), "drop", opaque=[STOPALL] + API, spawn="inline")
    c.check(any(o.obs == ("Some", "Some", True, True) for o in outs), "drop:paths", "no path stops children and tells the parent")
    b = c.inherent(r"supervised::Supervised", "stop_all")
    allch = foreach(r"^a1\.children$", lambda ev, q: ev.kind == "call" and re.search(r"(BoxedActorRef|CoreActorRef).*::stop$", ev.path), "children", must=True)
    init, mon = combine(each=allch)
    c.watch(b, mon, init, "stop_all", opaque=API)
    outs = c.run(b, lambda ev, q: "joined" if ev.kind == "await" and "join_all" in canon(q, ev.value) else
                 "stopped" if ev.kind == "await" and "::stop(" in canon(q, ev.value) else None, opaque=API)
    c.check(any(has(o.obs, "joined", "stopped") for o in outs), "stop_all:awaited", "the stop of the children is not awaited")


# ------------------------------------------------------------------------------------------------------------ A06
@prop("A06")
def registry(c):
    S = r"scheduler::ActorScheduler"
    c.rule("registry", "The registry maps each id to the most recently registered reference: registering records exactly "
           "that reference, removal removes exactly that id, and lookup returns what is recorded for the id asked for.")

    def mon(s, ev, q):
        x = mutation(ev, q)
        if x and x[1] == "a1.actors":
            if x[0] != "insert" or x[2][0] != "a2.id" or x[2][1] != "BoxedActorRef{0:a2.actor_ref}":
                return Bad("record", "registering does %s %s" % (x[0], x[2]))
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("lost", "the registration is not recorded")
        return None
    c.watch(c.handler(S, r"RegisterActor<"), mon, "new", "RegisterActor", opaque=API)

    def mon(s, ev, q):
        x = mutation(ev, q)
        if x and x[1] == "a1.actors":
            if x[0] != "remove" or x[2][0] != "a2.0":
                return Bad("remove", "removal does %s %s" % (x[0], x[2]))
            return "done"
        if ev.kind == "leave" and ev.out and s != "done":
            return Bad("kept", "the id is not removed")
        return None
    c.watch(c.handler(S, r"DeregisterActor$"), mon, "new", "DeregisterActor")
    outs = c.run(c.handler(S, r"GetActor<"), lambda ev, q: None, opaque=[r"BoxedActorRef::as_actor"])
    for o in c.all(outs, "paths of GetActor"):
        r = c.ret(o)
        c.check(r == "None" or re.match(r"(Some\{0:)?BoxedActorRef::as_actor\(HashMap::get\(a1\.actors,a2\.id\)\?\)", r), "GetActor",
                "looking up an id returns %s" % r, out=o)
    c.check(any("as_actor" in c.ret(o) for o in outs), "GetActor:found", "lookup never returns an actor")
    b = c.inherent(r"refs::BoxedActorRef", "as_actor")
    outs = c.run(b, lambda ev, q: None)
    c.check(bool(outs), "as_actor:paths", "as_actor has no path")
    outs = c.run(c.inherent(r"system::ActorSystem", "get_tracked_actor"),
                 lambda ev, q: (message(ev, q)[0], canon(q, message(ev, q)[1]), canon(q, message(ev, q)[2])) if message(ev, q) else
                 ("res", ev.out) if ev.kind == "branch" and "LocalActorRef::send" in canon(q, ev.value) else None, opaque=API[:8])
    for o in c.all(outs, "paths of get_tracked_actor"):
        mm = [x for x in o.obs if x[0] in ("send", "notify")]
        c.check(len(mm) == 1 and mm[0][1] == "a1.core.scheduler" and re.match(r"GetActor\{id:a2,", mm[0][2]), "get_tracked_actor",
                "the lookup asks %s" % mm, out=o)
        r = c.ret(o)
        c.check(r.startswith("LocalActorRef::send(") if ("res", "Ok") in o.obs else r == "None" or r.startswith("LocalActorRef::send"),
                "get_tracked_actor:ret", "the lookup returns %s" % r, out=o)
    c.rule("writers", "Only the registry's own handlers change the registry.")
    rx = r"HashMap::<.*(ActorId|Arc<str>), coerce::actor::refs::BoxedActorRef.*>::(insert|remove|clear|retain|drain|remove_entry)$"
    allowed = {c.handler(S, r"RegisterActor<").id, c.handler(S, r"DeregisterActor$").id}
    for b, l, p in callers(c.p, r"HashMap::<.*>::(insert|remove|clear|retain|drain|remove_entry|entry)$"):
        if ".actors" in str(b.names) and "scheduler" in b.id:
            c.check(only_via(c.p, b, lambda r: any(r.startswith(root_fn(a)) for a in allowed)), short(b.id), "%s changes the registry" % b.id)

    c.rule("shutdown", "Shutting the system down marks it terminated, then stops the registry actor and waits for it; the "
           "registry's stopped hook stops every tracked actor and waits for each.")
    b = c.inherent(r"system::ActorSystem", "shutdown")

    def mon(s, ev, q):
        flag, stopped = s
        if called(ev, r"Atomic.*::store$"):
            if canon(q, ev.args[0]) == "a1.core.is_terminated" and canon(q, ev.args[1]) in ("True", "true", "1"):
                return (True, stopped)
            return Bad("flag", "the terminated flag is set to %s" % canon(q, ev.args[1]))
        mm = message(ev, q)
        if mm and msgname(q, mm[2]) == "<stop>" and canon(q, mm[1]) == "a1.core.scheduler":
            if not flag:
                return Bad("order", "the registry is stopped before the system is marked terminated")
            if mm[0] != "send":
                return Bad("wait", "shutdown does not wait for the registry to stop")
            return (flag, True)
        if ev.kind == "leave" and ev.out and not (flag and stopped):
            return Bad("incomplete", "shutdown returns with terminated=%s, registry stopped=%s" % (flag, stopped))
        return None
    c.watch(b, mon, (False, False), "shutdown", opaque=API + [r"RemoteActorSystem::shutdown$"])
    b = c.method(r"actor::Actor$", S, "stopped")
    init, mon = combine(each=foreach(r"^a1\.actors$", lambda ev, q: ev.kind == "call" and re.search(r"::stop$", ev.path), "tracked actors", must=True))
    c.watch(b, mon, init, "stopped", opaque=API)
    outs = c.run(b, lambda ev, q: "joined" if ev.kind == "await" and ("join_all" in canon(q, ev.value) or "::stop(" in canon(q, ev.value)) else None, opaque=API)
    c.check(any(has(o.obs, "joined") for o in outs), "stopped:awaited", "the stop of tracked actors is not awaited")


# ------------------------------------------------------------------------------------------------------------ A07
TRYRECV = r"oneshot::Receiver::<.*>::try_recv$"


def end_of(q, t):
    """the call that made the channel one end of which is given"""
    t = strip(q, t)
    while t.tag == "fld":
        t = strip(q, t.a[0])
    return t if t.tag == "call" else None


@prop("A07")
def timers(c):
    c.rule("loop", "A timer delivers its message once per elapsed tick to its actor, never after it was stopped or its "
           "handle was dropped (re-examined before every delivery), and ends when the actor is gone.")
    for n, imm in (("start", False), ("start_immediately", True)):
        b = c.inherent(r"timer::Timer", n)

        def mon(s, ev, q):
            ticked, live, res, sig, n = s
            if awaited(ev, q, r"Interval::tick$"):
                if ticked and (live == "live" or n):
                    return Bad("missed", "a tick elapses without a delivery although the timer runs")
                return (True, None, res, sig, n)
            if called(ev, r"oneshot::Receiver::<.*>::try_recv$"):
                return (ticked, live, res, end_of(q, ev.args[0]), n)
            if ev.kind == "branch":
                d = canon(q, ev.value)
                if d.startswith("Receiver::try_recv(oneshot::channel().1"):
                    if ev.out == "Ok":
                        return (ticked, "stopped", res, sig, n)
                    if ev.out == "Err":
                        return (ticked, "unset" if live != "stopped" else live, res, sig, n)
                    if ev.out == "Empty":
                        return (ticked, "live", res, sig, n)
                    if ev.out == "Closed":
                        return (ticked, "stopped", res, sig, n)
                if re.match(r"LocalActorRef::(send|notify)\(a1,a3", d):
                    return (ticked, live, ev.out, sig, n)
            mm = message(ev, q)
            if mm:
                if canon(q, mm[1]) != "a1" or canon(q, mm[2]) != "a3":
                    return Bad("what", "the timer delivers %s to %s" % (canon(q, mm[2]), canon(q, mm[1])))
                if not ticked:
                    return Bad("untimed", "a delivery happens without waiting for a tick")
                if live != "live":
                    return Bad("stopped" if live else "unchecked", "a delivery happens although the timer was stopped or its handle dropped"
                               if live else "a delivery happens without examining whether the timer was stopped")
                if res == "Err":
                    return Bad("dead", "deliveries go on after the actor is gone")
                return (False, None, res, sig, True)
            if ev.kind == "leave" and ev.out:
                if live == "live" and res != "Err":
                    return Bad("ends", "the timer ends although neither it nor its actor stopped")
                h = end_of(q, fld(q.val(ev.value), ".stop"))
                if sig is not None and h is not None and sig is not h:
                    return Bad("signal", "stopping the handle does not reach the timer's task: it listens on another channel")
            return None
        outs = c.watch(b, mon, (False, None, None, None, False), n, opaque=API, spawn="inline")
        c.check(any(o.obs[1] == "stopped" for o in outs) and any(o.obs[2] == "Err" for o in outs), n + ":paths", "paths: %s" % {o.obs for o in outs})
        for o in outs:
            c.check(re.match(r"Timer\{stop:oneshot::channel\(\)\.0\}", c.ret(o)) is not None, n + ":handle", "the handle is %s" % c.ret(o), out=o)
        outs = c.run(b, lambda ev, q: ("interval", canon(q, ev.args[0]), canon(q, ev.args[1])) if called(ev, r"^tokio::time::interval_at$") else None,
                     opaque=API, spawn="inline")
        for o in outs:
            w = [x for x in o.obs if x[0] == "interval"]
            c.check(len(w) == 1 and w[0][2] == "a2" and (("a2" in w[0][1]) != imm), n + ":interval", "the ticks are %s" % (w,), out=o)
    c.rule("stop", "Stopping a timer signals its task.")
    outs = c.run(c.inherent(r"timer::Timer", "stop"), lambda ev, q: ("sig", canon(q, ev.args[0]), canon(q, ev.args[1])) if called(ev, ONESHOT) else None)
    for o in c.all(outs, "paths of Timer::stop"):
        c.check(o.obs and o.obs[0][1] == "a1.stop", "stop", "stopping a timer does %s" % (o.obs,), out=o)
    c.rule("scheduled", "A scheduled message is delivered once, to its actor, only after the full delay elapsed, and not when it was "
           "cancelled first; cancelling through the handle reaches that message.")
    b = c.inherent(r"LocalActorRef<", "scheduled_notify")

    tok = {}

    def mon(s, ev, q):
        v = awaited(ev, q, r"CancellationToken::cancelled$")
        if v:
            tok["t"] = strip(q, v.a[2][0])
        if ev.kind == "leave" and ev.out and s == "cancelled":
            h = strip(q, fld(q.val(ev.value), ".cancellation_token"))
            if h.tag == "call" and tok.get("t") is not None and tok["t"].tag == "call" and h is not tok["t"]:
                return Bad("unreached", "cancelling through the handle does not reach the scheduled message: it waits on another token")
        v = awaited(ev, q, r"^tokio::time::sleep$")
        if v:
            if canon(q, v.a[2][0]) != "a3":
                return Bad("delay", "the delay waited for is %s" % canon(q, v.a[2][0]))
            return "elapsed"
        if awaited(ev, q, r"CancellationToken::cancelled$"):
            return "cancelled"
        mm = message(ev, q)
        if mm:
            if s != "elapsed":
                return Bad(s, "the message is delivered in state %s" % s)
            if canon(q, mm[1]) != "a1" or canon(q, mm[2]) != "a2":
                return Bad("what", "%s is delivered to %s" % (canon(q, mm[2]), canon(q, mm[1])))
            return "sent"
        if ev.kind == "leave" and ev.out and s not in ("sent", "cancelled"):
            return Bad("lost", "the scheduled message is dropped in state %s" % s)
        return None
    outs = c.watch(b, mon, "new", "scheduled_notify", opaque=API[:-3], spawn="inline")
    c.check({o.obs for o in outs if o.kind == "return"} == {"sent", "cancelled"}, "scheduled:paths", "outcomes: %s" % {o.obs for o in outs})
    for o in outs:
        if o.kind == "return":
            c.check("cancellation_token:CancellationToken::new()" in c.ret(o), "scheduled:handle", "the handle is %s" % c.ret(o), out=o)
    outs = c.run(c.inherent(r"ScheduledNotify", "cancel"), lambda ev, q: ("c", canon(q, ev.args[0])) if called(ev, r"CancellationToken::cancel$") else None)
    for o in c.all(outs, "paths of cancel"):
        c.check(o.obs == (("c", "a1.cancellation_token"),), "cancel", "cancelling does %s" % (o.obs,), out=o)


# ------------------------------------------------------------------------------------------------------------ A08
@prop("A08")
def watching(c):
    c.rule("messages", "Watching registers the watching actor's own reference with the subject; unwatching withdraws the watcher's own id.")
    W = [x for x in c.p.impl_method(r"watch::ActorWatch", r".", "watch")]
    U = [x for x in c.p.impl_method(r"watch::ActorWatch", r".", "unwatch")]
    for k, b, pat in (("watch", c.one(W, "ActorWatch::watch"), r"Watch\{receiver:Receiver\{0:.*(actor_ref|a3).*"),
                      ("unwatch", c.one(U, "ActorWatch::unwatch"), r"Unwatch\{watcher_id:.*a3\.boxed_ref.*\}")):
        outs = c.run(b, lambda ev, q: message(ev, q) and (message(ev, q)[0], canon(q, message(ev, q)[1]), canon(q, message(ev, q)[2])), opaque=API)
        for o in c.all(outs, "paths of " + k):
            c.check(len(o.obs) == 1 and o.obs[0][1] == "a2" and re.fullmatch(pat, o.obs[0][2]), k, "%s sends %s" % (k, o.obs), out=o)
    c.rule("table", "The subject keeps one entry per watcher id: watching adds exactly that watcher, unwatching removes exactly that "
           "watcher, and neither disturbs the others.")
    for k, mrx, op, arg in (("Watch", r"watch::Watch$", "insert", r".*a2\.receiver.*"), ("Unwatch", r"watch::Unwatch$", "remove", r"a2\.watcher_id")):
        b = c.handler(r".", mrx)

        def mon(s, ev, q):
            x = mutation(ev, q)
            if x and re.search(r"\.watchers|HashMap::(default|new)\(\)", x[1]):
                if x[0] != op or not re.fullmatch(arg, x[2][0]):
                    return Bad("op", "%s does %s %s" % (k, x[0], x[2]))
                if op == "insert" and x[2][1] != "a2.receiver":
                    return Bad("value", "the watcher recorded is %s" % x[2][1])
                return "done"
            if ev.kind == "branch" and canon(q, ev.value) == "a3.watchers":
                return "done" if op == "remove" and str(ev.out) == "None" else None
            y = member(ev, q)
            if y and op == "remove" and y[1] == "a2.watcher_id" and y[2] is False:
                return "done"
            if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".watchers":
                v = q.val(ev.value)
                if canon(q, ev.value) == "None":
                    return Bad("reset", "the watchers are discarded")
            if ev.kind == "leave" and ev.out and s != "done":
                return Bad("lost", "%s has no effect" % k)
            return None
        c.watch(b, mon, "new", k)
    b = c.inherent(r"watchers::Watchers", "iter")
    outs = c.run(b, lambda ev, q: None)
    for o in c.all(outs, "paths of Watchers::iter"):
        v = o.value if hasattr(o, "value") else None
        part = [a[0] for a in v.a[1] if a[0] in RESTRICT] if v is not None and v.tag == "iter" else []
        c.check(not part and re.search(r"a1\.watchers$|values\(a1\.watchers\)", c.ret(o)) is not None, "iter", "iterating the watchers yields %s" % c.ret(o), out=o)
    b = c.inherent(r"ActorContext", "watchers_mut")
    outs = c.run(b, lambda ev, q: ("has", ev.out) if ev.kind == "branch" and canon(q, ev.value) == "a1.watchers" else
                 "set" if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".watchers" else None)
    for o in c.all(outs, "paths of watchers_mut"):
        c.check(not (has(o.obs, "set") and ("has", "None") not in o.obs), "watchers_mut", "existing watchers are discarded", out=o)


# ------------------------------------------------------------------------------------------------------------ A09
@prop("A09")
def workers(c):
    c.rule("rotate", "Each task goes to exactly one worker, the one at the front of the pool, which then moves to the back; the pool never "
           "shrinks; the worker's answer, if any, goes to the task's sender unchanged.")
    b = c.handler(r"worker::Worker<", r"WorkerMessage<")

    def mon(s, ev, q):
        popped, back, sent, rep = s
        x = mutation(ev, q)
        if x and x[1] == "a1.workers":
            if x[0] in ("pop_front",):
                return (None, back, sent, rep)
            if x[0] == "push_back":
                if not re.fullmatch(r"each\(a1\.workers\)", x[2][0]):
                    return Bad("pushed", "what is put back is %s" % x[2])
                if back:
                    return Bad("order", "more than one worker is moved to the back of the pool")
                return (popped, True, sent, rep)
            if x[0] == "rotate_left":
                if back:
                    return Bad("order", "more than one worker is moved to the back of the pool")
                return (popped, True, sent, rep)
            return Bad("order", "the pool is changed by %s" % x[0])
        if ev.kind == "next":
            return (ev.out, back, sent, rep)
        mm = message(ev, q)
        if mm:
            if sent:
                return Bad("twice", "the task is sent twice")
            if not re.fullmatch(r"each\(a1\.workers\)|.*a1\.workers.*", canon(q, mm[1])) or canon(q, mm[2]) != "a2.message":
                return Bad("what", "%s is sent to %s" % (canon(q, mm[2]), canon(q, mm[1])))
            return (popped, back, True, rep)
        if ev.kind == "branch" and canon(q, ev.value).startswith("LocalActorRef::send("):
            return (popped, back, ev.out, rep)
        if called(ev, ONESHOT):
            if canon(q, ev.args[0]) != "a2.res_tx" or not re.fullmatch(r"LocalActorRef::send\(each\(a1\.workers\),a2\.message\)\?", canon(q, ev.args[1])):
                return Bad("answer", "%s is answered with %s" % (canon(q, ev.args[0]), canon(q, ev.args[1])))
            return (popped, back, sent, True)
        if ev.kind == "leave" and ev.out:
            if popped == "Some" and not back:
                return Bad("shrunk", "the worker is not put back into the pool")
            if popped == "Some" and not sent:
                return Bad("lost", "the task is not sent to a worker")
            if sent == "Ok" and not rep:
                return Bad("answer-lost", "the worker's answer is dropped")
        return None
    outs = c.watch(b, mon, (None, False, False, False), "WorkerMessage", opaque=API, spawn="inline")
    c.check(any(o.obs[3] for o in outs), "paths", "no path answers the task's sender")
    c.rule("dispatch", "Dispatching returns the worker's answer, or an error when the task could not be handed over or was never answered.")
    b = c.one(c.p.impl_method(r"worker::WorkerRefExt<", r"LocalActorRef<", "dispatch"), "WorkerRefExt::dispatch")
    outs = c.run(b, lambda ev, q: ("send", canon(q, message(ev, q)[1]), canon(q, message(ev, q)[2])) if message(ev, q) else
                 ("res", ev.out) if ev.kind == "branch" and canon(q, ev.value).startswith("oneshot::channel().1") else
                 ("sent", ev.out) if ev.kind == "branch" and canon(q, ev.value).startswith("LocalActorRef::send") else None, opaque=API)
    for o in c.all(outs, "paths of dispatch"):
        r = c.ret(o)
        c.check(has(o.obs, "send") and o.obs[0] == ("send", "a1", "WorkerMessage{message:a2,res_tx:oneshot::channel().0}"), "what", "dispatch sends %s" % (o.obs[:1],), out=o)
        if ("sent", "Err") in o.obs:
            c.check(r.startswith("Err{0:LocalActorRef::send("), "err", "a failed hand-over returns %s" % r, out=o)
        elif ("res", "Ok") in o.obs:
            c.check(r == "Ok{0:oneshot::channel().1?}", "ok", "an answered task returns %s" % r, out=o)
        else:
            c.check(r == "Err{0:ResultChannelClosed}", "closed", "an unanswered task returns %s" % r, out=o)
    c.rule("pool", "A pool is created with the requested number of workers, each started before the pool is handed out; a failure to start one is reported.")
    b = c.inherent(r"worker::Worker<", "new")

    def mon(s, ev, q):
        ph, fail = s
        if ev.kind == "next":
            d = canon(q, ev.value)
            if "Range" in d or "a2" in d:
                z = re.search(r"start:(.*?),end:(.*?)[,}]", d) or re.search(r"RangeInclusive::new\((.*?),(.*)\)", d)
                if z and (z.group(1), z.group(2), "Inclusive" in d) not in (("0", "a2", False), ("1", "a2", True)):
                    return Bad("count", "workers are created for %s" % d)
                if ph == "started":
                    return Bad("unpooled", "a started worker is not put in the pool")
                if fail:
                    return Bad("hidden", "the pool is built without a worker that failed to start")
                return ("each" if ev.out == "Some" else "all", fail)
        if ev.kind == "branch" and re.search(r"\(.* (Lt|Le|Gt|Ge|Ne|Eq) .*\)", canon(q, ev.value)) and "a2" in canon(q, ev.value):
            if ph == "started":
                return Bad("unpooled", "a started worker is not put in the pool")
            if fail:
                return Bad("hidden", "the pool is built without a worker that failed to start")
            return ("loop", fail)
        if ev.kind == "branch" and canon(q, ev.value).startswith("ActorSystem::new_actor"):
            if ev.out in ("Err", "Break"):
                return (ph, True)
            if ph in ("each", "loop"):
                return ("started", fail)
        x = mutation(ev, q)
        if x and x[0] == "push_back":
            return ("pooled", fail)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value)
            if fail and not r.startswith("Err") and "new_actor" not in r:
                return Bad("hidden", "a failed worker start yields %s" % r)
            if not fail and ph not in ("all", "loop"):
                return Bad("partial", "the pool is handed out before all workers are created (%s)" % ph)
        return None
    c.watch(b, mon, ("new", False), "Worker::new", opaque=API)


# ------------------------------------------------------------------------------------------------------------ A10
@prop("A10")
def describing(c):
    c.rule("answer", "A describe request is answered exactly once with the actor's own id, path, type, context id and tags; children are "
           "described only within the requested depth, and the answer then carries what they reported.")
    b = c.handler(r".", r"describe::Describe$")

    def mon(s, ev, q):
        if called(ev, ONESHOT) and re.search(r"a2\.sender", canon(q, ev.args[0])):
            if s != "new":
                return Bad("twice", "the request is answered twice")
            v = strip(q, ev.args[1])
            d = {f: canon(q, fld(v, "." + f)) for f in ("actor_id", "path", "actor_context_id", "tags", "actor_type_name", "supervised")}
            if not re.search(r"a3\.boxed_ref|a3\)", d["actor_id"]) or d["path"] != "a3.full_path" or d["actor_context_id"] != "a3.context_id" \
                    or not re.match(r"Actor::tags\(a1,a3\)", d["tags"]) or "type_name" not in d["actor_type_name"]:
                return Bad("content", "the description is %s" % d)
            return "answered"
        if ev.kind == "leave" and ev.out and s != "answered":
            return Bad("unanswered", "the request is not answered")
        return None
    outs = c.watch(b, mon, "new", "Describe", opaque=API + [r"describe::describe_all$"], spawn="inline")

    def lab(ev, q):
        if called(ev, r"describe::describe_all$"):
            return ("all", canon(q, ev.args[1]))
        if called(ev, ONESHOT):
            v = strip(q, ev.args[1])
            return ("ans", canon(q, fld(v, ".supervised")))
        if ev.kind == "branch" and "max_depth" in canon(q, ev.value):
            return ("depth", canon(q, ev.value), str(ev.out))
        return None
    outs = c.run(b, lab, opaque=API + [r"describe::describe_all$"], spawn="inline")
    n = 0
    for o in outs:
        a = [x for x in o.obs if x[0] == "all"]
        r = [x for x in o.obs if x[0] == "ans"]
        if a:
            n += 1
            c.check(a[0][1] == "(a2.current_depth Add 1)", "depth", "children are asked at depth %s" % a[0][1], out=o)
            c.check(r and "describe_all" in r[0][1], "children", "the children's answers are not part of the answer (%s)" % (r,), out=o)
            dd = [x for x in o.obs if x[0] == "depth" and ("Lt" in x[1] or "Gt" in x[1] or "Ge" in x[1] or "Le" in x[1])]
            for x in dd:
                ok = (re.search(r"max_depth\? Lt \(a2\.current_depth Add 1\)", x[1]) and x[2] == "False") or \
                     (re.search(r"max_depth\? Ge \(a2\.current_depth Add 1\)", x[1]) and x[2] == "True") or \
                     (re.search(r"\(a2\.current_depth Add 1\) Gt .*max_depth", x[1]) and x[2] == "False") or \
                     (re.search(r"\(a2\.current_depth Add 1\) Le .*max_depth", x[1]) and x[2] == "True")
                c.check(ok, "limit", "children are described beyond the requested depth (%s = %s)" % x[1:], out=o)
            c.check(bool(dd) or any(x[0] == "depth" and x[2] == "None" for x in o.obs), "limit-unchecked", "children are described without consulting the depth limit", out=o)
    c.check(n > 0, "children:paths", "no path describes the children")

    c.rule("children", "Every child asked yields exactly one entry: its description, an error when it is gone or drops the request, or a timeout.")
    b = c.fn("coerce::actor::describe::describe_all")
    allch = foreach(r"^a1$", lambda ev, q: ev.kind == "call" and re.search(r"::describe$", ev.path) and canon(q, ev.args[0]) == "each(a1)", "actors asked", must=True)
    init, mon = combine(each=allch)
    c.watch(b, mon, init, "describe_all", opaque=API)
    outs = c.run(b, lambda ev, q: ("sent", ev.out) if ev.kind == "branch" and re.search(r"::describe\(each\(a1\)", canon(q, ev.value)) else
                 "timeout" if ev.kind == "timeout" else
                 ("rx", ev.out) if ev.kind == "branch" and re.fullmatch(r"oneshot::channel\(\)\.1\??", canon(q, ev.value)) else
                 ("q", canon(q, q.fld(ev.args[1], "current_depth")), canon(q, q.fld(ev.args[1], "sender"))) if ev.kind == "call" and re.search(r"::describe$", ev.path) else None, opaque=API, dedupe=True)
    for o in c.all(outs, "paths of describe_all"):
        for x in o.obs:
            if x[0] == "q":
                c.check(x[1:] == ("a2", "Some{0:oneshot::channel().0}"), "request", "children are asked with %s" % (x,), out=o)
    c.rule("visible", "Attached children are described only when asked for, and the number of children is limited only by the requested maximum.")
    b = c.fn("coerce::actor::describe::get_describable_actors")

    def mon(s, ev, q):
        lim, att, el = s
        if ev.kind == "branch":
            d = canon(q, ev.value)
            if d == "a3":
                return (ev.out, att, el)
            if d == "a2":
                return (lim, ev.out, el)
            if d.endswith(".child_type") and el is not None:
                return (lim, att, ev.out)
        if ev.kind == "next":
            for a in (ev.loc.a[0] if ev.loc else ()):
                if a[0] in RESTRICT:
                    if a[0] != "take":
                        return Bad("restrict", "children are restricted by %s" % a[0])
                    n = canon(q, a[1])
                    if lim == "None" and not re.search(r"MAX|18446744073709551615", n):
                        return Bad("limit", "without a requested maximum, %s children are described" % n)
                    if lim == "Some" and n != "a3?":
                        return Bad("limit", "the number of children described is %s" % n)
            if el in ("?", "Spawned"):
                return Bad("skipped", "a child that should be described is left out")
            return (lim, att if att is not None else None, "?" if ev.out == "Some" else None)
        if ev.kind == "collect" or (mutation(ev, q) or [0])[0] == "push":
            if att is not True and el not in ("Spawned", "!Attached"):
                return Bad("attached", "an attached child is described although not asked for")
            d = canon(q, ev.value if ev.kind == "collect" else ev.args[1])
            if not d.endswith(".actor_ref"):
                return Bad("what", "what is described is %s" % d)
            return (lim, att, "done")
        return None
    c.watch(b, mon, (None, None, None), "get_describable_actors")
    c.rule("registry", "Describing all actors asks every registered actor and the registry itself, and sends the collected answers.")
    b = c.handler(r"ActorScheduler", r"describe::DescribeAll$")
    outs = c.run(b, lambda ev, q: ("ask", canon(q, ev.args[0])) if called(ev, r"describe::describe_all$") else
                 ("ans", canon(q, ev.args[0]), canon(q, ev.args[1])) if called(ev, ONESHOT) else None, opaque=API + [r"describe::describe_all$"], spawn="inline")
    for o in c.all(outs, "paths of DescribeAll"):
        a = [x for x in o.obs if x[0] == "ask"]
        r = [x for x in o.obs if x[0] == "ans"]
        c.check(len(a) == 1 and "a1.actors" in a[0][1] and "a3.boxed_ref" in a[0][1], "who", "describing all asks %s" % (a,), out=o)
        c.check(len(r) == 1 and r[0][1] == "a2.sender" and r[0][2].startswith("describe::describe_all("), "answer", "describing all answers %s" % (r,), out=o)
