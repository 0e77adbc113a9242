"""Cluster singletons: the proxy users talk to, the lease that keeps a singleton single, announcing where it runs."""
from rules import *
from net import truth
from shard import fields, notified, fmtid, wrote
from remote import NOCONV

MAN = r"singleton::manager::Manager(<.*>)?$"
PROXY = r"singleton::proxy::Proxy(<.*>)?$"
GOP = [x for x in API if "PipeTo" not in x] + CTXAPI + [r"Display.*::fmt$", r"NodeSelector>?::includes$"]
STATES = ("Joining", "Idle", "Starting", "Running", "Stopping")
EVENT = "a2.0@Cluster.0"
SELF = r"actor_ref\(a3\)"


def sfact(st):
    return {T("fld", T("arg", 1), ".state"): ("is", st)}


@prop("G01")
def proxy(c):
    c.rule("ask", "Singleton::send hands the message to the proxy of this node together with a channel and returns what comes out of that channel; when the proxy cannot be reached, or the channel is dropped, that is returned as an error. "
           "Singleton::notify hands it over without a channel.")
    for name in ("send", "notify"):
        b = c.inherent(r"singleton::Singleton(<.*>)?$", name)

        def mon(s, ev, q, name=name):
            f = notified(ev, q, "Deliver")
            if f:
                if s:
                    return Bad("twice", "the message is handed over twice")
                if f[0] != "a1.proxy" or f[1].get("message") != "Some{0:a2}":
                    return Bad("what", "%s is handed to %s" % (f[1].get("message"), f[0]))
                ch = f[1].get("result_channel")
                if name == "send" and not re.match(r"^Some\{0:oneshot::channel\(\)\.0\}$", ch or "") or name == "notify" and ch != "None":
                    return Bad("channel", "%s passes the channel %s" % (name, ch))
                return "given"
            if ev.kind == "panic":
                return Bad("panic", "%s panics" % name)
            if ev.kind == "branch" and s == "given" and re.search(r"notify\(a1\.proxy", canon(q, ev.value)) and str(ev.out) == "Err":
                return "refused"
            if ev.kind == "branch" and s == "given" and canon(q, ev.value).endswith("channel().1") and str(ev.out) == "Err":
                return "dropped"
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value, 9)
                if not s:
                    return Bad("silent", "the message is not handed to the proxy")
                if name == "notify":
                    if not re.search(r"notify\(a1\.proxy", r) and not (s == "refused" and r.startswith("Err")):
                        return Bad("result", "notify returns %s" % r)
                elif s == "given":
                    if not re.match(r"^(Ok\{0:)?oneshot::channel\(\)\.1\?", r):
                        return Bad("result", "send returns %s" % r)
                elif not r.startswith("Err") and not (s == "refused" and re.search(r"notify\(a1\.proxy", r)):
                    return Bad("error", "a request that failed (%s) returns %s" % (s, r))
            return None
        c.watch(b, mon, None, name, opaque=GOP)

    c.rule("deliver", "While the singleton is not known to run, a message is appended to the proxy's queue and nothing is sent; while it is, the message is sent to it once and its result goes to the channel the caller waits on, if there is one. A message is never dropped and its delivery never panics.")
    b = c.handler(PROXY, r"send::Deliver$|send::Deliver<")
    for st in ("Buffered", "Active"):
        def mon1(s, ev, q, st=st):
            sent, queued, ch, ans = s
            y = mutation(ev, q)
            if y and "request_queue" in y[1]:
                if y[0] not in ("push_back", "push") or y[2] != ["a2"]:
                    return Bad("queue", "a message arriving does %s(%s) on the queue" % (y[0], ", ".join(y[2])))
                if queued or st == "Active":
                    return Bad("queue", "a message is queued %s" % ("twice" if queued else "although the singleton runs"))
                return (sent, True, ch, ans)
            x = message(ev, q)
            if x:
                if canon(q, x[1]) != "a1.state@Active.actor_ref" or canon(q, x[2]) not in ("a2.message?", "a2.message"):
                    return Bad("send", "%s is sent to %s" % (canon(q, x[2]), canon(q, x[1])))
                if sent:
                    return Bad("twice", "a message is sent twice")
                return (x[0], queued, ch, ans)
            if ev.kind == "branch" and canon(q, ev.value) == "a2.result_channel":
                return (sent, queued, str(ev.out), ans)
            if called(ev, ONESHOT):
                t = canon(q, ev.args[1], 9)
                if not canon(q, ev.args[0]).startswith("a2.result_channel") or not re.search(r"send\(a1\.state@Active\.actor_ref,a2\.message", t):
                    return Bad("answer", "%s goes to %s" % (t, canon(q, ev.args[0])))
                return (sent, queued, ch, True)
            if ev.kind == "panic" or ev.kind == "branch" and canon(q, ev.value) == "a2.message" and str(ev.out) == "None":
                return Bad("panic", "delivering a message panics") if ev.kind == "panic" else "STOP"
            if ev.kind == "leave" and ev.out:
                if st == "Buffered" and not queued:
                    return Bad("lost", "a message that arrives before the singleton started is not kept")
                if st == "Active" and not sent:
                    return Bad("lost", "a message for the running singleton is not sent to it")
                if st == "Active" and ch != "None" and not ans:
                    return Bad("unanswered", "the result of a message is not passed to the caller waiting for it")
            return None
        c.watch(b, mon1, (None, False, None, False), "deliver:" + st, opaque=GOP, spawn="inline", facts=sfact(st), panics=True)
    for b in c.all(c.p.impl_method(r"proxy::send::Buffered(<.*>)?$", r"send::Deliver", "send"), "Buffered for Deliver"):
        def mon2(s, ev, q):
            x = message(ev, q)
            if x:
                if canon(q, x[1]) != "a2" or canon(q, x[2]) not in ("a1.message?", "a1.message"):
                    return Bad("send", "%s is sent to %s" % (canon(q, x[2]), canon(q, x[1])))
                return ("sent", s[1], s[2]) if s[0] != "sent" else Bad("twice", "a queued message is sent twice")
            if ev.kind == "branch" and canon(q, ev.value) == "a1.result_channel":
                return (s[0], str(ev.out), s[2])
            if called(ev, ONESHOT):
                if not re.search(r"send\(a2,a1\.message", canon(q, ev.args[1], 9)):
                    return Bad("answer", "the caller receives %s" % canon(q, ev.args[1], 9))
                return (s[0], s[1], True)
            if ev.kind == "branch" and canon(q, ev.value) == "a1.message" and str(ev.out) == "None":
                return "STOP"
            if ev.kind == "panic":
                return Bad("panic", "delivering a queued message panics")
            if ev.kind == "leave" and ev.out:
                if s[0] != "sent":
                    return Bad("lost", "a queued message is not sent")
                if s[1] != "None" and not s[2]:
                    return Bad("unanswered", "the result of a queued message is not passed to the caller waiting for it")
            return None
        c.watch(b, mon2, ("", None, False), "queued", opaque=GOP, spawn="inline", panics=True)

    c.rule("started", "When the singleton is known to have started, every queued message is sent to it, oldest first, and from then on the proxy sends to that singleton. When it moves, the proxy sends to the new one.")
    b = c.handler(PROXY, r"proxy::SingletonStarted$|proxy::SingletonStarted<")
    for st in ("Buffered", "Active"):
        def mon3(s, ev, q, st=st):
            ph, act = s
            if ev.kind == "next" and "request_queue" in canon(q, ev.value):
                if any(a[0] in RESTRICT or a[0] == "rev" for a in (ev.loc.a[0] if ev.loc else ())):
                    return Bad("partial", "the queued messages are sent in part or in another order")
                if ph == "held":
                    return Bad("lost", "a queued message is not sent")
                return ("held" if str(ev.out) == "Some" else "empty", act)
            y = mutation(ev, q)
            if y and "request_queue" in y[1] and y[0] in ("pop_back", "clear", "truncate", "split_off", "pop", "retain", "swap_remove_back", "push_front", "push_back"):
                return Bad("queue", "the queue is subject to %s" % y[0])
            if called(ev, r"send::Buffered(::<.*>)?::send$|as .*Buffered<.*>>::send$|Deliver.*::deliver$"):
                if ph != "held":
                    return Bad("twice", "a queued message is sent twice")
                if canon(q, ev.args[1]) != "a2.actor_ref":
                    return Bad("where", "a queued message is sent to %s" % canon(q, ev.args[1]))
                return ("sent", act)
            if ev.kind == "branch":
                t = canon(q, ev.value, 9)
                z = re.match(r"^\(VecDeque::len\(.*request_queue\) (Gt|Eq|Ne) 0\)$", t)
                e = re.search(r"VecDeque::is_empty\(.*request_queue\)$", t)
                if (z or e) and truth(ev) is not None and ph == "start":
                    some = (z.group(1) != "Eq") == truth(ev) if z else truth(ev) == t.startswith("Not(")
                    return (ph, act) if some else ("empty", act)
            if wrote(ev, "state"):
                v = canon(q, ev.value, 9)
                if v.startswith("Active") and v != "Active{actor_ref:a2.actor_ref}":
                    return Bad("where", "the proxy becomes %s" % v)
                return (ph, v)
            if ev.kind == "leave" and ev.out:
                if st == "Buffered" and ph != "empty":
                    return Bad("lost", "queued messages are left unsent")
                if not (act or "").startswith("Active"):
                    return Bad("inactive", "the proxy does not send to the singleton that started")
            return None
        c.watch(b, mon3, ("start", None), "started:" + st, opaque=GOP, facts=sfact(st))

    c.rule("stopping", "When the singleton stops, the proxy goes back to keeping messages; messages it keeps already stay kept. A new proxy keeps messages.")
    b = c.handler(PROXY, r"proxy::SingletonStopping$")
    for st in ("Buffered", "Active"):
        def mon4(s, ev, q, st=st):
            y = mutation(ev, q)
            if y and "request_queue" in y[1]:
                return Bad("queue", "the queue is subject to %s" % y[0])
            if wrote(ev, "state"):
                v = canon(q, ev.value, 9)
                if st == "Buffered" and "a1.state@Buffered.request_queue" not in v:
                    return Bad("lost", "messages kept for the singleton are dropped")
                return v
            if ev.kind == "leave" and ev.out and st == "Active" and not (s or "").startswith("Buffered"):
                return Bad("active", "the proxy goes on sending to a singleton that stopped")
            return None
        c.watch(b, mon4, None, "stopping:" + st, opaque=GOP, facts=sfact(st))
    b = c.inherent(PROXY, "new")
    for o in c.run(b, None):
        if o.kind == "return":
            c.check("state:Buffered" in c.ret(o, 9), "new", "a new proxy is %s" % c.ret(o, 9), out=o)


def starting(ev, q):
    """[arguments] when a singleton is started here"""
    v = awaited(ev, q, r"into_actor$|ActorSystem>?::new_\w*actor\w*$")
    if v and any("SingletonFactory::create(" in canon(q, x, 6) or ".factory" in canon(q, x, 6) for x in v.a[2]):
        return [canon(q, x, 9) for x in v.a[2]]
    return None


def complete(ev, q):
    """whether a branch establishes that every manager acknowledged (True), that some did not (False); None: neither"""
    if ev.kind != "branch":
        return None
    t = canon(q, ev.value, 9)
    tr = truth(ev)
    if tr is None:
        return None
    z = re.match(r"^(Not\()?\((.*) (Eq|Ne|Ge|Le|Lt|Gt) (.*)\)\)?$", t)
    if not z:
        e = re.match(r"^(Not\()?HashMap::is_empty\(a1\.managers\)\)?$", t)
        if e:
            return (tr != bool(e.group(1))) or None
        return None
    a, op, b = z.group(2), z.group(3), z.group(4)
    tr = tr != bool(z.group(1))
    ack = r"^(HashSet|HashMap|BTreeSet|Vec|coll\w*)::len\(.*acknowledged_nodes\)$"
    man = r"^HashMap::len\(a1\.managers\)$"
    if re.match(man, a) and re.match(ack, b):
        a, b = b, a
        op = {"Ge": "Le", "Le": "Ge", "Lt": "Gt", "Gt": "Lt"}.get(op, op)
    if re.match(ack, a) and re.match(man, b):
        return {"Eq": tr, "Ne": not tr, "Ge": tr, "Lt": not tr}.get(op)
    if re.match(man, a) and b == "0":
        return ({"Eq": tr, "Ne": not tr, "Le": tr, "Gt": not tr}.get(op)) or None
    return None


def each_acked(ev, q, s):
    """progress of a traversal of the managers that tests each one's acknowledgement: None | 'open' | 'acked' | True | False"""
    if ev.kind == "next" and re.search(r"^a1\.managers", canon(q, ev.value)) and s in (None, "acked", "open"):
        if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
            return "partial"
        if str(ev.out) == "Some":
            return "open" if s != "open" else "partial"
        return True if s in ("acked", None) else "partial"
    y = member(ev, q)
    if y and "acknowledged_nodes" in y[0] and "each(a1.managers)" in y[1]:
        return "acked" if y[2] else False
    return s


def to_manager(q, x, node):
    """the target is the manager known for that node"""
    return canon(q, x, 9) == "HashMap::get(a1.managers,%s)?" % node



@prop("G02")
def lease(c):
    stop_msgs = set()
    c.rule("request", "A manager asked for the lease grants it at once when it is idle; while it has not joined the cluster it remembers who asked; while its own singleton is starting it does not grant it; while its singleton runs it stops the singleton, "
           "remembers who asked and tells every manager and its own proxy; while the singleton is stopping it remembers who asked. Being granted is the requester's manager receiving an acknowledgement naming this node.")
    b = c.handler(MAN, r"lease::RequestLease$")
    for st in STATES:
        def mon(s, ev, q, st=st):
            ack, lack, pend, stop, heard, prox, state = s
            f = notified(ev, q, "LeaseAck")
            if f:
                if st != "Idle":
                    return Bad("granted", "the lease is granted while the own singleton is %s" % st.lower())
                if ack or f[0] != "HashMap::get(a1.managers,a2.source_node_id)?" or f[1] != {"source_node_id": "a1.node_id"}:
                    return Bad("ack", "the lease is granted to %s as %s" % (f[0], f[1]))
                return (True, lack, pend, stop, heard, prox, state)
            y = member(ev, q)
            if y and y[0] == "a1.managers" and y[2] is False:
                return (ack, True, pend, stop, heard, prox, state)
            if wrote(ev, "acknowledgement_pending") or wrote(ev, "lease_requested_by"):
                return (ack, lack, canon(q, ev.value, 9), stop, heard, prox, state)
            y = mutation(ev, q)
            if y and ("acknowledgement_pending" in y[1] or "lease_requested_by" in y[1]) and y[2]:
                return (ack, lack, y[2][0], stop, heard, prox, state)
            if wrote(ev, "state"):
                return (ack, lack, pend, stop, heard, prox, canon(q, ev.value, 9))
            x = message(ev, q)
            if x and canon(q, x[2]) in ("<stop>", "'<stop>'"):
                if canon(q, x[1], 9) != "a1.state@Running.actor_ref":
                    return Bad("stop", "what is stopped is %s" % canon(q, x[1], 9))
                return (ack, lack, pend, x[0], heard, prox, state)
            if x and re.search(SELF, canon(q, x[1], 9)) and stop:
                if stop == "send":
                    stop_msgs.add(msgname(q, x[2]))
                return (ack, lack, pend, stop, True, prox, state)
            if x and canon(q, x[1], 9) == "a1.proxy" and msgname(q, x[2]) == "SingletonStopping":
                return (ack, lack, pend, stop, heard, True, state)
            if ev.kind == "leave" and ev.out:
                if st == "Idle" and not ack and not lack:
                    return Bad("unanswered", "an idle manager does not grant the lease")
                if st == "Joining" and "a2.source_node_id" not in (pend or state or ""):
                    return Bad("forgotten", "a request for the lease is forgotten by a manager that has not joined yet")
                if st == "Running":
                    if not stop:
                        return Bad("kept", "the lease is requested but the own singleton goes on running")
                    if not re.match(r"^Stopping\{actor_ref:a1\.state@Running\.actor_ref,lease_requested_by:a2\.source_node_id\}$", state or ""):
                        return Bad("state", "a manager stopping its singleton becomes %s" % state)
                    if stop == "send" and not heard:
                        return Bad("unheard", "nothing tells the manager that its singleton has stopped: the lease is never granted")
                    if not prox:
                        return Bad("proxy", "the own proxy goes on sending to the singleton that stops")
                if st == "Stopping" and "a2.source_node_id" not in (pend or state or ""):
                    return Bad("forgotten", "a request for the lease is forgotten while the singleton stops")
                if st in ("Idle", "Starting", "Joining", "Stopping") and re.match(r"^(Running|Starting)\{", state or ""):
                    return Bad("state", "a lease request makes a manager %s" % state)
            return None
        c.watch(b, mon, (False, False, None, None, False, False, None), "request:" + st, opaque=GOP, spawn="inline", facts=sfact(st))
        if st == "Running":
            told(c, b, "SingletonStopped", "told", facts=sfact(st))

    c.rule("stopped", "Once its singleton has stopped, and only then, a manager grants the lease to the node that asked for it and becomes idle.")
    roots = [(c.method("Actor", MAN, "on_child_stopped"), True)]
    for n in sorted(stop_msgs):
        roots += [(h, False) for h in c.p.handler(MAN, r"::%s$" % re.escape(n))]
    for b, byid in roots:
        for st in STATES:
            def mon1(s, ev, q, st=st, byid=byid):
                ack, lack, own, state = s
                if ev.kind == "branch":
                    z = re.match(r"^(Not\()?\((?:a2|a1\.singleton_actor_id) (Eq|Ne) (?:a1\.singleton_actor_id|a2)\)\)?$", canon(q, ev.value, 9))
                    if z and truth(ev) is not None and byid:
                        return (ack, lack, ((z.group(2) == "Eq") != bool(z.group(1))) == truth(ev), state)
                f = notified(ev, q, "LeaseAck")
                if f:
                    if st != "Stopping":
                        return Bad("granted", "the lease is granted while the own singleton is %s" % st.lower())
                    if byid and own is not True:
                        return Bad("other", "the lease is granted because another actor stopped")
                    if ack or f[0] != "HashMap::get(a1.managers,a1.state@Stopping.lease_requested_by)?" or f[1] != {"source_node_id": "a1.node_id"}:
                        return Bad("ack", "the lease is granted to %s as %s" % (f[0], f[1]))
                    return (True, lack, own, state)
                y = member(ev, q)
                if y and y[0] == "a1.managers" and y[2] is False:
                    return (ack, True, own, state)
                if wrote(ev, "state"):
                    return (ack, lack, own, canon(q, ev.value, 9))
                if ev.kind == "leave" and ev.out and st == "Stopping" and not (byid and own is False):
                    if not ack and not lack:
                        return Bad("unanswered", "the node waiting for the lease is not told that the singleton has stopped")
                    if state != "Idle":
                        return Bad("state", "after its singleton stopped the manager is %s" % (state or "still stopping"))
                return None
            c.watch(b, mon1, (False, False, None, None), "stopped:" + st, opaque=GOP, spawn="inline", facts=sfact(st))

    c.rule("acknowledged", "An acknowledgement counts once, for the manager that sent it, and only if that manager is known and this one is starting its singleton. The singleton is started, under its own id, exactly when every known manager has acknowledged.")
    b = c.handler(MAN, r"lease::LeaseAck$")
    for st in STATES:
        def mon2(s, ev, q, st=st):
            known, ins, comp, made = s
            y = member(ev, q)
            if y and y[0] == "a1.managers" and y[1] == "a2.source_node_id":
                return (y[2], ins, comp, made)
            y = mutation(ev, q)
            if y and "acknowledged_nodes" in y[1]:
                if st != "Starting" or y[0] != "insert" or y[2][0] != "a2.source_node_id":
                    return Bad("count", "an acknowledgement does %s(%s)" % (y[0], ", ".join(y[2])))
                if known is not True:
                    return Bad("stranger", "the acknowledgement of a manager that is not known is counted")
                return (known, True, comp, made)
            z = complete(ev, q)
            if z is None:
                z = each_acked(ev, q, comp)
            if z != comp and z is not None:
                return (known, ins, z, made)
            a = starting(ev, q)
            if a:
                return begun(a, st == "Starting", comp, made, lambda: (known, ins, comp, True))
            if ev.kind == "leave" and ev.out and st == "Starting":
                if known and not ins:
                    return Bad("ignored", "the acknowledgement of a manager is not counted")
                if comp is True and not made:
                    return Bad("unstarted", "every manager acknowledged but the singleton is not started")
            if wrote(ev, "state"):
                return Bad("state", "an acknowledgement makes the manager %s" % canon(q, ev.value, 9))
            return None
        c.watch(b, mon2, (None, False, None, False), "acknowledged:" + st, opaque=GOP, spawn="inline", facts=sfact(st))

    c.rule("removed", "A node that left the cluster is no longer waited for, nor does its acknowledgement count; if every remaining manager acknowledged, the singleton is started.")
    b = c.handler(MAN, r"Receive<.*SystemTopic>$")
    for st in STATES:
        def mon3(s, ev, q, st=st):
            man, ack, comp, made = s
            if ev.kind == "branch" and canon(q, ev.value, 9) == EVENT and str(ev.out) != "NodeRemoved":
                return "STOP"
            y = mutation(ev, q)
            if y and y[1] == "a1.managers":
                if y[0] not in ("remove", "remove_entry") or not y[2][0].endswith("@NodeRemoved.0.id"):
                    return Bad("which", "%s(%s) on the managers" % (y[0], ", ".join(y[2])))
                return (True, ack, comp, made)
            if y and "acknowledged_nodes" in y[1]:
                if y[0] not in ("remove", "take") or not y[2][0].endswith("@NodeRemoved.0.id"):
                    return Bad("which", "%s(%s) on the acknowledgements" % (y[0], ", ".join(y[2])))
                return (man, True, comp, made)
            z = complete(ev, q)
            if z is None:
                z = each_acked(ev, q, comp)
            if z != comp and z is not None:
                if z is True and not (man and ack):
                    return Bad("order", "the acknowledgements are counted before the node that left is taken off")
                return (man, ack, z, made)
            if notified(ev, q, "LeaseAck"):
                return Bad("granted", "a node leaving grants the lease")
            a = starting(ev, q)
            if a:
                return begun(a, st == "Starting", comp, made, lambda: (man, ack, comp, True))
            if ev.kind == "leave" and ev.out:
                if not man:
                    return Bad("kept", "a node that left the cluster stays a manager to wait for")
                if st == "Starting" and not ack:
                    return Bad("counted", "the acknowledgement of a node that left still counts")
                if st == "Starting" and comp is True and not made:
                    return Bad("unstarted", "every remaining manager acknowledged but the singleton is not started")
                if st == "Starting" and comp is None:
                    return Bad("stuck", "when a node that has not acknowledged leaves, nothing checks whether the others have")
            return None
        c.watch(b, mon3, (False, False, None, False), "removed:" + st, opaque=GOP, spawn="inline", facts=sfact(st))

    c.rule("leader", "Only the leader starts the singleton: on becoming it, or on joining a cluster it leads, it waits for a fresh acknowledgement of every manager it knows, asking each of them; if it knows none it starts the singleton at once. A manager whose singleton runs or is being started does not start another.")
    for evn, lead, sts in (("LeaderChanged", r"@LeaderChanged\.0", STATES), ("MemberUp", r"@MemberUp\.0\.leader_id", ("Joining", "Idle"))):
        for st in sts:
            def mon4(s, ev, q, st=st, evn=evn, lead=lead):
                me, state, empty, asked, made = s
                if ev.kind == "branch":
                    t = canon(q, ev.value, 9)
                    if t == EVENT and str(ev.out) != evn:
                        return "STOP"
                    z = re.match(r"^(Not\()?\((?:a1\.node_id (Eq|Ne) \S*%s|\S*%s (Eq|Ne) a1\.node_id)\)\)?$" % (lead, lead), t)
                    if z and truth(ev) is not None:
                        return ((((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev), state, empty, asked, made)
                    z = complete(ev, q)
                    if z is True:
                        return (me, state, True, asked, made)
                    z = re.match(r"^\(HashMap::len\(a1\.managers\) (Eq|Ne|Gt) 0\)$", t)
                    if z:
                        return (me, state, False, asked, made)
                if wrote(ev, "state"):
                    v = canon(q, ev.value, 9)
                    if v.startswith(("Starting", "Running", "Stopping")):
                        if me is not True:
                            return Bad("follower", "a node that does not lead becomes %s" % v)
                        if v != "Starting{acknowledged_nodes:coll(empty|)}":
                            return Bad("fresh", "a new leader becomes %s" % v)
                        if evn == "LeaderChanged" and st in ("Starting", "Running", "Joining"):
                            return Bad("again", "a manager that is %s starts over" % st.lower())
                        return (me, "Starting", empty, asked, made)
                    if evn == "LeaderChanged" and st in ("Starting", "Running", "Joining"):
                        return Bad("lost", "a manager that is %s becomes %s" % (st.lower(), v))
                    return (me, v, empty, asked, made)
                f = notified(ev, q, "RequestLease")
                if f:
                    if state != "Starting" or f[1] != {"source_node_id": "a1.node_id"}:
                        return Bad("ask", "the lease is requested as %s in state %s" % (f[1], state))
                    return (me, state, empty, True, made)
                a = starting(ev, q)
                if a:
                    return begun(a, state == "Starting" and me is True, empty, made, lambda: (me, state, empty, asked, True))
                if ev.kind == "next" and canon(q, ev.value).startswith("a1.managers") and state == "Starting" and not asked:
                    if str(ev.out) != "Some":
                        return (me, state, empty, True, made)
                if ev.kind == "leave" and ev.out:
                    due = me is True and (evn == "MemberUp" or st in ("Idle",))
                    if due and state != "Starting":
                        return Bad("idle", "the leader does not start the singleton")
                    if state == "Starting" and empty is True and not made:
                        return Bad("unstarted", "a leader with no other managers does not start the singleton")
                    if state == "Starting" and empty is not True and not asked:
                        return Bad("unasked", "the leader does not ask the other managers")
                return None
            c.watch(b, mon4, (None, None, None, False, False), "leader:%s:%s" % (evn, st), opaque=GOP, spawn="inline", facts=sfact(st), ccap=2)
    h = c.soft(c.p.inherent(MAN, "request_lease"), "Manager::request_lease")
    if h:
        told(c, h, "RequestLease", "asked", skip_empty=True)
    else:
        told(c, b, "RequestLease", "asked", facts=sfact("Idle"), only="LeaderChanged", skip_empty=True)

    c.rule("members", "Every other node the singleton may run on is a manager to wait for: all those of the cluster when this node has joined it, later every node that is added. It is found under the name it gives itself. A node added while the singleton is being started is asked for the lease too; "
           "one added while it runs is told where it runs. On joining, a manager that was asked for the lease meanwhile grants it.")
    names = {}
    for st in STATES:
        for evn in ("MemberUp", "NodeAdded"):
            def mon5(s, ev, q, st=st, evn=evn):
                ph, own, inc, said, pend = s
                if ev.kind == "branch":
                    t = canon(q, ev.value, 9)
                    if t == EVENT and str(ev.out) != evn:
                        return "STOP"
                    z = re.match(r"^(Not\()?\((?:\S*(?:nodes\)|NodeAdded\.0)\.id (Eq|Ne) a1\.node_id|a1\.node_id (Eq|Ne) \S*(?:nodes\)|NodeAdded\.0)\.id)\)\)?$", t)
                    if z and truth(ev) is not None:
                        return (ph, (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev), inc, said, pend)
                    z = re.match(r"^(Not\()?NodeSelector::includes\(a1\.selector,.*\)\)?$", t)
                    if z and truth(ev) is not None:
                        return (ph, own, truth(ev) != bool(z.group(1)), said, pend)
                    if t == "a1.state@Joining.acknowledgement_pending" and str(ev.out) in ("Some", "None"):
                        return (ph, own, inc, said, str(ev.out)) if pend is None else None
                y = member(ev, q)
                if y and y[0] == "a1.managers" and evn == "NodeAdded" and y[2] is True and ph == "start":
                    return ("known", own, inc, said, pend)
                if y and y[0] == "a1.managers" and "acknowledgement_pending" in y[1] and y[2] is False:
                    return (ph, own, inc, said, "acked")
                if ev.kind == "next" and re.search(r"@MemberUp\.0\.nodes$", canon(q, ev.value)):
                    if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                        return Bad("partial", "only part of the nodes become managers")
                    if ph == "open" and not (own is True or inc is False):
                        return Bad("left-out", "a node of the cluster does not become a manager to wait for")
                    return ("open" if str(ev.out) == "Some" else "done", None, None, said, pend)
                y = mutation(ev, q)
                if y and y[1] == "a1.managers":
                    if y[0] in ("entry",):
                        return None
                    if y[0] not in ("insert", "or_insert", "insert_entry", "or_insert_with"):
                        return Bad("managers", "the managers are subject to %s" % y[0])
                    if own is True:
                        return Bad("self", "a manager waits for itself")
                    if inc is False:
                        return Bad("selector", "a node the singleton cannot run on becomes a manager")
                    if not re.search(r"(nodes\)|NodeAdded\.0)\.id$", y[2][0]):
                        return Bad("which", "a manager is known under %s" % y[2][0])
                    t = canon(q, ev.args[-1], 12)
                    z = re.search(r"RemoteActorRef\{id:(.*),system:.*,node_id:(.*?),_a:", t)
                    if z:
                        names[evn] = fmtid(z.group(1))
                        if not re.search(r"(nodes\)|NodeAdded\.0)\.id$", z.group(2)):
                            return Bad("node", "a manager is looked for on node %s" % z.group(2))
                    return ("added", own, inc, said, pend)
                for mm, want in (("RequestLease", "Starting"), ("SingletonStarted", "Running")):
                    f = notified(ev, q, mm)
                    if f and evn == "NodeAdded":
                        if st != want:
                            return Bad("told", "a node added while the singleton is %s is sent %s" % (st, mm))
                        if f[1] != {"source_node_id": "a1.node_id"}:
                            return Bad("told", "a node added is sent %s %s" % (mm, f[1]))
                        return (ph, own, inc, mm, pend)
                f = notified(ev, q, "LeaseAck")
                if f:
                    if st != "Joining" or ph != "done":
                        return Bad("granted", "the lease is granted in state %s, %s the managers are known" % (st, "before" if ph != "done" else "after"))
                    if f[0] != "HashMap::get(a1.managers,a1.state@Joining.acknowledgement_pending?)?" or f[1] != {"source_node_id": "a1.node_id"}:
                        return Bad("ack", "the lease is granted to %s as %s" % (f[0], f[1]))
                    return (ph, own, inc, said, "acked")
                if ev.kind == "leave" and ev.out:
                    if evn == "NodeAdded":
                        if ph == "start" and own is not True and inc is not False:
                            return Bad("left-out", "a node that is added does not become a manager to wait for")
                        if ph == "added" and st == "Starting" and said != "RequestLease":
                            return Bad("unasked", "a node added while the singleton is being started is not asked for the lease")
                        if ph == "added" and st == "Running" and said != "SingletonStarted":
                            return Bad("untold", "a node added while the singleton runs is not told where")
                    else:
                        if ph != "done":
                            return Bad("abandoned", "the nodes of the cluster do not all become managers")
                        if st == "Joining" and pend == "Some":
                            return Bad("forgotten", "the lease asked for while joining is never granted")
                return None
            if evn == "NodeAdded" or st == "Joining":
                c.watch(b, mon5, ("start", None, None, None, None), "members:%s:%s" % (evn, st), opaque=GOP + [r"Manager<.*>>?::begin_starting$|Manager::<.*>::begin_starting$"], facts=sfact(st), ccap=1)
    build = c.inherent(r"singleton::SingletonBuilder(<.*>)?$", "build")
    for o in c.run(build, wiring, opaque=GOP + [r"Manager::?<.*>::new$", r"Proxy::?<.*>::new$"]):
        if o.kind != "return":
            continue
        man = [x for x in o.obs if x[0] == "manager"]
        if not man:
            continue
        _, ident, args = man[0]
        z = fmtid(ident)
        for k, n in names.items():
            if n and z and len(args) > 3:
                c.check(n[0] == z[0] and re.sub(r"^a1\.manager_actor_id,.*\.id$", "ok", n[1]) == "ok" and z[1].startswith(args[2]), "name:" + k,
                        "a manager names itself %s%s and is looked for as %s%s" % (z[0], z[1], n[0], n[1]), out=o)
        c.check("node_id" in (z or ("", "node_id"))[1], "own-name", "a manager is named %s whatever its node" % ident, out=o)
        c.check(any("proxy" in a or "Proxy" in a for a in args), "wired", "the manager does not know the proxy of its node", out=o)

    c.rule("announce", "When the singleton has started the manager is running it, and its own proxy and every manager are told; a failed start is not announced. A manager told that the singleton started elsewhere makes its proxy send there; told that it stopped, it makes its proxy keep messages.")
    b = c.handler(MAN, r"ActorStartResult<.*>$|ActorStartResult$")
    for var in ("Started", "Failed"):
        def mon6(s, ev, q, var=var):
            state, prox = s
            if wrote(ev, "state"):
                v = canon(q, ev.value, 9)
                if var == "Failed" and v.startswith("Running") or var == "Started" and v != "Running{actor_ref:a2@Started.0}":
                    return Bad("state", "after the start %s the manager is %s" % (var.lower(), v))
                return (v, prox)
            f = notified(ev, q, "SingletonStarted")
            if f:
                if var == "Failed":
                    return Bad("failed", "a failed start is announced")
                if f[0] == "a1.proxy":
                    if not re.search(r"a2@Started\.0", f[1].get("actor_ref", "")):
                        return Bad("proxy", "the proxy is told %s" % f[1])
                    return (state, True)
                if f[1] != {"source_node_id": "a1.node_id"}:
                    return Bad("content", "managers are told %s" % f[1])
            if ev.kind == "leave" and ev.out and var == "Started":
                if not state:
                    return Bad("not-running", "a manager whose singleton started is not running it")
                if not prox:
                    return Bad("proxy", "the own proxy is not told that the singleton started")
            return None
        fa = {T("arg", 2): ("is", var)}
        fa.update(sfact("Starting"))
        c.watch(b, mon6, (None, False), "announce:" + var, opaque=GOP, spawn="inline", facts=fa)
        if var == "Started":
            told(c, b, "SingletonStarted", "told", facts=fa, want={"source_node_id": "a1.node_id"})
    b = c.handler(MAN, r"manager::SingletonStarted$")

    def mon7(s, ev, q):
        f = notified(ev, q, "SingletonStarted")
        if f:
            t = canon(q, strip(q, message(ev, q)[2]).a[2][0][1], 12)
            z = re.search(r"RemoteActorRef\{id:(.*?),system:.*,node_id:(.*?),_a:", t)
            if f[0] != "a1.proxy" or z and (z.group(1) != "a1.singleton_actor_id" or z.group(2) != "a2.source_node_id"):
                return Bad("where", "%s is told the singleton is %s" % (f[0], t))
            return True
        if ev.kind == "leave" and ev.out and not s:
            return Bad("untold", "the proxy is not told where the singleton runs")
        return None
    c.watch(b, mon7, False, "elsewhere", opaque=GOP)
    b = c.handler(MAN, r"manager::SingletonStopped$")

    def mon8(s, ev, q):
        f = notified(ev, q, "SingletonStopping")
        if f:
            return True if f[0] == "a1.proxy" else Bad("whom", "%s is told" % f[0])
        if ev.kind == "leave" and ev.out and not s:
            return Bad("untold", "the proxy is not told that the singleton stops")
        return None
    c.watch(b, mon8, False, "stops", opaque=GOP)

    c.rule("retry", "What could not be sent to a manager is tried again later, the same message to the same node.")
    b = c.soft(c.p.inherent(MAN, "notify"), "Manager::notify")
    if b:
        def mon9(s, ev, q):
            if ev.kind == "branch" and re.search(r"^(Result::is_err\()?ActorRef::notify\(a3,a2\)\)?$", canon(q, ev.value)):
                return "failed" if str(ev.out) in ("Err",) else "ok" if str(ev.out) == "Ok" else None
            if called(ev, r"scheduled_notify$"):
                t = canon(q, ev.args[1], 9)
                if not re.match(r"^Notify\{0:.*a3.*,1:a2\}$", t):
                    return Bad("what", "what is tried again is %s" % t)
                return "again"
            if ev.kind == "leave" and ev.out and s == "failed":
                return Bad("dropped", "a message that could not be sent to a manager is dropped")
            return None
        c.watch(b, mon9, "start", "retry", opaque=GOP)
    h = c.soft(c.p.handler(MAN, r"manager::Notify<"), "Handler<Notify<M>>")
    if h:
        def mon10(s, ev, q):
            x = message(ev, q)
            if x and not called(ev, r"scheduled_notify"):
                if canon(q, x[1], 9) != "HashMap::get(a1.managers,a2.0)?" or canon(q, x[2]) != "a2.1":
                    return Bad("what", "%s is sent to %s" % (canon(q, x[2]), canon(q, x[1], 9)))
                return "sent"
            y = member(ev, q)
            if y and y[0] == "a1.managers" and y[2] is False:
                return "gone"
            if ev.kind == "leave" and ev.out and s == "start":
                return Bad("dropped", "a message that is tried again is dropped")
            return None
        c.watch(h, mon10, "start", "again", opaque=GOP)

    c.rule("others", "Nothing else starts the singleton, grants the lease, or changes what the manager waits for.")
    n = 0
    done = r"RequestLease|LeaseAck|SystemTopic|ActorStartResult|" + "|".join(re.escape(x) for x in sorted(stop_msgs) or ["~"])
    for im in c.p.impls:
        if im["trait"] and re.search(r"message::Handler<", im["trait"]) and re.search(MAN, im["self"]) and not re.search(done, im["trait"]):
            hb = [c.p.body(p) for nm, p in im["items"] if nm == "handle"]
            for b in hb:
                if b is None:
                    continue
                n += 1

                def mon11(s, ev, q):
                    if starting(ev, q):
                        return Bad("starts", "the singleton is started")
                    if notified(ev, q, "LeaseAck"):
                        return Bad("grants", "the lease is granted")
                    if wrote(ev, "state"):
                        return Bad("state", "the manager becomes %s" % canon(q, ev.value, 9))
                    y = mutation(ev, q)
                    if y and (y[1] == "a1.managers" or "acknowledged_nodes" in y[1]):
                        return Bad("managers", "%s on %s" % (y[0], y[1]))
                    return None
                c.watch(b, mon11, "", "others:" + short(im["trait"])[:60], opaque=GOP, spawn="inline")
    for b, l, p in callers(c.p, r"singleton::factory::SingletonFactory::create$"):
        c.check(only_via(c.p, b, lambda r: bool(re.search(r"singleton::manager::", r))), "factory:" + short(root_fn(b.id)), "%s creates a singleton without the lease" % short(b.id))
    b = c.inherent(MAN, "new")
    for o in c.run(b, None):
        if o.kind == "return":
            t = c.ret(o, 9)
            c.check("state:Joining{acknowledgement_pending:None}" in t, "new", "a new manager is %s" % t[:200], out=o)

    c.rule("registered", "Every message managers send each other is registered, each under a name of its own.")
    sites = {}
    for b in c.p.bodies.values():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and re.search(r"RemoteSystemConfigBuilder>?::with_handler$", t[1][1]["p"]):
                g = [str(x) for x in t[1][1]["g"]]
                if any("singleton::manager::Manager" in x for x in g):
                    for x in g:
                        sites[x] = b
    for mm in ("lease::RequestLease", "lease::LeaseAck", "manager::SingletonStarted", "manager::SingletonStopped"):
        c.check(any(x.endswith(mm) for x in sites), "registered:" + mm, "%s is sent between managers but not registered" % mm)
    b = c.fn("coerce::singleton::singleton")
    if b:
        for o in c.run(b, lambda ev, q: ("reg", canon(q, ev.args[1], 9)) if called(ev, r"with_handler$") else None, opaque=[r"with_handler$"]):
            nm = [x[1] for x in o.obs]
            c.check(len(nm) == len(set(nm)), "names", "two messages of managers share a name: %s" % nm, out=o)


def wiring(ev, q):
    v = awaited(ev, q, r"into_actor$|ActorSystem>?::new_\w*actor\w*$")
    if v and "Manager" in canon(q, v.a[2][0], 3):
        a = strip(q, v.a[2][0])
        return ("manager", canon(q, v.a[2][1], 12), tuple(canon(q, x, 9) for x in a.a[2]) if a.tag == "call" else ())
    return None


def begun(args, ok, comp, made, nxt):
    if not ok:
        return Bad("unasked", "the singleton is started by a manager that is not starting it")
    if comp is not True:
        return Bad("early", "the singleton is started although not every manager is known to have acknowledged")
    if made:
        return Bad("twice", "the singleton is started twice")
    if not any("a1.singleton_actor_id" in a for a in args):
        return Bad("id", "the singleton is started under %s" % args[1:2])
    return nxt()


def told(c, b, msg, key, want=None, facts=None, only=None, skip_empty=False):
    """every manager is sent the message"""
    def act(ev, q):
        f = notified(ev, q, msg)
        return f and "each(a1.managers)" in f[0]

    init, fe = foreach(r"^a1\.managers", act, "managers")

    def mon(s, ev, q):
        ph, st, empty = s
        if only and ev.kind == "branch" and canon(q, ev.value, 9) == EVENT and str(ev.out) != only:
            return "STOP"
        if only and ev.kind == "branch" and re.search(r"a1\.node_id", canon(q, ev.value, 9)) and truth(ev) is False:
            return "STOP"
        if complete(ev, q) is True and skip_empty:
            return (ph, st, True)
        r = fe(st, ev, q)
        if isinstance(r, Bad):
            return r
        if r is not None and r != st:
            return (ph, r, empty)
        if ev.kind == "leave" and ev.out and st == "none" and not empty:
            return Bad("missing", "the managers are not told")
        return None
    c.watch(b, mon, ("", init, False), key, opaque=GOP, spawn="inline", facts=facts, ccap=2)
