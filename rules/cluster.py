"""The cluster: health of nodes and leadership, discovery, the node store, locating actors and clients."""
from rules import *
from remote import NOCONV
from net import truth

HB = r"heartbeat::Heartbeat$"
CLU = [r"RemoteActorSystem>?::(get_nodes|update_nodes|register_node|get_remote_client|current_leader|update_leader|notify_node)$"]
REL = re.compile(r"^(Not\()?\((.*?) (Lt|Le|Gt|Ge) (.*)\)\)?$")
FLIP = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}
MIRROR = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}


def relation(t, tr, left):
    """the relation a branch establishes, with the side matching `left` on the left: (lhs, op, rhs) or None"""
    z = REL.match(t)
    if not z or tr is None:
        return None
    a, op, b = z.group(2), z.group(3), z.group(4)
    if bool(z.group(1)) == bool(tr):
        op = FLIP[op]
    if not re.search(left, a) and re.search(left, b):
        a, op, b = b, MIRROR[op], a
    return (a, op, b) if re.search(left, a) else None


def published(ev, q, local=None):
    """(topic, message, local only) of a publication that is awaited"""
    v = None
    if ev.kind == "await":
        x = strip(q, ev.value)
        if x.tag == "call" and re.search(r"PubSub>?::(publish|publish_locally)(::<.*>)?$", x.a[1]):
            return (canon(q, x.a[2][0]), x.a[2][1], "locally" in x.a[1])
    return v


@prop("R07")
def leader(c):
    c.rule("status", "A node is healthy exactly when its last ping was answered, quickly enough and recently enough; unanswered for the configured time, or disconnected, it is terminated; otherwise it is unhealthy. "
           "A node never pinged is joining, unless it was terminated.")
    b = c.fn("coerce::remote::heartbeat::update_node")

    def mon(s, ev, q):
        s = dict(s)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if t == "a3":
                s["ping"] = "None" if o == "None" else s.get("ping", "Some")
            elif t == "a3?" and not o.startswith("!"):
                s["ping"] = o
            elif t == "a2.status":
                s["prev"] = o
            elif t == "a2.last_heartbeat":
                s["beat"] = o
            r = relation(t, truth(ev), r"a3\?\?\.2|a2\.last_heartbeat|a3\?\?\.1|Utc::now")
            if r:
                who = "latency" if "a3??.1" in r[0] else "since"
                lim = "terminated" if "terminated_node_heartbeat_timeout" in t else "unhealthy" if "unhealthy_node_heartbeat_timeout" in t else None
                if lim:
                    op = r[1]
                    if "last_heartbeat" in t or ("Add" in t and "Sub" not in t):       # heartbeat + timeout ? now
                        z = REL.match(t)
                        side = z.group(2) if "last_heartbeat" in z.group(2) or "a3??.2" in z.group(2) else z.group(4)
                        op2 = relation(t, truth(ev), re.escape(side))[1]
                        op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op2]
                    s[who + "-" + lim] = "over" if op in ("Gt", "Ge") else "under"
        if ev.kind == "leave" and ev.out and ev.value is not None:
            f = q.fld(ev.value, "status")
            st = f.a[1] if f.tag == "adt" else None
            hb = canon(q, q.fld(ev.value, "last_heartbeat"), 9)
            lat = canon(q, q.fld(ev.value, "ping_latency"), 9)
            for k in ("id", "addr", "tag", "node_started_at"):
                if canon(q, q.fld(ev.value, k)) != "a2." + k:
                    return Bad("identity", "updating a node changes its %s to %s" % (k, canon(q, q.fld(ev.value, k))))
            p = s.get("ping")
            if p == "Ok" and (hb != "Some{0:a3??.2}" or lat != "Some{0:a3??.1}"):
                return Bad("beat", "an answered ping is recorded as %s, latency %s" % (hb, lat))
            if p != "Ok" and p is not None and hb != "a2.last_heartbeat":
                return Bad("beat", "a ping that was not answered is recorded as a heartbeat")
            if st is None:
                return None
            g = s.get
            if st == "Healthy" and not (p == "Ok" and g("since-unhealthy") == "under" and g("latency-unhealthy") == "under" and g("since-terminated") != "over"):
                return Bad("healthy", "a node is healthy with ping %s, %s" % (p, {k: v for k, v in s.items() if "-" in k}))
            if p == "Ok" and st == "Unhealthy" and not (g("since-unhealthy") == "over" or g("latency-unhealthy") == "over"):
                return Bad("unhealthy", "a node that answered in time is unhealthy")
            if p == "Ok" and (st == "Terminated") != (g("since-terminated") == "over"):
                return Bad("terminated", "a node that answered, %s, is %s" % (g("since-terminated"), st))
            if p == "Ok" and st == "Joining" or p in ("Timeout", "Disconnected", "Err") and st in ("Joining", "Healthy"):
                return Bad("joining", "a node whose ping ended as %s is %s" % (p, st))
            if p == "Disconnected" and st != "Terminated":
                return Bad("disconnected", "a disconnected node is %s" % st)
            if p == "Timeout":
                over = g("beat") == "None" or g("since-terminated") == "over"
                if (g("beat") == "None" or g("since-terminated")) and over != (st == "Terminated"):
                    return Bad("timeout", "a node whose ping timed out (last heartbeat %s, %s) is %s" % (g("beat"), g("since-terminated"), st))
                if not g("beat") and not g("since-terminated"):
                    return Bad("timeout", "a node whose ping timed out is %s whenever it was last heard of" % st)
            if p == "Err" and g("prev") and (g("prev") == "Unhealthy") != (st == "Terminated"):
                return Bad("failed", "a node whose ping failed goes from %s to %s" % (g("prev"), st))
            if p == "Err" and not g("prev"):
                return Bad("failed", "a node whose ping failed becomes %s whatever it was" % st)
            if p == "None" and (g("prev") == "Terminated") != (st == "Terminated"):
                return Bad("unknown", "a node never pinged goes from %s to %s" % (g("prev"), st))
        return tuple(sorted(s.items()))
    c.watch(b, mon, (), "status", opaque=API)
    for n in ("NodePing",):
        h = c.handler(HB, r"heartbeat::NodePing$")

        def mp(s, ev, q):
            y = mutation(ev, q)
            if y and y[1] == "a1.node_pings":
                return "kept" if y[0] == "insert" and y[2] == ["a2.0", "a2"] else Bad("ping", "a ping's result is kept as %s(%s)" % (y[0], y[2]))
            if ev.kind == "leave" and ev.out and s != "kept":
                return Bad("lost", "a ping's result is lost")
            return None
        c.watch(h, mp, "no", "ping", opaque=API)
    h = c.handler(HB, r"NodeTerminated$")

    def mt(s, ev, q):
        reg, rem, tick = s
        if ev.kind == "branch" and canon(q, ev.value) == "a1.system" and str(ev.out) == "None":
            return (True, rem, tick)
        x = message(ev, q)
        if x and (canon(q, x[2]) == "a2" or msgname(q, x[2]) == "NodeTerminated"):
            return (True, rem, tick) if "registry" in canon(q, x[1]) and canon(q, x[2]) in ("a2", "NodeTerminated{0:a2.0}") else Bad("who", "%s is told that %s terminated" % (canon(q, x[1]), canon(q, x[2])))
        y = mutation(ev, q)
        if y and y[1] == "a1.node_pings":
            return (reg, True, tick) if y[0] == "remove" and y[2] == ["a2.0"] else Bad("pings", "%s(%s) on the pings" % (y[0], y[2]))
        if awaited(ev, q, r"Handler<.*HeartbeatTick.*>>::handle$") or x and msgname(q, x[2]) == "HeartbeatTick":
            return (reg, rem, True) if rem and reg else Bad("order", "the health is evaluated before the node was marked terminated")
        if ev.kind == "leave" and ev.out and not (reg and rem and tick):
            return Bad("ignored", "a terminated node is not %s" % ("marked" if not reg else "forgotten" if not rem else "taken into account"))
        return None
    c.watch(h, mt, (False, False, False), "terminated", opaque=API + [r"Handler<.*HeartbeatTick.*>>::handle$"])
    h = c.handler(r"RemoteRegistry$", r"NodeTerminated$")

    def mm(s, ev, q):
        y = member(ev, q)
        if y and y[0].endswith(".nodes") and y[1] == "a2.0":
            return "found" if y[2] else "none"
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".status":
            return "set" if canon(q, ev.value) == "Terminated" else Bad("status", "a terminated node becomes %s" % canon(q, ev.value))
        if ev.kind == "leave" and ev.out and s == "found":
            return Bad("unmarked", "a terminated node is not marked")
        return None
    c.watch(h, mm, "?", "mark", opaque=API)

    c.rule("tick", "On every tick each known node gets its new status, this node itself being healthy, and all of them are stored. From the second tick on, the leader is the healthy node started first (the lowest id among those "
           "started at the same time): whenever that differs from the current leader, it becomes the leader.")
    b = c.one([b for b in c.p.handler(HB, r"HeartbeatTick$")], "Handler<HeartbeatTick>")
    OPQ = API + CTXAPI + NOCONV + CLU + [r"heartbeat::update_node$", r"Heartbeat>?::(update_leader|on_min_cluster_size_reached)$"]
    cmps = {}

    def sorter(ev, q):
        if ev.kind == "call" and re.search(r"::(sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key|min_by|min_by_key|max_by|max_by_key)(::<.*>)?$", ev.path or ev.decl or ""):
            v = q.val(ev.args[1]) if len(ev.args) > 1 else None
            n = re.search(r"::(\w+)(::<.*>)?$", ev.path or ev.decl).group(1)
            if v is not None and v.tag == "clo":
                cmps[v.a[0]] = n
            return n
        return None

    def mon2(s, ev, q):
        srt, first, healthy, differs, lead, up, me = s
        n = sorter(ev, q)
        if n:
            return ("min" if n.startswith("min") else "max" if n.startswith("max") else "sorted", first, healthy, differs, lead, up, me)
        if ev.kind == "branch":
            t = canon(q, ev.value, 12)
            o = str(ev.out)
            if t == "a1.last_heartbeat":
                return (srt, o == "None", healthy, differs, lead, up, me)
            if t.endswith(").status") and t.startswith("each(coll("):
                return (srt, first, o == "Healthy", differs, lead, up, me)
            if re.search(r"current_leader\(", t):
                if o == "None":
                    return (srt, first, healthy, True, lead, up, me)
                z = re.match(r"^(Not\()?\((.*) (Eq|Ne) (.*)\)\)?$", t)
                if z and truth(ev) is not None:
                    return (srt, first, healthy, ((z.group(3) == "Ne") != bool(z.group(1))) == truth(ev), lead, up, me)
            z = re.match(r"^(Not\()?\((each\([\w:]*get_nodes\(a1\.system\?\)\)\.id) (Eq|Ne) (a1\.system\?\.inner\.node_id)\)\)?$", t)
            if z and truth(ev) is not None:
                return (srt, first, healthy, differs, lead, up, ((z.group(3) == "Eq") != bool(z.group(1))) == truth(ev))
        y = mutation(ev, q)
        if y and y[0].startswith("push") and "get_nodes(" in canon(q, ev.args[1], 9):
            v = ev.args[1]
            st = q.fld(v, "status")
            if me is True and not (st.tag == "adt" and st.a[1] == "Healthy"):
                return Bad("self", "this node itself becomes %s" % canon(q, st))
            z = strip(q, v)
            if me is False:
                if z.tag != "call" or not z.a[1].endswith("update_node"):
                    return Bad("status", "a node's status is taken as %s" % cut(canon(q, v)))
                a = [canon(q, x, 9) for x in z.a[2]]
                if not re.match(r"^each\(", a[1]) or not (a[2] == "None" or re.search(r"a1\.node_pings\b.*\.id.*\.1\}?$", a[2])):
                    return Bad("ping", "a node's status is computed from the ping %s" % a[2])
            return (srt, first, healthy, differs, lead, up, None)
        v = awaited(ev, q, r"RemoteActorSystem>?::update_nodes$")
        if v:
            if not re.match(r"^coll\(", canon(q, v.a[2][1])):
                return Bad("stored", "the nodes stored are %s" % cut(canon(q, v.a[2][1])))
            return (srt, first, healthy, differs, lead, True, me)
        if called(ev, r"Heartbeat>?::update_leader$"):
            t = canon(q, ev.args[1], 12)
            if not re.match(r"^each\(coll\(.*\)\.id$", t):
                return Bad("who", "the leader becomes %s" % cut(t))
            if not healthy:
                return Bad("unhealthy", "a node that is not known to be healthy becomes leader")
            if srt not in ("sorted", "min") or first:
                return Bad("early", "a leader is chosen %s" % ("on the first tick" if first else "without ordering the nodes"))
            return (srt, first, healthy, differs, True, up, me)
        if ev.kind == "leave" and ev.out:
            if not up:
                return Bad("unstored", "the nodes' new status is not stored")
            if first is False and healthy and differs and not lead:
                return Bad("ignored", "the healthy node started first does not become leader")
            if lead and differs is False:
                return Bad("again", "the current leader is announced again")
        return None

    def kept(ev, q):
        y = mutation(ev, q)
        return y and y[0].startswith("push") or ev.kind == "collect"
    i, m3 = combine(tick=((None, None, None, None, False, False, None), mon2), nodes=foreach(r"^[\w:]*get_nodes\(", kept, "nodes"))
    c.watch(b, m3, i, "tick", opaque=OPQ, ccap=0)

    def nxt(ev, q):
        if ev.kind == "next" and canon(q, ev.value).startswith("coll("):
            return ("next", tuple(a[0] for a in (ev.loc.a[0] if ev.loc else ())))
        return None
    for o in c.run(b, nxt, opaque=OPQ, ccap=0):
        for x in o.obs:
            c.check("rev" not in x[1] and "last" not in x[1] and "skip" not in x[1], "oldest", "the nodes are searched for a leader with %s" % (x[1],), out=o)
    for k, n in sorted(cmps.items()):
        cb = c.p.bodies.get(k)
        if cb is None:
            continue
        if n.endswith("_key"):
            for o in c.run(cb, None):
                r = c.ret(o, 6)
                z = re.match(r"^\((.*)\)$", r)
                c.check(re.search(r"(a2\.node_started_at|MIN_UTC|None).*a2\.id", r) or "Reverse" not in r and not z, "order", "nodes are ordered by %s" % r, out=o)
            continue
        dflt = {"a": set(), "b": set()}
        for o in c.run(cb, br2):
            if o.kind != "return":
                continue
            r = c.ret(o, 9)
            for t in [r] + [x[1] for x in o.obs]:
                z = re.match(r"^[\w:<>]*::(?:partial_)?cmp\(([^(),]*),([^(),]*)\)\??$", t)
                if z:
                    for side, v in zip("ab", z.groups()):
                        if v.startswith("const:"):
                            dflt[side].add(v)
            if r == "Equal" and not any(re.search(r"cmp\(a[23]\.id,", x[1]) for x in o.obs):
                c.fail("tie2", "nodes started at the same time are not ordered by id", out=o)
            z = re.match(r"^[\w:<>]*::(?:partial_)?cmp\((.*),(.*)\)\??$", r)
            if not z:
                continue
            a, b2 = z.group(1), z.group(2)
            bad = "a3" in a or "a2" in b2
            c.check(not bad, "descending", "nodes are ordered from the newest to the oldest: %s" % r, out=o)
            if a.endswith(".id") or b2.endswith(".id"):
                c.check(any(re.search(r"cmp\(.*node_started_at|MIN_UTC", x[1]) and x[2] == "Equal" for x in o.obs), "tie", "nodes are ordered by id although they started at different times", out=o)
            elif "node_started_at" in a + b2:
                c.check(any(re.search(r"cmp\(", x[1]) and x[2] in ("!Equal", "Less", "Greater") for x in o.obs), "tie2", "nodes started at the same time are not ordered by id", out=o)
        c.check(dflt["a"] == dflt["b"], "default", "nodes whose start is not known are ordered by %s on one side and %s on the other" % (sorted(dflt["a"]), sorted(dflt["b"])))

    c.rule("leader", "The leader is recorded as given and read back as recorded, whatever its id; a change is published to this node and told to everyone waiting for it.")
    b = c.inherent(r"RemoteActorSystem$", "update_leader")
    g = c.inherent(r"RemoteActorSystem$", "current_leader")

    def store(s, ev, q):
        if ev.kind == "call" and re.search(r"atomic::\w+(::<.*>)?::(swap|store)$|Atomic\w*(::<.*>)?::(swap|store)$", ev.path or ""):
            t = canon(q, ev.args[1])
            return "set" if t == "a2" and canon(q, ev.args[0]).endswith("current_leader") else Bad("value", "the leader is recorded as %s in %s" % (t, canon(q, ev.args[0])))
        if ev.kind == "leave" and ev.out and s != "set":
            return Bad("unset", "a new leader is not recorded")
        return None
    c.watch(b, store, "no", "record")
    for o in c.run(g, br2):
        if o.kind != "return":
            continue
        r = c.ret(o)
        c.check(r == "None" or re.match(r"^Some\{0:[\w:]*load\(a1\.inner\.current_leader", r), "read", "the current leader is read as %s" % r, out=o)
        for x in o.obs:
            z = re.match(r"^\(.*load\(.*\) (\w+) (-?\d+)\)$", x[1])
            if z and r == "None":
                tr = x[2] in ("True", "1")
                op = z.group(1) if tr else {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(z.group(1))
                c.check(op == "Eq" and z.group(2) in ("-1", "18446744073709551615"), "none", "no leader is reported when the recorded id is %s %s" % (op, z.group(2)), out=o)
    b = c.inherent(HB, "update_leader")

    def mon3(s, ev, q):
        rec, pub, cb = s
        if called(ev, r"RemoteActorSystem>?::update_leader$"):
            return (True, pub, cb) if canon(q, ev.args[1]) == "a2" else Bad("record", "the leader recorded is %s" % canon(q, ev.args[1]))
        x = published(ev, q)
        if x:
            t = canon(q, x[1], 9)
            if not re.match(r"^Cluster\{0:LeaderChanged\{0:a2\}\}$", t) or not x[0].startswith("SystemTopic"):
                return Bad("publish", "what is published is %s" % t)
            return (rec, True, cb) if rec else Bad("order", "a new leader is published before it is recorded")
        if called(ev, ONESHOT) and "on_next_leader_changed" in canon(q, ev.args[0]) and canon(q, ev.args[1]) != "a2":
            return Bad("told", "those waiting for a leader are told %s" % canon(q, ev.args[1]))
        if ev.kind == "next" and "on_next_leader_changed" in canon(q, ev.value):
            return (rec, pub, True)
        if ev.kind == "leave" and ev.out and not (rec and pub and cb):
            return Bad("silent", "a new leader is not %s" % ("recorded" if not rec else "published" if not pub else "told to those waiting for it"))
        return None
    i, m3 = combine(main=((False, False, False), mon3), cbs=foreach(r"on_next_leader_changed$", lambda ev, q: called(ev, ONESHOT), "callbacks waiting for a leader"))
    c.watch(b, m3, i, "change", opaque=CLU + PUBSUB, spawn="inline")
    h = c.handler(HB, r"OnLeaderChanged$")

    def mon4(s, ev, q):
        y = mutation(ev, q)
        if y and y[1] == "a1.on_next_leader_changed":
            return "kept" if y[0].startswith("push") and y[2] == ["a2.0"] else Bad("kept", "waiting for a leader does %s(%s)" % (y[0], y[2]))
        if ev.kind == "leave" and ev.out and s != "kept":
            return Bad("lost", "whoever waits for a leader is forgotten")
        return None
    c.watch(h, mon4, "no", "wait")
    ok = lambda i: bool(re.search(r"Heartbeat>?::update_leader$", i))
    for cb, ln, _ in callers(c.p, r"RemoteActorSystem>?::update_leader$"):
        c.check(only_via(c.p, cb, ok), "other:" + short(root_fn(cb.id)), "%s changes the leader" % short(root_fn(cb.id)))

    c.rule("member-up", "This node announces once that it is up, naming the leader and all nodes, and only when the configured minimum of nodes is reached.")
    b = c.one([b for b in c.p.handler(HB, r"HeartbeatTick$")], "Handler<HeartbeatTick>")

    def mon5(s, ev, q):
        up, size = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a1.cluster_member_up" and truth(ev) is not None:
                return (truth(ev), size)
            if t == "a1.config.minimum_cluster_size" and str(ev.out) == "None":
                return (up, "any")
            r = relation(t, truth(ev), r"minimum_cluster_size")
            if r:
                return (up, "reached" if r[1] in ("Le",) else "exceeds" if r[1] == "Lt" else "inverted")
        if called(ev, r"on_min_cluster_size_reached$"):
            if up is not False:
                return Bad("again", "this node announces more than once that it is up")
            if size not in ("any", "reached"):
                return Bad("minimum:" + str(size), "this node announces that it is up when the minimum of nodes is not reached")
            if not re.match(r"^each\(coll\(.*\)\.id$", canon(q, ev.args[1], 12)):
                return Bad("leader", "this node announces %s as leader" % canon(q, ev.args[1]))
        return None
    c.watch(b, mon5, (None, None), "up", opaque=OPQ, ccap=0)
    b = c.inherent(HB, "on_min_cluster_size_reached")

    def mon6(s, ev, q):
        up, pub = s
        if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".cluster_member_up":
            return (canon(q, ev.value) == "True", pub)
        x = published(ev, q)
        if x:
            t = canon(q, x[1], 9)
            if not re.match(r"^Cluster\{0:MemberUp\{0:ClusterMemberUp\{leader_id:a2,nodes:a3\}\}\}$", t):
                return Bad("publish", "what is published is %s" % t)
            return (up, True)
        if ev.kind == "leave" and ev.out and not (up and pub):
            return Bad("silent", "this node being up is not %s" % ("remembered" if not up else "published"))
        return None
    c.watch(b, mon6, (False, False), "announce", opaque=CLU + PUBSUB, spawn="inline")


def br2(ev, q):
    if ev.kind == "branch":
        return ("br", canon(q, ev.value, 9), str(ev.out))
    return None


DISCO = r"discovery::NodeDiscovery$"


@prop("R08")
def discovery(c):
    DOP = API + CTXAPI + NOCONV + CLU + [r"NodeDiscovery>?::(get_node_identity|discover_nodes)$", r"discover_node_handshake$"]
    c.rule("nodes", "Every named node that is neither known (and not terminated) nor being discovered already is registered, marked as being discovered and handshaken with, once, with all live nodes this node knows, over a client to its own address; the others are left alone.")
    b = c.one(c.p.handler(DISCO, r"discovery::Discover$"), "Handler<Discover>")
    SN = {T("fld", T("arg", 2), ".seed"): ("is", "Nodes")}
    SA = {T("fld", T("arg", 2), ".seed"): ("is", "Addr")}
    EA = r"^each\(a2\.seed@Nodes\.0\)"

    def mon(s, ev, q):
        cur, known, disc, cl, reg, mark, task = s
        if ev.kind == "next" and canon(q, ev.value) == "a2.seed@Nodes.0":
            if cur == "Some":
                if known is False and disc is False and cl != "None" and not (reg and mark and task):
                    return Bad("skipped", "a node that is not known is not %s" % ("registered" if not reg else "marked" if not mark else "handshaken with"))
            if ev.loc and any(a[0] in RESTRICT for a in ev.loc.a[0]):
                return Bad("partial", "only some of the named nodes are discovered")
            return (str(ev.out), None, None, None, False, False, False)
        y = member(ev, q)
        if y and re.match(EA, y[1]) and y[1].endswith(".id"):
            if "discovering_nodes" in y[0]:
                if y[3] == "insert":
                    return (cur, known, y[2], cl, reg, mark or not y[2], task)
                return (cur, known, y[2], cl, reg, mark, task)
            if "get_nodes(" in y[0]:
                return (cur, y[2], disc, cl, reg, mark, task)
        if ev.kind == "branch" and re.match(r"^[\w:]*get_remote_client\(", canon(q, ev.value)) and str(ev.out) in ("Some", "None"):
            if not re.search(r"each\(a2\.seed@Nodes\.0\)\.addr", canon(q, ev.value, 9)):
                return Bad("address", "the node is contacted at %s" % canon(q, ev.value, 9))
            return (cur, known, disc, str(ev.out), reg, mark, task)
        v = awaited(ev, q, r"register_node$")
        if v:
            if not re.match(EA + "$", canon(q, v.a[2][1])):
                return Bad("register", "the node registered is %s" % canon(q, v.a[2][1]))
            if known is not False or disc is not False:
                return Bad("known", "a node that is already known or being discovered is registered again")
            return (cur, known, disc, cl, True, mark, task)
        y = mutation(ev, q)
        if y and y[1].endswith("discovering_nodes"):
            if y[0] != "insert" or not re.match(EA + r"\.id$", y[2][0]):
                return Bad("mark", "discovering does %s(%s)" % (y[0], y[2]))
            return (cur, known, disc, cl, reg, True, task)
        if called(ev, r"discover_node_handshake$"):
            a = [canon(q, x, 9) for x in ev.args]
            if not re.match(EA + "$", a[0]) or "get_remote_client(" not in a[2] or "get_nodes(" not in a[3] and not a[3].startswith("coll(empty|"):
                return Bad("handshake", "a handshake is made with %s" % [cut(x) for x in a])
            if re.search(r"~(take|skip|step_by)", a[3]):
                return Bad("seeds", "a handshake passes on only part of the known nodes")
            if known is not False or disc is not False:
                return Bad("known", "a node that is already known or being discovered is handshaken with again")
            if task:
                return Bad("twice", "two handshakes are made with one node")
            return (cur, known, disc, cl, reg, mark, True)
        if ev.kind == "leave" and ev.out and cur == "Some":
            return Bad("abandoned", "discovery stops before all named nodes were considered")
        return None

    def live(ev, q):
        if ev.kind == "collect":
            t = canon(q, ev.args[0], 9)
            if "get_nodes(" in t:
                return ("collect", t)
        y = mutation(ev, q)
        if y and y[0] in ("push", "insert") and re.match(r"^each\([\w:]*get_nodes\(", y[2][-1]):
            return ("collect", y[2][-1])
        if ev.kind == "branch" and re.search(r"each\([\w:]*get_nodes\(.*\)\.status$", canon(q, ev.value, 9)):
            return ("st", str(ev.out))
        z = ev.kind == "branch" and re.match(r"^(Not\()?\(.*get_nodes\(.*\)\)\.status (Eq|Ne) (\w+)\)\)?$", canon(q, ev.value, 9))
        if z and truth(ev) is not None:
            eq = ((z.group(2) == "Eq") != bool(z.group(1))) == truth(ev)
            return ("st", z.group(3) if eq else "!" + z.group(3))
        return None

    i, mm = combine(a=(("start", None, None, None, False, False, False), mon), seeds=gathers(r"^[\w:]*get_nodes\(", "known nodes",
                    lambda ev, q: called(ev, r"discover_node_handshake$"), skip=lambda ev, q: (live(ev, q) or (0,))[0] == "st"))
    c.watch(b, mm, i, "nodes", opaque=DOP, facts=SN, ccap=0)

    def mon1(s, ev, q):
        x = live(ev, q)
        if s == "unseen":
            y = member(ev, q)
            if y and "get_nodes(" in y[0]:
                return Bad("dead", "a terminated node counts as known: nodes count without regard to their status")
            return None
        if x and x[0] == "st":
            return x[1]
        if x and x[0] == "collect" and s == "some":
            return "unseen"
        if x and x[0] == "collect":
            if s == "Terminated":
                return Bad("dead", "a terminated node counts as known")
            return "any"
        if ev.kind == "next" and "get_nodes(" in canon(q, ev.value):
            if s not in ("any", "start", "some", "Terminated"):
                return Bad("dropped", "a node that is %s does not count as known" % s)
            return "some" if str(ev.out) == "Some" and s == "start" else "any"
        return None
    c.watch(b, mon1, "start", "live", opaque=DOP, facts=SN, ccap=0)

    c.rule("complete", "Whoever waits for a discovery is told exactly once when it is over: after all handshakes have ended, at once when the node at an address is known, and that it failed when that node cannot be identified. "
           "Discovering an address discovers the node there and all its peers.")

    def mon2(s, ev, q):
        told, waits, spawned = s
        if ev.kind == "branch" and canon(q, ev.value) == "a2.on_discovery_complete" and str(ev.out) == "None":
            return (1, waits, spawned)
        if ev.kind == "spawn":
            return (told, waits, True)
        if called(ev, r"discover_node_handshake$"):
            return (told, True, spawned)
        if ev.kind == "await" and re.search(r"^(discovery::)?discover_node_handshake\(|join_all\(", canon(q, ev.value)):
            return (told, False, spawned)
        if ev.kind == "joined":
            return (told, False, spawned)
        if called(ev, ONESHOT) and canon(q, ev.args[0]).startswith("a2.on_discovery_complete"):
            if told:
                return Bad("twice", "the end of a discovery is reported twice")
            if waits:
                return Bad("early", "the end of a discovery is reported before its handshakes have ended")
            return (1, waits, spawned)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Discover" and "a2.on_discovery_complete" in canon(q, x[2]):
            return (told + 1, waits, spawned) if not told else Bad("twice", "the end of a discovery is reported twice")
        if ev.kind == "leave" and ev.out and not told:
            return Bad("untold", "whoever waits for a discovery is never told of its end")
        return None
    c.watch(b, mon2, (0, False, False), "nodes-complete", opaque=DOP, facts=SN, ccap=0, spawn="inline")

    def mon3(s, ev, q):
        if s == "impossible":       # the identified seed itself is always among the discovered nodes
            return None
        told, known, seed, disc = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a2.on_discovery_complete" and str(ev.out) == "None":
                return (1, known, seed, disc)
            if re.match(r"^[\w:]*get_node_identity\(", t) and str(ev.out) in ("Some", "None"):
                return (told, known, str(ev.out), disc)
            if seed == "Some" and truth(ev) is True and (re.search(r" (Eq|Le) 0\)?$| Lt 1\)?$|^\(?0 (Eq|Ge) ", t) or "is_empty(" in t):
                return "impossible"
        y = member(ev, q)
        if y and y[0].endswith("discovered_nodes_by_addr"):
            return (told, y[2], seed, disc)
        y = mutation(ev, q)
        if y and y[1].startswith("coll(") and y[0] in ("insert", "push", "push_back", "or_insert") and seed == "Some" and re.search(r"get_node_identity\(", y[2][-1]) and not disc:
            return (told, known, seed, "seed")
        if awaited(ev, q, r"discover_nodes$"):
            return (told, known, seed, "seed peers" if disc.startswith("seed") else "peers")
        if called(ev, ONESHOT) and canon(q, ev.args[0]).startswith("a2.on_discovery_complete"):
            r = canon(q, ev.args[1])
            if told:
                return Bad("twice", "the end of a discovery is reported twice")
            if seed == "None" and r == "True":
                return Bad("false", "the discovery of a node that cannot be identified is reported as done")
            if r == "False" and (known or seed == "Some"):
                return Bad("failed", "the discovery of a known node is reported as failed")
            if seed == "Some":
                return Bad("early", "a discovery is reported as done before the node was discovered")
            return (1, known, seed, disc)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Discover":
            t = canon(q, x[2], 12)
            if "on_discovery_complete:a2.on_discovery_complete" not in t and "on_discovery_complete:None" not in t or "Nodes{0:coll(" not in t:
                return Bad("next", "the next discovery is %s" % cut(t, 250))
            if told:
                return Bad("twice", "the end of a discovery is reported twice")
            if "get_node_identity(" in t and disc == "peers":
                disc = "seed peers"
            return (1, known, seed, disc + "+" if disc else "alone")
        if ev.kind == "leave" and ev.out:
            if not told:
                return Bad("untold", "whoever waits for a discovery is never told of its end")
            if known is not True and seed == "Some" and disc != "seed peers+":
                return Bad("skipped", "an identified node %s not discovered" % ("has peers that are" if disc in ("seed+", "alone") else "is"))
            if known is not True and seed is None:
                return Bad("unidentified", "the node at an address is not identified")
        return None
    c.watch(b, mon3, (0, None, None, ""), "addr-complete", opaque=DOP, facts=SA, ccap=0)

    c.rule("join", "A node is announced as added exactly when its handshake succeeded and it was being discovered; either way it is no longer being discovered afterwards, and how the handshake ended is reported as it ended.")
    b = c.handler(DISCO, r"NodeDiscovered$")

    def mon4(s, ev, q):
        ok, was, rem, pub = s
        if ev.kind == "branch" and canon(q, ev.value) == "a2.successful" and truth(ev) is not None:
            return (truth(ev), was, rem, pub)
        y = member(ev, q)
        if y and y[0].endswith("discovering_nodes") and y[1] == "a2.node.id":
            return (ok, y[2], rem, pub)
        y = mutation(ev, q)
        if y and y[1].endswith("discovering_nodes"):
            return (ok, was, True, pub) if y[0] in ("remove", "take") and y[2] == ["a2.node.id"] else Bad("which", "%s(%s) on the nodes being discovered" % (y[0], y[2]))
        x = published(ev, q)
        if x:
            t = canon(q, x[1], 9)
            if not re.match(r"^Cluster\{0:NodeAdded\{0:a2\.node\}\}$", t):
                return Bad("publish", "what is published is %s" % t)
            if ok is not True:
                return Bad("failed", "a node is announced although its handshake failed")
            if was is not True:
                return Bad("again", "a node is announced that was not being discovered")
            if pub:
                return Bad("twice", "a node is announced twice")
            return (ok, was, rem, True)
        if ev.kind == "leave" and ev.out:
            if not rem:
                return Bad("stuck", "a node whose handshake %s stays marked as being discovered" % ("succeeded" if ok else "failed"))
            if ok and was is not False and not pub:
                return Bad("silent", "a node that joined is not announced")
        return None
    c.watch(b, mon4, (None, None, False, False), "joined", opaque=API + PUBSUB)
    b = c.fn("coerce::remote::cluster::discovery::discover_node_handshake")

    def mon5(s, ev, q):
        st, told = s
        if ev.kind == "branch" and re.match(r"^[\w:]*handshake\(", canon(q, ev.value)) and str(ev.out) in ("Ok", "Err"):
            return (str(ev.out), told)
        v = awaited(ev, q, r"RemoteClientRef>?::handshake$")
        if v and (canon(q, v.a[2][0]) != "a3" or canon(q, v.a[2][2]) != "a4"):
            return Bad("args", "the handshake is made over %s with %s" % (canon(q, v.a[2][0]), canon(q, v.a[2][2])))
        x = message(ev, q)
        if x and msgname(q, x[2]) == "NodeDiscovered":
            f = {k: canon(q, z) for k, z in strip(q, x[2]).a[2]}
            tr = {"True": True, "False": False}.get(f["successful"])
            if tr is None:
                z = q.truth(dict(strip(q, x[2]).a[2])["successful"])
                tr = z if z in (True, False) else None
            if f["node"] != "a1" or tr is not None and tr != (st == "Ok") or tr is None and "handshake(" not in f["successful"]:
                return Bad("result", "a handshake with a1 that ended as %s is reported as %s" % (st, f))
            return (st, True)
        if ev.kind == "leave" and ev.out and not told:
            return Bad("untold", "the end of a handshake is not reported")
        return None
    c.watch(b, mon5, (None, False), "handshake", opaque=API + [r"RemoteClientRef>?::handshake$"])

    c.rule("forget", "Forgetting an address forgets the node there, under its address and its id, and announces its removal; it then can be discovered again.")
    b = c.handler(DISCO, r"discovery::Forget$")

    def mon6(s, ev, q):
        a, i, pub, rem = s
        y = member(ev, q)
        if y and y[0].endswith("by_addr") and y[1] == "a2.0":
            return ("gone" if y[2] else "none", i, pub, rem)
        if y and y[0].endswith("by_id"):
            return (a, "gone" if y[2] else "none", pub, rem)
        y = mutation(ev, q)
        if y and y[1].endswith(("by_addr", "by_id")):
            rem |= 1 if y[1].endswith("by_addr") else 2
        if y and y[1].endswith("by_addr") and (y[0] != "remove" or y[2] != ["a2.0"]) and y[0] != "retain":
            return Bad("which", "%s(%s) on the addresses" % (y[0], y[2]))
        if y and y[1].endswith("by_id") and (y[0] != "remove" or not re.search(r"by_addr.*\.node\.id$", y[2][0])) and y[0] != "retain":
            return Bad("which", "%s(%s) on the ids" % (y[0], y[2]))
        if ev.kind == "branch" and canon(q, ev.value) == "a1.remote_system" and str(ev.out) == "None":
            return (a, i, True, rem)
        x = published(ev, q)
        if x:
            t = canon(q, x[1], 9)
            if not re.match(r"^Cluster\{0:NodeRemoved\{0:.*discovered_nodes.*\.node\}\}$", t):
                return Bad("publish", "what is published is %s" % cut(t))
            return (a, i, True, rem)
        if ev.kind == "leave" and ev.out:
            if a == "gone" and not rem & 1:
                return Bad("kept", "a forgotten node is kept under its address")
            if a == "gone" and not rem & 2:
                return Bad("kept", "a forgotten node is kept under its id")
            if a == "gone" and i == "gone" and not pub:
                return Bad("silent", "a node's removal is not announced")
            if pub and a != "gone":
                return Bad("false", "the removal of a node is announced that was not known")
        return (a, i, pub, rem)
    c.watch(b, mon6, (None, None, False, 0), "forget", opaque=API + PUBSUB, spawn="inline")
    b = c.inherent(DISCO, "get_node_identity")

    def mon7(s, ev, q):
        hit, ident, by = s
        y = member(ev, q)
        if y and y[0].endswith("discovered_nodes_by_addr") and y[3] not in ("insert", "entry"):
            return ("hit" if y[2] else "miss", ident, by)
        z = ev.kind == "branch" and truth(ev) is not None and re.match(r"^(Not\()?\((?:a2 (Eq|Ne) .*\.node\.addr|.*\.node\.addr (Eq|Ne) a2)\)\)?$", canon(q, ev.value, 16))
        if z:
            same = (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev)
            return (hit, ident, by | 4) if same else None
        if ev.kind == "branch" and re.match(r"^[\w:]*identify\(.*\)\?$", canon(q, ev.value)) and str(ev.out) in ("Some", "None"):
            return (hit, str(ev.out), by)
        y = mutation(ev, q)
        if y and y[0] == "insert":
            k, v = y[2][0], y[2][1] if len(y[2]) > 1 else ""
            if not re.search(r"identify\(.*\)\?\?$", v):
                return Bad("identity", "what is remembered is %s" % v)
            if y[1].endswith("by_addr"):
                if k == "a2":
                    return (hit, ident, by | 4)
                return (hit, ident, by | 1) if re.search(r"\?\?\.node\.addr$", k) else Bad("addr", "a node is remembered under %s" % k)
            if y[1].endswith("by_id"):
                return (hit, ident, by | 2) if re.search(r"\?\?\.node\.id$", k) else Bad("id", "a node is remembered under %s" % k)
        if ev.kind == "leave" and ev.out and ev.value is not None:
            r = canon(q, ev.value, 9)
            if ident == "Some" and by != 7:
                return Bad("forgotten", "an identified node is not remembered under %s" % ("its address" if not by & 1 else "its id" if not by & 2 else "the address it was asked at"))
            if r.startswith("Some{") and hit != "hit" and not re.search(r"identify\(.*\)\?\?\}$", r):
                return Bad("result", "the identity of a node is given as %s" % r)
            if r == "None" and (hit == "hit" or ident == "Some"):
                return Bad("denied", "a node that is known is reported as unidentified")
        return None
    c.watch(b, mon7, (None, None, 0), "identify", opaque=API + CLU + [r"RemoteClientRef>?::identify$"])
    b = c.inherent(DISCO, "discover_nodes")

    def mon8(s, ev, q):
        cur, me, have, got, ins = s
        if ev.kind == "next" and canon(q, ev.value).endswith("a3.peers"):
            if cur == "Some" and me is False and have is False and (got is None or got == "Some" and not ins):
                return Bad("skipped", "a peer is not discovered")
            return (str(ev.out), None, None, None, False)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            z = re.match(r"^(Not\()?\((.*) (Eq|Ne) (.*)\)\)?$", t)
            if z and "a3.peers" in t and ".id" in t and "a2" in t and truth(ev) is not None:
                return (cur, ((z.group(3) == "Eq") != bool(z.group(1))) == truth(ev), have, got, ins)
            if re.match(r"^[\w:]*get_node_identity\(", t) and str(ev.out) in ("Some", "None"):
                if not re.search(r"each\(a3\.peers\)\.addr", t):
                    return Bad("addr", "a peer is looked for at %s" % t)
                return (cur, me, have, str(ev.out), ins)
        y = member(ev, q)
        if y and y[0] == "a4" and re.match(r"^each\(a3\.peers\)\.id$", y[1]):
            return (cur, me, y[2], got, ins)
        if awaited(ev, q, r"get_node_identity$") and me is True:
            return Bad("self", "this node looks for itself")
        y = mutation(ev, q)
        if y and y[1] == "a4" and y[0] in ("insert", "or_insert", "insert_entry"):
            return (cur, me, have, got, True)
        if ev.kind == "leave" and ev.out and cur == "Some":
            return Bad("abandoned", "not all peers are discovered")
        return None
    c.watch(b, mon8, ("start", None, None, None, False), "peers", opaque=API + CLU + [r"get_node_identity$"])
