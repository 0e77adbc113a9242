"""Locating actors and clients, publish/subscribe, creating actors on other nodes, health."""
from rules import *
from net import truth
from shard import fields, notified, wrote
from remote import NOCONV

REG = r"remote::actor::registry::RemoteRegistry$"
CREG = r"remote::actor::clients::RemoteClientRegistry$"
SYS = r"remote::system::RemoteActorSystem$"
STORE = r"cluster::node::RemoteNodeStore$"
MED = r"mediator::StreamMediator$"
SUBS = r"pubsub::TopicSubscriberStore(<.*>)?$"
LOP = API + CTXAPI + [r"Display.*::fmt$"]
RING = "HashRing::get(a1.nodes.table,a2.actor_id)"
OWN = r"a1\.system\??\.inner\.node_id"


def wrote_to(ev, q):
    """(node, event term) when a message is handed to the client of a node"""
    x = message(ev, q)
    if x and msgname(q, x[2]) == "ClientWrite":
        d = dict(strip(q, x[2]).a[2])
        v = list(strip(q, x[2]).a[2])
        return canon(q, v[0][1], 9), v[1][1]
    return None


def assigned(ev, q):
    """what a branch says about the node assigned to the actor id: 'none', 'own', 'other'"""
    if ev.kind != "branch":
        return None
    t = canon(q, ev.value, 9)
    if t == RING and str(ev.out) in ("Some", "None"):
        return "none" if str(ev.out) == "None" else "some"
    z = re.match(r"^(Not\()?\((?:%s\?\.id (Eq|Ne) %s|%s (Eq|Ne) %s\?\.id)\)\)?$" % (re.escape(RING), OWN, OWN, re.escape(RING)), t)
    if z and truth(ev) is not None:
        return "own" if (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev) else "other"
    return None


@prop("R09")
def locating(c):
    c.rule("register", "An actor that is registered for this node is recorded at the node its id is assigned to: here, if that is this node or no nodes are known, else by telling that node, with the id and this node's number. A registration that names a node is recorded here.")
    b = c.handler(REG, r"message::RegisterActor$")

    def mon(s, ev, q):
        given, ring, sysm, done = s
        if ev.kind == "branch" and canon(q, ev.value) == "a2.node_id" and str(ev.out) in ("Some", "None"):
            return (str(ev.out), ring, sysm, done)
        if ev.kind == "branch" and canon(q, ev.value) == "a1.system" and str(ev.out) == "None":
            return (given, ring, "none", done)
        z = assigned(ev, q)
        if z:
            return (given, z, sysm, done)
        y = mutation(ev, q)
        if y and y[1] == "a1.actors":
            if y[0] not in ("insert", "or_insert", "insert_entry") or y[2][0] != "a2.actor_id":
                return Bad("table", "registering does %s(%s) on the table" % (y[0], ", ".join(y[2])))
            if given == "Some" and y[2][1] != "a2.node_id?" or given == "None" and not re.match("^" + OWN + "$", y[2][1]):
                return Bad("node", "the actor is recorded at node %s" % y[2][1])
            if given == "None" and ring not in ("none", "own"):
                return Bad("where", "an actor assigned to another node is recorded here")
            return (given, ring, sysm, True)
        w = wrote_to(ev, q)
        if w:
            t = canon(q, w[1], 9)
            z = re.match(r"^RegisterActor\{0:ActorAddress\{actor_id:(.*?),node_id:(.*?),special", t)
            if given != "None" or ring != "other" or w[0] != RING + "?.id":
                return Bad("where", "node %s is told" % w[0])
            if z and (z.group(1) != "a2.actor_id" or not re.search(OWN, z.group(2))):
                return Bad("what", "the registration sent is %s" % t[:200])
            return (given, ring, sysm, True)
        if ev.kind == "leave" and ev.out and not done and sysm != "none":
            return Bad("lost", "the registration of an actor is dropped")
        return None
    c.watch(b, mon, (None, None, None, False), "register", opaque=LOP, spawn="inline")
    b = c.inherent(SYS, "register_actor")
    for o in c.run(b, lambda ev, q: (lambda f: ("reg", f[0], tuple(sorted(f[1].items()))) if f else None)(notified(ev, q, "RegisterActor")), opaque=LOP):
        if o.kind == "return":
            c.check(o.obs == (("reg", "a1.inner.registry_ref", (("actor_id", "a2"), ("node_id", "a3"))),), "api", "register_actor does %s" % (o.obs,), out=o)
    b = c.soft(c.p.handler(r"scheduler::ActorScheduler$", r"scheduler::RegisterActor<|scheduler::RegisterActor$"), "Handler<RegisterActor> for ActorScheduler")
    if b:
        def mon1(s, ev, q):
            if ev.kind == "branch" and "HashMap::insert(a1.actors" in canon(q, ev.value, 9) and str(ev.out) in ("Some", "None"):
                return (str(ev.out), s[1], s[2])
            if ev.kind == "branch" and canon(q, ev.value) == "a1.remote" and str(ev.out) in ("Some", "None"):
                return (s[0], str(ev.out), s[2])
            if called(ev, r"register_actor$"):
                if [canon(q, x, 9) for x in ev.args[1:]] != ["a2.id", "None"]:
                    return Bad("what", "a started actor is announced as %s" % [canon(q, x, 9) for x in ev.args[1:]])
                return (s[0], s[1], True)
            if ev.kind == "leave" and ev.out and s[0] != "Some" and s[1] == "Some" and not s[2]:
                return Bad("silent", "an actor that starts is not announced to the registry of the cluster")
            return None
        c.watch(b, mon1, (None, "Some", False), "announce", opaque=LOP + [r"RemoteActorSystem>?::register_actor$"])

    c.rule("lookup", "Looking an actor up answers the asker exactly once: with what is recorded here, if anything; with nothing, if its id is assigned to this node or to none; else with what the assigned node answers to a request registered before it is sent under a fresh id.")
    b = c.handler(REG, r"message::GetActorNode$")

    def mon2(s, ev, q):
        ring, here, req, sent, ans, dec, done = s
        z = assigned(ev, q)
        if z:
            return (z, here, req, sent, ans, dec, done)
        y = member(ev, q)
        if y and y[0] == "a1.actors":
            if y[1] != "a2.actor_id":
                return Bad("key", "the actor looked for is %s" % y[1])
            return (ring, y[2], req, sent, ans, dec, done)
        y = mutation(ev, q)
        if y and y[1] == "a1.actors":
            return Bad("changes", "looking up does %s on the table" % y[0])
        if y and y[1].endswith("handler_ref.requests") and y[0] == "insert":
            return (ring, here, strip(q, ev.args[1]), sent, ans, dec, done)
        if called(ev, r"RemoteActorSystem>?::push_request$"):
            return (ring, here, strip(q, ev.args[1]), sent, ans, dec, done)
        w = wrote_to(ev, q)
        if w:
            t = canon(q, w[1], 9)
            v = strip(q, w[1])
            f = fields(q, v.a[2][0][1]) if v.tag == "adt" and v.a[2] else {}
            if not t.startswith("FindActor{") or w[0] != RING + "?.id" or ring != "other":
                return Bad("where", "node %s is sent %s" % (w[0], t[:120]))
            if here is True:
                return Bad("asked", "another node is asked for an actor recorded here")
            if f.get("actor_id") not in (None, "a2.actor_id"):
                return Bad("what", "the actor asked for is %s" % f.get("actor_id"))
            if req is None:
                return Bad("early", "the request is sent before it is registered: its answer can be lost")
            d = dict(strip(q, v.a[2][0][1]).a[2]) if f else {}
            if "message_id" in d and strip(q, d["message_id"]) is not req and canon(q, d["message_id"]) != canon(q, req):
                return Bad("id", "the request is sent under another id than it is registered")
            return (ring, here, req, True, ans, dec, done)
        if ev.kind == "branch" and sent:
            t = canon(q, ev.value, 9)
            if re.match(r"^oneshot::channel\(\)\.1\??$", t) and str(ev.out) in ("Ok", "Err"):
                return (ring, here, req, sent, str(ev.out) if ans != "Err" else ans, dec, done)
            z = re.match(r"^(Not\()?MessageField::is_(none|some)\(.*parse_from_bytes\(oneshot::channel\(\)\.1\?\?\)\?\.node_id\)\)?$", t)
            if z and truth(ev) is not None:
                none = (truth(ev) != bool(z.group(1))) == (z.group(2) == "none")
                return (ring, here, req, sent, ans, "none" if none else "some", done)
        if called(ev, ONESHOT) and canon(q, ev.args[0]) == "a2.sender":
            t = canon(q, ev.args[1], 9)
            if done:
                return Bad("twice", "the asker is answered twice")
            if here is True:
                if t not in ("Some{0:HashMap::get(a1.actors,a2.actor_id)?}", "HashMap::get(a1.actors,a2.actor_id)"):
                    return Bad("wrong", "an actor recorded here is answered with %s" % t)
            elif not sent:
                if here is None or ring == "other" or t not in ("None", "HashMap::get(a1.actors,a2.actor_id)"):
                    return Bad("wrong", "an actor assigned to %s node is answered with %s" % ("another" if ring == "other" else "this", t))
            elif dec == "none" and t != "None" or dec == "some" and not re.search(r"parse_from_bytes\(oneshot::channel\(\)\.1\?\?\)\?\.node_id\??\.value\}?$", t) or dec is None and t != "None" and "channel().1" not in t:
                return Bad("wrong", "the answer of the assigned node is passed on as %s" % t)
            elif dec is None and re.search(r"\)\?\.node_id\.value\}?$", t):
                return Bad("nowhere", "the assigned node's answer that it knows no such actor is passed on as node 0")
            return (ring, here, req, sent, ans, dec, True)
        if ev.kind == "leave" and ev.out and not done and ans != "Err":
            return Bad("silent", "the asker is not answered")
        return None
    c.watch(b, mon2, (None, None, None, False, None, None, False), "lookup", opaque=LOP + [r"RemoteActorSystem>?::push_request$"], spawn="inline")

    c.rule("reference", "A reference to a located actor leads to it: the tracked actor itself if it is on this node, else a remote reference with its id and node; none if it is not found. The location is what the registry answers for that id, none on failure or after a time.")
    b = c.inherent(SYS, "locate_actor_node")

    def mon3(s, ev, q):
        f = notified(ev, q, "GetActorNode")
        if f:
            if f[0] != "a1.inner.registry_ref" or f[1].get("actor_id") != "a2" or not f[1].get("sender", "").endswith("channel().0"):
                return Bad("ask", "%s is asked for %s" % (f[0], f[1]))
            return "asked"
        if ev.kind == "branch" and s == "asked" and canon(q, ev.value).endswith("channel().1") and str(ev.out) == "Ok":
            return "got"
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value)
            if s == "start":
                return Bad("unasked", "the registry is not asked")
            if s == "got" and not re.search(r"oneshot::channel\(\)\.1\?", r) or s != "got" and r != "None":
                return Bad("answer", "the location is %s" % r)
        return None
    c.watch(b, mon3, "start", "locate", opaque=LOP)
    b = c.inherent(SYS, "actor_ref")

    def mon4(s, ev, q):
        if ev.kind == "branch":
            t = canon(q, ev.value)
            if re.match(r"^actor::locate_actor_node\(a1,a2\)$", t) and str(ev.out) == "None":
                return "none"
            z = re.match(r"^(Not\()?\((?:actor::locate_actor_node\(a1,a2\)\? (Eq|Ne) a1\.inner\.node_id|a1\.inner\.node_id (Eq|Ne) actor::locate_actor_node\(a1,a2\)\?)\)\)?$", t)
            if z and truth(ev) is not None:
                return "own" if (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev) else "other"
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 9)
            if s == "none" and r != "None" or s == "own" and not (r == "None" or re.match(r"^Some\{0:ActorRef\{inner_ref:Local\{0:ActorSystem::get_tracked_actor\(a1\.inner\.inner,a2\)\?\}\}\}$", r) or r == "ActorSystem::get_tracked_actor(a1.inner.inner,a2)") or \
               s == "other" and not re.match(r"^Some\{0:ActorRef\{inner_ref:Remote\{0:RemoteActorRef\{id:a2,system:a1,node_id:actor::locate_actor_node\(a1,a2\)\?,", r):
                return Bad("ref", "the reference to an actor on %s node is %s" % (s, r))
            if s == "start":
                return Bad("blind", "the reference does not depend on where the actor is")
        return None
    c.watch(b, mon4, "start", "actor_ref", opaque=LOP + [r"locate_actor_node$"])

    c.rule("ring", "The nodes ids are assigned to are exactly the known nodes, each once: adding a node assigns ids to it as well, once even if it was known, and removing it stops that. An id is assigned by the id alone.")
    b = c.inherent(STORE, "add")

    def mon5(s, ev, q):
        reset, ph, seen, nodes, once = s
        if wrote(ev, "table"):
            return (True, ph, seen, nodes, once)
        if wrote(ev, "nodes"):
            return (reset, ph, seen, True, once)
        y = mutation(ev, q)
        if y and y[1] == "a1.nodes" and y[0] in ("insert",):
            return (reset, ph, seen, True, True)
        if y and y[1] == "a1.nodes" and y[0] in ("remove",) and y[2][0] == "a2.id":
            return (reset, ph, seen, nodes, True)
        if ev.kind == "retain" or called(ev, r"::(retain|filter|dedup_by_key|contains_key)$"):
            return (reset, ph, seen, nodes, True)
        if ev.kind == "next" and any(a[0] in ("filter",) for a in (ev.loc.a[0] if ev.loc else ())):
            once = True
        if called(ev, r"HashRing.*::new$"):
            reset = True       # what is filled from here on replaces the assignment
        if ev.kind == "next" and reset and "a1.nodes" in canon(q, ev.value, 9):
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "ids are assigned to part of the nodes")
            if ph == "open":
                return Bad("skipped", "no ids are assigned to a known node")
            return (reset, "open" if str(ev.out) == "Some" else "done", seen, nodes, once)
        if called(ev, r"HashRing.*::add$"):
            t = canon(q, ev.args[1], 9)
            return (reset, "acted" if ph == "open" else ph, True, nodes, once)
        if ev.kind == "leave" and ev.out:
            if reset and ph == "start":
                return Bad("empty", "the assignment of ids is emptied")
            if not reset and not seen:
                return Bad("unassigned", "no ids are assigned to a node that is added")
            if not nodes:
                return Bad("unknown", "a node that is added is not known afterwards")
            if not once:
                return Bad("again", "a node that is registered again is assigned ids twice, once as it was before")
        return (reset, ph, seen, nodes, once) if (once, reset) != (s[4], s[0]) else None
    c.watch(b, mon5, (False, "start", False, False, False), "add", opaque=LOP + [r"^hashring::"])
    b = c.soft(c.p.inherent(STORE, "remove"), "RemoteNodeStore::remove")
    if b:
        for o in c.run(b, lambda ev, q: ("ring", canon(q, ev.args[1], 6)) if called(ev, r"HashRing.*::remove$") else (lambda y: ("nodes", y[2][0], None) if y and y[1] == "a1.nodes" and y[0].startswith("remove") else None)(mutation(ev, q)), opaque=LOP + [r"^hashring::"]):
            if o.kind == "return" and c.ret(o) != "None":
                c.check(any(x[0] == "ring" for x in o.obs) and any(x[0] == "nodes" and x[1] == "a2" for x in o.obs), "remove", "removing a node does %s" % (o.obs,), out=o)
    b = c.inherent(STORE, "get_by_key")
    for o in c.run(b, None, opaque=[r"^hashring::"]):
        if o.kind == "return":
            c.check(c.ret(o) == "HashRing::get(a1.table,a2)", "key", "the node an id is assigned to is %s" % c.ret(o), out=o)
    b = c.handler(REG, r"message::GetNodes$")
    for o in c.run(b, None, opaque=LOP):
        if o.kind == "return":
            c.check("a1.nodes.nodes" in c.ret(o, 6), "nodes", "the nodes known are reported as %s" % c.ret(o, 6), out=o)

    c.rule("clients", "There is one client per address: asking for an address answers the client it has, or one created for that address and kept. A message for a node goes once, unchanged, to the client connected to that node; a client that has gone is taken off the tables, and writing to one that has just gone does not bring the registry down.")
    b = c.handler(CREG, r"message::NewClient$")

    def mon6(s, ev, q):
        has, made, kept = s
        y = member(ev, q)
        if y and y[0] == "a1.node_addr_registry":
            return (y[2], made, kept) if y[1] == "a2.addr" else Bad("key", "the address looked for is %s" % y[1])
        v = awaited(ev, q, r"RemoteClient>?::new$")
        if v:
            if has is not False:
                return Bad("second", "a second client is created for an address")
            if [canon(q, x) for x in v.a[2]] != ["a2.addr", "a2.system", "a2.client_type"]:
                return Bad("what", "the client created is for %s" % [canon(q, x) for x in v.a[2]])
            return (has, True, kept)
        y = mutation(ev, q)
        if y and y[1] == "a1.node_addr_registry" and y[0] != "entry":
            if y[0] not in ("insert", "or_insert", "insert_entry") or y[2][0] != "a2.addr" or not y[2][-1].startswith("RemoteClient::new("):
                return Bad("keep", "creating a client does %s(%s)" % (y[0], ", ".join(y[2])))
            return (has, made, True)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 9)
            if made and not kept:
                return Bad("forgotten", "a client that is created is not kept")
            if made and r != "Some{0:RemoteClient::new(a2.addr,a2.system,a2.client_type)}" or not made and (has is not True or "a1.node_addr_registry" not in r):
                return Bad("answer", "the client answered is %s" % r)
        return None
    c.watch(b, mon6, (None, False, False), "new", opaque=LOP + [r"RemoteClient>?::new$"])
    b = c.handler(CREG, r"message::ClientConnected$")
    for o in c.run(b, lambda ev, q: mutation(ev, q) and repr(mutation(ev, q)), opaque=LOP):
        if o.kind == "return":
            c.check(repr(("insert", "a1.node_id_registry", ["a2.remote_node_id", "a2.client_actor_ref"])) in o.obs, "connected", "a client that connected is recorded as %s" % (o.obs,), out=o)
    b = c.handler(CREG, r"message::RemoveClient$")

    def mon7(s, ev, q):
        if ev.kind == "branch" and canon(q, ev.value) == "a2.node_id" and str(ev.out) == "None":
            return (True, s[1])
        y = mutation(ev, q)
        if y and y[1] in ("a1.node_id_registry", "a1.node_addr_registry"):
            k = "a2.node_id?" if "node_id" in y[1] else "a2.addr"
            if not y[0].startswith("remove") or y[2][0] != k:
                return Bad("which", "%s(%s) on %s" % (y[0], ", ".join(y[2]), y[1]))
            return (True, s[1]) if "node_id" in y[1] else (s[0], True)
        if ev.kind == "leave" and ev.out and s != (True, True):
            return Bad("kept", "a client that has gone stays in the table by %s" % ("node" if not s[0] else "address"))
        return None
    c.watch(b, mon7, (False, False), "remove", opaque=LOP)
    b = c.handler(CREG, r"message::ClientWrite$")

    def mon8(s, ev, q):
        y = member(ev, q)
        if y and y[0] == "a1.node_id_registry":
            return ("has" if y[2] else "lacks") if y[1] == "a2.0" else Bad("node", "the client looked for is that of %s" % y[1])
        f = notified(ev, q, "Write")
        if f:
            if s == "sent":
                return Bad("twice", "a message is written twice")
            if f[0] != "HashMap::get(a1.node_id_registry,a2.0)?" or f[1].get("0") != "a2.1":
                return Bad("what", "%s is given %s" % (f[0], f[1]))
            return "sent"
        if ev.kind == "panic":
            return Bad("panic", "writing to a client that has gone panics the registry of clients: nothing can be sent to any node any more")
        if ev.kind == "leave" and ev.out and s in ("start", "has"):
            return Bad("dropped", "a message for a connected node is dropped")
        return None
    c.watch(b, mon8, "start", "write", opaque=LOP, panics=True)
    b = c.method("Actor", CREG, "stopped")
    i, mm = combine(each=foreach(r"^a1\.node_(id|addr)_registry", lambda ev, q: (lambda x: x and canon(q, x[2]) in ("<stop>", "'<stop>'"))(message(ev, q)), "clients", must=True))
    c.watch(b, mm, i, "stopped", opaque=LOP)
    for n, want in (("notify_node", ("ClientWrite", "a1.inner.clients_ref", {"0": "a2", "1": "a3"})), ("get_remote_client", ("NewClient", "a1.inner.clients_ref", {"addr": "a2", "system": "a1"}))):
        b = c.inherent(SYS, n)
        for o in c.run(b, lambda ev, q, want=want: (lambda f: ("msg", f[0], tuple(sorted(f[1].items()))) if f else None)(notified(ev, q, want[0])), opaque=LOP):
            if o.kind == "return":
                ok = len(o.obs) == 1 and o.obs[0][1] == want[1] and all(dict(o.obs[0][2]).get(k) == v for k, v in want[2].items())
                c.check(ok, n, "%s does %s" % (n, o.obs), out=o)


@prop("R10")
def pubsub(c):
    c.rule("publish", "What is published on a topic reaches, on this node, the subscribers of that topic and key, and, unless it is published locally, is encoded once and sent to every other node known, with the topic's name and key. That it cannot be encoded is reported.")
    for n, reach in (("publish", "Cluster"), ("publish_locally", "Local")):
        b = c.inherent(r"pubsub::PubSub$", n)

        def pub(ev, q):
            f = notified(ev, q, "Publish")
            return ("pub", f[0], tuple(sorted(f[1].items()))) if f else None
        for o in c.run(b, pub, opaque=LOP):
            if o.kind == "return":
                c.check(o.obs == (("pub", "a3.inner.mediator_ref?", (("message", "a2"), ("reach", reach), ("topic", "a1"))),), n, "%s does %s" % (n, o.obs), out=o)
    b = c.handler(MED, r"mediator::Publish<")
    TN, TK = "Topic::topic_name()", "Topic::key(a2.topic)"

    def mon(s, ev, q):
        has, emit, reach, empty, enc, ph, nodes = s

        def st(**k):
            d = dict(has=has, emit=emit, reach=reach, empty=empty, enc=enc, ph=ph, nodes=nodes)
            d.update(k)
            return tuple(d[x] for x in ("has", "emit", "reach", "empty", "enc", "ph", "nodes"))
        y = member(ev, q)
        if y and y[0] == "a1.topics":
            return st(has=y[2]) if y[1] == TN else Bad("topic", "the topic published on is %s" % y[1])
        v = awaited(ev, q, r"TopicEmitter(::<.*>)?::emit$|TopicEmitter>::emit$")
        if v:
            if emit:
                return Bad("twice", "subscribers receive a message twice")
            if not re.match(r"^HashMap::get\(a1\.topics,Topic::topic_name\(\)\)\?", canon(q, v.a[2][0])) or canon(q, v.a[2][1]) != TK or canon(q, v.a[2][2]) != "a2.message":
                return Bad("emit", "%s is emitted for %s" % (canon(q, v.a[2][2]), canon(q, v.a[2][1])))
            return st(emit=True)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a2.reach":
                return st(reach=str(ev.out))
            z = re.match(r"^(Not\()?HashSet::is_empty\(a1\.nodes\)\)?$", t)
            z2 = re.match(r"^\(HashSet::len\(a1\.nodes\) (Eq|Gt|Ne) 0\)$", t)
            if z and truth(ev) is not None:
                return st(empty=truth(ev) != bool(z.group(1)))
            if z2 and truth(ev) is not None:
                return st(empty=(z2.group(1) == "Eq") == truth(ev))
            if t == "StreamData::write_to_bytes(a2.message)" and str(ev.out) in ("Some", "None"):
                return st(enc=str(ev.out))
        if ev.kind == "next" and "a1.nodes" in canon(q, ev.value, 9):
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of the nodes receive what is published")
            if str(ev.out) == "Some":
                return st(ph="open") if ph != "open" else st(ph="open", nodes="collected")
            return st(ph="end")
        w = wrote_to(ev, q)
        if w:
            t = canon(q, w[1], 12)
            z = re.match(r"^StreamPublish\{0:StreamPublishEvent\{topic:(.*?),key:(.*?),message:(.*?),(?:trace_id|special)", t)
            if reach != "Cluster":
                return Bad("local", "what is published locally is sent to another node")
            if not re.match(r"^each\((coll\()?a1\.nodes", w[0]) or z and (z.group(1) != TN or z.group(2) != TK or z.group(3) != "StreamData::write_to_bytes(a2.message)?"):
                return Bad("sent", "node %s is sent %s" % (w[0], t[:200]))
            return st(ph="sent", nodes="sent")
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value)
            if has is True and not emit:
                return Bad("silent", "subscribers on this node do not receive what is published")
            if reach is None and empty is not True:
                return Bad("reach", "the reach of a publication is not looked at")
            if reach == "Cluster" and empty is not True:
                if enc is None:
                    return Bad("unsent", "what is published is not sent to other nodes")
                if enc == "None" and not r.startswith("Err"):
                    return Bad("unreported", "that a message cannot be encoded is reported as %s" % r)
                if enc == "Some" and ph in ("start", "open"):
                    return Bad("unsent", "a node does not receive what is published")
        return None
    c.watch(b, mon, (None, False, None, None, None, "start", None), "publish", opaque=LOP, spawn="inline")
    sends(c, b)

    c.rule("raw", "What another node published reaches the subscribers of that topic and key here, once, decoded as that topic's messages are.")
    b = c.handler(MED, r"mediator::PublishRaw$")

    def mon1(s, ev, q):
        y = member(ev, q)
        if y and y[0] == "a1.topics":
            return ("has" if y[2] else "lacks") if y[1] == "a2.topic" else Bad("topic", "the topic is %s" % y[1])
        v = awaited(ev, q, r"emit_serialised$")
        if v:
            if s == "emitted":
                return Bad("twice", "subscribers receive a message twice")
            if not canon(q, v.a[2][0]).startswith("HashMap::get(a1.topics,a2.topic)?") or canon(q, v.a[2][1]) != "a2.key" or canon(q, v.a[2][2]) != "a2.message":
                return Bad("emit", "%s is emitted for %s" % (canon(q, v.a[2][2]), canon(q, v.a[2][1])))
            return "emitted"
        if ev.kind == "leave" and ev.out and s in ("start", "has"):
            return Bad("silent", "subscribers do not receive what another node published")
        return None
    c.watch(b, mon1, "start", "raw", opaque=LOP)
    for n, arg in (("emit", r"downcast\(a3\)\?|^a3$"), ("emit_serialised", r"^StreamData::read_from_bytes\(a3\)\?$")):
        for b in c.all(c.p.impl_method(r"pubsub::TopicEmitter$", SUBS, n), "TopicEmitter::" + n):
            def mon2(s, ev, q, n=n, arg=arg):
                if called(ev, r"TopicSubscriberStore.*::broadcast$"):
                    t = canon(q, ev.args[2])
                    if s == "sent" or canon(q, ev.args[1]) != "a2" or not re.search(arg, t):
                        return Bad("what", "%s broadcasts %s under %s" % (n, t, canon(q, ev.args[1])))
                    return "sent"
                if ev.kind == "branch" and "read_from_bytes(a3)" in canon(q, ev.value) and str(ev.out) == "None":
                    return "undecodable"
                if ev.kind == "leave" and ev.out and s == "start":
                    return Bad("silent", "%s delivers nothing" % n)
                return None
            c.watch(b, mon2, "start", n, opaque=[r"TopicSubscriberStore.*::broadcast$"])
    b = c.inherent(SUBS, "broadcast")

    def mon3(s, ev, q):
        y = member(ev, q)
        if y and y[0] == "a1.channels":
            return ("has" if y[2] else "lacks") if y[1] == "a2" else Bad("key", "the key is %s" % y[1])
        if called(ev, r"broadcast::Sender(::)?<.*>::send$"):
            if s == "sent" or canon(q, ev.args[0]) != "HashMap::get(a1.channels,a2)?" or canon(q, ev.args[1]) != "Receive{0:a3}":
                return Bad("what", "%s is sent to %s" % (canon(q, ev.args[1]), canon(q, ev.args[0])))
            return "sent"
        if ev.kind == "leave" and ev.out and s in ("start", "has"):
            return Bad("silent", "subscribers receive nothing")
        return None
    c.watch(b, mon3, "start", "broadcast")

    c.rule("subscribe", "A subscriber hears the topic and key it subscribed to: all subscribers of a topic and key share one channel, which is made once and kept.")
    b = c.inherent(r"pubsub::PubSub$", "subscribe")
    for o in c.run(b, lambda ev, q: (lambda f: ("sub", f[0], tuple(sorted(f[1].items()))) if f else None)(notified(ev, q, "Subscribe")), opaque=LOP):
        if o.kind == "return":
            ok = len(o.obs) == 1 and o.obs[0][1].endswith("mediator_ref?") and dict(o.obs[0][2]) == {"receiver_ref": "ActorContext::actor_ref(a2)", "topic": "a1"}
            c.check(ok, "api", "subscribing does %s" % (o.obs,), out=o)
    b = c.inherent(MED, "subscribe")

    def mon4(s, ev, q):
        y = mutation(ev, q)
        if y and y[1] == "a1.topics" and y[0] != "entry":
            if y[0] not in ("insert", "or_insert", "insert_entry", "or_insert_with") or y[2][0] != TN:
                return Bad("topics", "subscribing does %s(%s) on the topics" % (y[0], y[2][:1]))
            if s[0] is True:
                return Bad("replaced", "subscribing to a topic again replaces it: earlier subscribers no longer hear it")
            return (s[0], True, s[2])
        z = member(ev, q)
        if z and z[0] == "a1.topics":
            return (z[2], s[1], s[2]) if z[1] == TN else Bad("topic", "the topic is %s" % z[1])
        if called(ev, r"TopicSubscriberStore.*::receiver$"):
            if canon(q, ev.args[1]) != "Topic::key(a2)" or "a1.topics" not in canon(q, ev.args[0], 12) and not (s[1] and "TopicSubscriberStore{" in canon(q, ev.args[0], 12)):
                return Bad("key", "the subscription is to %s of %s" % (canon(q, ev.args[1]), canon(q, ev.args[0])))
            return (s[0], s[1], "recv")
        if called(ev, r"Subscription>?::new$"):
            if not canon(q, ev.args[0]).startswith("TopicSubscriberStore::receiver(") or canon(q, ev.args[1]) != "a3":
                return Bad("sub", "the subscription is Subscription::new(%s, %s)" % (canon(q, ev.args[0]), canon(q, ev.args[1])))
            return (s[0], s[1], "subscribed")
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value)
            if r.startswith("Ok") and s[2] != "subscribed":
                return Bad("nothing", "subscribing succeeds without a subscription")
            if s[0] is False and not s[1]:
                return Bad("lost", "the topic subscribed to is not kept")
        return None
    c.watch(b, mon4, (None, False, None), "subscribe", opaque=LOP + [r"TopicSubscriberStore.*::receiver$", r"Subscription>?::new$"])
    b = c.handler(MED, r"mediator::Subscribe<")
    for o in c.run(b, None, opaque=LOP + [r"StreamMediator>?::subscribe$"]):
        if o.kind == "return":
            c.check(re.match(r"^StreamMediator::subscribe\(a1,a2\.topic,a2\.receiver_ref\)$", c.ret(o)), "handler", "subscribing is done by %s" % c.ret(o), out=o)
    b = c.inherent(SUBS, "receiver")

    def mon5(s, ev, q):
        z = member(ev, q)
        if z and z[0] == "a1.channels":
            return (z[2], s[1]) if z[1] == "a2" else Bad("key", "the key is %s" % z[1])
        y = mutation(ev, q)
        if y and y[1] == "a1.channels" and y[0] != "entry":
            if s[0] is True:
                return Bad("replaced", "subscribing again replaces the channel: earlier subscribers no longer hear it")
            if y[2][0] != "a2" or not re.match(r"^broadcast::channel\(.*\)\.0$", y[2][-1]):
                return Bad("channel", "the channel kept is %s for %s" % (y[2][-1], y[2][0]))
            return (s[0], True)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 9)
            if s[0] is not True and not s[1]:
                return Bad("lost", "the channel of a subscriber is not kept")
            if s[0] is True and not re.match(r"^Sender::subscribe\(.*a1\.channels", r) or s[0] is False and not (re.match(r"^broadcast::channel\(.*\)\.1$", r) or re.match(r"^Sender::subscribe\(.*(a1\.channels|broadcast::channel\(.*\)\.0)", r)):
                return Bad("receiver", "the subscriber listens to %s" % r)
        return None
    c.watch(b, mon5, (None, False), "receiver")

    c.rule("deliver", "A subscription passes every message it receives to its subscriber, once and in order, and goes on after messages were skipped because the subscriber was slow; it ends when the topic or the subscriber has ended, or when it is dropped.")
    b = c.inherent(r"pubsub::Subscription$", "new")

    def mon6(s, ev, q):
        if ev.kind == "await" and re.search(r"Receiver::recv\(", canon(q, ev.value)):
            if s == "got":
                return Bad("lost", "a message received is not passed to the subscriber")
            if s == "passed":
                return Bad("goes-on", "a subscription goes on although its subscriber has ended")
            if s == "end":
                return None
            return "waiting"
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(r"^Receiver::recv\([^?]*\)$", t) and str(ev.out) in ("Ok", "Err"):
                return "got" if str(ev.out) == "Ok" else "Err"
            if re.match(r"^Receiver::recv\([^?]*\)!?\??$", t) and s == "Err" and str(ev.out).strip("!") in ("Closed", "Lagged"):
                o = str(ev.out)
                return "lagged" if o in ("Lagged", "!Closed") else "end"
            if re.match(r"^(Result::is_err\()?LocalActorRef::notify\(a2,", t) and s == "passed" and str(ev.out) == "Err":
                return "end"
            if s == "passed" and re.search(r"\ba2\b", t):
                return "alive"
        x = message(ev, q)
        if x:
            if s != "got":
                return Bad("twice", "a message is passed on twice or without being received")
            if canon(q, x[1]) != "a2" or not re.match(r"^Receiver::recv\(.*\)\?$", canon(q, x[2])):
                return Bad("what", "%s is passed to %s" % (canon(q, x[2]), canon(q, x[1])))
            return "passed"
        if ev.kind == "leave" and (ev.out or s in ("lagged", "passed", "alive", "Err")) and s in ("lagged", "passed", "alive", "got", "Err", "waiting"):
            return Bad("ends", {"lagged": "a subscription ends when its subscriber was slow: it hears nothing any more", "got": "a message received is not passed to the subscriber",
                                "passed": "a subscription ends after a message", "alive": "a subscription ends after a message"}.get(s, "a subscription ends on a failure that is not looked at"))
        return None
    c.watch(b, mon6, "start", "deliver", opaque=LOP, spawn="inline")
    b = c.inherent(r"pubsub::Subscription$", "unsubscribe")
    for o in c.run(b, lambda ev, q: "abort" if called(ev, r"JoinHandle.*::abort$") else ("none" if ev.kind == "branch" and "task_handle" in canon(q, ev.value) and str(ev.out) == "None" else None)):
        if o.kind == "return":
            c.check("abort" in o.obs or "none" in o.obs, "unsubscribe", "unsubscribing leaves the subscription running", out=o)
    b = c.soft(c.p.impl_method(r"Drop$", r"pubsub::Subscription$", "drop"), "Drop for Subscription")
    c.check(bool(b), "drop", "a subscription that is dropped goes on delivering")
    if b:
        for o in c.run(b, lambda ev, q: "abort" if called(ev, r"JoinHandle.*::abort$") else ("none" if ev.kind == "branch" and "task_handle" in canon(q, ev.value) and str(ev.out) == "None" else None)):
            if o.kind == "return":
                c.check("abort" in o.obs or "none" in o.obs, "drop", "a subscription that is dropped goes on delivering", out=o)

    c.rule("nodes", "The nodes published to are the other nodes of the cluster: a node that is added is, from then on, and one that is removed no longer.")
    b = c.handler(MED, r"Receive<.*SystemTopic>$")
    for evn in ("NodeAdded", "NodeRemoved"):
        def mon7(s, ev, q, evn=evn):
            if ev.kind == "branch":
                t = canon(q, ev.value, 9)
                if t == "a2.0@Cluster.0" and str(ev.out) != evn:
                    return "STOP"
                z = re.match(r"^(Not\()?\((?:\S*NodeAdded\.0\.id (Eq|Ne) a1\.remote\?\.inner\.node_id|a1\.remote\?\.inner\.node_id (Eq|Ne) \S*NodeAdded\.0\.id)\)\)?$", t)
                if z and truth(ev) is not None:
                    return "own" if (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev) else "other"
            y = mutation(ev, q)
            if y and y[1] == "a1.nodes":
                if y[0] != ("insert" if evn == "NodeAdded" else "remove") or not y[2][0].endswith("@%s.0.id" % evn):
                    return Bad("which", "%s does %s(%s)" % (evn, y[0], ", ".join(y[2])))
                if evn == "NodeAdded" and s == "own":
                    return Bad("self", "a node publishes to itself over the network")
                return "done"
            if ev.kind == "leave" and ev.out and s != "done" and s != "own":
                return Bad("ignored", "a node that is %s %s" % (("added", "does not receive what is published") if evn == "NodeAdded" else ("removed", "stays one to publish to")))
            return None
        c.watch(b, mon7, "start", evn, opaque=LOP)
    b = c.handler(MED, r"message::SetRemote$")
    for o in c.run(b, lambda ev, q: "sub" if called(ev, r"StreamMediator>?::subscribe$") and canon(q, ev.args[1]) == "SystemTopic" else None, opaque=LOP + [r"StreamMediator>?::subscribe$"]):
        if o.kind == "return":
            c.check("sub" in o.obs, "system", "the mediator does not hear which nodes there are", out=o)


def sends(c, b):
    """each node taken from the nodes to publish to is written to"""
    def mon(s, ev, q):
        if ev.kind == "spawn":
            return "task"
        if s in ("task", "sent") and ev.kind == "next" and "a1.nodes" in canon(q, ev.value, 9):
            return "open" if str(ev.out) == "Some" else "end"
        if s == "open" and ev.kind == "next" and "a1.nodes" in canon(q, ev.value, 9):
            return Bad("skipped", "a node does not receive what is published")
        if wrote_to(ev, q) and s == "open":
            return "sent"
        if ev.kind == "leave" and ev.out and s in ("open", "sent"):
            return Bad("abandoned", "not every node receives what is published")
        return None
    c.watch(b, mon, "start", "each", opaque=LOP, spawn="inline")


@prop("R11")
def creation(c):
    COP = LOP + [r"(RemoteActorSystem>?|system::actor::<impl .*>)::(locate_actor_node|handle_create_actor)$", r"node_rpc_proto(::<.*>)?$", r"RemoteSystemConfig>?::actor_handler$", r"send_proto_result(::<.*>)?$"]
    c.rule("deploy", "Deploying an actor encodes its recipe and creates it, under the id given or a new one, on the node given or this one: here directly, elsewhere by one request to that node under a fresh id carrying type, id and recipe. The reference returned leads to the id and node the creation answered; every failure is an error and nothing is created when the recipe cannot be encoded.")
    b = c.inherent(SYS, "deploy_actor")
    ID = r"^(Some\{0:)?(a2\??|\w*:*v?4?:*new_\w+\(\))\}?$"

    def mon(s, ev, q):
        enc, where, res = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "ActorRecipe::write_to_bytes(a3)" and str(ev.out) in ("Some", "None"):
                return (str(ev.out), where, res)
            z = re.match(r"^(Not\()?\((?:a4\? (Eq|Ne) a1\.inner\.node_id|a1\.inner\.node_id (Eq|Ne) a4\?)\)\)?$", t)
            if z and truth(ev) is not None:
                return (enc, "own" if (((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev) else "other", res)
            if t == "a4" and str(ev.out) == "None":
                return (enc, "own", res)
        v = awaited(ev, q, r"handle_create_actor$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            if where == "other":
                return Bad("here", "an actor for another node is created here")
            if not re.match(ID, a[1]) or a[2] != "Actor::type_name()" or a[3] != "ActorRecipe::write_to_bytes(a3)?":
                return Bad("what", "what is created is %s" % a[1:])
            return (enc, where, "local")
        v = awaited(ev, q, r"node_rpc_proto(::<.*>)?$")
        if v:
            a = [canon(q, x, 12) for x in v.a[2]]
            z = re.match(r"^CreateActor\{0:CreateActorEvent\{message_id:(.*?),actor_id:(.*?),actor_type:(.*?),recipe:(.*?),trace_id", a[2])
            if where != "other" or a[3] != "a4?":
                return Bad("node", "an actor for %s node is created on node %s" % (where, a[3]))
            if z and (not re.match(ID, z.group(2)) or z.group(3) != "Actor::type_name()" or z.group(4) != "ActorRecipe::write_to_bytes(a3)?"):
                return Bad("what", "what is created is %s" % (z.groups(),))
            e = strip(q, strip(q, v.a[2][2]).a[2][0][1])
            mid = strip(q, dict(e.a[2])["message_id"])
            if mid is not strip(q, v.a[2][1]) and repr(mid) != repr(strip(q, v.a[2][1])):
                return Bad("id", "the request is sent under another id than its answer is awaited")
            return (enc, where, "remote")
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 12)
            if enc == "None" and (res or not r.startswith("Err")):
                return Bad("unencoded", "a recipe that cannot be encoded gives %s" % r[:120])
            if enc == "Some" and not res:
                return Bad("nothing", "nothing is created and %s is returned" % r[:120])
            if r.startswith("Ok"):
                z = re.match(r"^Ok\{0:ActorRef\{inner_ref:Remote\{0:RemoteActorRef\{id:(.*),system:a1,node_id:(.*),_a:", r)
                if z and not (z.group(1).endswith(".actor_id") and re.search(r"\.node_id\??\.value$", z.group(2)) and re.search(r"handle_create_actor\(|node_rpc_proto\(", z.group(1))):
                    return Bad("ref", "the reference returned is to %s on %s" % (z.group(1)[-60:], z.group(2)[-60:]))
        return None
    c.watch(b, mon, (None, None, None), "deploy", opaque=COP)

    c.rule("create", "A node asked to create an actor refuses if an actor of that id is found in the cluster and if the type is not registered; otherwise it creates one actor of that type from the recipe, under that id (or a new one), in its own system, and answers with the id and its own node. A failed creation is an error.")
    b = c.inherent(SYS, "handle_create_actor")

    def mon1(s, ev, q):
        given, exists, typ, made, ans = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if t == "a2" and o in ("Some", "None"):
                return (o, exists, typ, made, ans)
            if re.match(r"^actor::locate_actor_node\(a1,a2\?\)$", t) and o in ("Some", "None"):
                return (given, o, typ, made, ans)
            if re.match(r"^\w+::actor_handler\(.*,a3\)$", t) and o in ("Some", "None"):
                return (given, exists, o, made, ans)
            if re.match(r"^ActorHandler::create\(", t) and o in ("Ok", "Err"):
                return (given, exists, typ, o, ans)
        v = awaited(ev, q, r"ActorHandler(::<.*>)?::create$|ActorHandler>::create$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            if given == "Some" and exists != "None":
                return Bad("exists", "an actor is created although one of its id %s" % ("exists" if exists else "may exist"))
            if made:
                return Bad("twice", "two actors are created")
            if not re.search(r"actor_handler\(.*,a3\)\?", a[0]) or not re.match(ID, a[1]) or given == "Some" and a[1] != "Some{0:a2?}" and a[1] != "a2" or a[2] != "a4" or a[3] != "None" or "a1.inner.inner" not in a[4]:
                return Bad("what", "what is created is %s" % a)
            return (given, exists, typ, "asked", ans)
        if called(ev, r"send_proto_result(::<.*>)?$"):
            f = fields(q, ev.args[0])
            if made != "Ok" or "actor_id(" not in f.get("actor_id", "") and not re.search(r"create\(.*\.id$|create\(.*a2", f.get("actor_id", "")) or not re.search(r"a1\.inner\.node_id", f.get("node_id", "")):
                return Bad("answer", "the address answered is %s" % f)
            return (given, exists, typ, made, True)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 6)
            if exists == "Some" and not r.startswith("Err"):
                return Bad("exists", "creating an actor that exists returns %s" % r)
            if typ == "None" and not r.startswith("Err"):
                return Bad("type", "creating an actor of a type that is not registered returns %s" % r)
            if made == "Err" and not r.startswith("Err"):
                return Bad("failed", "a failed creation returns %s" % r)
            if r.startswith("Ok") and not (made == "Ok" and ans):
                return Bad("unmade", "success is reported although nothing was created")
            if typ == "Some" and not made:
                return Bad("nothing", "nothing is created")
        return None
    c.watch(b, mon1, (None, None, None, None, False), "create", opaque=COP)

    c.rule("handler", "Creating an actor by its registered type decodes the recipe, makes the state from it and starts one actor with it: under the id given, tracked or as a child of the given parent. What cannot be decoded or made is an error, and nothing is started.")
    for b in c.all(c.p.impl_method(r"handler::ActorHandler$", r"RemoteActorHandler<", "create"), "ActorHandler::create"):
        def mon2(s, ev, q):
            par, dec, st, made, idg = s
            if ev.kind == "branch":
                t = canon(q, ev.value, 9)
                o = str(ev.out)
                if t == "a2" and o in ("Some", "None"):
                    return (par, dec, st, made, o)
                if t == "a4" and o in ("Some", "None"):
                    return (o, dec, st, made, idg)
                if t == "ActorRecipe::read_from_bytes(a3)" and o in ("Some", "None"):
                    return (par, o, st, made, idg)
                if t.startswith("ActorFactory::create(a1.factory") and o in ("Ok", "Err"):
                    return (par, dec, o, made, idg)
            v = awaited(ev, q, r"ActorSystem>?::new_\w*actor\w*(::<.*>)?$")
            if v:
                a = [canon(q, x, 9) for x in v.a[2]]
                if made:
                    return Bad("twice", "two actors are started")
                if dec != "Some" or st != "Ok":
                    return Bad("unmade", "an actor is started without a state made from its recipe")
                if not re.match(r"^(a2\??|\w*:*new_\w+\(\)|.*new_v4\(\))$", a[1]) or a[2] != "ActorFactory::create(a1.factory,ActorRecipe::read_from_bytes(a3)?)?":
                    return Bad("what", "the actor started is %s" % a[1:3])
                if idg == "Some" and not a[1].startswith("a2"):
                    return Bad("id", "an actor with a given id is started under another one")
                if not a[0].startswith("a5"):
                    return Bad("system", "the actor is started in %s" % a[0])
                sup = "supervised" in v.a[1]
                if par == "Some" and not (sup and a[3] == "a4?") or par == "None" and not sup and a[3] != "Tracked":
                    return Bad("kind", "an actor with%s parent is started as %s" % ("" if par == "Some" else "out", a[3:4]))
                return (par, dec, st, True, idg)
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value, 6)
                if not made and not r.startswith("Err"):
                    return Bad("nothing", "nothing is started and %s is returned" % r)
                if made and not re.search(r"new_\w*actor", r):
                    return Bad("result", "starting an actor returns %s" % r)
            return None
        c.watch(b, mon2, (None, None, None, False, None), "handler", opaque=LOP)


@prop("R12")
def health(c):
    HB = r"heartbeat::Heartbeat$"
    c.rule("registered", "An actor registered for health checks is checked from then on, until it is removed; removing it removes no other.")
    b = c.handler(HB, r"health::RegisterHealthCheck$")
    for o in c.run(b, lambda ev, q: mutation(ev, q) and repr(mutation(ev, q)), opaque=LOP):
        if o.kind == "return":
            c.check(any(re.match(r"^\('(push|push_back|insert)', 'a1\.health_check_actors', \[.*'?a2\.0'?.*\]\)$", x) for x in o.obs), "register", "registering for health checks does %s" % (o.obs,), out=o)
    b = c.handler(HB, r"health::RemoveHealthCheck$")

    def rem(ev, q):
        if ev.kind == "retain":
            return ("retain", str(ev.out))
        if ev.kind == "branch":
            return ("if", canon(q, ev.value, 6), str(ev.out))
        y = mutation(ev, q)
        return ("mut", y[0], y[1]) if y and y[1] == "a1.health_check_actors" else None
    for o in c.run(b, rem, opaque=LOP):
        if o.kind != "return":
            continue
        kinds = {x[1] for x in o.obs if x[0] == "mut"}
        c.check(not kinds & {"clear", "truncate", "pop", "drain"}, "remove", "removing one check removes others", out=o)
        if "retain" in kinds or any(x[0] == "retain" for x in o.obs):
            last = None
            for x in o.obs:
                if x[0] == "if" and "a2.0" in x[1]:
                    z = re.search(r" (Eq|Ne) ", x[1])
                    if z:
                        same = ((z.group(1) == "Eq") != x[1].startswith("Not(")) == (x[2] in ("True", "1"))
                        last = same
                if x[0] == "retain" and last is not None:
                    c.check((x[1] == "True") != last, "remove", "%s is kept when a check is removed" % ("the actor removed" if last else "only that actor"), out=o)
                    last = None

    c.rule("status", "A health report asks every registered actor and is sent once: unhealthy if and only if one of them did not answer that it is started, degraded only if all did and one was slow, healthy otherwise. It names this node, its leader and the nodes known.")
    b = c.handler(HB, r"health::GetHealth$")

    def mon(s, ev, q):
        asked, ph, bad, slow, sent, cur = s
        if ev.kind == "next":
            t = canon(q, ev.value, 9)
            if "health_check_actors" in t and not t.startswith("coll(") and asked in ("start", "acted", "asked"):
                if any(a[0] in RESTRICT or a[0] == "filter" for a in (ev.loc.a[0] if ev.loc else ())):
                    return Bad("partial", "only part of the actors are checked")
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if re.search(r"status\(each\(", t) and o in ("Ok", "Err"):
                return (("asked"), ph, bad, slow, sent, o)
            if re.search(r"status\(each\(", t) and cur == "Ok" and ("Started" in o):
                return ("asked", ph, bad, slow, sent, "Started" if o == "Started" else "other")
        if ev.kind == "leave" and not ev.out and ev.value is not None and cur:
            v = strip(q, ev.value)
            if v.tag == "tup" and len(v.a[0]) == 2:
                w = canon(q, v.a[0][1], 3)
                if w == "None" and cur == "Started":
                    return Bad("answered", "an actor that answered counts as one that did not")
                if w.startswith("Some") and cur != "Started":
                    return Bad("mute", "an actor that %s counts as healthy" % ("did not answer" if cur == "Err" else "is not started"))
                if w == "None" or w.startswith("Some"):
                    return (asked, ph, bad, slow, sent, None)
        f = None
        if called(ev, ONESHOT):
            f = fields(q, ev.args[1])
            if sent:
                return Bad("twice", "the report is sent twice")
            if canon(q, ev.args[0]) != "a2.0":
                return Bad("whom", "the report is sent to %s" % canon(q, ev.args[0]))
            return (asked, ph, bad, slow, f.get("status", "?"), cur)
        if ev.kind == "leave" and ev.out and not sent:
            return Bad("silent", "the report is not sent")
        return None
    c.watch(b, mon, ("start", None, None, None, None, None), "report", opaque=LOP + [r"RemoteActorSystem>?::(get_nodes|current_leader)$"], spawn="inline")
    verdicts(c, b)
    b = c.soft(c.p.inherent(HB, "register"), "Heartbeat::register")
    if b:
        for o in c.run(b, lambda ev, q: (lambda f: ("reg", f[0], f[1].get("0")) if f else None)(notified(ev, q, "RegisterHealthCheck")), opaque=LOP):
            if o.kind == "return":
                c.check(len(o.obs) == 1 and "heartbeat_ref" in o.obs[0][1] and "a1" in (o.obs[0][2] or ""), "api", "registering does %s" % (o.obs,), out=o)


def verdicts(c, b):
    """the status reported follows from the checks"""
    seen = set()

    def mon(s, ev, q):
        # a later pass over the same answers cannot see a failure that a finished pass did not: such a path is no path
        one, slow, done = s
        if ev.kind == "next" and canon(q, ev.value, 3).startswith("coll("):
            if str(ev.out) == "None":
                return (one, slow, True)
            el = strip(q, ev.args[0]) if ev.args else None
            if el is not None and el.tag == "tup" and len(el.a[0]) == 2 and canon(q, el.a[0][1]) == "None":
                return "STOP" if done and not one else (True, slow, done)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if re.search(r"^each\(.*\)\.1$", t) and o in ("Some", "None"):
                if o == "None" and done and not one:
                    return "STOP"
                return (one or o == "None", slow, done)
            z = re.match(r"^(Not\()?\((each\(.*\)\.1\??|.*elapsed.*) (Gt|Ge|Lt|Le) (.*)\)\)?$", t)
            if z and truth(ev) is not None:
                gt = ((z.group(3) in ("Gt", "Ge")) != bool(z.group(1))) == truth(ev)
                return (one, slow or gt, done)
        if called(ev, ONESHOT):
            st = fields(q, ev.args[1]).get("status", "?")
            seen.add((one, slow, st))
            if st in ("Healthy", "Degraded", "Unhealthy"):
                if one and st != "Unhealthy":
                    return Bad("hidden", "a node with an actor that did not answer is reported as %s" % st)
                if not one and st == "Unhealthy":
                    return Bad("unhealthy", "a node all of whose actors answered is reported as unhealthy")
                if not one and slow and st != "Degraded":
                    return Bad("slow", "a node with a slow actor is reported as %s" % st)
                if not one and not slow and st != "Healthy":
                    return Bad("degraded", "a node all of whose actors answered in time is reported as %s" % st)
        return None
    c.watch(b, mon, (False, False, False), "verdict", opaque=LOP + [r"RemoteActorSystem>?::(get_nodes|current_leader)$"], spawn="inline")
    return seen
