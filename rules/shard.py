"""Sharding: routing requests to shards, starting and stopping shards, allocating and rebalancing them, entities."""
from rules import *
from remote import NOCONV
from net import truth

HOST = r"sharding::host::ShardHost$"
SHARD = r"sharding::shard::Shard$"
COORD = r"coordinator::ShardCoordinator$"
SOP = API + CTXAPI + NOCONV + [r"singleton::Singleton(::)?<.*>::send$", r"RemoteActorSystem>?::(push_request|notify_raw_rpc_result|notify_rpc_err)$", r"RemoteActorSystem>?::node_id$"]
KEY = r"[\w:]*ShardAllocator::allocate\(a1\.allocator,a2\.actor_id\)"
IMPURE = r"rand::|[Uu]uid|::now$|RandomState|thread_rng|std::env::|Atomic\w+>?::|SystemTime|fastrand"


def fields(q, v):
    """{field: canon} of a struct value"""
    v = strip(q, v)
    return {k: canon(q, x, 12) for k, x in v.a[2]} if v.tag == "adt" else {}


def notified(ev, q, name):
    """(target, {field: canon}) when the event hands over a message of that name"""
    x = message(ev, q)
    if x and msgname(q, x[2]) == name:
        return canon(q, x[1], 9), fields(q, x[2])
    return None


@prop("S01")
def routing(c):
    c.rule("key", "Which shard an actor id belongs to depends on nothing but the id and the allocator's fixed configuration.")
    n = 0
    for im in c.all(c.p.impl_method(r"ShardAllocator$", r".", "allocate"), "implementations of ShardAllocator::allocate"):
        n += 1

        def pure(ev, q):
            if ev.kind == "write" and "arg1" in repr(ev.loc):
                return ("write", repr(ev.loc))
            y = mutation(ev, q)
            if y and y[1].startswith("a1"):
                return ("write", y[1])
            if ev.kind == "call":
                f = ev.path or ev.decl or ""
                if re.search(IMPURE, f):
                    return ("impure", f)
            return None
        for o in c.run(im, pure):
            for x in o.obs:
                c.check(False, "pure", "the shard of an actor id depends on %s" % short(x[1]) if x[0] == "impure" else "choosing a shard changes %s" % x[1], out=o)
            if o.kind == "return":
                r = c.ret(o, 9)
                c.check("a2" in r or "hasher" in r.lower() or "finish(" in r, "id", "the shard is chosen as %s, whatever the actor id" % r, out=o)
    im = c.soft(c.p.impl_method(r"ShardAllocator$", r"DefaultAllocator$", "allocate"), "DefaultAllocator::allocate")
    if im:
        for o in c.run(im, lambda ev, q: ("hash", canon(q, ev.args[0]), canon(q, ev.args[1])) if called(ev, r"::hash$|hash_one$") else None):
            if o.kind == "return":
                r = c.ret(o, 9)
                z = re.match(r"^.* Rem a1\.max_shards\)[)?]*$", r) and not re.search(r"\(\S+ (Add|Sub|Mul|Shl|BitXor|BitOr) \(", r) or "rem_euclid(" in r and "a1.max_shards" in r
                c.check(bool(z), "range", "the shard chosen is %s, not one of the configured number of shards" % r, out=o)
                c.check(any(re.search(r"\ba2\b", x[1] + " " + x[2]) for x in o.obs), "hash", "the actor id is not what is hashed", out=o)

    c.rule("route", "A request goes to the shard its actor id belongs to: to the shard itself when it is hosted here and ready, into its buffer while it starts, to the node hosting it when it is hosted elsewhere; otherwise it is kept until the "
           "shard is allocated and its allocation is asked for. It is never handed over twice or dropped, except that a request to a shard that is being stopped fails.")
    b = c.handler(HOST, r"request::EntityRequest$")
    HS = r"^HashMap::get(_mut)?\(a1\.hosted_shards,%s\)\?" % KEY
    RSH = r"^HashMap::get(_mut)?\(a1\.remote_shards,%s\)\?" % KEY

    def mon(s, ev, q):
        where, hosted, remote, st, alloc, ans = s
        y = member(ev, q)
        if y and y[0] in ("a1.hosted_shards", "a1.remote_shards"):
            if not re.match("^%s$" % KEY, y[1]):
                return Bad("key", "the shard looked for is %s" % y[1])
            return (where, y[2], remote, st, alloc, ans) if y[0] == "a1.hosted_shards" else (where, hosted, y[2], st, alloc, ans)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(HS + "$", t):
                return (where, hosted, remote, str(ev.out), alloc, ans)
            if t == "a2.recipe" and str(ev.out) == "None" and hosted is False:
                return (where, hosted, remote, "norecipe", alloc, ans)
            if re.search(r"Singleton::send\(a1\.coordinator\?,.*\)\?$", t):
                return (where, hosted, remote, st, alloc, str(ev.out))
            if re.search(r"Singleton::send\(a1\.coordinator\?,.*\)$", t) and str(ev.out) == "Err":
                return (where, hosted, remote, st, alloc, "Err")

        def to(w):
            return Bad("twice", "a request is handed over twice: %s and %s" % (where, w)) if where else (w, hosted, remote, st, alloc, ans)
        y = mutation(ev, q)
        if y and y[0] in ("clear", "truncate", "drain", "retain", "pop", "remove", "swap_remove", "split_off", "take") and ("requests_pending_shard_allocation" in y[1] or y[1].endswith("request_buffer")):
            return Bad("others", "%s on the requests waiting for a shard" % y[0])
        if y and y[2] and y[2][-1] == "a2":
            if re.match(HS + r"@Starting\.request_buffer$", y[1]):
                return to("buffer") if y[0] in ("push", "push_back") else Bad("buffer", "a request to a starting shard does %s" % y[0])
            if "requests_pending_shard_allocation" in y[1] or y[0].startswith("push"):
                if "requests_pending" in y[1] and y[0] in ("insert", "or_insert") or y[0] not in ("push", "push_back"):
                    return Bad("pending", "a request to an unallocated shard does %s" % y[0])
                if hosted is not False or remote is not False:
                    return Bad("kept", "a request is kept although its shard %s be hosted" % ("may" if None in (hosted, remote) else "is known to"))
                return to("pending")
        x = message(ev, q)
        if x:
            t, v = canon(q, x[1], 9), canon(q, x[2], 9)
            if v == "a2":
                return to("shard") if re.match(HS + r"@Ready\.0$", t) else Bad("target", "a request is sent to %s" % t)
            nm = msgname(q, x[2])
            if nm == "RemoteEntityRequest":
                if not re.match(RSH + "$", t):
                    return Bad("target", "a request is forwarded to %s" % t)
                f = fields(q, x[2])
                for k in ("actor_id", "message_type", "message"):
                    if f.get(k) != "a2." + k:
                        return Bad("forwarded", "the %s of a forwarded request is %s" % (k, f.get(k)))
                if f.get("recipe") not in ("Some{0:a2.recipe?}", "a2.recipe") and not (f.get("recipe") == "None" and st == "norecipe"):
                    return Bad("forwarded", "the recipe of a forwarded request is %s" % f.get("recipe"))
                if not re.search(r"node_id\(a3|^a3.*node_id$", f.get("origin_node", "")):
                    return Bad("forwarded", "the answer to a forwarded request goes to node %s" % f.get("origin_node"))
                return to("remote")
            if nm == "ShardAllocated":
                f = fields(q, x[2])
                if not all(re.search(r"Singleton::send\(a1\.coordinator\?,.*\)\?@(Already)?Allocated\.%d$" % i, f.get(str(i), "")) for i in (0, 1)) or "actor_ref(" not in t:
                    return Bad("answer", "the coordinator's answer is passed on as ShardAllocated(%s) to %s" % (f, t))
                return (where, hosted, remote, st, alloc, "told")
        v = awaited(ev, q, r"Singleton(::)?<.*>::send$")
        if v:
            f = fields(q, v.a[2][1])
            if not re.match("^%s$" % KEY, f.get("shard_id", "")) or f.get("rebalancing") != "False":
                return Bad("asked", "the allocation asked for is %s" % f)
            return (where, hosted, remote, st, True, ans)
        if ev.kind == "leave" and ev.out:
            if not where and st != "Stopping":
                return Bad("dropped", "a request is neither handed over nor kept")
            if where == "pending" and not alloc:
                return Bad("unasked", "a request waits for the allocation of its shard and nobody is asked to allocate it")
            if ans in ("Allocated", "AlreadyAllocated"):
                return Bad("unheard", "the coordinator's answer is not acted upon")
        return None
    c.watch(b, mon, (None, None, None, None, False, None), "request", opaque=SOP, spawn="inline")

    c.rule("answer", "The answer to a forwarded request is what completes it: the answer's content, result or error, goes to the request's own channel.")

    def mon2(s, ev, q):
        reg, sent, ans, told = s
        if called(ev, r"RemoteActorSystem>?::push_request$"):
            return (strip(q, ev.args[1]), sent, ans, told)
        f = notified(ev, q, "RemoteEntityRequest")
        if f:
            v = strip(q, message(ev, q)[2])
            if reg is None or v.tag == "adt" and strip(q, dict(v.a[2]).get("request_id")) != reg:
                return Bad("unregistered", "a request is forwarded under an id that was not registered")
            return (reg, True, ans, told)
        if sent and ev.kind == "branch" and canon(q, ev.value).endswith("channel().1") and str(ev.out) in ("Ok", "Err"):
            return (reg, sent, str(ev.out), told)
        if ev.kind == "branch" and canon(q, ev.value) == "a2.result_channel" and str(ev.out) == "None":
            return (reg, sent, ans, True)
        if called(ev, ONESHOT) and "result_channel" in canon(q, ev.args[0]):
            v = canon(q, ev.args[1], 9)
            if "channel().1" not in v and not v.startswith("Err{"):
                return Bad("content", "a forwarded request is answered with %s" % v)
            return (reg, sent, ans, True)
        if ev.kind == "leave" and ev.out and sent and ans == "Ok" and not told:
            return Bad("unanswered", "the answer to a forwarded request is dropped")
        return None
    c.watch(b, mon2, (None, False, None, False), "forward", opaque=SOP, spawn="inline")

    c.rule("send", "Sending to a sharded actor hands over the encoded message under its registered name, with the actor's id and recipe and a channel for the answer, and returns what comes back: the decoded result, or the error.")
    b = c.inherent(r"sharding::Sharded<A>$|sharding::Sharded::<A>$|sharding::Sharded$", "send")
    if b:
        def mon3(s, ev, q):
            sent = s
            f = notified(ev, q, "EntityRequest")
            if f:
                if sent:
                    return Bad("twice", "a message is sent twice")
                f = f[1]
                if f.get("actor_id") != "a1.actor_id" or f.get("recipe") != "a1.recipe":
                    return Bad("to", "a message goes to %s with recipe %s" % (f.get("actor_id"), f.get("recipe")))
                if "as_bytes(a2)" not in f.get("message", "") or "handler_name" not in f.get("message_type", "") and "a1.sharding.system" not in f.get("message_type", ""):
                    return Bad("what", "what is sent is %s of type %s" % (f.get("message"), f.get("message_type")))
                if not re.search(r"Some\{0:oneshot::channel\(\)\.0\}", f.get("result_channel", "")):
                    return Bad("channel", "the answer is to go to %s" % f.get("result_channel"))
                return True
            if ev.kind == "leave" and ev.out and ev.value is not None:
                r = canon(q, ev.value, 9)
                if r.startswith("Ok{") and not sent:
                    return Bad("unsent", "success is reported without sending: %s" % r)
                if r.startswith("Ok{") and "read_remote_result(" not in r:
                    return Bad("result", "what is returned is %s" % r)
            return None
        c.watch(b, mon3, False, "send", opaque=SOP + [r"RemoteActorSystem>?::handler_name"])

    c.rule("flush", "When a shard is allocated every request kept for it is handled, once, after the allocation is recorded; when a shard that was starting is ready every request buffered for it goes to it.")
    b = c.handler(HOST, r"host::ShardAllocated$")
    FOP = SOP + [r"Handler<.*EntityRequest>.*::handle$"]

    def rec(s, ev, q):
        y = mutation(ev, q)
        if y and y[0] == "insert" and y[1] in ("a1.hosted_shards", "a1.remote_shards"):
            return True
        y = member(ev, q)
        if y and y[0] == "a1.hosted_shards" and y[2] and y[3] != "remove":
            return True
        if awaited(ev, q, r"Handler<.*EntityRequest>.*::handle$") and not s:
            return Bad("early", "kept requests are handled before the allocation is recorded")
        return None

    def act(ev, q):
        v = awaited(ev, q, r"Handler<.*EntityRequest>.*::handle$")
        return v and re.match(r"^each\(.*requests_pending_shard_allocation", canon(q, v.a[2][1]))
    i, m2 = combine(rec=(False, rec), each=foreach(r"requests_pending_shard_allocation", act, "requests waiting for the shard"))
    c.watch(b, m2, i, "allocated", opaque=FOP, spawn="inline")

    def taken(s, ev, q):
        y = mutation(ev, q)
        if y and y[1] == "a1.requests_pending_shard_allocation":
            return "taken" if y[0] in ("remove", "remove_entry") and y[2][0] == "a2.0" else Bad("which", "%s(%s) on the requests waiting" % (y[0], y[2]))
        if ev.kind == "next" and "requests_pending" in canon(q, ev.value):
            return "flushed"
        y = member(ev, q)
        if y and y[0] == "a1.requests_pending_shard_allocation" and not y[2]:
            return "none"
        if ev.kind == "leave" and ev.out and s not in ("flushed", "none"):
            return Bad("forgotten", "requests waiting for a shard are not handled when it is allocated")
        return None
    c.watch(b, taken, "no", "taken", opaque=FOP, spawn="inline")
    b = c.handler(HOST, r"host::ShardReady$")

    def act2(ev, q):
        x = message(ev, q)
        return x and canon(q, x[1]) == "a2.1" and re.match(r"^each\(.*@Starting\.request_buffer", canon(q, x[2]))

    def rdy(s, ev, q):
        st, stop, done = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(r"^HashMap::(insert|get|get_mut|remove)\(a1\.hosted_shards,a2\.0.*\)\?$", t):
                return (str(ev.out), stop, done)
            if t.endswith("@Starting.stop_requested"):
                return (st, str(ev.out), done)
        if ev.kind == "next" and canon(q, ev.value).endswith("@Starting.request_buffer"):
            return (st, stop, True)
        if ev.kind == "leave" and ev.out and st == "Starting" and stop == "None" and not done:
            return Bad("forgotten", "requests buffered for a starting shard are not handled when it is ready")
        return None
    i, m2 = combine(rdy=((None, None, False), rdy), each=foreach(r"@Starting\.request_buffer$", act2, "requests buffered for the shard"))
    c.watch(b, m2, i, "ready", opaque=SOP, spawn="inline")


def fmtid(t):
    """(template, args) of a formatted actor id"""
    z = re.search(r"(?:fmt::)?format\(Arguments::new\((.*),\[(.*)\]\)\)", t)
    return (z.group(1), z.group(2)) if z else None


@prop("S02")
def hosting(c):
    c.rule("allocated", "A shard allocated to this node is started here once: a child of the host, named after its entity and number, and hosted as starting; it is no longer looked for elsewhere. A shard allocated to another node is stopped here if it "
           "was hosted here and is looked for on that node, under the name that node gives it.")
    b = c.handler(HOST, r"host::ShardAllocated$")
    ids = {}
    ME = r"^(Not\()?\((?:a2\.1 (Eq|Ne) .*node_id\(?.*|.*node_id.* (Eq|Ne) a2\.1)\)\)?$"

    def mon(s, ev, q):
        me, has, st, made, rem, ins, child, stop = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            z = re.match(ME, t)
            if z and truth(ev) is not None:
                return ((((z.group(2) or z.group(3)) == "Eq") != bool(z.group(1))) == truth(ev), has, st, made, rem, ins, child, stop)
            if re.match(r"^HashMap::\w+\(a1\.hosted_shards,a2\.0\)\?$", t):
                o = str(ev.out)
                return (me, has, "Stopping" if {o, st} == {"!Ready", "!Starting"} else o, made, rem, ins, child, stop)
        y = member(ev, q)
        if y and y[0] == "a1.hosted_shards":
            return (me, y[2], st, made, rem, ins, child, stop) if y[1] == "a2.0" else Bad("which", "the shard looked for is %s" % y[1])
        v = awaited(ev, q, r"ActorSystem>?::(new_actor_deferred|new_actor)$")
        if v:
            if me is not True or has is not False or made:
                return Bad("again", "a shard is started although it is %s" % ("allocated to another node" if not me else "hosted already" if not made else "started already"))
            ids["local"] = fmtid(canon(q, v.a[2][1], 9))
            f = fields(q, v.a[2][2])
            if f.get("shard_id") != "a2.0" or not f.get("handler", "").startswith("ActorHandler::new_boxed(a1.actor_handler") and "a1.actor_handler" not in f.get("handler", "") or "actor_ref(a3)" not in f.get("host", ""):
                return Bad("shard", "the shard started is %s" % f)
            if "a2.0" not in (ids["local"] or ("", "a2.0"))[1] or "a1.shard_entity" not in (ids["local"] or ("", "a1.shard_entity"))[1]:
                return Bad("name", "the shard is named after %s" % ids["local"][1])
            return (me, has, st, True, rem, ins, child, stop)
        if called(ev, r"ActorContext>?::(attach_child_ref|add_child_ref)$"):
            return (me, has, st, made, rem, ins, True, stop)
        y = mutation(ev, q)
        if y and y[1] == "a1.remote_shards":
            if y[2][0] != "a2.0":
                return Bad("which", "%s(%s) on the shards hosted elsewhere" % (y[0], y[2][0]))
            if y[0] == "remove":
                return (me, has, st, made, True, ins, child, stop)
            if y[0] == "insert":
                if me is not False:
                    return Bad("elsewhere", "a shard allocated to this node is looked for elsewhere")
                v = strip(q, ev.args[2])
                t = canon(q, v, 12)
                z = re.search(r"RemoteActorRef\{id:(.*),system:.*,node_id:(.*?),_a:", t)
                if z:
                    ids["remote"] = fmtid(z.group(1))
                    if z.group(2) != "a2.1":
                        return Bad("node", "a shard allocated to node a2.1 is looked for on node %s" % z.group(2))
                return (me, has, st, made, rem, True, child, stop)
        if y and y[1] == "a1.hosted_shards":
            if y[2] and y[2][0] != "a2.0":
                return Bad("which", "%s(%s) on the hosted shards" % (y[0], y[2][0]))
            if y[0] in ("remove", "remove_entry"):
                return (me, has, st, made, True, ins, child, stop) if me is False else Bad("lost", "a shard allocated to this node is no longer hosted")
            if y[0] in ("insert", "or_insert", "insert_entry"):
                t = y[2][-1]
                z = re.match(r"^Starting\{actor_ref:ActorSystem::new_actor\w*\(.*,request_buffer:(.*),stop_requested:(.*)\}$", t) or re.match(r"^Starting\{", t) and t.endswith("…")
                if has is True:
                    return Bad("reset", "a shard that is hosted already is replaced")
                if t.startswith("Starting{") and "stop_requested:Some" in t or not z and not t.startswith("Starting{"):
                    return Bad("state", "a newly allocated shard is hosted as %s" % cut(t))
                return (me, has, st, made, rem, True, child, stop)
        x = message(ev, q)
        if x and canon(q, x[2]) in ("<stop>", "'<stop>'"):
            if not re.search(r"hosted_shards,a2\.0\)\?@(Ready\.0|Starting\.actor_ref)$", canon(q, x[1], 9)):
                return Bad("stop", "what is stopped is %s" % canon(q, x[1], 9))
            if me is not False:
                return Bad("stop", "a shard allocated to this node is stopped")
            return (me, has, st, made, rem, ins, child, True)
        if ev.kind == "leave" and ev.out:
            if me is True:
                if has is False and not (made and ins):
                    return Bad("unstarted", "a shard allocated to this node is not %s" % ("started" if not made else "hosted"))
                if made and not child:
                    return Bad("orphan", "a shard is not a child of its host")
                if not rem:
                    return Bad("elsewhere", "a shard allocated to this node is still looked for elsewhere")
            if me is False:
                if not ins:
                    return Bad("unknown", "a shard allocated to another node is not looked for there")
                if not rem:
                    return Bad("kept", "a shard allocated to another node is still hosted here")
                if st in ("Ready", "Starting", "!Stopping", "!Ready", "!Starting") and not stop:
                    return Bad("running", "a shard allocated to another node is not stopped here")
        return None
    FOP = SOP + [r"Handler<.*EntityRequest>.*::handle$", r"ActorSystem>?::new_actor(_deferred)?$"]
    c.watch(b, mon, (None, None, None, False, False, False, False, False), "allocated", opaque=FOP, spawn="inline")
    if ids.get("local") and ids.get("remote"):
        c.check(ids["local"] == ids["remote"], "names", "a shard is started as %s but looked for as %s" % (ids["local"], ids["remote"]))

    c.rule("names", "A host looks for another node's host under the name that host gives itself there.")
    b = c.inherent(HOST, "remote_ref")
    r = None
    if b:
        for o in c.run(b, None):
            t = c.ret(o, 12)
            z = re.search(r"RemoteActorRef\{id:(.*),system:(.*?),node_id:(.*?),_a:", t)
            if z:
                r = fmtid(z.group(1))
                c.check(z.group(3) == "a2" and z.group(2) == "a3", "ref", "a reference to the host on node a2 goes to node %s" % z.group(3), out=o)
    b = c.inherent(r"sharding::Sharding(::)?<A>$|sharding::Sharding$", "try_start")
    if b and r:
        def ia(ev, q):
            v = awaited(ev, q, r"::into_actor$") or (ev if called(ev, r"::into_actor$") else None)
            if v is None or ev.kind != "call":
                return None
            return ("id", canon(q, ev.args[1], 12))
        n = 0
        for o in c.run(b, ia, opaque=SOP + [r"SingletonBuilder", r"::into_actor$"]):
            for x in o.obs:
                f = fmtid(x[1])
                n += 1
                if f:
                    c.check(f[0] == r[0], "host", "a host is started as %s but looked for as %s" % (f[0], r[0]), out=o)
                    c.check(re.match(r"^a1,.*node_id", f[1]) and r[1] == "a1,a2" or [("node" in p) for p in f[1].split(",")] == [p == "a2" for p in r[1].split(",")], "host2",
                            "a host is named after (%s) but looked for by (%s)" % (f[1], r[1]), out=o)

    c.rule("ready", "A shard that has started is hosted as ready, unless it was given to another node meanwhile; if it is to be stopped it is stopped then.")
    b = c.handler(HOST, r"host::ShardReady$")

    def mon2(s, ev, q):
        has, st, stop, ready, stopped = s
        y = member(ev, q)
        if y and y[0] == "a1.hosted_shards" and y[1] == "a2.0":
            return (y[2], st, stop, ready, stopped)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(r"^[\w:]+\(.*a1\.hosted_shards,a2\.0.*\)\??$", t) and str(ev.out) in ("Starting", "Ready", "Stopping", "!Starting"):
                return (has, str(ev.out), stop, ready, stopped)
            if t.endswith("@Starting.stop_requested"):
                return (has, st, str(ev.out), ready, stopped)
        y = mutation(ev, q)
        if y and y[1] == "a1.hosted_shards":
            if y[0] == "insert" and y[2] == ["a2.0", "Ready{0:a2.1}"]:
                if has is not True:
                    return Bad("gone", "a shard that was given to another node while it started is hosted as ready")
                return (has, st, stop, True, stopped)
            if y[0] == "insert" and y[2][0] == "a2.0" and stop == "Some":
                return None
            if y[0] in ("remove", "remove_entry", "entry") and y[2][0] == "a2.0":
                return None
            return Bad("state", "a started shard does %s(%s)" % (y[0], y[2]))
        if ev.kind == "write" and ev.value is not None and canon(q, ev.value) == "Ready{0:a2.1}" and has:
            return (has, st, stop, True, stopped)
        x = message(ev, q)
        if x and canon(q, x[2]) in ("<stop>", "'<stop>'"):
            if canon(q, x[1]) != "a2.1":
                return Bad("stop", "what is stopped is %s" % canon(q, x[1]))
            return (has, st, stop, ready, True) if stop == "Some" else Bad("stop", "a shard that started is stopped although nobody asked for it")
        if ev.kind == "leave" and ev.out:
            if has is not False and not ready and stop != "Some":
                return Bad("unready", "a shard that started is not hosted as ready")
            if stop == "Some" and not stopped:
                return Bad("unstopped", "a shard that is to be stopped once it started is not stopped")
        return None
    c.watch(b, mon2, (None, None, None, False, False), "ready", opaque=SOP, spawn="inline")

    c.rule("stop", "A request to stop a hosted shard stops it, once it has started, and is answered, under its own id and to its own node, with how that ended, only after the shard has stopped; from then on it is not hosted.")

    def stopmon(req):
        def mon3(s, ev, q):
            has, st, stopped, told, ans, kept, mark = s
            y = member(ev, q)
            if y and y[0] == "a1.hosted_shards":
                return (y[2], st, stopped, told, ans, kept, mark)
            if ev.kind == "branch":
                t = canon(q, ev.value, 9)
                if "a1.hosted_shards" in t and str(ev.out) in ("Starting", "Ready", "Stopping", "!Starting", "!Ready"):
                    o = str(ev.out)
                    if st == "!Starting" and o == "!Ready":
                        o = "Stopping"
                    return (has, o, stopped, told, ans, kept, mark)
                if re.search(r"::stop\(", t) and str(ev.out) in ("Ok", "Err"):
                    return (has, st, str(ev.out), told, ans, kept, mark)
                if t.endswith("@Starting.stop_requested") and req == "a2":
                    return (has, st, stopped, told, ans, kept or str(ev.out) == "Some", mark)
                if t.endswith("@Starting.stop_requested"):
                    return (has, "Requested" if str(ev.out) == "Some" else "Fine", stopped, told, ans, kept, mark)
            if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".stop_requested":
                t = canon(q, ev.value, 9)
                if not re.match(r"^Some\{0:StopRequested\{origin_node_id:a2\.origin_node_id,request_id:a2\.request_id\}\}$", t):
                    return Bad("remembered", "a request to stop a starting shard is remembered as %s" % t)
                return (has, st, stopped, told, ans, True, mark)
            if ev.kind == "write" and req == "a2" and canon(q, ev.value) == "Stopping" and "hosted_shards" in str(ev.loc):
                return (has, st, stopped, told, ans, kept, True)
            y = mutation(ev, q)
            if y and y[1] == "a1.hosted_shards" and y[0] == "insert" and req == "a2":
                if y[2][-1] == "Stopping":
                    return (has, st, stopped, told, ans, kept, True)
            x = message(ev, q)
            if x and canon(q, x[2]) in ("<stop>", "'<stop>'"):
                if x[0] != "send":
                    return Bad("unawaited", "it is not awaited that the shard has stopped")
                return (has, st, "asked", told, ans, kept, mark)
            f = notified(ev, q, "ShardStopped")
            if f:
                if stopped not in ("Ok", "Err", "asked"):
                    return Bad("early", "a shard is reported as stopped before it has")
                if f[1].get("shard_id") != ("a2.shard_id" if req == "a2" else "a2.0") or f[1].get("stopped_successfully") in ("True", "False") and stopped in ("Ok", "Err") and (f[1]["stopped_successfully"] == "True") != (stopped == "Ok"):
                    return Bad("report", "a shard that stopped as %s is reported as %s" % (stopped, f[1]))
                return (has, st, stopped, True, ans, kept, mark)
            v = awaited(ev, q, r"RemoteActorSystem>?::notify_raw_rpc_result$")
            if v:
                a = [canon(q, z, 14) for z in v.a[2]]
                if stopped not in ("Ok", "Err", "asked"):
                    return Bad("early", "a request to stop a shard is answered before it has stopped")
                p = r"a2\." if req == "a2" else r".*@Starting\.stop_requested\?\."
                if not re.match("^" + p + "request_id$", a[1]) or not re.match("^" + p + "origin_node_id$", a[3]):
                    return Bad("answer", "a request to stop a shard is answered under %s to %s" % (cut(a[1]), cut(a[3])))
                if stopped in ("Ok", "Err") and ("is_successful:%s" % (stopped != "Ok")) in a[2]:
                    return Bad("false", "a request to stop a shard is answered falsely")
                if ans:
                    return Bad("twice", "a request to stop a shard is answered twice")
                return (has, st, stopped, told, True, kept, mark)
            if ev.kind == "leave" and ev.out:
                if req == "a2":
                    if st == "Starting" and not kept:
                        return Bad("forgotten", "a request to stop a shard that is starting is forgotten")
                    if st == "Ready" and not (stopped and told and ans and mark):
                        return Bad("ready", "a shard that is to be stopped is not %s" % ("stopped" if not stopped else "reported as stopped" if not told else "marked as stopping" if not mark else "answered for"))
                elif st == "Requested" and not (stopped and told and ans):
                    return Bad("requested", "a shard that was to be stopped once started is not %s" % ("stopped" if not stopped else "reported as stopped" if not told else "answered for"))
            return None
        return mon3
    init = (None, None, None, False, False, False, False)
    c.watch(c.handler(HOST, r"host::StopShard$"), stopmon("a2"), init, "stop", opaque=SOP, spawn="inline")
    c.watch(c.handler(HOST, r"host::ShardReady$"), stopmon("buf"), init, "stop-ready", opaque=SOP, spawn="inline")

    def gone(field, key):
        def mon4(s, ev, q):
            y = mutation(ev, q)
            if y and y[1] in ("a1.hosted_shards", "a1.remote_shards"):
                return True if y[0] in ("remove", "remove_entry", "entry") and y[1] == "a1." + field and y[2][0] == key else Bad("which", "%s %s(%s)" % (y[1], y[0], y[2]))
            y = member(ev, q)
            if y and y[0] == "a1." + field and y[1] == key and not y[2]:
                return True
            if ev.kind == "leave" and ev.out and not s:
                return Bad("kept", "the shard stays in %s" % field)
            return None
        return mon4
    c.watch(c.handler(HOST, r"host::ShardStopped$"), gone("hosted_shards", "a2.shard_id"), False, "stopped")
    c.watch(c.handler(HOST, r"host::ShardReallocating$"), gone("remote_shards", "a2.0"), False, "moving")


SORT = r"::(sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key|min_by|min_by_key|max_by|max_by_key)(::<.*>)?$"


@prop("S03")
def allocation(c):
    c.rule("allocate", "A shard that is allocated stays where it is, and that is the answer. Any other is recorded by persisting the request before it is given, unless it is only being moved, to a ready host: that host is what the coordinator's table, the "
           "host's own list and the answer say, and it is announced to all ready hosts. When persisting fails nothing is allocated and the answer says so; without a ready host the answer is that it is not allocated.")
    b = c.handler(COORD, r"allocation::AllocateShard$")
    cmps = {}
    AOP = SOP + PERSIST + [r"allocation::broadcast_allocation$"]

    def alloc(sid, durable):
        HOSTX = r"(?:.*\(a1\.hosts.*|HashMap::\w+\(a1\.hosts,.*)"

        def mon(s, ev, q):
            has, reb, per, ready, host, mapped, listed, told, none = s

            def st(**k):
                d = dict(has=has, reb=reb, per=per, ready=ready, host=host, mapped=mapped, listed=listed, told=told, none=none)
                d.update(k)
                return tuple(d[x] for x in ("has", "reb", "per", "ready", "host", "mapped", "listed", "told", "none"))
            if ev.kind == "call" and re.search(SORT, ev.path or ev.decl or ""):
                v = q.val(ev.args[1]) if len(ev.args) > 1 else None
                if v is not None and v.tag == "clo":
                    cmps[v.a[0]] = re.search(SORT, ev.path or ev.decl).group(1)
            y = member(ev, q)
            if y and y[0] == "a1.shards":
                return st(has=y[2]) if y[1] == sid else Bad("which", "the shard looked for is %s" % y[1])
            if y and y[0].endswith(".shards") and y[0] != "a1.shards" and y[2]:
                return st(told=True)
            if ev.kind == "branch":
                t = canon(q, ev.value, 12)
                o = str(ev.out)
                if t == "a2.rebalancing":
                    return st(reb=truth(ev))
                if re.match(r"^[\w:]*persist\(a1,a2,a3\)$", t):
                    return st(per=o)
                if re.match(r"^each\(a1\.hosts\)\.1\.status$", t):
                    return st(ready=ready | {o})
                if re.search(r"^\(each\(a1\.hosts\)\.1\.status (Eq|Ne) Ready\)$", t) and truth(ev) is not None:
                    return st(ready=ready | {"Ready" if (" Eq " in t) == truth(ev) else "!Ready"})
                if o in ("Some", "None") and "a1.hosts" in t:
                    return st(none=o == "None")
            v = awaited(ev, q, r"PersistentActor::persist$")
            if v:
                if [canon(q, x) for x in v.a[2][:2]] != ["a1", "a2"]:
                    return Bad("persisted", "what is persisted is %s" % canon(q, v.a[2][1]))
                return st(per="asked")
            y = mutation(ev, q)
            if y and y[1] == "a1.shards" and y[0] not in ("entry", "get_mut"):
                if y[0] not in ("insert", "or_insert", "insert_entry"):
                    return Bad("table", "allocating a shard does %s on the table of shards" % y[0])
                if y[2][0] != sid:
                    return Bad("which", "the shard recorded is %s" % y[2][0])
                if has is not False:
                    return Bad("moved", "a shard that is allocated is given to another host")
                if durable and reb is not True and per != "Ok":
                    return Bad("unrecorded", "a shard is allocated before the request was persisted")
                z = re.match(r"^(.*)\.node_id$", y[2][-1]) or re.match(r"^(each\(a1\.hosts\))\.0$", y[2][-1])
                if not z or "a1.hosts" not in z.group(1):
                    return Bad("host", "a shard is given to %s" % y[2][-1])
                h = z.group(1)
                if host and host != h:
                    return Bad("disagree", "a shard is given to %s but listed with %s" % (cut(h), cut(host)))
                if "|each(a1.hosts)" in h and "Ready" not in ready or re.match(r"^each\(a1\.hosts\)|^HashMap::get", h) and "Ready" not in ready:
                    return Bad("unready", "a shard is given to a host that is not known to be ready")
                return st(mapped=True, host=h)
            if y and y[1].endswith(".shards") and "a1.hosts" in y[1]:
                if y[0] != "insert" or y[2] != [sid]:
                    return Bad("list", "a host's list does %s(%s)" % (y[0], y[2]))
                h = y[1][:-len(".shards")]
                if host and host != h:
                    return Bad("disagree", "a shard is given to %s but listed with %s" % (cut(host), cut(h)))
                return st(host=h, listed=True, none=None)
            v = awaited(ev, q, r"allocation::broadcast_allocation$")
            if v:
                a = [canon(q, x, 12) for x in v.a[2]]
                if a[0] != sid or a[1] != "%s.node_id" % host:
                    return Bad("announced", "what is announced is that shard %s is on %s" % (a[0], cut(a[1])))
                if "a1.hosts" not in a[2] or any(r in a[2] for r in ("~skip", "~take", "~rev~skip")):
                    return Bad("whom", "an allocation is announced to %s" % cut(a[2]))
                return st(told=True)
            f = notified(ev, q, "ShardAllocated")
            if f:
                if f[1].get("0") != sid or host and f[1].get("1") != "%s.node_id" % host:
                    return Bad("announced", "what is announced is %s" % f[1])
                return st(told=True)
            if ev.kind == "leave" and ev.out:
                r = canon(q, ev.value, 12) if ev.value is not None else "()"
                if mapped and not listed:
                    return Bad("unlisted", "a shard given to a host is not listed with it")
                if mapped and not told:
                    return Bad("untold", "an allocation is not announced")
                if per == "Err" and (mapped or r not in ("()",) and not r.startswith("Err{")):
                    return Bad("failed", "persisting failed and the answer is %s" % r)
                if listed and not mapped:
                    return Bad("untabled", "a shard listed with a host is not in the table")
                if r.startswith("Allocated{"):
                    if not mapped or r != "Allocated{0:%s,1:%s.node_id}" % (sid, host) and "…" not in r:
                        return Bad("answer", "the answer is %s" % r)
                elif r.startswith("AlreadyAllocated{"):
                    if has is not True or not re.match(r"^AlreadyAllocated\{0:%s,1:.*\(a1\.shards,%s\).*\}$" % (re.escape(sid), re.escape(sid)), r):
                        return Bad("answer", "the answer is %s" % r)
                elif r == "NotAllocated":
                    if mapped or none is False or has:
                        return Bad("answer", "the answer is that the shard is not allocated although %s" % ("it is" if mapped or has else "there is a host"))
                elif r == "()":
                    if has is False and not mapped and none is False:
                        return Bad("skipped", "a shard is not allocated although there is a host")
            return None
        return mon
    init = (None, None, None, frozenset(), None, False, False, False, None)
    c.watch(b, alloc("a2.shard_id", True), init, "handle", opaque=AOP, spawn="inline")

    c.rule("durable", "A recovered request is allocated again; the coordinator persists under a key of its own entity, and what it persists is registered for recovery.")
    rb = c.one(c.p.impl_method(r"Recover<.*AllocateShard>$", r"ShardCoordinator$", "recover"), "Recover<AllocateShard>")
    c.watch(rb, alloc("a2.shard_id", False), init, "recover", opaque=AOP, spawn="inline")

    def reached(s, ev, q):
        if called(ev, r"ShardCoordinator>?::allocate_shard$") and canon(q, ev.args[1]) == "a2.shard_id":
            return True
        y = mutation(ev, q)
        if y and y[1] == "a1.shards":
            return True
        y = member(ev, q)
        if y and y[0] == "a1.shards":
            return True
        if ev.kind == "leave" and ev.out and not s:
            return Bad("ignored", "a recovered request allocates nothing")
        return None
    c.watch(rb, reached, False, "recover-all", opaque=AOP, spawn="inline")
    for o in c.run(c.method(r"PersistentActor$", COORD, "persistence_key"), None):
        c.check("a1.shard_entity" in c.ret(o, 9), "key", "the coordinator persists under %s, whatever its entity" % c.ret(o, 9), out=o)
    registered(c, COORD, [r"allocation::AllocateShard$"])

    c.rule("least", "The host chosen has the fewest shards of those ready.")
    first = None
    for k, n in sorted(cmps.items()):
        cb = c.p.bodies.get(k)
        if cb is None:
            continue
        desc = None
        for o in c.run(cb, None):
            if o.kind != "return":
                continue
            r = c.ret(o, 9)
            if n.endswith("_key") or n.endswith("cached_key"):
                z = re.match(r"^(Reverse\{0:)?\w+::len\(a2(\.1)?\.shards\)\}?$", r)
                c.check(bool(z), "by", "hosts are ordered by %s" % r, out=o)
                desc = bool(z and z.group(1))
            else:
                z = re.match(r"^(?:Ordering::reverse\()?[\w:<>]*::(?:partial_)?cmp\(\w+::len\((a[23])(?:\.1)?\.shards\),\w+::len\((a[23])(?:\.1)?\.shards\)\)\??\)?$", r)
                c.check(bool(z) and z.group(1) != z.group(2), "by", "hosts are compared by %s" % r, out=o)
                desc = bool(z) and ((z.group(1) == "a3") != ("reverse(" in r))
        if desc is not None:
            first = ("max" if desc else "min") if n.startswith("sort") else n[:3] if not desc else {"min": "max", "max": "min"}[n[:3]]
            if not n.startswith("sort"):
                c.check(first == "min", "which", "the host with the most shards is chosen (%s)" % n)

    if first and any(n.startswith("sort") for n in cmps.values()):
        def pick(ev, q):
            y = mutation(ev, q)
            if y and y[1] == "a1.shards" and y[0] in ("insert", "or_insert", "insert_entry"):
                return ("pick", y[2][-1])
            return None
        for o in c.run(b, pick, opaque=AOP, spawn="inline"):
            for x in o.obs:
                end = "last" if re.search(r"::(last|last_mut|pop)\(|~rev", x[1]) else "first" if re.search(r"::(first|first_mut|swap_remove|remove|get|get_mut|index|index_mut)\(|each\(", x[1]) else None
                if end:
                    c.check((end == "first") == (first == "min"), "which", "of the ordered hosts the one with the most shards is chosen: %s" % cut(x[1]), out=o)

    c.rule("announce", "Every host is told about an allocation: which shard is on which node.")
    b = c.soft([x for x in c.p.bodies.values() if x.id.endswith("allocation::broadcast_allocation")], "broadcast_allocation")
    if b:
        told_all(c, b, r"^(coll\()?a3(\||$)", "ShardAllocated", {"0": "a1", "1": "a2"}, "announce")


def told_all(c, b, coll, msg, want, key):
    """every element of the collection is sent the message, at once or through a future that is awaited later"""
    def said(ev, q):
        f = notified(ev, q, msg)
        return f and (f[1] == want or Bad("content", "what is said is %s" % f[1]))

    def act(ev, q):
        if notified(ev, q, msg):
            return True
        y = mutation(ev, q)
        return y and y[0].startswith("push") and strip(q, ev.args[1]).tag == "clo" or ev.kind == "collect" and strip(q, ev.value).tag == "clo" or ev.kind == "spawn"

    def queued(s, ev, q):
        f = notified(ev, q, msg)
        if f:
            if f[1] != want:
                return Bad("content", "what is said is %s" % f[1])
            if not re.match(r"^each\(", f[0]):
                return Bad("whom", "it is %s that is told" % f[0])
            return "sent" if s == "running" else s
        y = mutation(ev, q)
        if y and y[0].startswith("push") and strip(q, ev.args[1]).tag == "clo" or ev.kind == "collect" and strip(q, ev.value).tag == "clo":
            return "queued"
        if s == "queued" and ev.kind == "next" and re.search(coll, canon(q, ev.value)) and ev.out != "Some":
            return "over"
        if s in ("over", "running", "sent") and ev.kind == "next" and not re.search(coll, canon(q, ev.value)):
            if s == "running":
                return Bad("silent", "a host is not told")
            return "running" if ev.out == "Some" else "sent"
        if ev.kind == "leave" and ev.out and s in ("queued", "over", "running"):
            return Bad("unsent", "a host is not told because nothing awaits the sending")
        return None
    i, mm = combine(each=foreach(coll, act, "hosts", must=True), queued=("none", queued))
    c.watch(b, mm, i, key, opaque=SOP + [r"ActorRef::?<.*>::node_id$", r"Display.*::fmt$"], spawn="inline", ccap=2)


def registered(c, actor, msgs):
    """the actor's journal types include each of the messages"""
    sites = []
    for b in c.p.bodies.values():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and re.search(r"JournalTypes(::)?<.*>::(message|snapshot)$", t[1][1]["p"]):
                sites.append([str(x) for x in t[1][1]["g"]])
    if not sites:
        return
    for mm in msgs:
        c.check(any(any(re.search(actor, x) for x in g) and any(re.search(mm, x) for x in g) for g in sites), "registered:" + mm,
                "%s is persisted but not registered for recovery" % mm.rstrip("$"))


def wrote(ev, field):
    return ev.kind == "write" and ev.loc.tag == "loc" and ev.loc.a[1] and ev.loc.a[1][-1] == "." + field


@prop("S04")
def balancing(c):
    c.rule("move", "Moving a shard: every host is told; it is taken off the table and off the list of the host it was on; that host is asked to stop it under a registered request of this node; and only when that was answered is the shard allocated anew.")
    b = c.inherent(COORD, "rebalance_shards")
    BOP = SOP + [r"allocation::broadcast_reallocation$"]

    def mon(s, ev, q):
        moved, told, tab, lst, reg, stop, ans, again = s

        def st(**k):
            d = dict(moved=moved, told=told, tab=tab, lst=lst, reg=reg, stop=stop, ans=ans, again=again)
            d.update(k)
            return tuple(d[x] for x in ("moved", "told", "tab", "lst", "reg", "stop", "ans", "again"))
        if ev.kind == "next" and canon(q, ev.value) == "a2":
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of the shards is moved")
            if moved == "open":
                if not told:
                    return Bad("untold", "a host is not told that a shard moves")
                if tab == "?":
                    return Bad("kept", "a shard that is to be moved stays in the table")
                if tab == "removed" and not lst:
                    return Bad("listed", "a shard that moves stays in the list of its old host")
                if tab == "removed" and lst != "queued" and not stop:
                    return Bad("running", "the old host of a shard that moves is not asked to stop it")
            return st(moved="open" if ev.out == "Some" else "done", told=False, tab="?", lst=None) if ev.out == "Some" else st(moved="done")
        if called(ev, r"broadcast_reallocation$"):
            a = [canon(q, x, 9) for x in ev.args]
            if a[0] != "each(a2)" or "a1.hosts" not in a[1] or "~" in a[1].replace("~map", "").replace("~cloned", "").replace("~values", ""):
                return Bad("told", "hosts %s are told that shard %s moves" % (cut(a[1]), a[0]))
            return st(told=True)
        f = notified(ev, q, "ShardReallocating")
        if f:
            return st(told=True)
        y = mutation(ev, q)
        if y and y[1] == "a1.shards":
            if y[0] not in ("remove", "remove_entry") or y[2][0] != "each(a2)":
                return Bad("table", "moving a shard does %s(%s) on the table" % (y[0], y[2]))
            return st(tab="removed")
        z = member(ev, q)
        if z and z[0] == "a1.shards" and z[1] == "each(a2)" and not z[2]:
            return st(tab="absent")
        if y and y[1].endswith(".shards") and "a1.hosts" in y[1]:
            if y[0] != "remove" or y[2][0] != "each(a2)" or not re.search(r"\(a1\.hosts,HashMap::(remove|get|remove_entry)\(a1\.shards,each\(a2\)\)\?", y[1]):
                return Bad("list", "moving a shard does %s(%s) on %s" % (y[0], y[2], cut(y[1])))
            return st(lst="removed")
        if y and y[0].startswith("push") and strip(q, ev.args[1]).tag == "clo" or ev.kind == "spawn" and moved == "open" and lst == "removed":
            return st(lst="queued" if lst else lst)
        if called(ev, r"RemoteActorSystem>?::push_request$"):
            return st(reg=strip(q, ev.args[1]), stop=False, ans=None)
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if stop and t.endswith("channel().1") and str(ev.out) in ("Ok", "Err"):
                return st(ans=str(ev.out))
            if "notify(" in t and "StopShard" in t and str(ev.out) in ("Ok", "Err"):
                return st(stop=str(ev.out) if str(ev.out) == "Err" else True)
            if ans == "Ok" and str(ev.out) == "Err" and "channel().1?" in t:
                return st(ans="Err")
        f = notified(ev, q, "StopShard")
        if f:
            v = strip(q, message(ev, q)[2])
            d = dict(v.a[2])
            if f[1].get("shard_id") != "each(a2)" or f[1].get("origin_node_id") not in ("a1.self_node_id?", "a4.inner.node_id") or reg is None or strip(q, d.get("request_id")) != reg:
                return Bad("stop", "a host is asked to stop %s" % f[1])
            if not re.search(r"a1\.shards,each\(a2\)\)\?\.?.*\.actor$", f[0]) and "each(a1.hosts)" not in f[0]:
                return Bad("whom", "it is %s that is asked to stop a shard" % cut(f[0]))
            return st(stop=True, ans=None, again=None)
        f = notified(ev, q, "AllocateShard")
        if f:
            if f[1] != {"shard_id": "each(a2)", "rebalancing": "True"}:
                return Bad("again", "what is allocated anew is %s" % f[1])
            if ans != "Ok":
                return Bad("early", "a shard is allocated anew before its old host answered that it stopped")
            return st(again=True)
        if ev.kind == "leave" and ev.out:
            if moved in (None, "open"):
                return Bad("abandoned", "not all shards are moved")
            if ans == "Ok" and not again:
                return Bad("lost", "a shard whose old host stopped is not allocated anew")
        return None
    c.watch(b, mon, (None, False, "?", None, None, False, None, None), "move", opaque=BOP, spawn="inline", ccap=0)
    b2 = c.soft([x for x in c.p.bodies.values() if x.id.endswith("allocation::broadcast_reallocation")], "broadcast_reallocation")
    if b2:
        told_all(c, b2, r"^a2$", "ShardReallocating", {"0": "a1"}, "announce")

    c.rule("lost", "When a node is gone its host is no longer given shards, and every shard it had is taken off the table and allocated anew.")
    b = c.inherent(COORD, "rebalance_unavailable_node")
    LOP = SOP + [r"ShardCoordinator>?::allocate_shard$"]

    def lost(s, ev, q):
        has, off, each = s
        y = member(ev, q)
        if y and y[0] == "a1.hosts":
            return (y[2], off, each) if y[1] == "a2" else Bad("which", "the host looked for is %s" % y[1])
        if wrote(ev, "status"):
            t = canon(q, ev.value)
            return (has, True, each) if t == "Unavailable" else Bad("status", "the host of a lost node becomes %s" % t)
        y = mutation(ev, q)
        if y and y[1] == "a1.hosts" and y[0] in ("remove", "remove_entry") and y[2][0] == "a2":
            return (True, True, each)
        if y and y[1] == "a1.shards":
            if y[0] not in ("remove", "remove_entry", "retain") or y[0] != "retain" and not y[2][0].startswith("each("):
                return Bad("table", "%s(%s) on the table of shards" % (y[0], y[2]))
            return (has, off, "removed")
        if ev.kind == "next" and ev.out == "Some" and "shards" in canon(q, ev.value, 9):
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of a lost node's shards is allocated anew")
            if each == "open":
                return Bad("skipped", "a shard of a lost node is not allocated anew")
            return (has, off, "open")
        if each == "open" and (ev.kind == "collect" or ev.kind == "call" and (mutation(ev, q) or ("",))[0] in ("push", "push_back", "extend")):
            return (has, off, "kept")
        if ev.kind == "next" and "shards" in canon(q, ev.value, 9):
            if each == "kept":
                return (has, off, None)
            return (has, off, "done") if each not in ("open", "removed") else Bad("skipped", "a shard of a lost node is not allocated anew")
        v = awaited(ev, q, r"ShardCoordinator>?::allocate_shard$")
        f = notified(ev, q, "AllocateShard")
        if v or f:
            t = canon(q, v.a[2][1], 9) if v else f[1].get("shard_id")
            if not t.startswith("each(") or "shards" not in t:
                return Bad("which", "the shard allocated anew is %s" % t)
            if not off:
                return Bad("back", "a lost node's shard is allocated anew while its host can still be chosen")
            if each != "removed":
                return Bad("stays", "a lost node's shard is allocated anew while the table still has it there")
            return (has, off, "acted")
        if ev.kind == "leave" and ev.out and has is not False:
            if not off:
                return Bad("available", "a lost node's host can still be given shards")
            if each in ("open", "removed", None, "acted"):
                return Bad("abandoned", "not every shard of a lost node is allocated anew")
        return None
    c.watch(b, lost, (None, False, None), "lost", opaque=LOP, spawn="inline", ccap=0)

    c.rule("surplus", "Rebalancing moves shards only from hosts with more than their even share, and no more than the surplus; rebalancing named shards moves those.")
    b = c.handler(COORD, r"balancing::Rebalance$")
    ROP = SOP + [r"ShardCoordinator>?::rebalance_(shards|unavailable_node)$", r"Debug.*::fmt$"]

    def surplus(s, ev, q):
        kind, over, room, done = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a2":
                return (str(ev.out), over, room, done)
            z = re.match(r"^(Not\()?\((.*) (Gt|Ge|Lt|Le) (.*)\)\)?$", t)
            if z and truth(ev) is not None and "shards" in t:
                neg, l, op, r = z.groups()
                hold = truth(ev) != bool(neg)
                if not hold:
                    op = {"Gt": "Le", "Ge": "Lt", "Lt": "Ge", "Le": "Gt"}[op]
                if op in ("Lt", "Le"):
                    l, r, op = r, l, {"Lt": "Gt", "Le": "Ge"}[op]
                own = r"^HashSet::len\(each\(a1\.hosts\)\.1\.shards\)$"
                share = r"^\(HashMap::len\(a1\.shards\) Div (HashMap::len\(a1\.hosts\)|.*)\)$"
                if re.match(own, l) and re.match(share, r):
                    return (kind, op == "Gt" or op == "Ge" and over, room, done)
                if re.match(share, l) and re.match(own, r):
                    return (kind, False, room, done)
                if " Sub " in l:
                    return (kind, over, op == "Gt", done)
                if " Sub " in r:
                    return (kind, over, False, done)
        if ev.kind == "next":
            t = canon(q, ev.value, 9)
            if t == "a1.hosts":
                return (kind, None, None, done)
            if t == "each(a1.hosts).1.shards":
                ads = ev.loc.a[0] if ev.loc else ()
                return (kind, over, True if any(a[0] == "take" for a in ads) else None, done)
        y = mutation(ev, q)
        x = canon(q, ev.args[1], 9) if y and y[0].startswith("push") else canon(q, ev.value, 9) if ev.kind == "collect" else None
        if x and x.startswith("each(each(a1.hosts).1.shards"):
            if over is False:
                return Bad("fair", "a shard is moved off a host that has no more than its even share")
            if not room:
                return Bad("many", "more shards are moved off a host than its surplus")
            return (kind, over, None, done)
        v = awaited(ev, q, r"ShardCoordinator>?::rebalance_(shards|unavailable_node)$")
        if v:
            t = canon(q, v.a[2][1], 9)
            un = v.a[1].endswith("unavailable_node")
            ok = {"All": not un and t.startswith("coll("), "Shards": not un and t == "a2@Shards.0", "NodeUnavailable": un and t == "a2@NodeUnavailable.0"}.get(kind, True)
            if not ok:
                return Bad("what", "Rebalance::%s rebalances %s" % (kind, t))
            return (kind, over, room, True)
        if ev.kind == "leave" and ev.out and not done:
            return Bad("nothing", "Rebalance::%s does nothing" % kind)
        return None
    c.watch(b, surplus, (None, None, None, False), "surplus", opaque=ROP, spawn="inline", ccap=0)

    c.rule("members", "A node that joins, or comes back, becomes a ready host under its own id, reached by the name its host has there, and a rebalance is scheduled; a node that leaves is rebalanced away. At most one full rebalance is scheduled at a time.")
    b = c.handler(COORD, r"Receive<.*SystemTopic>$")
    NODE = r"a2\.0@Cluster\.0@Node(Added|Removed)\.0"

    def member_(s, ev, q):
        kind, has, st, up, sched, cancel, gone = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a2.0@Cluster.0":
                return (str(ev.out), has, st, up, sched, cancel, gone)
            if t.endswith(".status") and "a1.hosts" in t:
                return (kind, has, str(ev.out), up, sched, cancel, gone)
            z = re.match(r"^\(.*a1\.hosts.*\.status (Eq|Ne) Ready\)$", t)
            if z and truth(ev) is not None:
                return (kind, has, "Ready" if (z.group(1) == "Eq") == truth(ev) else "!Ready", up, sched, cancel, gone)
            if t == "a1.scheduled_rebalance":
                return (kind, has, st, up, sched, "none" if str(ev.out) == "None" else "pending" if cancel is None else cancel, gone)
        y = member(ev, q)
        if y and y[0] == "a1.hosts":
            return (kind, y[2], st, up, sched, cancel, gone) if re.match("^%s.id$" % NODE, y[1]) else Bad("which", "the host looked for is %s" % y[1])
        if wrote(ev, "status"):
            t = canon(q, ev.value)
            if kind == "NodeAdded" and t == "Ready":
                return (kind, has, st, True, sched, cancel, gone)
            if kind == "NodeRemoved" and t == "Unavailable":
                return None
            return Bad("status", "on %s a host becomes %s" % (kind, t))
        y = mutation(ev, q)
        if y and y[1] == "a1.hosts" and y[0] in ("insert", "or_insert", "insert_entry"):
            v = strip(q, ev.args[-1])
            f = {k: canon(q, x, 14) for k, x in v.a[2]} if v.tag == "adt" else {}
            if kind != "NodeAdded":
                return Bad("added", "on %s a host is added" % kind)
            if has is not False:
                return Bad("reset", "a host that is known is replaced, its shards forgotten")
            z = re.search(r"RemoteActorRef\{id:(.*),system:(.*?),node_id:(.*?),_a:", f.get("actor", ""))
            if f and (f.get("node_id") != "a2.0@Cluster.0@NodeAdded.0.id" or f.get("status") != "Ready" or z and (z.group(3) != "a2.0@Cluster.0@NodeAdded.0.id" or "a1.shard_entity" not in z.group(1))):
                return Bad("host", "a node that joined becomes the host %s" % cut(str(f), 400))
            return (kind, has, st, True, sched, cancel, gone)
        if called(ev, r"CancellationToken::cancel$|ScheduledNotify(::)?<.*>::cancel$"):
            if "scheduled_notify" in canon(q, ev.args[0], 9):
                return Bad("new", "it is the rebalance just scheduled that is cancelled")
            return (kind, has, st, up, sched, "cancelled", gone)
        if called(ev, r"scheduled_notify$"):
            if canon(q, ev.args[1]) != "All":
                return Bad("what", "what is scheduled is %s" % canon(q, ev.args[1]))
            return (kind, has, st, up, True, cancel, gone)
        v = awaited(ev, q, r"ShardCoordinator>?::rebalance_unavailable_node$|Handler<.*Rebalance>.*::handle$")
        if v or notified(ev, q, "Rebalance"):
            t = canon(q, v.a[2][1], 9) if v else canon(q, message(ev, q)[2], 9)
            if kind != "NodeRemoved" or not re.match(r"^(NodeUnavailable\{0:)?a2\.0@Cluster\.0@NodeRemoved\.0\.id\}?$", t):
                return Bad("gone", "on %s the node given up is %s" % (kind, t))
            return (kind, has, st, up, sched, cancel, True)
        if ev.kind == "leave" and ev.out:
            if kind == "NodeAdded" and has is False and not (up and sched) or kind == "NodeAdded" and st not in (None, "Ready") and not (up and sched):
                return Bad("joined", "a node joins and %s" % ("its host is not ready" if not up else "no rebalance is scheduled"))
            if sched and cancel in ("pending", None):
                return Bad("two", "a second rebalance is scheduled without cancelling the first")
            if kind == "NodeRemoved" and has is not False and not gone:
                return Bad("left", "a node leaves and its shards stay with it")
        return None
    MOP = SOP + [r"ShardCoordinator>?::rebalance_(shards|unavailable_node)$", r"Scheduler?.*scheduled_notify$|::scheduled_notify$"]
    c.watch(b, member_, (None, None, None, False, False, None, False), "members", opaque=MOP, spawn="inline")

    c.rule("start", "Before it recovers, a coordinator knows its own node's host as ready and every other node's host under its id, ready exactly when that node is healthy or joining; it keeps a subscription to the cluster's events for as long as it runs.")
    b = c.method(r"PersistentActor$", COORD, "pre_recovery")

    def start(s, ev, q):
        own, sub, sts = s
        if ev.kind == "next" and "get_nodes(" in canon(q, ev.value):
            return (own, sub, frozenset())
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match(r"^each\([\w:]*get_nodes\(.*\)\)\.status$", t):
                return (own, sub, sts | {str(ev.out)})
            z = re.match(r"^\(each\([\w:]*get_nodes\(.*\)\)\.status (Eq|Ne) (\w+)\)$", t)
            if z and truth(ev) is not None:
                return (own, sub, sts | {z.group(2) if (z.group(1) == "Eq") == truth(ev) else "!" + z.group(2)})
        y = mutation(ev, q)
        if y and y[1] == "a1.hosts" and y[0] in ("insert", "or_insert"):
            v = strip(q, ev.args[-1])
            f = {k: canon(q, x, 14) for k, x in v.a[2]} if v.tag == "adt" else {}
            if f and f["node_id"].startswith("each("):
                z = re.search(r"RemoteActorRef\{id:(.*),system:(.*?),node_id:(.*?),_a:", f.get("actor", ""))
                if z and (z.group(3) != f["node_id"] or "a1.shard_entity" not in z.group(1)) or y[2][0] != f["node_id"]:
                    return Bad("host", "a node's host is %s" % cut(str(f), 300))
                exact = {x for x in sts if not x.startswith("!")}
                excl = {y for x in sts if x.startswith("!") for y in x[1:].split("|")}
                want = "Ready" if exact & {"Healthy", "Joining"} else "Unavailable" if exact or {"Healthy", "Joining"} <= excl else None
                if f["status"] in ("Ready", "Unavailable", "Unknown", "Starting") and f["status"] != want:
                    return Bad("status", "the host of a node that is %s is %s" % (" ".join(sorted(sts)) or "in whatever state", f["status"]))
            elif f:
                if f["status"] != "Ready" or "local_shard_host" not in f["actor"] or "node_id" not in f["node_id"]:
                    return Bad("own", "this node's own host is %s" % cut(str(f), 300))
                return (True, sub, sts)
        if wrote(ev, "system_event_subscription") and "subscribe(SystemTopic" in canon(q, ev.value):
            return (own, True, sts)
        if ev.kind == "leave" and ev.out and not (own and sub):
            return Bad("incomplete", "a coordinator starts without %s" % ("its own host" if not own else "keeping a subscription to the cluster's events"))
        return None

    def put(ev, q):
        y = mutation(ev, q)
        return y and y[1] == "a1.hosts"

    def self_(ev, q):
        return ev.kind == "branch" and (re.search(r"\(.*node_id.* (Eq|Ne) .*\)|\(.* (Eq|Ne) .*node_id.*\)", canon(q, ev.value, 9)) or canon(q, ev.value) == "any")
    i, mm = combine(start=((False, False, frozenset()), start), nodes=foreach(r"get_nodes\(", put, "nodes of the cluster", skip=self_, must=True))
    c.watch(b, mm, i, "start", opaque=SOP + PUBSUB + [r"Heartbeat>?::(register|remove)$", r"RemoteActorSystem>?::get_nodes$"])


EOP = SOP + PERSIST + [r"RemoteSystemConfig>?::message_handler$", r"ActorHandler::(create|new_boxed|actor_type_name)$", r"ActorMessageHandler::handle_direct$"]


@prop("S05")
def entities(c):
    c.rule("request", "A request to an entity is disposed of exactly once: handled by the running entity, with the handler registered for its message and its own result channel; appended to the requests of a starting entity; for an unknown entity with a recipe, "
           "kept as the first request of the entity, which is then started; and otherwise answered with an error saying what is missing.")
    b = c.handler(SHARD, r"request::EntityRequest$")
    HND = r"RemoteSystemConfig::message_handler\(.*,a2\.message_type\)\?"
    ST = r"^.*\(a1\.entities,a2\.actor_id\).*\.state$"

    def req(q, v):
        v = strip(q, v)
        f = {k: canon(q, x, 12) for k, x in v.a[2]} if v.tag == "adt" and "message" in dict(v.a[2]) else None
        if f is None:
            return None
        if not re.match("^%s$" % HND, f.get("handler", "")) or f.get("message") != "a2.message" or f.get("result_channel") != "a2.result_channel":
            return Bad("kept", "the request kept is %s" % f)
        return True

    def mon(s, ev, q):
        hand, has, st, rec, chan, done, started, ins = s

        def to(**k):
            d = dict(hand=hand, has=has, st=st, rec=rec, chan=chan, done=done, started=started, ins=ins)
            if "done" in k and done:
                return Bad("twice", "a request is disposed of twice: %s and %s" % (done, k["done"]))
            d.update(k)
            return tuple(d[x] for x in ("hand", "has", "st", "rec", "chan", "done", "started", "ins"))
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            o = str(ev.out)
            if re.match("^%s$" % HND.rstrip("?").rstrip("\\"), t):
                return to(hand=o)
            if t == "a2.recipe":
                return to(rec=o)
            if t == "a2.result_channel":
                return to(chan=o)
            if re.match(ST, t):
                return to(st=o)
        y = member(ev, q)
        if y and y[0] == "a1.entities":
            return to(has=y[2]) if y[1] == "a2.actor_id" else Bad("which", "the entity looked for is %s" % y[1])
        y = mutation(ev, q)
        if y and y[0].startswith("push") and "request_buffer" in y[1]:
            r = req(q, ev.args[1])
            if isinstance(r, Bad):
                return r
            if r:
                return to(done="buffered") if re.match(ST[:-1] + r"@Starting\.request_buffer$", y[1]) else None
        if y and y[0] in ("clear", "truncate", "drain", "pop", "retain", "remove") and "request_buffer" in y[1]:
            return Bad("others", "%s on the requests of a starting entity" % y[0])
        if y and y[1] == "a1.entities" and y[0] in ("insert", "or_insert", "insert_entry"):
            v = strip(q, ev.args[-1])
            if has is not False:
                return Bad("reset", "an entity that is known is replaced")
            f = {k: canon(q, x, 12) for k, x in v.a[2]} if v.tag == "adt" else {}
            if f and (f.get("actor_id") != "a2.actor_id" or f.get("recipe") != "a2.recipe?"):
                return Bad("entity", "the entity created is %s with recipe %s" % (f.get("actor_id"), f.get("recipe")))
            if f:
                z = f.get("state", "")
                if not z.startswith("Starting{"):
                    return Bad("state", "a new entity is %s" % cut(z))
                if "BufferedReq{" in z:
                    if "message:a2.message" not in z or "result_channel:a2.result_channel" not in z or not re.search(HND, z):
                        return Bad("kept", "the request kept is %s" % cut(z, 300))
                    return to(done="first", ins=True)
            return to(ins=True)
        if ev.kind == "await" and re.search(r"ActorMessageHandler::handle_direct\(", canon(q, ev.value, 4)) or awaited(ev, q, r"ActorMessageHandler::handle_direct$"):
            v = awaited(ev, q, r"ActorMessageHandler::handle_direct$")
            if v:
                a = [canon(q, x, 12) for x in v.a[2]]
                if not re.match("^%s$" % HND, a[0]) or not re.match(ST[:-1] + r"@Active\.0$", a[1]) or a[2] != "a2.message" or a[3] != "a2.result_channel":
                    return Bad("handled", "a request is handled by %s as %s" % (cut(a[1]), a[2:]))
                return to(done="handled")
        if called(ev, ONESHOT) and canon(q, ev.args[0]).startswith("a2.result_channel"):
            v = canon(q, ev.args[1], 9)
            if not v.startswith("Err{"):
                return Bad("answer", "a request is answered with %s" % v)
            kind = re.match(r"^Err\{0:(\w+)", v).group(1)
            if hand == "None" and kind != "NotSupported" or hand == "Some" and has is False and kind != "NotFound" or hand == "Some" and has and kind in ("NotFound", "NotSupported"):
                return Bad("why", "a request that cannot be handled is answered with %s" % kind)
            if hand == "Some" and (has is False and rec == "Some" or has and st in ("Active", "Starting")):
                return Bad("refused", "a request that can be handled is answered with %s" % kind)
            return to(done="answered")
        v = awaited(ev, q, r"ActorHandler::create$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            if a[1] != "Some{0:a2.actor_id}" or a[2] != "a2.recipe?":
                return Bad("started", "the entity started is %s with recipe %s" % (a[1], a[2]))
            if not ins:
                return Bad("unkept", "an entity is started that is %s" % ("known already" if has else "not kept"))
            return to(started=True) if not started else Bad("twice", "an entity is started twice")
        if ev.kind == "leave" and ev.out:
            if not done and chan != "None":
                return Bad("dropped", "a request is neither handled, kept nor answered")
            if ins and not started:
                return Bad("unstarted", "a new entity is not started")
            if not done and hand == "Some" and (has is False and rec == "Some" or st in ("Active", "Starting")):
                return Bad("dropped", "a request is neither handled nor kept")
        return None
    c.watch(b, mon, (None, None, None, None, None, None, False, False), "request", opaque=EOP, spawn="inline")

    c.rule("start", "Starting an entity: with persistent entities the start is persisted first, unless the shard is recovering; then the entity is created under its id from its recipe as a child of the shard, and the shard is told how that ended, whatever it was.")
    b = c.inherent(SHARD, "start_entity")
    if b:
        def start(s, ev, q):
            rec, pers, per, made, told = s
            if ev.kind == "branch":
                t = canon(q, ev.value)
                if t in ("a5", "Not(a5)") and truth(ev) is not None:
                    return (truth(ev) == (t == "a5"), pers, per, made, told)
                if t.endswith("a1.persistent_entities") or t == "Not(a1.persistent_entities)":
                    return (rec, truth(ev) == (not t.startswith("Not")), per, made, told)
            v = awaited(ev, q, r"PersistentActor::persist$")
            if v:
                f = fields(q, v.a[2][1])
                if f and (f.get("actor_id") != "a2" or f.get("recipe") != "a3"):
                    return Bad("persisted", "what is persisted is %s" % f)
                if rec is not False:
                    return Bad("again", "a recovered start is persisted again")
                return (rec, pers, True, made, told)
            v = awaited(ev, q, r"ActorHandler::create$")
            if v:
                a = [canon(q, x, 9) for x in v.a[2]]
                if not per and rec is not True and pers is not False:
                    return Bad("unrecorded", "an entity is created before its start was persisted")
                if a[1] != "Some{0:a2}" or a[2] != "a3" or not re.match(r"^Some\{0:BoxedActorRef\{0:ActorContext::actor_ref\(a4\)", a[3]) or not a[4].startswith("Some{0:a4"):
                    return Bad("created", "what is created is %s from %s under %s" % (a[1], a[2], a[3]))
                return (rec, pers, per, True, told)
            f = notified(ev, q, "EntityStartResult")
            if f:
                if f[1].get("actor_id") != "a2" or not f[1].get("result", "").startswith("ActorHandler::create(") or f[1].get("is_shard_recovery") not in ("a5", str(rec)) or f[0] != "ActorContext::actor_ref(a4)":
                    return Bad("told", "what the shard is told is %s" % f[1])
                return (rec, pers, per, made, True)
            if ev.kind == "leave" and ev.out:
                if not made:
                    return Bad("unmade", "an entity is not created")
                if not told:
                    return Bad("untold", "the shard is not told how the start of an entity ended")
            return None
        c.watch(b, start, (None, None, False, False, False), "start", opaque=EOP, spawn="inline")

    c.rule("started", "When an entity has started it is a child of the shard and active, and every request kept for it is handed to it; when it failed to start it is forgotten and every request kept for it is answered with that error.")
    b = c.handler(SHARD, r"message::EntityStartResult$")

    def act(ev, q, failed=False):
        if called(ev, ONESHOT) and re.match(r"^each\(.*@Starting\.request_buffer\)\.result_channel", canon(q, ev.args[0], 12)):
            return True
        if failed and ev.kind == "branch" and str(ev.out) == "None" and re.match(r"^each\(.*@Starting\.request_buffer\)\.result_channel$", canon(q, ev.value, 12)):
            return True
        v = awaited(ev, q, r"ActorMessageHandler::handle_direct$")
        return v and re.match(r"^each\(.*@Starting\.request_buffer\)\.message$", canon(q, v.a[2][2], 12))

    def started(s, ev, q):
        res, has, st, child, active, vis = s
        res = res or q.variant(T("fld", T("arg", 2), ".result")) if hasattr(q, "variant") else res
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if t == "a2.result":
                return (str(ev.out), has, st, child, active, vis)
            if "(a1.entities,a2.actor_id)" in t and t.endswith(".state"):
                return (res, has, str(ev.out), child, active, vis)
        y = member(ev, q)
        if y and y[0] == "a1.entities":
            return (res, y[2], st, child, active, vis) if y[1] == "a2.actor_id" else Bad("which", "the entity looked for is %s" % y[1])
        y = mutation(ev, q)
        if y and y[1] == "a1.entities" and y[0] in ("remove", "remove_entry"):
            return (res, has, st, child, "gone", vis) if res == "Err" and y[2][0] == "a2.actor_id" else Bad("removed", "%s is forgotten" % y[2][0])
        if called(ev, r"ActorContext>?::(add_child_ref|attach_child_ref)$"):
            return (res, has, st, True, active, vis) if canon(q, ev.args[1]) == "a2.result?" else Bad("child", "the child added is %s" % canon(q, ev.args[1]))
        if wrote(ev, "state"):
            t = canon(q, ev.value)
            if res == "Ok":
                return (res, has, st, child, True, vis) if t == "Active{0:a2.result?}" else Bad("state", "an entity that started becomes %s" % t)
            if t.startswith("Active") or t.startswith("Starting"):
                return Bad("state", "an entity that failed to start becomes %s" % t)
            return (res, has, st, child, "gone", vis)
        if ev.kind == "next" and canon(q, ev.value, 9).endswith("@Starting.request_buffer"):
            return (res, has, st, child, active, True)
        v = awaited(ev, q, r"ActorMessageHandler::handle_direct$")
        if v:
            a = [canon(q, x, 12) for x in v.a[2]]
            e = r"^each\(.*@Starting\.request_buffer\)\."
            if a[1] != "a2.result?" or not (re.match(e + "handler$", a[0]) and re.match(e + "message$", a[2]) and re.match(e + "result_channel$", a[3])):
                return Bad("handled", "a request kept is handled by %s as %s" % (a[1], cut(a[2])))
        if called(ev, ONESHOT) and "result_channel" in canon(q, ev.args[0], 12):
            v = canon(q, ev.args[1], 9)
            if not v.startswith("Err{") or res == "Ok":
                return Bad("answer", "a request kept for an entity whose start ended %s is answered with %s" % (res, v))
        if ev.kind == "leave" and ev.out:
            if res == "Ok" and not child:
                return Bad("orphan", "an entity that started is not a child of the shard")
            if res == "Ok" and has is not False and not active:
                return Bad("inactive", "an entity that started is not active")
            if res == "Err" and has is not False and active != "gone":
                return Bad("stuck", "an entity that failed to start stays as it is: requests to it wait forever")
            if has is not False and st in ("Starting", None) and not vis:
                return Bad("forgotten", "the requests kept for an entity are not handled when its start has ended")
        return None
    for how in ("Ok", "Err"):
        i, mm = combine(started=((None, None, None, False, False, False), started),
                        each=foreach(r"@Starting\.request_buffer$", lambda ev, q: act(ev, q, how == "Err"), "requests kept for the entity"))
        c.watch(b, mm, i, "started" if how == "Ok" else "failed", opaque=EOP, spawn="inline", facts={T("fld", T("arg", 2), ".result"): ("is", how)})

    c.rule("remote", "A request forwarded by another node is handled as a local one and answered exactly once, under its own id and to its own node, with the result or the error.")
    b = c.handler(SHARD, r"request::RemoteEntityRequest$")

    def remote(s, ev, q):
        sent, out, told, bare = s
        if ev.kind == "branch" and canon(q, ev.value) == "a2.recipe" and str(ev.out) == "None":
            return (sent, out, told, True)
        v = awaited(ev, q, r"Handler<.*request::EntityRequest>.*::handle$")
        if v:
            f = fields(q, v.a[2][1])
            if f and (any(f.get(k) != "a2." + k for k in ("actor_id", "message_type", "message")) or f.get("recipe") not in ("Some{0:a2.recipe?}", "a2.recipe") and not (f.get("recipe") == "None" and bare) or f.get("result_channel") != "Some{0:oneshot::channel().0}"):
                return Bad("what", "what is handled is %s" % f)
            return (True, out, told, bare) if not sent else Bad("twice", "a forwarded request is handled twice")
        if ev.kind == "branch" and re.match(r"^oneshot::channel\(\)\.1\??$", canon(q, ev.value)) and str(ev.out) in ("Ok", "Err"):
            return (sent, str(ev.out), told, bare)
        v = awaited(ev, q, r"RemoteActorSystem>?::(notify_raw_rpc_result|notify_rpc_err)$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            if told:
                return Bad("again", "a forwarded request is answered twice")
            if a[1] != "a2.request_id" or a[3] != "a2.origin_node":
                return Bad("whom", "a forwarded request is answered under %s to %s" % (a[1], a[3]))
            err = v.a[1].endswith("notify_rpc_err")
            if out == "Ok" and (err or a[2] != "oneshot::channel().1??") or out == "Err" and not err:
                return Bad("false", "a forwarded request that ended %s is answered with %s" % (out, a[2]))
            return (sent, out, True, bare)
        if ev.kind == "leave" and ev.out:
            if not sent:
                return Bad("dropped", "a forwarded request is not handled")
            if not told:
                return Bad("unanswered", "a forwarded request is not answered")
        return None
    c.watch(b, remote, (False, None, False, False), "remote", opaque=EOP + [r"Handler<.*request::EntityRequest>.*::handle$"], spawn="inline")

    c.rule("recovery", "A recovered shard knows exactly the entities started and not removed; it starts each of them again, from its own recipe, and then tells its host that it is ready, as every shard does. It persists under its own id, and all it persists is registered for recovery.")
    rec = lambda msg: c.one(c.p.impl_method(r"Recover<.*message::%s>$" % msg, SHARD, "recover"), "Recover<%s>" % msg)

    def recovered(op):
        def mon2(s, ev, q):
            y = mutation(ev, q)
            if y and y[1] == "a1.entities" and y[0] not in ("entry", "get_mut"):
                if y[0] not in ({"start": ("insert", "or_insert", "insert_entry"), "remove": ("remove", "remove_entry")}[op]) or y[2][0] != "a2.actor_id":
                    return Bad("what", "%s(%s) on the entities" % (y[0], y[2][0]))
                if op == "start":
                    v = strip(q, ev.args[-1])
                    f = {k: canon(q, x, 9) for k, x in v.a[2]} if v.tag == "adt" else {}
                    if f and (f.get("actor_id") != "a2.actor_id" or f.get("recipe") != "a2.recipe" or not f.get("state", "").startswith("Starting{")):
                        return Bad("entity", "the entity recovered is %s" % f)
                return True
            if ev.kind == "leave" and ev.out and not s:
                return Bad("ignored", "what was persisted is not recovered")
            return None
        return mon2
    c.watch(rec("StartEntity"), recovered("start"), False, "start", opaque=EOP)
    c.watch(rec("RemoveEntity"), recovered("remove"), False, "remove", opaque=EOP)
    b = c.method(r"PersistentActor$", SHARD, "post_recovery")

    def post(s, ev, q):
        some, st, pend, ready = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            z = re.match(r"^(Not\()?(?:\(?(?:\w+::(?:len|is_empty)\(a1\.entities\)|0)(?: (\w+) (0|1|\w+::len\(a1\.entities\))\))?)\)?$", t)
            if z and truth(ev) is not None and ("len(a1.entities)" in t or "is_empty(a1.entities)" in t):
                w = {(None, None): True, ("Gt", "0"): False, ("Ne", "0"): False, ("Eq", "0"): True, ("Ge", "1"): False, ("Lt", "1"): True}.get((z.group(2), z.group(3)), None if t.find("(0 ") < 0 else False if z.group(2) in ("Lt", "Ne") else True)
                if w is not None and (truth(ev) != bool(z.group(1))) == w:
                    return (True, st, pend, ready)
            if re.match(r"^each\(a1\.entities.*\)(\.1)?\.state$", t) and str(ev.out) == "Starting":
                return (some, True, pend, ready)
        if ev.kind == "next" and canon(q, ev.value).startswith("a1.entities"):
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of the recovered entities is started")
            return (some, st, True, ready)
        v = awaited(ev, q, r"ActorHandler::create$")
        if v:
            a = [canon(q, x, 9) for x in v.a[2]]
            z = re.match(r"^Some\{0:(each\(.*\)(?:\.1)?)\.actor_id\}$", a[1])
            if not z or a[2] != z.group(1) + ".recipe":
                return Bad("recipe", "the entity started is %s with recipe %s" % (a[1], a[2]))
            return None
        f = notified(ev, q, "ShardReady")
        if f:
            if f[0] != "a1.host" or f[1] != {"0": "a1.shard_id", "1": "ActorContext::actor_ref(a2)"}:
                return Bad("ready", "what is announced is %s to %s" % (f[1], f[0]))
            return (some, st, pend, True)
        if ev.kind == "leave" and ev.out:
            if not ready:
                return Bad("unready", "a shard that started does not tell its host")
            if not some and not pend:
                return Bad("restart", "recovered entities are not started")
        return None

    def entact(ev, q):
        return ev.kind == "collect" or awaited(ev, q, r"ActorHandler::create$") or ev.kind == "branch" and "Starting" in str(ev.out) and canon(q, ev.value).endswith(".state")

    def skip(ev, q):
        return ev.kind == "branch" and str(ev.out) != "Starting" and canon(q, ev.value, 9).endswith(".state")
    i, mm = combine(post=((False, False, False, False), post))
    c.watch(b, mm, i, "post", opaque=EOP, spawn="inline", ccap=1)
    b = c.inherent(SHARD, "recover_entities")
    if b:
        def again(ev, q):
            return bool(awaited(ev, q, r"Shard>?::start_entity$|ActorHandler::create$"))

        def how(s, ev, q):
            v = awaited(ev, q, r"Shard>?::start_entity$")
            if v:
                a = [canon(q, x, 9) for x in v.a[2]]
                z = re.match(r"^(each\(.*\)(?:\.1)?)\.actor_id$", a[1])
                if not z or a[2] != z.group(1) + ".recipe" or a[4] != "True":
                    return Bad("how", "a recovered entity is started as %s" % a[1:])
            return None
        i, mm = combine(each=foreach(r"^coll\(|^[\w:]*get_active_entities\(", again, "recovered entities"), how=(0, how))
        c.watch(b, mm, i, "restart", opaque=EOP + [r"Shard>?::(start_entity|get_active_entities)$"], ccap=1)
    b = c.inherent(SHARD, "get_active_entities")
    if b:
        def keep(ev, q):
            if ev.kind == "next" and ev.out == "Some":
                return ("next", tuple(a[0] for a in (ev.loc.a[0] if ev.loc else ())))
            if ev.kind == "branch" and canon(q, ev.value, 9).endswith(".state"):
                return ("st", str(ev.out))
            if ev.kind == "collect":
                return ("kept",)
            y = mutation(ev, q)
            if y and y[0].startswith("push"):
                return ("kept",)
            return None
        for o in c.run(b, keep, ccap=1):
            for j, x in enumerate(o.obs):
                if x[0] == "st" and (x[1] == "Starting" or x[1].startswith("!") and "Starting" not in x[1]):
                    c.check(any(z[0] == "kept" for z in o.obs[j:]), "kept", "a recovered entity is not started again", out=o)
                if x[0] == "next":
                    c.check(not set(x[1]) & RESTRICT, "all", "only part of the recovered entities is started", out=o)
    for o in c.run(c.method(r"PersistentActor$", SHARD, "persistence_key"), None):
        c.check("actor_id(a2" in c.ret(o, 9) or "a2" in c.ret(o, 9) and "id" in c.ret(o, 9), "key", "a shard persists under %s" % c.ret(o, 9), out=o)
    registered(c, SHARD, [r"message::StartEntity$", r"message::PassivateEntity$", r"message::RemoveEntity$"])
