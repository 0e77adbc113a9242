"""Assembly: a node is what was configured; sharding is wired to what was started; what is sent is registered."""
from rules import *
from net import truth
from shard import fields, notified, wrote
from program import norm
from terms import short

BLD = r"builder::RemoteActorSystemBuilder$"
CFGB = r"builder::RemoteSystemConfigBuilder$"
CONF = r"config::RemoteSystemConfig$"
AOP = API + CTXAPI + [r"Display.*::fmt$"]


def adt(q, t):
    t = strip(q, t)
    return dict(t.a[2]) if t is not None and t.tag == "adt" else {}


def calls(c, rx):
    for b in c.p.bodies.values():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn" and re.search(rx, t[1][1]["p"]):
                yield b, t, [str(x) for x in t[1][1]["g"]]


@prop("R13")
def assembling(c):
    c.rule("register", "A handler registered for an actor and message is kept under its name; a factory is kept under the name of its actor's type.")
    b = c.inherent(CFGB, "with_handler")
    for o in c.run(b, lambda ev, q: (lambda y: y and (y[0], y[1], tuple(y[2])))(mutation(ev, q)), opaque=AOP):
        if o.kind == "return":
            ins = [x for x in o.obs if x[1] == "a1.handlers"]
            c.check(len(ins) == 1 and ins[0][0] == "insert" and ins[0][2][0] == "a2" and ins[0][2][1].startswith("RemoteActorMessageHandler{system:a1.system"), "handler", "registering a handler does %s" % cut(repr(ins)), out=o)
    b = c.inherent(CFGB, "with_actor")
    for o in c.run(b, lambda ev, q: (lambda y: y and (y[0], y[1], tuple(y[2])))(mutation(ev, q)), opaque=AOP):
        if o.kind == "return":
            ins = [x for x in o.obs if x[1] == "a1.actors"]
            c.check(len(ins) == 1 and ins[0][0] == "insert" and ins[0][2][0] == "Actor::type_name()" and ins[0][2][1].startswith("RemoteActorHandler{") and "factory:a2" in ins[0][2][1], "actor", "registering a factory does %s" % cut(repr(ins)), out=o)

    c.rule("config", "The configuration holds every registered handler and factory under its name, the name of each handler under its actor and message, and the tag, version, attributes, heartbeat settings and authentication given.")
    b = c.inherent(CFGB, "build")

    def mon(s, ev, q):
        if ev.kind == "next":
            t = canon(q, ev.value)
            if t in ("a1.handlers", "a1.actors", "a5") and any(a[0] in RESTRICT or a[0] == "filter" for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of %s is kept" % t)
        if ev.kind == "branch" and canon(q, ev.value) in ("a2", "a3", "a4", "a1.heartbeat") and str(ev.out) == "None":
            return s | {canon(q, ev.value)}
        y = mutation(ev, q)
        if y and y[0] == "insert" and y[1].startswith("coll(") and len(y[2]) == 2:
            z = re.match(r"^(\w+)::id\(each\((a1\.\w+)\)\.1\)$", y[2][0])
            if z and y[2][1] != "each(%s).0" % z.group(2):
                return Bad("name", "a handler is named %s" % y[2][1])
        if ev.kind == "leave" and ev.out:
            f = fields(q, ev.value)
            for n, v in (("message_handlers", "a1.handlers"), ("actor_handlers", "a1.actors")):
                if n in f and f[n] != v:
                    return Bad(n, "the %s are %s" % (n, f[n]))
            d = adt(q, ev.value)
            for n, a in (("node_tag", "a2"), ("node_version", "a3"), ("security", "a4"), ("node_attributes", "a5"), ("heartbeat_config", "a1.heartbeat")):
                if n in d and a not in s:
                    v = canon(q, d[n], 14)
                    if not re.search(r"\b" + re.escape(a) + r"\b", v) and "coll(" not in v:
                        return Bad(n, "the %s given is replaced by %s" % (n, cut(v)))
        return None
    c.watch(b, mon, frozenset(), "config", opaque=AOP)

    c.rule("lookup", "A name finds the handler or factory registered under it, and an actor and message find the name their own handler was registered under.")
    for fn, tab in (("message_handler", "message_handlers"), ("actor_handler", "actor_handlers")):
        b = c.inherent(CONF, fn)
        for o in c.run(b, lambda ev, q: (lambda y: y and (y[0], y[1], y[2]))(member(ev, q)), opaque=AOP):
            if o.kind == "return":
                r = c.ret(o, 9)
                c.check(all(x[0] == "a1." + tab and x[1] == "a2" for x in o.obs), fn, "%s looks for %s" % (fn, o.obs), out=o)
                hit = any(x[2] for x in o.obs)
                c.check(re.match(r"^(Some\{0:)?\w+::new_boxed\(HashMap::get\(a1\.%s,a2\)\?\)\}?$" % tab, r) if hit else r == "None" or not o.obs, fn + ":result", "%s returns %s" % (fn, r), out=o)
    b = c.inherent(CONF, "handler_name")
    key = None
    for o in c.run(b, lambda ev, q: (lambda y: y and (y[0], y[1], y[2]))(member(ev, q)), opaque=AOP):
        if o.kind == "return":
            c.check(all(x[0] == "a1.handler_types" for x in o.obs), "name", "the name is looked for in %s" % (o.obs,), out=o)
            for x in o.obs:
                key = x[1]
    hid = c.soft(c.p.impl_method(r"handler::ActorMessageHandler$", r"RemoteActorMessageHandler<", "id"), "ActorMessageHandler::id")
    if hid:
        for o in c.run(hid, None, opaque=AOP):
            if o.kind == "return":
                r = c.ret(o, 9)
                want, got = key or "", r
                kind = lambda t: "marker" if re.search(r"[Mm]arker", t) else "handler"
                c.check(not key or kind(want) == kind(got), "marker", "handlers are named under %s but looked for under %s" % (got, want), out=o)

    c.rule("system", "A remote system is built from what was given: every configuration step is applied, the id, tag and version given are used, its actors are started, and its registry, heartbeat, discovery, mediator and scheduler have been told of it before it is returned. Only a single-node system starts with itself as leader; any other with none.")
    b = c.inherent(BLD, "build")

    def mon2(s, ev, q):
        told, single, applied = s
        if ev.kind == "next" and canon(q, ev.value) == "a1.config_builders":
            if any(a[0] in RESTRICT or a[0] in ("filter", "rev") for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("steps", "not every configuration step is applied, or not in order")
        if ev.kind == "branch" and canon(q, ev.value) == "a1.single_node_cluster":
            return (told, truth(ev), applied)
        if ev.kind == "branch" and canon(q, ev.value) == "a1.mediator" and str(ev.out) == "None":
            return (told | {"mediator"}, single, applied)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "SetRemote":
            t = canon(q, x[1], 4)
            for n, m in (("registry", r"RemoteRegistry\{|remote-registry"), ("heartbeat", r"into_actor\(Heartbeat\{"), ("discovery", r"NodeDiscovery\{"), ("mediator", r"a1\.mediator"), ("scheduler", r"core\.scheduler$")):
                if re.search(m, t):
                    return (told | {n}, single, applied)
        if called(ev, r"Atomic.*::new$") and single is not None and len(ev.args) == 1:
            t = canon(q, ev.args[0], 5)
            if single and re.match(r"^-1", t) or not single and not re.match(r"^-1|^'?-1|.*18446744073709551615", t):
                return Bad("leader", "a %s system starts with leader %s" % ("single-node" if single else "clustered", t))
        if ev.kind == "leave" and ev.out:
            miss = {"registry", "heartbeat", "discovery", "mediator", "scheduler"} - told
            if miss:
                return Bad("untold", "the %s is not told of the system" % ", ".join(sorted(miss)))
        return None
    NOP = AOP + [r"RemoteSystemConfigBuilder>?::build$"]
    c.watch(b, mon2, (frozenset(), None, False), "build", opaque=NOP)

    def lab2(ev, q):
        if ev.kind == "branch" and canon(q, ev.value) in ("a1.node_id", "a1.node_tag", "a1.inner") and str(ev.out) in ("Some", "None"):
            return (canon(q, ev.value), str(ev.out))
        if called(ev, r"RemoteSystemConfigBuilder>?::build$"):
            return ("build", tuple(canon(q, x, 5) for x in ev.args[1:]))
        return None
    for o in c.run(b, lab2, opaque=NOP):
        if o.kind != "return":
            continue
        d = dict(o.obs)
        r = c.ret(o, 6)
        z = re.search(r"node_id:(.*?),inner:", r)
        if z and d.get("a1.node_id") == "Some":
            c.check(z.group(1) == "a1.node_id?", "id", "the id of the node is %s" % z.group(1), out=o)
        if d.get("a1.inner") == "Some":
            c.check("ActorSystem{core:a1.inner?.core}" in r or "a1.inner?" in r, "inner", "the actor system given is not used", out=o)
        if "build" in d and len(d["build"]) == 4:
            a = d["build"]
            c.check((d.get("a1.node_tag") != "Some" or "a1.node_tag" in a[0]) and "a1.node_version" in a[1] and "a1.client_auth" in a[2] and "a1.node_attributes" in a[3], "passed", "the configuration is built with %s" % (a,), out=o)
    for fn, fld, val in (("with_tag", "node_tag", "a2"), ("with_id", "node_id", "a2"), ("with_version", "node_version", "a2"), ("with_actor_system", "inner", "a2")):
        b = c.soft(c.p.inherent(BLD, fn), "RemoteActorSystemBuilder::" + fn)
        if b:
            for o in c.run(b, None, opaque=AOP):
                if o.kind == "return":
                    r = c.ret(o, 6)
                    z = re.search(r"\b%s:(Some\{0:)?%s" % (fld, val), r)
                    c.check(z or "{" not in r, "set:" + fn, "%s sets %s" % (fn, cut(r)), out=o)

    c.rule("worker", "A worker registers its own node, with its id, tag, start and the address others reach it at, then listens where it was told; then it discovers the node at its seed address, if it has one that is not itself.")
    W = r"worker::ClusterWorkerBuilder$"
    b = c.inherent(W, "start")

    def mon3(s, ev, q):
        ext, reg, lis, disc, seed, own = s
        if ev.kind == "branch":
            t = canon(q, ev.value, 6)
            o = str(ev.out)
            if t == "a1.server_external_addr" and o in ("Some", "None"):
                return (o, reg, lis, disc, seed, own)
            if t == "a1.seed_addr" and o in ("Some", "None"):
                return (ext, reg, lis, disc, o, own)
            z = re.match(r"^(Not\()?\(.*a1\.seed_addr\??\}? (Eq|Ne) .*\)\)?$|^(Not\()?\(.* (Eq|Ne) .*a1\.seed_addr\??\}?\)\)?$", t)
            if z and truth(ev) is not None:
                eq = ((z.group(2) or z.group(4)) == "Eq") != bool(z.group(1) or z.group(3))
                return (ext, reg, lis, disc, seed, eq == truth(ev))
        x = message(ev, q)
        if x and msgname(q, x[2]) == "RegisterNode":
            f = fields(q, adt(q, x[2]).get("0"))
            addr = {"Some": "a1.server_external_addr?", "None": "a1.server_listen_addr"}.get(ext)
            if f.get("id") != "a1.system.inner.node_id" or addr and f.get("addr") != addr or "node_tag" not in f.get("tag", "node_tag") or "started_at" not in f.get("node_started_at", "started_at"):
                return Bad("own", "the node registers itself as %s" % f)
            return (ext, True, lis, disc, seed, own)
        if ev.kind == "await" and re.match(r"^TcpListener::bind\(", canon(q, ev.value)):
            if not reg:
                return Bad("order", "the node listens before it is registered")
            if canon(q, ev.value) != "TcpListener::bind(a1.server_listen_addr)":
                return Bad("listen", "the node listens by %s" % canon(q, ev.value))
            return (ext, reg, True, disc, seed, own)
        if x and msgname(q, x[2]) == "Discover":
            t = canon(q, x[2], 6)
            if seed != "Some" or "Addr{0:a1.seed_addr?}" not in t:
                return Bad("seed", "what is discovered is %s" % t)
            if not lis:
                return Bad("early", "the seed is contacted before the node listens")
            if own is not False:
                return Bad("self", "a node whose seed is its own address discovers itself")
            return (ext, reg, lis, True, seed, own)
        if ev.kind == "leave" and ev.out:
            if not reg or not lis:
                return Bad("silent", "the node starts without %s" % ("registering itself" if not reg else "listening"))
        return None
    c.watch(b, mon3, (None, False, False, False, None, None), "worker", opaque=AOP)
    if not c.undecided:
        for fn, fld in (("with_seed_addr", "seed_addr"), ("external_addr", "server_external_addr"), ("listen_addr", "server_listen_addr")):
            b = c.soft(c.p.inherent(W, fn), "ClusterWorkerBuilder::" + fn)
            if b:
                for o in c.run(b, None, opaque=AOP):
                    if o.kind == "return":
                        r = c.ret(o, 6)
                        c.check(re.search(r"\b%s:(Some\{0:)?a2" % fld, r) or "{" not in r, "set:" + fn, "%s sets %s" % (fn, cut(r)), out=o)


@prop("S06")
def wiring(c):
    c.rule("registered", "Every message the library sends to an actor that may be on another node is registered under a name of its own for that actor, and can be encoded and decoded, and so can its answer.")
    reg, names = {}, {}
    for b, t, g in calls(c, r"RemoteSystemConfigBuilder>?::with_handler$"):
        if len(g) < 2:
            continue
        reg[(norm(g[0]), norm(g[1]))] = b
        k = t[2][1]
        if k[0] == "k":
            names.setdefault(str(k[1]), []).append((g[0], g[1]))
    for n, v in names.items():
        c.check(len(set(v)) == 1, "distinct:" + n, "the name %s stands for several handlers: %s" % (n, [short(x[1]) for x in v]))
    sent = set()
    for b, t, g in calls(c, r"::(ActorRef|RemoteActorRef)(::)?<.*>::(send|notify)$"):
        if len(g) >= 2:
            sent.add((norm(g[0]), norm(g[1]), root_fn(b.id)))
    for b, t, g in calls(c, r"singleton::Singleton(::)?<.*>::(send|notify)$"):
        if len(g) >= 3:
            sent.add((norm(g[0]), norm(g[2]), root_fn(b.id)))
    n = 0
    for a, mm, w in sorted(sent):
        if not mm.startswith("coerce::") or not a.startswith("coerce::"):
            continue
        n += 1
        c.check((a, mm) in reg, "sent:%s:%s" % (short(a), short(mm)), "%s sends %s to %s on any node, but no handler is registered for it" % (short(w), short(mm), short(a)))
    c.check(n >= 6 or not reg, "count", "only %d remote sends found" % n)
    for (a, mm) in sorted(reg):
        if not mm.startswith("coerce::"):
            continue
        have = {k for k in ("as_bytes", "from_bytes", "write_remote_result", "read_remote_result") if c.p.body("<%s as coerce::actor::message::Message>::%s" % (mm, k)) is not None}
        if True:
            c.check({"as_bytes", "from_bytes"} <= have, "codec:" + short(mm), "%s is sent to other nodes but has no %s" % (short(mm), ", ".join(sorted({"as_bytes", "from_bytes"} - have))))
            c.check(len(have & {"write_remote_result", "read_remote_result"}) != 1, "result:" + short(mm), "the result of %s can be %s only" % (short(mm), "written" if "write_remote_result" in have else "read"))

    c.rule("start", "Starting sharding for a type without a registered factory is an error and starts nothing. Otherwise it starts one host, with the type's factory, the allocator given and the name under which other nodes address it, and a coordinator singleton for the same type and host, and has told the host of the coordinator before it returns both.")
    b = c.inherent(r"sharding::Sharding(<.*>)?$", "try_start")
    idf = c.soft(c.p.inherent(r"host::ShardHost$", "actor_id"), "ShardHost::actor_id")

    def mon(s, ev, q):
        fac, host, coord, init, al = s
        if ev.kind == "branch" and canon(q, ev.value) == "a3" and str(ev.out) in ("Some", "None"):
            return (fac, host, coord, init, str(ev.out))
        y = member(ev, q)
        if y and y[0].endswith("actor_handlers"):
            if y[1] != "Actor::type_name()":
                return Bad("type", "the factory used is that of %s" % y[1])
            return (y[2], host, coord, init, al)
        v = awaited(ev, q, r"into_actor$|::new_\w*actor$")
        if v:
            t = canon(q, v, 9)
            f = None
            for x in v.a[2]:
                x = strip(q, x)
                if x.tag == "adt" and x.a[0].endswith("::ShardHost"):
                    f = fields(q, x)
            if f:
                if host:
                    return Bad("twice", "two hosts are started")
                if fac is not True:
                    return Bad("nofactory", "a host is started without a factory")
                if f.get("shard_entity") != "a1" or "a3" not in f.get("allocator", "a3") and al != "None" or f.get("coordinator") != "None":
                    return Bad("host", "the host is started as %s" % cut(repr(f), 300))
                idt = [canon(q, x, 12) for x in v.a[2] if strip(q, x).tag != "adt" or not strip(q, x).a[0].endswith("::ShardHost")]
                if idt and not any("a1" in x and "a2.inner.node_id" in x for x in idt):
                    return Bad("id", "the host is started under %s" % cut(repr(idt), 200))
                return (fac, "asked", coord, init, al)
            for x in v.a[2]:
                x = strip(q, x)
                if x.tag == "adt" and x.a[0].endswith("::Manager"):
                    f = fields(q, x)
                    fc = canon(q, dict(x.a[2]).get("factory"), 4) if "factory" in dict(x.a[2]) else None
                    if fc and (not re.search(r"shard_entity:a1\b", fc) or "local_shard_host:A::into_actor(ShardHost{" not in fc and "ShardHost" not in fc):
                        return Bad("coordinator", "the coordinator is made by %s" % cut(fc, 200))
                    return (fac, host, True, init, al)
        x = message(ev, q)
        if x and msgname(q, x[2]) == "Init":
            if "ShardHost{" not in canon(q, x[1], 5):
                return Bad("whom", "the coordinator is told to %s" % cut(canon(q, x[1], 4)))
            return (fac, host, coord, True, al)
        if ev.kind == "leave" and ev.out:
            r = canon(q, ev.value, 4)
            if r.startswith("Ok") and not (host and coord and init):
                return Bad("incomplete", "sharding is started without %s" % ("a host" if not host else "a coordinator" if not coord else "telling the host of the coordinator"))
            if fac is False and not r.startswith("Err"):
                return Bad("result", "starting sharding without a factory returns %s" % cut(r))
        return None
    c.watch(b, mon, (None, None, None, False, None), "start", opaque=AOP)
    b = c.handler(r"host::ShardHost$", r"host::Init$")
    for o in c.run(b, lambda ev, q: canon(q, ev.value) if wrote(ev, "coordinator") else None, opaque=AOP):
        if o.kind == "return":
            c.check(o.obs and o.obs[-1] == "Some{0:a2.0}", "init", "the host keeps %s as its coordinator" % (o.obs,), out=o)
    b = c.inherent(r"builder::ShardingBuilder(<.*>)?$", "build")
    TS = [r"Sharding(::)?(<.*>)?(>)?::(start|try_start)$"]

    def lab(ev, q):
        if ev.kind == "branch" and canon(q, ev.value) == "a1.shard_entity":
            return ("entity", str(ev.out))
        v = awaited(ev, q, TS[0])
        return ("start", tuple(canon(q, x, 5) for x in v.a[2])) if v else None
    for o in c.run(b, lab, opaque=AOP + TS):
        if o.kind == "return":
            d = dict(o.obs)
            a = d.get("start")
            c.check(a and len(a) == 3 and ("a1.shard_entity" in a[0] if d.get("entity") != "None" else a[0] == "Actor::type_name()") and a[1] == "a1.system?" and a[2] == "a1.shard_allocator", "builder", "the builder starts sharding with %s" % (a,), out=o)
    c.rule("get", "A reference to an entity carries the id and the recipe it was asked for.")
    b = c.inherent(r"sharding::Sharding(<.*>)?$", "get")
    for o in c.run(b, lambda ev, q: ("recipe", str(ev.out)) if ev.kind == "branch" and canon(q, ev.value) in ("a3",) else ("enc", str(ev.out)) if ev.kind == "branch" and "write_to_bytes(a3" in canon(q, ev.value) else None, opaque=AOP):
        if o.kind == "return":
            r = c.ret(o, 7)
            d = dict(o.obs)
            z = re.search(r"actor_id:(.*?),recipe:(.*?),_a:|actor_id:(.*?),recipe:(.*)\}$", r)
            if z:
                i, rec = z.group(1) or z.group(3), z.group(2) or z.group(4)
                c.check(re.search(r"\ba2\b", i), "id", "the reference is to %s" % i, out=o)
                if d.get("recipe") == "None":
                    c.check(rec == "None", "recipe", "a reference without a recipe carries %s" % rec, out=o)
                elif d.get("enc") != "None":
                    c.check("write_to_bytes(a3" in rec, "recipe", "the recipe carried is %s" % rec, out=o)
