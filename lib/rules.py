"""Rule framework: obligations, path queries, canonical value descriptions, reporting."""
import json, os, re, sys, time, traceback
from terms import *
from engine import Engine, AnalysisLimit, origin, Bad, Q
import models
import program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {}


def prop(pid):
    def d(fn):
        PROPS.setdefault(pid, []).append(fn)
        return fn
    return d


class Missing(Exception):
    pass


class Ctx:
    def __init__(self, pid, prog, tier):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.viol = {}
        self.rules = {}
        self.cur = None
        self.fns = set()
        self.states = 0
        self.calls = 0
        self.runs = 0
        self.samples = []
        self.limits = []
        self.undecided = []
        self._cache = {}

    # -- reporting ------------------------------------------------------------
    def rule(self, name, text):
        self.cur = name
        self.rules.setdefault(name, {"rule": text, "obligations": 0, "paths": 0, "instances": []})

    def inst(self, name):
        r = self.rules[self.cur]["instances"]
        if name not in r:
            r.append(name)

    def check(self, cond, key, msg, out=None, where=None):
        """one obligation: `cond` must hold; `key` identifies the instance without line numbers"""
        self.rules[self.cur]["obligations"] += 1
        if cond:
            return True
        k = "%s/%s" % (self.cur, key)
        if k not in self.viol:
            self.viol[k] = {"rule": self.rules[self.cur]["rule"], "message": msg, "where": where,
                            "witness": witness(out) if out is not None else []}
        return False

    def fail(self, key, msg, **kw):
        return self.check(False, key, msg, **kw)

    # -- anchors -------------------------------------------------------------
    def one(self, xs, what):
        xs = list(xs)
        if not xs:
            self.fail("anchor:" + what, "anchor not found in the analysed program: " + what)
            raise Missing(what)
        return xs[0]

    def soft(self, xs, what):
        """an anchor that is only a name of this crate's own: when it is gone the rule cannot be decided, which is no violation"""
        xs = list(xs)
        if not xs:
            self.undecided.append("not found: " + what)
            raise Missing(what)
        return xs[0]

    def all(self, xs, what, n=1):
        xs = list(xs)
        if len(xs) < n:
            self.fail("anchor:" + what, "expected at least %d of: %s; found %d" % (n, what, len(xs)))
            raise Missing(what)
        return xs

    def fn(self, path):
        b = self.p.body(path)
        return self.soft([b] if b is not None else [], path)

    def handler(self, actor, msg):
        return self.one(self.p.handler(actor, msg), "Handler<%s> for %s" % (msg, actor))

    def method(self, trait, self_re, name):
        return self.one(self.p.impl_method(trait, self_re, name), "<%s as %s>::%s" % (self_re, trait, name))

    def inherent(self, self_re, name):
        return self.soft(self.p.inherent(self_re, name), "%s::%s" % (self_re, name))

    # -- analysis --------------------------------------------------------------
    def watch(self, body, monitor, init, key, **kw):
        """typestate rule: run the observer over every path; a Bad verdict is a violation"""
        outs = self.run(body, None, monitor=self.guard(monitor), obs_init=init, **kw)
        n = 0
        for o in outs:
            if o.kind == "bad":
                self.check(False, "%s:%s" % (key, o.bad.key), "%s: %s" % (short(body.id), o.bad.msg), out=o, where=o.where)
            else:
                n += 1
        self.rules[self.cur]["obligations"] += n
        return [o for o in outs if o.kind != "bad"]

    def guard(self, monitor):
        """an observer that does not understand the shape of an event does not judge it"""
        def f(s, ev, q):
            try:
                return monitor(s, ev, q)
            except (KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
                n = "%s in %s" % (repr(x), getattr(monitor, "__name__", "?"))
                if n not in self.undecided:
                    self.undecided.append(n)
                return None
        return f

    def watch_up(self, body, monitor, init, key, up=3, **kw):
        """like watch; a private helper that does not satisfy the rule alone is judged inside its callers"""
        e = self._trial(body, monitor, init, kw)
        if up and any(o.kind == "bad" for o in e) and body.vis != "Public" and not body.impl_trait:
            cs = {}
            for b in direct_callers(self.p, body.id):
                r = self.p.body(root_fn(b.id))
                if r is not None and r.id != body.id:
                    cs[r.id] = r
            if cs:
                for r in cs.values():
                    self.watch_up(r, monitor, init, key, up=up - 1, **kw)
                return
        self.watch(body, monitor, init, key, **kw)

    def _trial(self, body, monitor, init, kw):
        kw = dict(kw)
        facts, args, store = kw.pop("facts", None), kw.pop("args", None), kw.pop("store", None)
        kw.setdefault("max_states", 40000 if self.tier == "quick" else 200000)
        e = Engine(self.p, label=None, monitor=self.guard(monitor), obs_init=init, **kw)
        try:
            return e.run(body, args=args, facts=facts, store=store)
        except AnalysisLimit:
            return e.outcomes

    def run(self, body, label, args=None, facts=None, store=None, sub=(), **kw):
        kw.setdefault("max_states", 40000 if self.tier == "quick" else 200000)
        e = Engine(self.p, label=label, **kw)
        try:
            outs = e.run(body, args=args, facts=facts, store=store, sub=sub)
        except AnalysisLimit as x:
            self.limits.append(str(x))
            outs = e.outcomes
        self.fns |= e.analysed
        self.states += e.nstates
        self.calls += e.calls
        self.runs += 1
        if self.cur:
            self.rules[self.cur]["paths"] += len(outs)
            self.inst(body.id)
        if outs and len(self.samples) < 8:
            n = lambda o: o.obs if isinstance(o.obs, (list, tuple, str)) else [o.obs]
            o = max(outs, key=lambda o: len(n(o)))
            self.samples.append({"entry": body.id, "events": [str(x)[:160] for x in n(o)][:12]})
        self.last = e
        for o in outs:
            o.eng = e
        return outs

    def ret(self, o, d=7):
        """canonical description of the value an outcome returns"""
        return canon(Q(o.eng, o.state), o.value, d)


def witness(o):
    out = []
    t = o.trace if not isinstance(o, list) else None
    while t:
        out.append("%s: %s" % (t[0], ", ".join(str(x)[:200] for x in t[1])))
        t = t[2]
    out.reverse()
    return out[-60:]


# ---------------------------------------------------------------------------------------------
# canonical descriptions of values: where a value comes from, without sites, clones, borrows, awaits

def canon(q, t, d=7):
    t = q.val(t) if q is not None else t
    return _canon(q, t, d)


def _canon(q, t, d):
    if q is not None:
        t = q.val(t)
    if d < 0:
        return "…"
    g = t.tag
    if g == "k":
        return repr(t.a[0]) if isinstance(t.a[0], str) else str(t.a[0])
    if g == "arg":
        return "a%s" % t.a[0]
    if g == "adt":
        n = t.a[0].split("::")[-1]
        v = t.a[1]
        h = n if (v is None or v == n) else v
        if not t.a[2]:
            return h
        return "%s{%s}" % (h, ",".join("%s:%s" % (k, _canon(q, v, d - 1)) for k, v in t.a[2]))
    if g == "tup":
        return "(%s)" % ",".join(_canon(q, x, d - 1) for x in t.a[0])
    if g == "arr":
        return "[%s]" % ",".join(_canon(q, x, d - 1) for x in t.a[0])
    if g == "fld":
        b = _canon(q, t.a[0], d)
        p = t.a[1]
        if p in ("@Some", "@Ok"):
            return b + "?"
        if p == "@Err":
            return b + "!"
        if p == ".0" and b.endswith(("?", "!")):
            return b
        return b + p
    if g == "call":
        return "%s(%s)" % (short(t.a[1]), ",".join(_canon(q, x, d - 1) for x in t.a[2]))
    if g == "await":
        return _canon(q, t.a[0], d)
    if g == "hv":
        return _canon(q, t.a[1], d)
    if g == "upd":
        return _canon(q, t.a[0], d)
    if g == "conv":
        return _canon(q, t.a[0], d)
    if g == "elem":
        return "each(%s)" % _canon(q, t.a[0], d - 1)
    if g == "empty" and t.a:
        return "none(%s)" % _canon(q, t.a[0], d - 1)
    if g == "coll":
        return "coll(%s|%s)" % (_canon(q, t.a[0], d - 1), ",".join(_canon(q, x, d - 1) for x in t.a[1]))
    if g == "from":
        r = sorted({x for x in t.a[1].a[0] if x in RESTRICT or x in ("filter", "filter_map")}) if len(t.a) > 1 and t.a[1].a else ()
        return _canon(q, t.a[0], d) + "".join("~" + x for x in r)
    if g == "iter":
        return _canon(q, t.a[0], d)
    if g == "bin":
        return "(%s %s %s)" % (_canon(q, t.a[1], d - 1), t.a[0], _canon(q, t.a[2], d - 1))
    if g == "un":
        return "%s(%s)" % (t.a[0], _canon(q, t.a[1], d - 1))
    if g == "clo":
        return "closure"
    if g == "konst":
        return "const:" + t.a[0].split("::")[-1]
    if g == "fn":
        return "fn:" + short(t.a[0])
    return g


# ---------------------------------------------------------------------------------------------
# event classification

def m(ev, rx):
    """does the event call a function matching rx (resolved or declared path)"""
    return bool(re.search(rx, ev.path or "") or re.search(rx, ev.decl or ""))


def called(ev, rx):
    return ev.kind == "call" and m(ev, rx)


def awaited(ev, q, rx):
    """the event is the completion of a future made by a call matching rx"""
    if ev.kind != "await":
        return None
    v = q.val(ev.value)
    n = 0
    while v.tag in ("conv", "hv", "fld", "upd") and n < 6:
        v = v.a[1] if v.tag == "hv" else v.a[0]
        v = q.val(v)
        n += 1
    if v.tag == "call" and re.search(rx, v.a[1]):
        return v
    return None


REFS = r"coerce::actor::(?:refs::)?(?:LocalActorRef|ActorRef|BoxedActorRef)\b|coerce::actor::(?:MessageReceiver|Receiver)\b|coerce::actor::refs::CoreActorRef\b|coerce::remote::actor_ref::RemoteActorRef\b|coerce::actor::refs::<impl coerce::actor::refs::LocalActorRef|coerce::actor::<impl coerce::actor::refs::LocalActorRef"
_send = re.compile(r"(?:%s).*::send$" % REFS)
_notify = re.compile(r"(?:%s).*::notify$" % REFS)
_aref_notify = re.compile(r"coerce::actor::refs::ActorRef::<.*>::notify$|RemoteActorRef::<.*>::notify$")

# public API of the actor runtime: a boundary for analyses of the code above it
API = [
    r"^coerce::actor::refs::(?:LocalActorRef|ActorRef)::<.*>::(send|notify|deliver|exec|notify_exec|stop|notify_stop|status|describe)$",
    r"^coerce::actor::refs::BoxedActorRef::\w+$",
    r"^<coerce::actor::refs::\w+(<.*>)? as coerce::actor::refs::CoreActorRef>::\w+$",
    r"^<coerce::actor::refs::LocalActorRef<.*> as coerce::actor::MessageReceiver<.*>>::\w+$",
    r"^coerce::actor::Receiver::<.*>::\w+$",
    r"^coerce::actor::refs::CoreActorRef::\w+$",
    r"^coerce::remote::actor_ref::RemoteActorRef::<.*>::(send|notify)$",
    r"^coerce::actor::system::ActorSystem::(new_\w+|shutdown|get_tracked_actor)$",
    r"coerce::actor::system::ActorSystem>?::(new_actor_blocking)$",
    r"^<A as coerce::actor::(IntoActor|IntoChild)>::\w+$", r"^coerce::actor::(IntoActor|IntoChild)::\w+$",
    r"^coerce::actor::new_actor$", r"^coerce::actor::get_actor$",
    r"coerce::actor::refs::LocalActorRef<A>>::(scheduled_notify|send_blocking|stop_blocking)$",
    r"scheduled_notify$",
    r"^<F as coerce::actor::refs::PipeTo<A>>::pipe_to$",
]
CTXAPI = [r"^coerce::actor::context::ActorContext::(spawn|spawn_deferred|attach_child_ref|add_child_ref|boxed_actor_ref|actor_ref|watchers_mut|child_ref|boxed_child_ref)$"]
PERSIST = [r"^coerce::persistent::actor::PersistentActor::(persist|persist_batch|snapshot|recover|delete\w*|clear_old_snapshots)$",
           r"^<.* as coerce::persistent::recovery::ActorRecovery>::\w+$"]
PUBSUB = [r"^coerce::remote::stream::pubsub::PubSub::(publish|publish_locally|subscribe)$"]


def message(ev, q):
    """(mode, target term, message term) when the event delivers an actor message: asynchronous forms count when
    they are driven (awaited), synchronous ones when called"""
    if ev.kind == "await":
        v = awaited(ev, q, r".")
        if v is not None and (_send.search(v.a[1]) or _aref_notify.search(v.a[1])) and len(v.a[2]) > 1:
            return ("send" if _send.search(v.a[1]) else "notify", v.a[2][0], v.a[2][1])
        if v is not None and re.search(r"(LocalActorRef|BoxedActorRef|CoreActorRef|ActorRef).*::stop$", v.a[1]):
            return ("send", v.a[2][0], T("k", "<stop>"))
        return None
    if ev.kind == "call" and not ev.inl:
        for p in (ev.path, ev.decl):
            if p and _notify.search(p) and not _aref_notify.search(p) and len(ev.args) > 1:
                return ("notify", ev.args[0], ev.args[1])
            if p and re.search(r"LocalActorRef::<.*>::deliver$", p) and len(ev.args) > 2:
                return ("deliver", ev.args[0], ev.args[1])
            if p and re.search(r"(?:%s).*::notify_stop$" % REFS, p):
                return ("notify", ev.args[0], T("k", "<stop>"))
            if p and re.search(r"(?:%s).*::notify_child_terminated$" % REFS, p):
                return ("notify", ev.args[0], T("adt", "Terminated", "Terminated", (("0", ev.args[1]),)))
    return None


def msgname(q, t):
    t = q.val(t)
    while t.tag in ("hv", "upd", "conv"):
        t = q.val(t.a[1] if t.tag == "hv" else t.a[0])
    if t.tag == "adt":
        n = t.a[0].split("::")[-1]
        return n if t.a[1] in (None, n) else "%s::%s" % (n, t.a[1])
    if t.tag == "k":
        return str(t.a[0])
    return canon(q, t, 3)


ONESHOT = r"^tokio::sync::oneshot::Sender::<.*>::send$"


def idx(obs, *labs):
    """positions of labels (first element of tuple labels counts as the label)"""
    return [i for i, x in enumerate(obs) if x in labs or (isinstance(x, tuple) and x[0] in labs)]


def has(obs, *labs):
    return bool(idx(obs, *labs))


def first(obs, *labs):
    i = idx(obs, *labs)
    return i[0] if i else None


def last(obs, *labs):
    i = idx(obs, *labs)
    return i[-1] if i else None


def before(obs, a, b):
    """every b is preceded by an a"""
    fb = first(obs, b)
    if fb is None:
        return True
    fa = first(obs, a)
    return fa is not None and fa < fb


def callers(prog, rx, resolved=True):
    """(body, line, path) of every call site whose callee matches rx"""
    r = re.compile(rx)
    out = []
    for b in prog.bodies.values():
        for bl in b.blocks:
            t = bl["t"]
            if t[0] == "call" and t[1][0] == "fn":
                d = t[1][1]
                if r.search(d["p"]) or (d.get("r") and r.search(d["r"])):
                    out.append((b, t[-1], d.get("r") or d["p"]))
    return out


def root_fn(bid):
    return re.sub(r"(::\{closure#\d+\})+$", "", bid)


def direct_callers(prog, bid):
    cl = getattr(prog, "_callers", None)
    if cl is None:
        cl = prog._callers = {}
        for b in prog.bodies.values():
            for bl in b.blocks:
                t = bl["t"]
                if t[0] == "call" and t[1][0] == "fn":
                    for x in {t[1][1]["p"], t[1][1].get("r")}:
                        if x:
                            cl.setdefault(x, []).append(b)
    return cl.get(bid, [])


def only_via(prog, body, ok, seen=None):
    """the body belongs to a function accepted by ok, or to a helper that only such functions call"""
    r = root_fn(body.id)
    if ok(r):
        return True
    seen = seen if seen is not None else set()
    if r in seen:
        return True
    seen.add(r)
    cs = direct_callers(prog, r)
    return bool(cs) and all(only_via(prog, b, ok, seen) for b in cs)


def field_writers(prog, field):
    """bodies that assign the field"""
    out = []
    for b in prog.bodies.values():
        for bl in b.blocks:
            for st in bl["s"]:
                if st[0] == "=" and st[1] and st[1][-1] == field:
                    out.append((b, st[-1]))
    return out


# ---------------------------------------------------------------------------------------------
# collections

COLL = r"(?:HashMap|HashSet|BTreeMap|BTreeSet|VecDeque|Vec|DashMap|BinaryHeap|LruCache)"
_mut = re.compile(r"(?:^|::)" + COLL + r"::<.*>::(insert|remove|remove_entry|push|push_back|push_front|pop|pop_front|pop_back|clear|"
                  r"append|extend|drain|retain|split_off|truncate|swap_remove|entry|dedup\w*|sort\w*|reverse|rotate_\w+)$"
                  r"|(?:hash_map|btree_map)::(?:Entry|OccupiedEntry|VacantEntry)::<.*>::(insert|remove|remove_entry|or_insert\w*|or_default|insert_entry)$")
_mem = re.compile(r"(?:HashMap|HashSet|BTreeMap|BTreeSet|DashMap)::<.*>::(get|get_mut|contains|contains_key|remove|insert|entry|get_key_value|take|remove_entry)$")


def strip(q, t):
    t = q.val(t)
    n = 0
    while n < 12 and t.tag in ("conv", "hv", "upd", "await", "un"):
        t = q.val(t.a[1] if t.tag in ("hv", "un") else t.a[0])
        n += 1
    return t


def placed(q, t):
    """description of the place a reference points to, when it lies behind an argument"""
    while t.tag == "ref" and t.a[0].a[0].tag != "H":
        return None
    if t.tag != "ref":
        return None
    v = t.a[0].a[0].a[0]
    for p in t.a[0].a[1]:
        v = T("fld", v, p)
    return canon(q, v)


def mutation(ev, q):
    """(operation, collection, [argument descriptions]) when the event mutates a collection"""
    if ev.kind != "call":
        return None
    mm = _mut.search(ev.path or "") or _mut.search(ev.decl or "")
    if not mm and ev.decl == "std::iter::Extend::extend":
        recv = canon(q, ev.args[0])
        if recv.startswith(("coll(", "default")):
            recv = placed(q, ev.args[0]) or recv
        return ("extend", recv, [canon(q, x) for x in ev.args[1:]])
    if not mm:
        return None
    op = mm.group(1) or mm.group(2)
    recv = canon(q, ev.args[0])
    if recv.startswith(("coll(", "default")):
        recv = placed(q, ev.args[0]) or recv
    args = [canon(q, x) for x in ev.args[1:]]
    if mm.group(2):
        e = strip(q, ev.args[0])
        while e.tag == "fld":
            e = strip(q, e.a[0])
        if e.tag == "call" and e.a[1].endswith("::entry"):
            recv = canon(q, e.a[2][0])
            args = [canon(q, e.a[2][1])] + args
    return (op, recv, args)


def member(ev, q):
    """(collection, key, present before the operation, operation) for a branch on a membership test"""
    if ev.kind != "branch":
        return None
    t = q.val(ev.value)
    neg = False
    n = 0
    while n < 12:
        if t.tag == "un" and t.a[0] in ("Not", "!"):
            neg = not neg
            t = q.val(t.a[1])
        elif t.tag in ("conv", "hv", "upd", "await"):
            t = q.val(t.a[1] if t.tag == "hv" else t.a[0])
        elif t.tag == "call" and re.search(r"Option::<.*>::(is_some|is_none|cloned|copied|as_ref|as_mut|map)$", t.a[1]):
            if t.a[1].endswith("is_none"):
                neg = not neg
            t = q.val(t.a[2][0])
        else:
            break
        n += 1
    if t.tag != "call":
        return None
    mm = _mem.search(t.a[1])
    if not mm or len(t.a[2]) < 2:
        return None
    op = mm.group(1)
    o = str(ev.out)
    if op == "entry":
        pr = {"Occupied": True, "Vacant": False}.get(o)
    elif o in ("Some", "None"):
        pr = o == "Some"
    elif o in ("True", "False", "1", "0"):
        pr = o in ("True", "1")
        if re.search(r"Set::<.*>::insert$", t.a[1]):
            pr = not pr
    else:
        return None
    if pr is None:
        return None
    return (canon(q, t.a[2][0]), canon(q, t.a[2][1]), pr != neg, op)


def cut(s, n=150):
    return s if len(s) <= n else s[:n] + "…"


def std(ev, q):
    """default event labels (used by the exploration tool and by rules over straight-line code)"""
    mm = message(ev, q)
    if mm:
        return "%s %s <- %s" % (mm[0], cut(canon(q, mm[1])), msgname(q, mm[2]))
    x = mutation(ev, q)
    if x:
        return "%s %s(%s)" % (x[0], cut(x[1]), cut(", ".join(x[2])))
    x = member(ev, q)
    if x:
        return "%s %s in %s" % ("has" if x[2] else "lacks", cut(x[1]), cut(x[0]))
    if called(ev, ONESHOT):
        return "reply %s <- %s" % (cut(canon(q, ev.args[0])), cut(canon(q, ev.args[1])))
    if ev.kind == "branch":
        return "if %s = %s" % (cut(canon(q, ev.value)), ev.out)
    if ev.kind == "write" and ev.loc.a[0].tag == "H":
        return "set %s := %s" % (cut(canon(q, ev.loc)), cut(canon(q, ev.value)))
    if ev.kind == "await":
        return "await " + cut(canon(q, ev.value))
    if ev.kind == "call" and not ev.inl:
        return "call " + short(ev.path)
    if ev.kind in ("spawn", "next", "panic", "timeout"):
        return ev.kind + ("" if ev.out is None else ":" + str(ev.out))
    return None


# ---------------------------------------------------------------------------------------------
# observer combinators

def combine(**mons):
    """product of observers: each is (init, fn)"""
    names = sorted(mons)
    init = tuple(mons[n][0] for n in names)
    fns = [mons[n][1] for n in names]

    def mon(s, ev, q):
        out = None
        for i, f in enumerate(fns):
            r = f(s[i], ev, q)
            if r is None:
                continue
            if isinstance(r, Bad):
                return Bad("%s:%s" % (names[i], r.key), r.msg)
            if r != s[i]:
                out = out or list(s)
                out[i] = r
        return tuple(out) if out else None
    return init, mon


RESTRICT = {"take", "skip", "step_by", "take_while", "skip_while", "nth", "last"}


def is_future(q, v):
    v = strip(q, v)
    b = q.e.p.body(v.a[0]) if v.tag == "clo" else None
    return b is not None and bool(b.coroutine)


def keeps_future(ev, q):
    """a future that has not run yet is put into a collection"""
    if ev.kind == "collect":
        return is_future(q, ev.value)
    return ev.kind == "call" and len(ev.args) > 1 and re.search(r"::(push|push_back|push_front|insert)$", ev.path or "") and is_future(q, ev.args[-1])


def kept_futures(q, v):
    v = strip(q, v)
    if v.tag == "iter":
        v = strip(q, v.a[0])
    return v.tag == "coll" and any(is_future(q, x) for x in v.a[1])


def foreach(coll, act, what, skip=None, must=False):
    """every element of the collection (matched on its canonical description) is acted upon, and the traversal is
    completed; `skip` recognises a branch under which an element may be left out; `must`: the traversal has to occur"""
    rx = re.compile(coll)

    def f(s, ev, q):
        # an element may be turned into a future that is kept; the kept futures then have to be run, each acting
        if ev.kind == "next" and s in ("kept-all", "run", "ran") and kept_futures(q, ev.value):
            if s == "run":
                return Bad("skipped", "an element of the %s is skipped" % what)
            return "run" if ev.out == "Some" else "complete"
        if ev.kind == "next" and rx.search(canon(q, ev.value)):
            if any(a[0] in RESTRICT for a in (ev.loc.a[0] if ev.loc else ())):
                return Bad("partial", "only part of the %s is visited" % what)
            if s in ("pending", "run"):
                return Bad("skipped", "an element of the %s is skipped" % what)
            if s == "kept" and ev.out != "Some":
                return "kept-all"
            return "pending" if ev.out == "Some" else "complete"
        if s in ("pending", "run") and act(ev, q):
            return "acted" if s == "pending" else "ran"
        if s == "pending" and keeps_future(ev, q):
            return "kept"
        if s == "pending" and skip is not None and skip(ev, q):
            return "acted"
        if ev.kind == "leave" and ev.out:
            if s in ("pending", "acted", "kept", "kept-all", "run", "ran"):
                return Bad("abandoned", "the traversal of the %s is abandoned before its end" % what)
            if must and s == "none":
                return Bad("missing", "the %s is not traversed" % what)
        return None
    return ("none", f)


def gathers(coll, what, at, skip=None):
    """every element of the collection has gone into another one, by collecting or by adding one at a time, when `at` happens"""
    init, f = foreach(coll, lambda ev, q: ev.kind == "collect" or (mutation(ev, q) or [0])[0] in ("push", "push_back", "insert", "extend"),
                      what, skip=skip)

    def g(s, ev, q):
        if s != "complete" and at(ev, q):
            return Bad("partial", "the %s are not all in what is sent" % what)
        return f(s, ev, q)
    return init, g


def on_return(pred):
    """helper: observer that only looks at the end of the path"""
    return (0, lambda s, ev, q: pred(ev, q) if ev.kind == "leave" and ev.out else None)
