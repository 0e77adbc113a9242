"""Disjunctive dataflow over the inlined supergraph of an entry function.

Facts at a program point: an abstract store (location -> abstract value), refinement facts (variant / truth of
abstract values) and an observer state (the finite event word collected by a rule).  The analysis is a worklist
fixpoint: states are merged when equal after liveness-based collection; loops converge because values are named by
allocation/call site.  Nothing is executed and no path condition is handed to a solver.
"""
import re
import terms
from terms import *
from program import apply_subst, strip_ref, norm

POLL = "std::task::Poll"
CF = "std::ops::ControlFlow"


class AnalysisLimit(Exception):
    pass


class Frame:
    __slots__ = ("body", "bb", "dest", "target", "post", "sub", "ctx", "sel", "_k")

    def __init__(self, body, bb, dest, target, post, sub, ctx, sel=False):
        self.body = body; self.bb = bb; self.dest = dest; self.target = target
        self.post = post; self.sub = sub; self.ctx = ctx; self.sel = sel
        self._k = (body.idx, bb, dest, target, post, sub, ctx, sel)

    def at(self, bb):
        return Frame(self.body, bb, self.dest, self.target, self.post, self.sub, self.ctx, self.sel)


class State:
    __slots__ = ("frames", "store", "facts", "obs", "parent", "ev", "mode")

    def __init__(self, frames, store, facts, obs, parent=None, mode=None):
        self.frames = frames; self.store = store; self.facts = facts; self.obs = obs
        self.parent = parent; self.ev = None; self.mode = mode

    def copy(self):
        s = State(self.frames, dict(self.store), dict(self.facts), self.obs, self.parent, self.mode)
        s.ev = self.ev
        return s

    def key(self):
        return (tuple(f._k for f in self.frames), frozenset(self.store.items()), frozenset(self.facts.items()),
                self.obs, self.mode)


class Event:
    __slots__ = ("kind", "path", "decl", "trait", "args", "value", "site", "line", "fn", "file", "loc", "inl", "g",
                 "out", "virt", "sub", "ty", "retty")

    def __init__(self, kind, **kw):
        self.kind = kind
        for s in self.__slots__[1:]:
            setattr(self, s, kw.get(s))

    def where(self):
        return "%s:%s (%s)" % (self.file, self.line, self.fn)

    def __repr__(self):
        return "Ev(%s %s %s)" % (self.kind, self.path, [show(a) for a in (self.args or ())])


class Q:
    """query interface handed to rules: the engine at a given state"""

    def __init__(self, eng, st):
        self.e = eng
        self.st = st

    def val(self, t):
        r = self.e.deref(self.st, t)
        return t if r is MOVED and t.tag in ("fld", "arg") else r

    def full(self, t):
        return self.e.resolve(self.st, t)

    def variant(self, t):
        return self.e.variant(self.st, self.val(t))

    def truth(self, t):
        return self.e.truth(self.st, t)

    def fld(self, t, *names):
        for n in names:
            t = self.val(fld(self.val(t), n if n[0] in ".@[" else "." + n))
        return t

    def read(self, loc):
        return self.e.read(self.st, loc)

    def origin(self, t):
        return origin(self.val(t))

    def facts(self):
        return self.st.facts

    def stack(self):
        return [f.body.id for f in self.st.frames]


def origin(t):
    """strip payload projections, awaits, conversions: the call or parameter a value comes from"""
    while True:
        if t.tag in ("fld", "await", "conv", "hv", "upd", "un"):
            nt = t.a[1] if t.tag == "hv" else t.a[0]
            if t.tag == "fld" and t.a[1][0] == "." and not (
                    isinstance(nt, Term) and nt.tag == "fld" and nt.a[1][0] == "@"):
                if not (isinstance(nt, Term) and nt.tag in ("call", "await")):
                    return t
            if not isinstance(nt, Term):
                return t
            t = nt
            continue
        if t.tag == "adt" and t.a[1] in ("Ok", "Err", "Some", "Ready", "Continue", "Break") and len(t.a[2]) == 1:
            t = t.a[2][0][1]
            continue
        return t


class Outcome:
    __slots__ = ("kind", "value", "obs", "state", "where", "trace", "bad", "eng")


class Bad:
    """verdict of a typestate observer"""

    def __init__(self, key, msg):
        self.key = key
        self.msg = msg

    def __repr__(self):
        return "VIOLATION: " + self.msg


class Engine:
    def __init__(self, prog, label=None, opaque=None, inline=None, max_states=60000, max_depth=24, ccap=4, spawn="event",
                 cap=2, keep=None, transparent=None, havoc=True, models=None, inline_gen=False, track_drop=True,
                 forget=None, havoc_skip=None, panics=False, max_seq=14, obs_init=(), dedupe=False,
                 monitor=None):
        terms.EXPAND = self.expand
        self.p = prog
        self.ccap = ccap
        self.monitor = monitor
        self.bad = []
        self.label = label or (lambda ev, q: None)
        self.opaque = _pred(opaque)
        self.inline = _pred(inline) if inline is not None else (lambda p: True)
        self.max_states = max_states
        self.max_depth = max_depth
        self.spawn = spawn
        self.cap = cap
        self.max_seq = max_seq
        self.forget = forget
        self.havoc_skip = _pred(havoc_skip)
        self.models = models or {}
        self.inline_gen = inline_gen
        self.obs_init = obs_init
        self.dedupe = dedupe
        self.ctxs = {}
        self.nstates = 0
        self.nsteps = 0
        self.outcomes = []
        self.analysed = set()
        self.calls = 0
        self.panics = panics
        self.unresolved = {}
        self.noteworthy = set()

    # -- store ---------------------------------------------------------------
    def loc(self, root, projs=()):
        return T("loc", root, projs)

    def local(self, st, n, depth=None):
        return T("loc", T("L", (len(st.frames) - 1) if depth is None else depth, n), ())

    def read(self, st, loc):
        s = st.store
        v = s.get(loc)
        root, projs = loc.a
        if v is None:
            k = len(projs)
            while k > 0:
                k -= 1
                b = s.get(T("loc", root, projs[:k]))
                if b is not None:
                    v = b
                    break
            if v is None:
                v = root.a[0] if root.tag == "H" else T("any", root)
                k = 0
            for p in projs[k:]:
                v = self.proj(st, v, p)
        # deeper entries
        sub = None
        for l2, w in s.items():
            if l2.a[0] is root:
                p2 = l2.a[1]
                if len(p2) > len(projs) and p2[: len(projs)] == projs:
                    if sub is None:
                        sub = []
                    sub.append((p2[len(projs):], w))
        if sub:
            sub.sort(key=lambda e: (len(e[0]), e[0]))
            for pp, w in sub:
                r = with_field(v, pp, w)
                if r is None:
                    from terms import _wf
                    r = _wf(v, pp, w)
                v = r
        return v

    def proj(self, st, v, p):
        if v.tag == "ref" and p[0] != "@":
            return self.read(st, T("loc", v.a[0].a[0], v.a[0].a[1] + (p,)))
        return fld(v, p)

    def write(self, st, loc, v):
        s = st.store
        root, projs = loc.a
        dead = [l2 for l2 in s if l2.a[0] is root and len(l2.a[1]) > len(projs) and l2.a[1][: len(projs)] == projs]
        for d in dead:
            del s[d]
        k = len(projs)
        while k > 0:
            k -= 1
            bl = T("loc", root, projs[:k])
            b = s.get(bl)
            if b is not None:
                r = with_field(b, projs[k:], v)
                if r is None and b.tag == "call" and not b.a[2]:
                    x = self.expand(b)
                    r = with_field(x, projs[k:], v) if x is not None else None
                if r is not None:
                    s[bl] = r
                    if loc in s:
                        del s[loc]
                    return
                break
        s[loc] = v

    def place(self, st, pl, depth=None):
        loc = self.local(st, pl[0], depth)
        for p in pl[1:]:
            if p == "*":
                v = self.read(st, loc)
                loc = self.deref_loc(st, v, loc)
            elif p == "~":
                continue
            else:
                if p == "[..]":
                    p = "[]"
                loc = T("loc", loc.a[0], loc.a[1] + (p,))
        return loc

    def deref_loc(self, st, v, loc):
        t = v.tag
        if t == "ref":
            return v.a[0]
        if t in ("adt", "tup", "clo", "upd", "moved", "coll", "iter", "arr"):
            return loc
        return T("loc", T("H", v), ())

    def deref(self, st, t):
        n = 0
        while t.tag == "ref" and n < 8:
            t = self.read(st, t.a[0])
            n += 1
        return t

    def resolve(self, st, t, d=4):
        """deep copy of a value with references replaced by what they point to"""
        t = self.deref(st, t)
        if d == 0:
            return t
        if not refs(t):
            return t
        tag = t.tag
        if tag == "adt":
            return T("adt", t.a[0], t.a[1], tuple((n, self.resolve(st, v, d - 1)) for n, v in t.a[2]))
        if tag in ("tup", "arr"):
            return T(tag, tuple(self.resolve(st, v, d - 1) for v in t.a[0]))
        if tag == "clo":
            return T("clo", t.a[0], tuple(self.resolve(st, v, d - 1) for v in t.a[1]), t.a[2])
        if tag == "iter":
            return T("iter", self.resolve(st, t.a[0], d - 1), t.a[1])
        if tag == "coll":
            return T("coll", self.resolve(st, t.a[0], d - 1), tuple(self.resolve(st, v, d - 1) for v in t.a[1]))
        if tag == "fld":
            return T("fld", self.resolve(st, t.a[0], d - 1), t.a[1])
        return t

    # -- facts ---------------------------------------------------------------
    def variant(self, st, t):
        if t.tag == "adt":
            return t.a[1]
        if t.tag == "upd":
            return self.variant(st, t.a[0])
        f = st.facts.get(t)
        if f is not None and f[0] == "is":
            return f[1]
        return None

    def excluded(self, st, t):
        f = st.facts.get(t)
        return f[1] if f is not None and f[0] == "not" else frozenset()

    def assume_variant(self, st, t, v, allv=None):
        """None when infeasible"""
        k = self.variant(st, t)
        if k is not None:
            return st if k == v else None
        if v in self.excluded(st, t):
            return None
        if t.tag in ("top",) or unstable(t):
            return st
        st.facts[t] = ("is", v)
        return st

    def assume_not(self, st, t, vs, allv):
        k = self.variant(st, t)
        if k is not None:
            return None if k in vs else st
        ex = self.excluded(st, t) | frozenset(vs)
        rest = [x for x in allv if x not in ex]
        if not rest:
            return None
        if len(rest) == 1:
            st.facts[t] = ("is", rest[0])
        else:
            st.facts[t] = ("not", ex)
        return st

    def norm_bool(self, t):
        """(term, polarity)"""
        pol = True
        while True:
            if t.tag == "un" and t.a[0] == "Not":
                pol = not pol
                t = t.a[1]
                continue
            if t.tag == "bin":
                op, a, b = t.a
                if op == "Ne":
                    t = T("bin", "Eq", a, b); pol = not pol; continue
                if op == "Gt":
                    t = T("bin", "Lt", b, a); continue
                if op == "Ge":
                    t = T("bin", "Lt", a, b); pol = not pol; continue
                if op == "Le":
                    t = T("bin", "Lt", b, a); pol = not pol; continue
                if op == "Eq" and b.n < a.n and not b.tag == "k":
                    t = T("bin", "Eq", b, a); continue
                if op == "Eq" and a.tag == "k" and b.tag != "k":
                    t = T("bin", "Eq", b, a); continue
                if op == "Eq" and b.tag == "k" and isinstance(b.a[0], bool):
                    if not b.a[0]:
                        pol = not pol
                    t = a
                    continue
            return t, pol

    def truth(self, st, t):
        t, pol = self.norm_bool(t)
        if t.tag == "k":
            return bool(t.a[0]) == pol
        if t.tag == "bin" and t.a[0] == "Eq":
            a, b = t.a[1], t.a[2]
            if a is b and a.tag not in ("top",):
                return pol
            if a.tag == "k" and b.tag == "k":
                return (a.a[0] == b.a[0]) == pol
        if t.tag == "bin" and t.a[0] == "Lt":
            a, b = t.a[1], t.a[2]
            if a.tag == "k" and b.tag == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int):
                return (a.a[0] < b.a[0]) == pol
        f = st.facts.get(t)
        if f is not None and f[0] == "b":
            return f[1] == pol
        return None

    def assume_bool(self, st, t, val):
        k = self.truth(st, t)
        if k is not None:
            return st if k == val else None
        t, pol = self.norm_bool(t)
        if t.tag == "top" or unstable(t):
            return st
        st.facts[t] = ("b", val == pol)
        return st

    # -- running ---------------------------------------------------------------
    def run(self, body, args=None, facts=None, sub=(), store=None):
        """explore `body` (an async fn's future is driven to completion); returns the outcomes"""
        self.outcomes = []
        self.visited = set()
        self.joins = {}
        self.entry = body
        self.p.prepare(body)
        st = State((), {}, dict(facts or {}), self.obs_init)
        f = Frame(body, 0, None, None, ("top",), tuple(sub), self.ctx(None, 0))
        st.frames = (f,)
        for i in range(1, body.args + 1):
            v = args[i - 1] if args is not None and i - 1 < len(args) and args[i - 1] is not None else T("arg", i)
            st.store[self.local(st, i)] = v
        if store:
            for l, v in store.items():
                st.store[l] = v
        work = [st]
        while work:
            s = work.pop()
            nxt = self.step(s)
            for x in nxt:
                fr = x.frames[-1] if x.frames else None
                if fr is not None and (fr.body.npred[fr.bb] > 1 or fr.bb == 0):
                    self.gc(x)
                    k = x.key()
                    if k in self.visited:
                        continue
                    self.visited.add(k)
                    self.nstates += 1
                    if self.nstates > self.max_states:
                        raise AnalysisLimit("more than %d abstract states from %s" % (self.max_states, body.id))
                work.append(x)
        return self.outcomes

    def ctx(self, parent, bb):
        k = (parent, bb)
        if k not in self.ctxs:
            self.ctxs[k] = len(self.ctxs)
        return self.ctxs[k]

    def gc(self, st):
        keepl = set()
        for d, f in enumerate(st.frames):
            for l in f.body.live[f.bb]:
                keepl.add((d, l))
            if d + 1 < len(st.frames):
                # a caller frame: what is live where its callee returns to
                tg = st.frames[d + 1].target
                if tg is not None:
                    for l in f.body.live[tg]:
                        keepl.add((d, l))
        byroot = {}
        for l in st.store:
            byroot.setdefault(l.a[0], []).append(l)
        live = set()
        rts = set()
        todo = [r for r in byroot if (r.tag == "L" and (r.a[0], r.a[1]) in keepl) or (r.tag == "H" and _argroot(r.a[0]))]
        seen = set(todo)
        # outer frames' destinations may be addressed through refs held in frames
        for f in st.frames:
            if f.dest is not None:
                r = f.dest.a[0]
                if r in byroot and r not in seen:
                    seen.add(r); todo.append(r)
            if f.post:
                stack = [f.post]
                while stack:
                    x = stack.pop()
                    if isinstance(x, Term):
                        self._gcval(x, byroot, seen, todo, rts)
                    elif isinstance(x, tuple):
                        stack.extend(x)
        while todo:
            r = todo.pop()
            live.add(r)
            if r.tag == "H":
                rts |= roots(r.a[0])
            for l in byroot[r]:
                self._gcval(st.store[l], byroot, seen, todo, rts)
            if r.tag == "L":
                pass
        for r in list(byroot):
            if r not in live:
                if r.tag == "H" and roots(r.a[0]) and roots(r.a[0]) <= rts:
                    continue
                for l in byroot[r]:
                    del st.store[l]
        for x in (st.obs if isinstance(st.obs, tuple) else ()):
            _obsroots(x, rts)
        for k in list(st.facts):
            rs = roots(k)
            ok = True
            for x in rs:
                if x.tag != "arg" and x not in rts:
                    ok = False
                    break
            if not ok or (self.forget and self.forget(k)):
                del st.facts[k]

    def _gcval(self, v, byroot, seen, todo, rts):
        rts |= roots(v)
        for l in refs(v):
            r = l.a[0]
            if r.tag == "H":
                rts |= roots(r.a[0])
            if r in byroot and r not in seen:
                seen.add(r)
                todo.append(r)

    # -- events ----------------------------------------------------------------
    def emit(self, st, ev):
        if self.monitor is not None:
            # typestate observer: the event moves the observer state; a Bad result is a violation on this path
            n = self.monitor(st.obs, ev, Q(self, st))
            if n is None or n == st.obs and not isinstance(n, Bad):
                return True
            if n == "STOP":
                return False        # not a path this rule is about
            st.ev = (ev.where(), [n], st.ev)
            if isinstance(n, Bad):
                self.finish(st, "bad", T("k", n.key), ev.where())
                self.outcomes[-1].bad = n
                return False
            st.obs = n
            return True
        lab = self.label(ev, Q(self, st))
        if lab is None:
            return True
        if lab == "STOP":
            return False
        labs = lab if isinstance(lab, list) else [lab]
        for l in labs:
            o = st.obs
            if self.dedupe and l in o:
                continue
            c = sum(1 for x in o if x == l)
            if c >= self.cap:
                # keep the word finite: drop the oldest repetition, keep the latest occurrence's order
                j = max(i for i, x in enumerate(o) if x == l)
                first = o.index(l)
                if self.cap > 1 and j != len(o) - 1:
                    o = o[:j] + o[j + 1:] + (l,)
                    st.obs = o
                continue
            st.obs = o + (l,)
        st.ev = (ev.where(), labs, st.ev)
        return True

    def mkev(self, st, kind, **kw):
        f = st.frames[-1] if st.frames else None
        ev = Event(kind, **kw)
        if f is not None:
            ev.fn = f.body.id
            ev.file = f.body.file
            if ev.site is None:
                ev.site = T("site", f.ctx, f.bb)
        return ev

    def finish(self, st, kind, value, where=""):
        o = Outcome()
        o.kind = kind; o.value = value; o.obs = st.obs; o.state = st; o.where = where
        o.trace = st.ev
        o.bad = None
        self.outcomes.append(o)

    # -- block stepping ----------------------------------------------------------
    def step(self, st):
        self.nsteps += 1
        f = st.frames[-1]
        b = f.body
        self.analysed.add(b.id)
        bl = b.blocks[f.bb]
        for s in bl["s"]:
            if s[0] == "=":
                v = self.rvalue(st, f, s[2])
                loc = self.place(st, s[1])
                if loc.a[0].tag == "H" or loc.a[0].a[0] != len(st.frames) - 1 or len(loc.a[1]) > 0:
                    if not self.emit(st, self.mkev(st, "write", loc=loc, value=v, line=s[3])):
                        return []
                self.write(st, loc, v)
            elif s[0] == "dead":
                pass
        t = bl["t"]
        sk = b.logskip[f.bb]
        if sk is not None:
            st.frames = st.frames[:-1] + (f.at(sk),)
            return [st]
        k = t[0]
        if k == "goto":
            st.frames = st.frames[:-1] + (f.at(t[1]),)
            return [st]
        if k == "ret":
            return self.ret(st, self.read(st, self.local(st, 0)))
        if k == "switch":
            return self.switch(st, f, t)
        if k == "drop":
            return self.drop(st, f, t)
        if k == "call":
            return self.call(st, f, t, bool(bl.get("log")))
        if k == "yield":
            st.frames = st.frames[:-1] + (f.at(t[1]),)
            return [st]
        return []

    def goto(self, st, bb):
        f = st.frames[-1]
        st.frames = st.frames[:-1] + (f.at(bb),)
        return st

    def operand(self, st, f, o):
        k = o[0]
        if k == "c":
            return self.read(st, self.place(st, o[1]))
        if k == "m":
            loc = self.place(st, o[1])
            v = self.read(st, loc)
            if v.tag not in ("k", "ref", "fn") and loc.a[0].tag == "L":
                self.write(st, loc, MOVED)
            return v
        if k == "k":
            return const(o[1], o[2])
        if k == "kn":
            c = const(o[2], o[3]) if o[2] is not None else None
            if c is not None and isinstance(c.a[0], (int, bool)):
                return c
            return T("konst", o[1])
        if k == "kp":
            return self.promoted(st, f, o)
        if k == "fn":
            d = o[1]
            return T("fn", d.get("r") or d["p"], d["p"], tuple(apply_subst(x, f.sub) for x in (d.get("rg") or d["g"])),
                     tuple(apply_subst(x, f.sub) for x in d["g"]))
        return TOP

    def promoted(self, st, f, o):
        b = self.p.body(o[2])
        if b is None or o[1] >= len(b.promoted):
            return T("konst", "promoted")
        tmp = State((f,), {}, {}, ())
        blk = b.promoted[o[1]][0]
        for s in blk["s"]:
            if s[0] == "=":
                rv = s[2]
                if rv[0] == "ref":
                    v = self.read(tmp, self.place(tmp, rv[1]))
                else:
                    v = self.rvalue(tmp, f, rv)
                self.write(tmp, self.place(tmp, s[1]), v)
        return self.read(tmp, self.local(tmp, 0))

    def rvalue(self, st, f, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, f, rv[1])
        if k == "ref":
            loc = self.place(st, rv[1])
            return T("ref", loc, bool(rv[2]))
        if k == "bin":
            a = self.deref(st, self.operand(st, f, rv[2]))
            b = self.deref(st, self.operand(st, f, rv[3]))
            return self.binop(rv[1], a, b)
        if k == "un":
            a = self.deref(st, self.operand(st, f, rv[2]))
            if rv[1] == "Not" and a.tag == "k" and isinstance(a.a[0], bool):
                return B(not a.a[0])
            if rv[1] == "PtrMetadata":
                return T("call", T("len"), "len", (a,))
            return T("un", rv[1], a)
        if k == "discr":
            v = self.deref(st, self.read(st, self.place(st, rv[1])))
            return T("discr", v, tuple((str(a), b) for a, b in rv[2]))
        if k == "cast":
            v = self.operand(st, f, rv[1])
            return v
        if k == "repeat":
            return T("arr", (self.operand(st, f, rv[1]),))
        if k == "adt":
            ops = [self.operand(st, f, o) for o in rv[4]]
            return T("adt", rv[1], rv[2], tuple(zip(rv[3], ops)))
        if k in ("closure", "coroutine"):
            ops = [self.operand(st, f, o) for o in rv[2]]
            return T("clo", rv[1], tuple(ops), f.sub)
        if k == "tuple":
            return T("tup", tuple(self.operand(st, f, o) for o in rv[1]))
        if k == "array":
            return T("arr", tuple(self.operand(st, f, o) for o in rv[1]))
        return T("any", T("site", f.ctx, f.bb))

    def binop(self, op, a, b):
        if op.endswith("WithOverflow"):
            return T("tup", (self.binop(op[:-12], a, b), FALSE))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if a.tag == "k" and b.tag == "k" and isinstance(a.a[0], int) and isinstance(b.a[0], int) \
                and not isinstance(a.a[0], bool):
            x, y = a.a[0], b.a[0]
            if op == "Add" and 0 < y <= 2 and x + y > 3:
                return T("any", T("many"))      # widening of counters
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: x == y,
                     "Ne": lambda: x != y, "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y,
                     "Ge": lambda: x >= y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                     "Shl": lambda: (x << y) & 0xffffffffffff, "Shr": lambda: x >> y,
                     "Rem": lambda: x % y, "Div": lambda: x // y}.get(op)
                if r is not None:
                    return K(r())
            except Exception:
                pass
        if op in ("BitOr", "BitAnd") and (a.tag == "k" and isinstance(a.a[0], bool) or b.tag == "k" and isinstance(b.a[0], bool)):
            if a.tag != "k":
                a, b = b, a
            if op == "BitOr":
                return TRUE if a.a[0] else b
            return b if a.a[0] else FALSE
        if op in ("Add", "Sub"):
            if b.tag == "k" and (unstable(a)):
                return a
            # nested constant offsets collapse: (x + 1) + 1 = x + 2
            if b.tag == "k" and isinstance(b.a[0], int) and a.tag == "bin" and a.a[0] in ("Add", "Sub") and a.a[2].tag == "k" and isinstance(a.a[2].a[0], int):
                off = (a.a[2].a[0] if a.a[0] == "Add" else -a.a[2].a[0]) + (b.a[0] if op == "Add" else -b.a[0])
                if off == 0:
                    return a.a[1]
                if abs(off) > 3:
                    return T("bin", "Add", a.a[1], T("k", "many"))
                return T("bin", "Add", a.a[1], K(off)) if off > 0 else T("bin", "Sub", a.a[1], K(-off))
            if op == "Add" and a.tag == "k" and b.tag != "k":
                a, b = b, a
        r = T("bin", op, a, b)
        if depth(r, 20) > 12:
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and (a.tag == "k" or b.tag == "k"):
                return T("bin", op, a if a.tag == "k" else T("any", T("deep")), b if b.tag == "k" else T("any", T("deep")))
            return T("any", T("deep"))
        return r

    # -- control -----------------------------------------------------------------
    def switch(self, st, f, t):
        v = self.operand(st, f, t[1])
        v = self.deref(st, v)
        arms, other = t[2], t[3]
        line = t[-1]
        out = []
        if v.tag == "discr":
            base, tab = v.a
            names = dict(tab)
            allv = [n for _, n in tab]
            kv = self.variant(st, base)
            if kv is not None:
                tgt = None
                for val, bb in arms:
                    if names.get(str(val)) == kv:
                        tgt = bb
                if tgt is None:
                    tgt = other
                if tgt is None:
                    return []
                return [self.goto(st, tgt)]
            used = []
            for val, bb in arms:
                n = names.get(str(val), str(val))
                used.append(n)
                s2 = st.copy()
                if self.assume_variant(s2, base, n) is None:
                    continue
                if not self.emit(s2, self.mkev(s2, "branch", value=base, out=n, line=line)):
                    continue
                out.append(self.goto(s2, bb))
            if other is not None and f.body.blocks[other]["t"][0] != "unreach":
                s2 = st.copy()
                if self.assume_not(s2, base, used, allv) is not None:
                    if self.emit(s2, self.mkev(s2, "branch", value=base, out=self.variant(s2, base) or "!" + "|".join(used), line=line)):
                        out.append(self.goto(s2, other))
            return out
        ty = t[4] if len(t) > 5 else ""
        if ty == "bool" or (v.tag in ("bin", "un") and v.a[0] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Not")) or (
                v.tag == "k" and isinstance(v.a[0], bool)):
            for val, bb in list(arms) + ([("other", other)] if other is not None else []):
                if val == "other":
                    want = True if any(str(x[0]) == "0" for x in arms) else False
                else:
                    want = str(val) != "0"
                s2 = st.copy()
                known = self.truth(s2, v)
                if self.assume_bool(s2, v, want) is None:
                    continue
                if known is None:
                    if not self.emit(s2, self.mkev(s2, "branch", value=v, out=want, line=line)):
                        continue
                out.append(self.goto(s2, bb))
            return out
        # integer-like
        if v.tag == "k":
            for val, bb in arms:
                if str(val) == str(v.a[0]):
                    return [self.goto(st, bb)]
            return [self.goto(st, other)] if other is not None else []
        fct = st.facts.get(v)
        for val, bb in arms:
            if fct and fct[0] == "is" and fct[1] != str(val):
                continue
            if fct and fct[0] == "not" and str(val) in fct[1]:
                continue
            s2 = st.copy()
            s2.facts[v] = ("is", str(val))
            if self.emit(s2, self.mkev(s2, "branch", value=v, out=val, line=line)):
                out.append(self.goto(s2, bb))
        if other is not None and not (fct and fct[0] == "is" and any(str(x[0]) == fct[1] for x in arms)) \
                and f.body.blocks[other]["t"][0] != "unreach":
            s2 = st.copy()
            if not (fct and fct[0] == "is"):
                s2.facts[v] = ("not", frozenset(str(x[0]) for x in arms) | (fct[1] if fct and fct[0] == "not" else frozenset()))
            if self.emit(s2, self.mkev(s2, "branch", value=v, out="other", line=line)):
                out.append(self.goto(s2, other))
        return out

    def drop(self, st, f, t):
        loc = self.place(st, t[1])
        v = self.read(st, loc)
        if v.tag not in ("moved", "k", "ref", "fn") and not (v.tag == "any"):
            if not self.emit(st, self.mkev(st, "drop", value=v, loc=loc, line=t[-1], ty=t[3])):
                return []
            if loc.a[0].tag == "L":
                self.write(st, loc, MOVED)
        return [self.goto(st, t[2])]

    def ret(self, st, v):
        f = st.frames[-1]
        d = len(st.frames) - 1
        if len(st.frames) == 1 and v.tag == "clo" and self.p.body(v.a[0]) is not None and self.p.body(v.a[0]).coroutine \
                and f.post == ("top",):
            # the future of the entry function: drive it
            b = self.p.prepare(self.p.body(v.a[0]))
            nf = Frame(b, 0, None, None, ("top2",), v.a[2], self.ctx(f.ctx, f.bb))
            self.kill_frame(st, d)
            st.frames = (nf,)
            st.store[self.local(st, 1)] = v
            st.store[self.local(st, 2)] = T("any", T("cx"))
            return [st]
        if not self.emit(st, self.mkev(st, "leave", path=f.body.id, value=v, out=(d == 0), line=f.body.line)):
            return []
        if d == 0:
            self.finish(st, "return", self.resolve(st, v), f.body.id)
            return []
        if refs(v):
            v = self.localfix(st, v, d)
        self.kill_frame(st, d)
        st.frames = st.frames[:-1]
        return self.apply_post(st, f, v)

    def localfix(self, st, v, d):
        # references into the returning frame (only through by-value closures etc.): replace by value
        for l in refs(v):
            if l.a[0].tag == "L" and l.a[0].a[0] == d:
                return self.subst_refs(st, v, d)
        return v

    def subst_refs(self, st, v, d, n=5):
        if n == 0 or not refs(v):
            return v
        if v.tag == "ref":
            l = v.a[0]
            if l.a[0].tag == "L" and l.a[0].a[0] == d:
                return self.subst_refs(st, self.read(st, l), d, n - 1)
            return v
        if v.tag == "adt":
            return T("adt", v.a[0], v.a[1], tuple((a, self.subst_refs(st, b, d, n - 1)) for a, b in v.a[2]))
        if v.tag in ("tup", "arr"):
            return T(v.tag, tuple(self.subst_refs(st, b, d, n - 1) for b in v.a[0]))
        if v.tag == "clo":
            return T("clo", v.a[0], tuple(self.subst_refs(st, b, d, n - 1) for b in v.a[1]), v.a[2])
        if v.tag == "iter":
            return T("iter", self.subst_refs(st, v.a[0], d, n - 1), v.a[1])
        return v

    def kill_frame(self, st, d):
        for l in [l for l in st.store if l.a[0].tag == "L" and l.a[0].a[0] >= d]:
            del st.store[l]

    # continuation of a completed inlined frame `f` with value v, in the caller's frame
    def apply_post(self, st, f, v):
        import models
        return models.post(self, st, f, f.post, v)

    def finish_call(self, st, dest, target, v):
        """assign the call's result and continue at the target block of the current frame"""
        if target is None:
            return []
        if dest is not None:
            if dest.a[0].tag == "H":
                if not self.emit(st, self.mkev(st, "write", loc=dest, value=v, line=0)):
                    return []
            self.write(st, dest, v)
        return [self.goto(st, target)]

    def push(self, st, body, args, dest, target, post, sub, bb, sel=False):
        self.p.prepare(body)
        cur = st.frames[-1]
        nf = Frame(body, 0, dest, target, post, tuple(sub), self.ctx(cur.ctx, (bb, body.idx)), sel or cur.sel)
        st.frames = st.frames + (nf,)
        for i, a in enumerate(args):
            st.store[self.local(st, i + 1)] = a
        return [st]

    def can_inline(self, st, body):
        if body is None or body.stolen or not body.blocks:
            return False
        if len(st.frames) >= self.max_depth:
            return False
        n = sum(1 for f in st.frames if f.body is body)
        return n == 0

    def call_closure(self, st, clo, args, dest, target, post):
        """invoke a closure value with positional args; falls back to an opaque result"""
        import models
        cv = self.deref(st, clo)
        f = st.frames[-1]
        if cv.tag == "clo":
            b = self.p.body(cv.a[0])
            if b is not None and not b.coroutine and self.can_inline(st, b):
                a0 = clo if clo.tag == "ref" else cv
                return self.push(st, b, [a0] + list(args), dest, target, post, cv.a[2], f.bb)
        if cv.tag == "fn":
            return self.invoke(st, cv.a[0], cv.a[1], None, cv.a[2], cv.a[3], list(args), dest, target, post, 0, "")
        ev = self.mkev(st, "call", path="<fn value>", decl="<fn value>", args=[cv] + list(args), g=())
        if not self.emit(st, ev):
            return []
        r = self.fresh(st, "<fn value>", [cv] + [self.deref(st, a) for a in args], salt=post)
        nf = Frame(f.body, f.bb, dest, target, post, f.sub, f.ctx)
        return models.post(self, st, nf, post, r)

    def fresh(self, st, path, args, salt=None):
        f = st.frames[-1]
        site = T("site", f.ctx, f.bb) if salt is None else T("site", f.ctx, f.bb, salt)
        aa = []
        for a in args:
            a = self.resolve(st, a, 3)
            if depth(a, 20) > 7:
                a = trim(a, 6)
            aa.append(a)
        t = T("call", site, path, tuple(aa))
        self.kill_facts(st, t)
        return t

    def kill_facts(self, st, t):
        for k in [k for k in st.facts if contains(k, t)]:
            del st.facts[k]

    def call(self, st, f, t, log):
        self.calls += 1
        args = [self.operand(st, f, o) for o in t[2]]
        dest = self.place(st, t[3])
        target = t[4]
        line = t[-1]
        retty = t[5] if len(t) > 6 else ""
        fo = t[1]
        if log:
            r = T("any", T("site", f.ctx, f.bb))
            if target is None:
                return []
            return self.finish_call(st, dest, target, r)
        if fo[0] != "fn":
            fv = self.operand(st, f, fo)
            return self.call_closure(st, fv, args, dest, target, ("ret",))
        d = fo[1]
        g = tuple(apply_subst(x, f.sub) for x in d["g"])
        rg = tuple(apply_subst(x, f.sub) for x in d["rg"]) if d.get("rg") else None
        if d.get("ctor"):
            return self.finish_call(st, dest, target, TOP)
        return self.invoke(st, d.get("r") or d["p"], d["p"], d.get("t"), rg or g, g, args, dest, target, ("ret",), line,
                           retty, virt=bool(d.get("v")), unres=bool(d.get("u")))

    def expand(self, t):
        """the struct behind `X::default()`, with every field read from the call"""
        m = re.match(r"^<?([\w:]+?)( as .*>)?::(default|new)$", t.a[1])
        ad = self.p.adts.get(m.group(1)) if m else None
        if not ad or ad["enum"] or len(ad["variants"]) != 1:
            return None
        vec = lambda ty: m.group(3) == "default" and re.match(r"^std::vec::Vec<", ty)
        return T("adt", ad["path"], None, tuple((n[0], T("coll", EMPTY, ()) if vec(n[1]) else fld(t, "." + n[0])) for n in ad["variants"][0][1]))

    def constructor(self, decl, args):
        """the value made when an enum variant or tuple struct is used as a function"""
        p = re.sub(r"::<[^:]*>", "", decl)
        ad = self.p.adts.get(p)
        if ad and not ad["enum"] and len(ad["variants"]) == 1 and len(ad["variants"][0][1]) == len(args):
            return T("adt", p, None, tuple((n if isinstance(n, str) else n[0], a) for n, a in zip(ad["variants"][0][1], args)))
        h, _, v = p.rpartition("::")
        ad = self.p.adts.get(h)
        if ad and ad["enum"]:
            for w in ad["variants"]:
                if w[0] == v and len(w[1]) == len(args):
                    return T("adt", h, v, tuple((n if isinstance(n, str) else n[0], a) for n, a in zip(w[1], args)))
        return None

    def invoke(self, st, path, decl, trait, rg, g, args, dest, target, post, line, retty, virt=False, unres=False):
        import models
        f = st.frames[-1]
        body = None
        sub = ()
        if not virt:
            body = self.p.body(path)
            if body is not None:
                if path == decl and decl in self.p.trait_items and g:
                    # trait method (possibly default body) on a now-concrete Self
                    r = self.p.resolve_trait(decl, list(g))
                    if r is not None:
                        body, s = r
                        sub = tuple(sorted(s.items()))
                        path = body.id
                    elif unres:
                        body = None
                if body is not None and not sub:
                    names = body.generics
                    if len(names) == len(rg):
                        sub = tuple(sorted(zip(names, rg)))
                    elif len(names) <= len(rg):
                        sub = tuple(sorted(zip(names, rg[-len(names):]))) if names else ()
            elif decl in self.p.trait_items and g:
                r = self.p.resolve_trait(decl, list(g))
                if r is not None:
                    body, s = r
                    sub = tuple(sorted(s.items()))
                    path = body.id
        ev = self.mkev(st, "call", path=path, decl=decl, trait=trait, args=args, g=g, line=line, virt=virt, sub=sub,
                       retty=retty, inl=False)
        op = self.opaque(path) or self.opaque(decl)
        m = None if op else (models.find(decl) or models.find(path))
        if m is not None and body is None or m is not None and decl in models.OVERRIDE:
            r = m(self, st, ev, args, dest, target, post)
            if r is not NotImplemented:
                return r
        if body is None and m is None and not op:
            k = self.constructor(decl, args)
            if k is not None:
                return models.done(self, st, dest, target, post, k)
        if body is not None and not op and self.can_inline(st, body) and self.inline(body.id) and not models.is_gen(body):
            ev.inl = True
            if not self.emit(st, ev):
                return []
            return self.push(st, body, args, dest, target, post, sub, f.bb)
        if target is None and post == ("ret",):
            # diverging call (panic, todo, exit)
            ev.kind = "panic"
            self.emit(st, ev)
            if self.panics:
                self.finish(st, "panic", T("k", path), ev.where())
            return []
        if not self.emit(st, ev):
            return []
        v = self.fresh(st, path, args, salt=None if post == ("ret",) else post)
        if body is None and not models.is_pure(path) and not self.havoc_skip(path):
            self.havoc(st, args, v)
        elif body is not None and not self.havoc_skip(path):
            self.havoc(st, args, v)
        nf = Frame(f.body, f.bb, dest, target, post, f.sub, f.ctx)
        return models.post(self, st, nf, post, v)

    def havoc(self, st, args, v):
        for i, a in enumerate(args):
            if a.tag == "ref" and a.a[1]:
                self.havoc_loc(st, a.a[0], v, i)

    def havoc_loc(self, st, loc, v, i):
        old = self.read(st, loc)
        if old.tag == "ref":
            if old.a[1]:
                self.havoc_loc(st, old.a[0], v, i)
            return
        while old.tag == "hv":
            old = old.a[1]
        if old.tag == "k" and False:
            return
        self.write(st, loc, T("hv", T("hvsite", v.a[0] if v.tag == "call" else v, i), strip_hv(old)))


_MANY = T("k", "many")
_UNST = {}


def unstable(t):
    """does the term name a widened value (different values at different times): nothing is recorded about those"""
    r = _UNST.get(t)
    if r is None:
        r = t is _MANY or t.tag in ("many", "deep") or any(
            unstable(x) for x in subterms1(t))
        _UNST[t] = r
    return r


def subterms1(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, Term):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, Term):
                            yield z


def strip_hv(t):
    n = 0
    while t.tag in ("hv", "upd") and n < 10:
        t = t.a[1] if t.tag == "hv" else t.a[0]
        n += 1
    if depth(t, 20) > 8:
        t = trim(t, 5)
    return t


def trim(t, d):
    if d <= 0:
        return T("cut")
    tag = t.tag
    if tag == "adt":
        return T("adt", t.a[0], t.a[1], tuple((n, trim(v, d - 1)) for n, v in t.a[2]))
    if tag in ("tup", "arr"):
        return T(tag, tuple(trim(v, d - 1) for v in t.a[0]))
    if tag == "clo":
        return T("clo", t.a[0], tuple(trim(v, d - 1) for v in t.a[1]), t.a[2])
    if tag == "call":
        return T("call", t.a[0], t.a[1], tuple(trim(v, d - 1) for v in t.a[2]))
    if tag == "fld":
        return T("fld", trim(t.a[0], d), t.a[1])
    if tag == "await":
        return T("await", trim(t.a[0], d), *t.a[1:])
    return t


def _argroot(t):
    return any(r.tag == "arg" for r in roots(t))


def _obsroots(x, acc):
    if isinstance(x, Term):
        acc |= roots(x)
    elif isinstance(x, tuple):
        for y in x:
            _obsroots(y, acc)


def const(v, ty):
    if ty == "bool":
        return B(str(v) in ("true", "1", "0x01", "True"))
    if isinstance(v, bool):
        return B(v)
    if isinstance(v, int):
        return K(v)
    if isinstance(v, str):
        m = re.match(r"^(-?\d+)(?:_?[ui](?:8|16|32|64|128|size))?$", v)
        if m and ty not in ("&str",):
            return K(int(m.group(1)))
    return T("k", v)


def _pred(x):
    if x is None:
        return lambda p: False
    if callable(x):
        return x
    if isinstance(x, str):
        x = [x]
    r = re.compile("|".join("(?:%s)" % y for y in x))
    return lambda p: bool(r.search(p or ""))
