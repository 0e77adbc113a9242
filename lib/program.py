"""The resolved program: bodies, impls, traits, types; log-macro regions collapsed; liveness."""
import json, os, pickle, re, sys

GEN_FILES = ("/proto/network.rs", "/proto/sharding.rs", "/proto/singleton.rs", "proto/journal.rs")
_generic_tok = re.compile(r"(?<![\w:'])([A-Z]\w*)(?!\w|::)")


class Body:
    __slots__ = ("id", "name", "kind", "coroutine", "is_async", "parent", "root", "impl_self", "impl_trait",
                 "in_trait", "vis", "generics", "file", "line", "args", "locals", "names", "blocks", "logskip",
                 "npred", "live", "crate", "stolen", "idx", "promoted")

    def __repr__(self):
        return "<Body %s>" % self.id


class Program:
    def __init__(self, facts_dir):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.by_trait = {}
        for c in ("coerce", "coerce_redis"):
            with open(os.path.join(facts_dir, c + ".json")) as f:
                d = json.load(f)
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for i in d["impls"]:
                self.impls.append(i)
                if i["trait"]:
                    self.by_trait.setdefault(base(i["trait"]), []).append(i)
            for t in d["traits"]:
                self.traits[t["path"]] = t
            for b in d["bodies"]:
                o = Body()
                o.id = b["id"]; o.name = b["name"]; o.kind = b["kind"]; o.coroutine = b["coroutine"]
                o.is_async = b["async"]; o.parent = b["parent"]; o.root = b["root"]
                o.impl_self = b["impl_self"]; o.impl_trait = b["impl_trait"]; o.in_trait = b["in_trait"]
                o.vis = b["vis"]; o.generics = b["generics"]; o.file = b["file"]; o.line = b["line"]
                o.args = b["args"]; o.locals = b["locals"]; o.names = b["names"]
                o.blocks = b["blocks"]; o.logskip = None; o.npred = None; o.live = None
                o.crate = c; o.promoted = b.get("promoted", [])
                o.stolen = b.get("stolen", False)
                o.idx = len(self.bodies)
                self.bodies[o.id] = o
        self._alias = {}
        for i in self.bodies:
            self._alias.setdefault(norm(i), i)
        self._rescache = {}
        self.trait_items = {}
        for t in self.traits.values():
            for n, p, d in t["items"]:
                self.trait_items[p] = (t["path"], n, d)

    # -- lookup -----------------------------------------------------------
    def body(self, path):
        b = self.bodies.get(path)
        if b is None:
            a = self._alias.get(norm(path))
            b = self.bodies.get(a) if a else None
        return b

    def fns(self, pred=None, **kw):
        for b in self.bodies.values():
            if b.kind == "Closure":
                continue
            if all(getattr(b, k) == v for k, v in kw.items()) and (pred is None or pred(b)):
                yield b

    def handler(self, actor_re, msg_re, trait="coerce::actor::message::Handler", method="handle"):
        """bodies of `impl Handler<Msg> for Actor`"""
        out = []
        for im in self.by_trait.get(trait, []):
            m = re.match(r"^[\w:]+<(.*)>$", im["trait"])
            msg = m.group(1) if m else ""
            if re.search(actor_re, im["self"]) and re.search(msg_re, msg):
                for n, p in im["items"]:
                    if n == method and self.body(p):
                        out.append(self.body(p))
        return out

    def impl_method(self, trait_re, self_re, method):
        out = []
        for im in self.impls:
            if im["trait"] and re.search(trait_re, im["trait"]) and re.search(self_re, im["self"]):
                for n, p in im["items"]:
                    if n == method and self.body(p):
                        out.append(self.body(p))
        return out

    def inherent(self, self_re, method):
        out = []
        for im in self.impls:
            if not im["trait"] and re.search(self_re, im["self"]):
                for n, p in im["items"]:
                    if n == method and self.body(p):
                        out.append(self.body(p))
        return out

    # -- trait resolution with substitution ---------------------------------
    def resolve_trait(self, trait_fn, gargs):
        """impl item path for a trait method once Self (gargs[0]) is concrete; returns (body, subst)"""
        key = (trait_fn, tuple(gargs))
        if key in self._rescache:
            return self._rescache[key]
        r = None
        ti = self.trait_items.get(trait_fn)
        if ti and gargs:
            tpath, name, hasdef = ti
            selfty = strip_ref(gargs[0])
            if re.match(r"^(impl )?[A-Z]\w*$", selfty) or "dyn " in selfty[:5] or selfty.startswith("<"):
                self._rescache[key] = None
                return None
            n_tr = None
            for im in self.by_trait.get(tpath, []):
                m = unify(im["self"], selfty)
                if m is None:
                    continue
                tg = targs(im["trait"])
                ok = True
                for a, b in zip(tg, gargs[1:1 + len(tg)]):
                    m2 = unify(a, b)
                    if m2 is None or any(m.get(k, v) != v for k, v in m2.items()):
                        ok = False
                        break
                    m.update(m2)
                if not ok:
                    continue
                for n, p in im["items"]:
                    if n == name and self.body(p):
                        r = (self.body(p), dict(m))
                if r is None and hasdef and self.body(trait_fn):
                    r = (self.body(trait_fn), {"Self": selfty})
                break
        self._rescache[key] = r
        return r

    # -- per-body preparation ------------------------------------------------
    def prepare(self, b):
        if b.logskip is None:
            _prepare(b)
        return b


def base(t):
    i = t.find("<")
    return t if i < 0 else t[:i]


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    return [x for x in split_args(t[i + 1:-1]) if not x.startswith("'")]


def split_args(s):
    out, d, cur = [], 0, ""
    for j, c in enumerate(s):
        if c in "<([{":
            d += 1
        elif c in ")]}" or (c == ">" and s[j - 1] != "-"):
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def norm(p):
    return re.sub(r"::<[^<>]*(?:<[^<>]*(?:<[^<>]*>[^<>]*)*>[^<>]*)*>", "", p)


def strip_ref(t):
    while t.startswith("&"):
        t = t[1:]
        if t.startswith("mut "):
            t = t[4:]
    return t


_ucache = {}


def unify(pat, s):
    """match an impl's type string against a concrete one; generics are bare capitalised identifiers"""
    r = _ucache.get(pat)
    if r is None:
        out, last, names = "", 0, []
        for m in _generic_tok.finditer(pat):
            out += re.escape(pat[last:m.start()])
            n = m.group(1)
            if n in names:
                out += "(?P=%s)" % n
            else:
                names.append(n)
                out += "(?P<%s>.+)" % n
            last = m.end()
        out += re.escape(pat[last:])
        r = re.compile("^" + out + "$")
        _ucache[pat] = r
    m = r.match(s)
    return dict(m.groupdict()) if m else None


_scache = {}


def apply_subst(s, sub):
    if not sub:
        return s
    k = (s, sub)
    r = _scache.get(k)
    if r is None:
        d = dict(sub)
        r = re.sub(r"(?<![\w:'])([A-Z]\w*)(?!\w)", lambda m: d.get(m.group(1), m.group(1)), s)
        _scache[k] = r
    return r


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "yield":
        return [t[1]]
    return []


def _prepare(b):
    n = len(b.blocks)
    def pure(x):
        return all(s[0] != "=" or len(s) > 4 or _unitassign(s) for s in x["s"])
    log = [bool(x.get("log")) and pure(x) for x in b.blocks]
    anylog = [bool(x.get("log")) for x in b.blocks]
    succ = [succs(x["t"]) for x in b.blocks]
    # collapse of logging regions: from a block whose terminator is a log-macro one, the unique
    # first block that is not pure logging
    skip = [None] * n
    for i in range(n):
        if not anylog[i]:
            continue
        seen, st, exits = set(), list(succ[i]), set()
        while st:
            j = st.pop()
            if j in seen:
                continue
            seen.add(j)
            if log[j] or (b.blocks[j]["t"][0] == "goto" and pure(b.blocks[j])):
                st.extend(succ[j])
                if not succ[j] and b.blocks[j]["t"][0] == "ret":
                    exits.add(j)
            else:
                exits.add(j)
        # a goto-only block belongs to the region only if all the paths through it are log paths
        if len(exits) == 1:
            skip[i] = next(iter(exits))
    b.logskip = skip
    npred = [0] * n
    for i in range(n):
        for j in ([skip[i]] if skip[i] is not None else succ[i]):
            npred[j] += 1
    b.npred = npred
    b.live = _liveness(b, succ)


def _unitassign(s):
    rv = s[2]
    return rv[0] == "tuple" and not rv[1]


def _pl_uses(pl, acc):
    acc.add(pl[0])


def _op_uses(o, acc):
    if o[0] in ("c", "m"):
        acc.add(o[1][0])


def rv_uses(rv, acc):
    k = rv[0]
    if k == "use":
        _op_uses(rv[1], acc)
    elif k == "ref":
        acc.add(rv[1][0])
    elif k == "bin":
        _op_uses(rv[2], acc); _op_uses(rv[3], acc)
    elif k == "un":
        _op_uses(rv[2], acc)
    elif k == "discr":
        acc.add(rv[1][0])
    elif k == "cast":
        _op_uses(rv[1], acc)
    elif k == "repeat":
        _op_uses(rv[1], acc)
    elif k == "adt":
        for o in rv[4]:
            _op_uses(o, acc)
    elif k in ("closure", "coroutine"):
        for o in rv[2]:
            _op_uses(o, acc)
    elif k in ("tuple", "array"):
        for o in rv[1]:
            _op_uses(o, acc)
    elif k == "other":
        for o in rv[1:]:
            if isinstance(o, list) and o and o[0] in ("c", "m"):
                _op_uses(o, acc)


def _liveness(b, succ):
    n = len(b.blocks)
    use, dfn = [], []
    for bl in b.blocks:
        u, d = set(), set()

        def usev(s):
            for x in s:
                if x not in d:
                    u.add(x)
        for s in bl["s"]:
            if s[0] == "=":
                acc = set()
                rv_uses(s[2], acc)
                if len(s[1]) > 1:
                    acc.add(s[1][0])
                usev(acc)
                if len(s[1]) == 1:
                    d.add(s[1][0])
            elif s[0] == "dead":
                d.add(s[1])
        t = bl["t"]
        acc = set()
        if t[0] == "switch":
            _op_uses(t[1], acc)
        elif t[0] == "call":
            _op_uses(t[1], acc)
            for o in t[2]:
                _op_uses(o, acc)
            if len(t[3]) > 1:
                acc.add(t[3][0])
        elif t[0] == "drop":
            acc.add(t[1][0])
        elif t[0] == "ret":
            acc.add(0)
        usev(acc)
        if t[0] == "call" and len(t[3]) == 1:
            d.add(t[3][0])
        use.append(u)
        dfn.append(d)
    live = [set(u) for u in use]
    ch = True
    order = list(range(n - 1, -1, -1))
    while ch:
        ch = False
        for i in order:
            o = set()
            for j in succ[i]:
                o |= live[j]
            x = use[i] | (o - dfn[i])
            if x != live[i]:
                live[i] = x
                ch = True
    return [frozenset(x) for x in live]


_cache = {}


def load():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import extract
    d = extract.facts_dir()
    if d not in _cache:
        pk = os.path.join(d, "program.pickle")
        me = os.path.getmtime(os.path.abspath(__file__))
        if os.path.exists(pk) and os.path.getmtime(pk) > me:
            try:
                with open(pk, "rb") as f:
                    _cache[d] = pickle.load(f)
                return _cache[d]
            except Exception:
                pass
        p = Program(d)
        _cache[d] = p
        try:
            with open(pk + ".tmp%d" % os.getpid(), "wb") as f:
                pickle.dump(p, f, protocol=4)
            os.rename(pk + ".tmp%d" % os.getpid(), pk)
        except Exception:
            pass
    return _cache[d]
