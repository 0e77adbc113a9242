"""Hash-consed abstract values."""


class Term:
    __slots__ = ("tag", "a", "n", "_refs", "_roots", "_h")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


_TAB = {}


def T(tag, *a):
    k = (tag, a) if tag != "k" else (tag, type(a[0]), a)
    t = _TAB.get(k)
    if t is None:
        t = Term()
        t.tag = tag
        t.a = a
        t.n = len(_TAB)
        t._refs = None
        t._roots = None
        _TAB[k] = t
    return t


MOVED = T("moved")
TOP = T("top")
UNIT = T("tup", ())
EMPTY = T("empty")
TRUE = T("k", True)
FALSE = T("k", False)


def K(v):
    return T("k", v)


def B(v):
    return TRUE if v else FALSE


def adt(path, variant, fields=()):
    return T("adt", path, variant, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"
NONE = adt(OPT, "None")


def Some(v):
    return adt(OPT, "Some", (("0", v),))


def Ok(v):
    return adt(RES, "Ok", (("0", v),))


def Err(v):
    return adt(RES, "Err", (("0", v),))


def fld(t, p):
    """project a value by one projection element ('.x', '@V', '[]')"""
    tag = t.tag
    if tag == "adt":
        if p[0] == "@":
            return t if t.a[1] == p[1:] else T("fld", t, p)
        for n, v in t.a[2]:
            if n == p[1:]:
                return v
        return T("fld", t, p)
    if tag == "tup":
        if p[0] == ".":
            try:
                return t.a[0][int(p[1:])]
            except Exception:
                return T("fld", t, p)
        if p[0] == "@":
            return t
    if tag == "clo":
        if p[0] == ".":
            try:
                return t.a[1][int(p[1:])]
            except Exception:
                return T("fld", t, p)
    if tag == "upd":
        base, ents = t.a
        sub = []
        for path, v in ents:
            if path and path[0] == p:
                if len(path) == 1:
                    return v
                sub.append((path[1:], v))
        b = fld(base, p)
        return T("upd", b, tuple(sub)) if sub else b
    if tag == "moved":
        return MOVED
    return T("fld", t, p)


EXPAND = None


def with_field(t, projs, v):
    """functional update of a constructed value; None when t is opaque"""
    if not projs:
        return v
    p = projs[0]
    if t.tag == "adt":
        if p[0] == "@":
            if t.a[1] != p[1:]:
                return None
            return with_field(t, projs[1:], v)
        out, hit = [], False
        for n, w in t.a[2]:
            if n == p[1:]:
                hit = True
                w = _wf(w, projs[1:], v)
            out.append((n, w))
        return T("adt", t.a[0], t.a[1], tuple(out)) if hit else None
    if t.tag == "tup" and p[0] == ".":
        i = int(p[1:])
        l = list(t.a[0])
        if i < len(l):
            l[i] = _wf(l[i], projs[1:], v)
            return T("tup", tuple(l))
    if t.tag == "clo" and p[0] == ".":
        i = int(p[1:])
        l = list(t.a[1])
        if i < len(l):
            l[i] = _wf(l[i], projs[1:], v)
            return T("clo", t.a[0], tuple(l), t.a[2])
    return None


def _wf(w, projs, v):
    r = with_field(w, projs, v)
    if r is not None:
        return r
    base, ents = (w.a if w.tag == "upd" else (w, ()))
    if EXPAND and base.tag == "call" and not base.a[2]:
        # a struct made by a call without arguments, then filled in field by field
        x = EXPAND(base)
        if x is not None:
            for e, y in ents + ((projs, v),):
                x = _wf(x, e, y)
            return x
    ents = tuple(e for e in ents if e[0][: len(projs)] != projs) + ((projs, v),)
    return T("upd", base, tuple(sorted(ents, key=lambda e: (e[0], e[1].n))))


# -- traversal ---------------------------------------------------------------

def kids(t):
    tag = t.tag
    if tag == "adt":
        return [v for _, v in t.a[2]]
    if tag == "tup" or tag == "arr":
        return list(t.a[0])
    if tag == "clo":
        return list(t.a[1])
    if tag == "upd":
        return [t.a[0]] + [v for _, v in t.a[1]]
    if tag == "call":
        return list(t.a[2])
    if tag == "coll":
        return [t.a[0]] + list(t.a[1])
    if tag == "iter":
        return [t.a[0]] + [x for ad in t.a[1] for x in ad if isinstance(x, Term)]
    if tag == "ref":
        r = t.a[0].a[0]
        return [r.a[0]] if r.tag == "H" else []
    return [x for x in t.a if isinstance(x, Term)]


def refs(t):
    """locations a value can reach through references it contains"""
    r = t._refs
    if r is None:
        if t.tag == "ref":
            r = frozenset((t.a[0],))
            root = t.a[0].a[0]
            if root.tag == "H":
                r |= refs(root.a[0])
        else:
            r = frozenset()
            for k in kids(t):
                r |= refs(k)
        t._refs = r
    return r


_ROOT = ("call", "await", "arg", "hv", "elem", "any", "recv")


def roots(t):
    r = t._roots
    if r is None:
        if t.tag in _ROOT:
            r = frozenset((t,))
        else:
            r = frozenset()
            for k in kids(t):
                r |= roots(k)
        t._roots = r
    return r


def contains(t, x, through_calls=True):
    st = [t]
    seen = set()
    while st:
        u = st.pop()
        if u is x:
            return True
        if u in seen:
            continue
        seen.add(u)
        if u.tag == "call" and not through_calls:
            continue
        if u.tag == "await" and not through_calls:
            continue
        st.extend(kids(u))
    return False


def subterms(t):
    st = [t]
    seen = set()
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        st.extend(kids(u))


def depth(t, lim=60):
    if lim == 0:
        return 99
    m = 0
    for k in kids(t):
        m = max(m, depth(k, lim - 1))
        if m > 50:
            return 99
    return m + 1


def short(p):
    import re
    for _ in range(4):
        p = re.sub(r"(::)?<[^<>]*>(?!::<)", "", p) if not p.startswith("<") else re.sub(r"^<(?:impl )?([\w:]+)(?:<.*>)?(?: as .*| for .*)?>(?=::\w)", r"\1", p)
    return "::".join(p.split("::")[-2:])


def show(t, d=4):
    if not isinstance(t, Term):
        return str(t)
    if d < 0:
        return "…"
    g = t.tag
    if g == "k":
        return repr(t.a[0]) if isinstance(t.a[0], str) else str(t.a[0])
    if g == "adt":
        n = t.a[0].split("::")[-1]
        v = t.a[1]
        h = n if (v is None or v == n) else "%s::%s" % (n, v)
        if not t.a[2]:
            return h
        return "%s{%s}" % (h, ",".join("%s:%s" % (k, show(v, d - 1)) for k, v in t.a[2]))
    if g == "tup":
        return "(%s)" % ",".join(show(x, d - 1) for x in t.a[0])
    if g == "arr":
        return "[%s]" % ",".join(show(x, d - 1) for x in t.a[0])
    if g == "fld":
        return "%s%s" % (show(t.a[0], d - 1), t.a[1])
    if g == "call":
        return "%s(%s)" % (short(t.a[1]), ",".join(show(x, d - 1) for x in t.a[2]))
    if g == "await":
        return "await:%s" % show(t.a[0], d)
    if g == "arg":
        return "arg%s" % (t.a[0],)
    if g == "ref":
        return "&" + show(t.a[0], d)
    if g == "loc":
        r = t.a[0]
        b = "_%d.%d" % (r.a[0], r.a[1]) if r.tag == "L" else show(r.a[0], d - 1)
        return b + "".join(t.a[1])
    if g == "clo":
        return "closure[%s]" % t.a[0].split("::", 2)[-1]
    if g == "hv":
        return "mut:%s" % show(t.a[1], d - 1)
    if g == "bin":
        return "(%s %s %s)" % (show(t.a[1], d - 1), t.a[0], show(t.a[2], d - 1))
    return "%s(%s)" % (g, ",".join(show(x, d - 1) if isinstance(x, Term) else str(x) for x in t.a if not (isinstance(x, Term) and x.tag == "site")))
