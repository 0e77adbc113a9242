"""Abstract semantics of the std / tokio / futures functions the code base uses."""
import re
from terms import *
from engine import POLL, CF, Event, Frame, State
from program import GEN_FILES

OVERRIDE = {
    "std::clone::Clone::clone", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne",
    "futures::Future::poll", "std::future::Future::poll", "std::future::IntoFuture::into_future",
    "std::string::ToString::to_string", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
}

_gencache = {}


def is_gen(b):
    r = _gencache.get(b.id)
    if r is None:
        r = any(b.file.endswith(g) for g in GEN_FILES) or "_serde" in b.id or "serde::" in b.id.split(" for ")[0] \
            or b.id.endswith("::fmt") or (b.impl_trait or "").startswith(("std::fmt::", "coerce::serde::", "serde::"))
        _gencache[b.id] = r
    return r


_PURE = re.compile("|".join([
    r"^std::fmt::", r"^core::fmt::", r"type_name$", r"TypeId::of$", r"Duration::(from_|as_)", r"to_lowercase$",
    r"::len$", r"::is_empty$", r"^std::any::", r"hint::must_use$", r"^std::cmp::", r"chrono::Duration",
]))


def is_pure(p):
    return bool(_PURE.search(p))


TAB = {}
RX = []


def model(*names):
    def d(fn):
        for n in names:
            TAB[n] = fn
        return fn
    return d


_fc = {}


def find(path):
    if path in _fc:
        return _fc[path]
    p = re.sub(r"::<[^:]*?>(?=::)", "", path)
    r = TAB.get(path) or TAB.get(p)
    if r is None:
        for rx, fn in RX:
            if rx.search(path):
                r = fn
                break
    _fc[path] = r
    return r


def model_rx(rx):
    def d(fn):
        RX.append((re.compile(rx), fn))
        return fn
    return d


# ---------------------------------------------------------------------------------------------
# completing a call: continuation `p` with value v in the caller's frame (f carries dest/target)

def post(e, st, f, p, v):
    k = p[0]
    if k == "ret":
        return e.finish_call(st, f.dest, f.target, v)
    if k == "wrap":
        return post(e, st, f, p[3], adt(p[1], p[2], (("0", v),)))
    if k == "const":
        return post(e, st, f, p[2], p[1])
    if k == "ready":
        return e.finish_call(st, f.dest, f.target, adt(POLL, "Ready", (("0", v),)))
    if k == "top2" or k == "top":
        return []
    if k == "it":
        return advance(e, st, f.dest, f.target, p[1], p[2], p[3], v, p[4])
    if k == "itf":
        _, base, ads, idx, elem, cont = p
        out = []
        how = ads[idx - 1][0]
        for want in (True, False):
            s2 = st.copy()
            vv = e.deref(s2, v)
            known = e.truth(s2, vv)
            if e.assume_bool(s2, vv, want) is None:
                continue
            if known is None and not e.emit(s2, e.mkev(s2, "branch", value=vv, out=want, line=0)):
                continue
            if want != (how == "skip_while"):
                out += advance(e, s2, f.dest, f.target, base, ads, idx, elem, cont)
            elif how == "take_while":
                if e.emit(s2, e.mkev(s2, "next", value=base, out="None", args=[], loc=T("ads", ads))):
                    out += exhausted(e, s2, f.dest, f.target, base, ads, cont)
            else:
                out += start(e, s2, f.dest, f.target, base, ads, cont)
        return out
    if k == "itfm":
        _, base, ads, idx, cont = p
        out = []
        for s2, pl in cases(e, st, v, "Some", "None"):
            if pl is not None:
                out += advance(e, s2, f.dest, f.target, base, ads, idx, pl, cont)
            else:
                out += start(e, s2, f.dest, f.target, base, ads, cont)
        return out
    if k == "each2":
        return start(e, st, f.dest, f.target, p[1], p[2], p[3])
    if k == "retain2":
        out = []
        for want in (True, False):
            s2 = st.copy()
            vv = e.deref(s2, v)
            known = e.truth(s2, vv)
            if e.assume_bool(s2, vv, want) is None:
                continue
            if known is None and not e.emit(s2, e.mkev(s2, "branch", value=vv, out=want, line=0)):
                continue
            if e.emit(s2, e.mkev(s2, "retain", value=p[4], out=want, args=[p[4], p[1]])):
                out += start(e, s2, f.dest, f.target, p[1], p[2], p[3])
        return out
    if k == "pred":
        return pred_done(e, st, f, p, v)
    if k == "boolfork":
        out = []
        _, clo_unused, tv, fv, nxt = p
        for want in (True, False):
            s2 = st.copy()
            if e.assume_bool(s2, e.deref(s2, v), want) is None:
                continue
            out += post(e, s2, f, nxt, tv if want else fv)
        return out
    if k == "joinelem":
        return start(e, st, f.dest, f.target, p[1], p[2], ("join", p[1], p[2], p[3] + ((v,) if v not in p[3] and len(p[3]) < 3 else ())))
    if k == "store":
        if len(p) > 3:
            # a vacant entry is filled with what the closure made
            path, decl, ent, line, g = p[3]
            if not e.emit(st, e.mkev(st, "call", path=path, decl=decl, args=[ent, v], line=line, g=g)):
                return []
        e.write(st, p[1], v)
        return post(e, st, f, p[2], T("ref", p[1], True))
    if k == "select":
        return e.finish_call(st, f.dest, f.target, v)
    raise RuntimeError("unknown continuation %r" % (p,))


def done(e, st, dest, target, p, v):
    f = st.frames[-1]
    return post(e, st, Frame(f.body, f.bb, dest, target, p, f.sub, f.ctx), p, v)


@model_rx(r"^(?:coerce::)?(tracing|tracing_core|tracing_futures|log|metrics|opentelemetry|valuable)::")
def _tracing(e, st, ev, a, dest, target, p):
    """diagnostics have no behaviour of their own; Instrument wrappers stand for the wrapped future"""
    n = ev.decl.rsplit("::", 1)[-1]
    if n in ("instrument", "in_current_span", "with_subscriber", "with_current_subscriber", "or_current"):
        return done(e, st, dest, target, p, a[0])
    if n in ("is_disabled", "is_none", "is_enabled", "enabled"):
        return done(e, st, dest, target, p, FALSE)
    return done(e, st, dest, target, p, T("konst", "diag"))


# ---------------------------------------------------------------------------------------------
# Option / Result

_UNITOK = re.compile(r"(mpsc::\w*Sender|oneshot::Sender)(::<.*>)?::(send|try_send)$")


def payload(v, variant):
    if v.tag == "adt" and v.a[1] == variant:
        return v.a[2][0][1] if v.a[2] else UNIT
    if variant == "Ok" and v.tag == "call" and _UNITOK.search(v.a[1]):
        return UNIT
    return fld(fld(v, "@" + variant), ".0")


def cases(e, st, v, pos, neg, both=False, line=0):
    """fork on the variant of v: (state, payload) for pos, (state, None | neg payload) for neg"""
    v = e.deref(st, v)
    out = []
    k = e.variant(st, v)
    for name in (pos, neg):
        if k is not None and k != name:
            continue
        s2 = st if k is not None else st.copy()
        if k is None:
            if e.assume_variant(s2, v, name) is None:
                continue
            if not e.emit(s2, e.mkev(s2, "branch", value=v, out=name, line=line)):
                continue
        if name == pos:
            out.append((s2, payload(v, pos), True))
        else:
            out.append((s2, payload(v, neg) if both else None, False))
    if both:
        return out
    return [(s, p) for s, p, _ in out]


def _names(path):
    return ("Some", "None") if "option::Option" in path else ("Ok", "Err")


def _panic(e, st, ev):
    ev2 = e.mkev(st, "panic", path=ev.path, decl=ev.decl, args=ev.args, line=ev.line)
    e.emit(st, ev2)
    if e.panics:
        e.finish(st, "panic", T("k", ev.path), ev2.where())
    return []


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(unwrap|expect|unwrap_unchecked)$")
def m_unwrap(e, st, ev, a, dest, target, p):
    pos, neg = _names(ev.decl)
    out = []
    for s, pl in cases(e, st, a[0], pos, neg, line=ev.line):
        if pl is None:
            out += _panic(e, s, ev)
        else:
            out += done(e, s, dest, target, p, pl)
    return out


@model_rx(r"^std::result::Result::<.*>::(unwrap_err|expect_err)$")
def m_unwrap_err(e, st, ev, a, dest, target, p):
    out = []
    for s, pl in cases(e, st, a[0], "Err", "Ok", line=ev.line):
        out += _panic(e, s, ev) if pl is None else done(e, s, dest, target, p, pl)
    return out


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(is_some|is_none|is_ok|is_err)$")
def m_is(e, st, ev, a, dest, target, p):
    n = ev.decl.rsplit("::", 1)[1]
    pos, neg = _names(ev.decl)
    want = n in ("is_some", "is_ok")
    out = []
    for s, pl in cases(e, st, a[0], pos, neg, line=ev.line):
        out += done(e, s, dest, target, p, B((pl is not None) == want))
    return out


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(is_some_and|is_ok_and|is_none_or)$")
def m_is_and(e, st, ev, a, dest, target, p):
    pos, neg = _names(ev.decl)
    out = []
    for s, pl in cases(e, st, a[0], pos, neg, line=ev.line):
        if pl is None:
            out += done(e, s, dest, target, p, B(ev.decl.endswith("is_none_or")))
        else:
            out += e.call_closure(s, a[1], [pl], dest, target, p)
    return out


def default_of(ty):
    if re.match(r"^(i|u)(8|16|32|64|128|size)$", ty):
        return K(0)
    if ty == "bool":
        return FALSE
    return T("default", T("k", ty))


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(unwrap_or|unwrap_or_default|unwrap_or_else)$")
def m_unwrap_or(e, st, ev, a, dest, target, p):
    n = ev.decl.rsplit("::", 1)[1]
    pos, neg = _names(ev.decl)
    out = []
    for s, pl, isp in cases(e, st, a[0], pos, neg, both=True, line=ev.line):
        if isp:
            out += done(e, s, dest, target, p, pl)
        elif n == "unwrap_or":
            out += done(e, s, dest, target, p, a[1])
        elif n == "unwrap_or_default":
            out += done(e, s, dest, target, p, default_of(ev.g[0] if ev.g else ""))
        else:
            out += e.call_closure(s, a[1], [] if "Option" in ev.decl else [pl], dest, target, p)
    return out


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(map|map_err|and_then|or_else|map_or|map_or_else|ok_or|ok_or_else|ok|err|or|and|filter|flatten|zip|inspect|inspect_err)$")
def m_comb(e, st, ev, a, dest, target, p):
    n = ev.decl.rsplit("::", 1)[1]
    opt = "option::Option" in ev.decl
    pos, neg = _names(ev.decl)
    path = OPT if opt else RES
    out = []
    for s, pl, isp in cases(e, st, a[0], pos, neg, both=True, line=ev.line):
        negv = NONE if opt else Err(pl)
        if n in ("map", "inspect"):
            if isp and n == "map":
                out += e.call_closure(s, a[1], [pl], dest, target, ("wrap", path, pos, p))
            elif isp:
                out += e.call_closure(s, a[1], [pl], dest, target, ("const", adt(path, pos, (("0", pl),)), p))
            else:
                out += done(e, s, dest, target, p, negv)
        elif n in ("map_err", "inspect_err"):
            if isp:
                out += done(e, s, dest, target, p, Ok(pl))
            elif n == "map_err":
                out += e.call_closure(s, a[1], [pl], dest, target, ("wrap", RES, "Err", p))
            else:
                out += e.call_closure(s, a[1], [pl], dest, target, ("const", Err(pl), p))
        elif n == "and_then":
            out += e.call_closure(s, a[1], [pl], dest, target, p) if isp else done(e, s, dest, target, p, negv)
        elif n == "and":
            out += done(e, s, dest, target, p, a[1] if isp else negv)
        elif n == "or_else":
            if isp:
                out += done(e, s, dest, target, p, adt(path, pos, (("0", pl),)))
            else:
                out += e.call_closure(s, a[1], [] if opt else [pl], dest, target, p)
        elif n == "or":
            out += done(e, s, dest, target, p, adt(path, pos, (("0", pl),)) if isp else a[1])
        elif n == "map_or":
            out += e.call_closure(s, a[2], [pl], dest, target, p) if isp else done(e, s, dest, target, p, a[1])
        elif n == "map_or_else":
            if isp:
                out += e.call_closure(s, a[2], [pl], dest, target, p)
            else:
                out += e.call_closure(s, a[1], [] if opt else [pl], dest, target, p)
        elif n == "ok_or":
            out += done(e, s, dest, target, p, Ok(pl) if isp else Err(a[1]))
        elif n == "ok_or_else":
            out += done(e, s, dest, target, p, Ok(pl)) if isp else e.call_closure(s, a[1], [], dest, target, ("wrap", RES, "Err", p))
        elif n == "ok":
            out += done(e, s, dest, target, p, Some(pl) if isp else NONE)
        elif n == "err":
            out += done(e, s, dest, target, p, NONE if isp else Some(pl))
        elif n == "filter":
            if isp:
                out += e.call_closure(s, a[1], [pl], dest, target, ("boolfork", None, Some(pl), NONE, p))
            else:
                out += done(e, s, dest, target, p, NONE)
        elif n == "flatten":
            out += done(e, s, dest, target, p, pl if isp else negv)
        elif n == "zip":
            out += done(e, s, dest, target, p, Some(T("tup", (pl, T("any", T("k", "zip"))))) if isp else NONE)
    return out


@model_rx(r"^std::(option::Option|result::Result)::<.*>::(as_ref|as_mut|as_deref|as_deref_mut|cloned|copied)$")
def m_as_ref(e, st, ev, a, dest, target, p):
    pos, neg = _names(ev.decl)
    n = ev.decl.rsplit("::", 1)[1]
    out = []
    x = a[0]
    loc = None
    while x.tag == "ref":
        loc = x.a[0]
        x = e.read(st, loc)
    for s, pl, isp in cases(e, st, a[0], pos, neg, both=True, line=ev.line):
        path = OPT if pos == "Some" else RES
        if isp:
            if n in ("cloned", "copied"):
                v = adt(path, pos, (("0", e.deref(s, pl)),))
            elif loc is not None and pl.tag != "ref":
                v = adt(path, pos, (("0", T("ref", T("loc", loc.a[0], loc.a[1] + ("@" + pos, ".0")), "mut" in n)),))
            else:
                v = adt(path, pos, (("0", pl),))
        else:
            v = NONE if path == OPT else Err(pl)
        out += done(e, s, dest, target, p, v)
    return out


def _wr(e, st, loc, v, ev):
    if not e.emit(st, e.mkev(st, "write", loc=loc, value=v, line=ev.line)):
        return False
    e.write(st, loc, v)
    return True


def _mutloc(e, st, r):
    loc = None
    while r.tag == "ref":
        loc = r.a[0]
        r = e.read(st, loc)
        if r.tag != "ref":
            return loc
    return T("loc", T("H", r), ())


@model_rx(r"^std::option::Option::<.*>::take$")
def m_take(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    v = e.read(st, loc)
    if not _wr(e, st, loc, NONE, ev):
        return []
    return done(e, st, dest, target, p, v)


@model_rx(r"^std::option::Option::<.*>::(replace|insert)$")
def m_replace(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    v = e.read(st, loc)
    if not _wr(e, st, loc, Some(a[1]), ev):
        return []
    if ev.decl.endswith("insert"):
        return done(e, st, dest, target, p, T("ref", T("loc", loc.a[0], loc.a[1] + ("@Some", ".0")), True))
    return done(e, st, dest, target, p, v)


@model_rx(r"^std::option::Option::<.*>::(get_or_insert_with|get_or_insert)$")
def m_goi(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    inner = T("loc", loc.a[0], loc.a[1] + ("@Some", ".0"))
    out = []
    for s, pl in cases(e, st, e.read(st, loc), "Some", "None"):
        if pl is not None:
            out += done(e, s, dest, target, p, T("ref", inner, True))
        elif ev.decl.endswith("with"):
            e.write(s, loc, Some(TOP))
            out += e.call_closure(s, a[1], [], dest, target, ("store", inner, p))
        else:
            if not _wr(e, s, loc, Some(a[1]), ev):
                continue
            out += done(e, s, dest, target, p, T("ref", inner, True))
    return out


@model("std::mem::replace", "std::mem::take", "std::mem::swap")
def m_memreplace(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    v = e.read(st, loc)
    if ev.decl.endswith("swap"):
        l2 = _mutloc(e, st, a[1])
        w = e.read(st, l2)
        if not (_wr(e, st, loc, w, ev) and _wr(e, st, l2, v, ev)):
            return []
        return done(e, st, dest, target, p, UNIT)
    if ev.decl.endswith("replace"):
        n = a[1]
    else:
        n = NONE if (ev.g and ev.g[0].startswith(OPT)) else T("coll", EMPTY, ())
    if not _wr(e, st, loc, n, ev):
        return []
    return done(e, st, dest, target, p, v)


@model("std::ops::Try::branch")
def m_branch(e, st, ev, a, dest, target, p):
    opt = bool(ev.g) and ev.g[0].startswith(OPT)
    pos, neg = ("Some", "None") if opt else ("Ok", "Err")
    out = []
    for s, pl, isp in cases(e, st, a[0], pos, neg, both=True, line=ev.line):
        if isp:
            v = adt(CF, "Continue", (("0", pl),))
        else:
            v = adt(CF, "Break", (("0", NONE if opt else Err(pl)),))
        out += done(e, s, dest, target, p, v)
    return out


@model("std::ops::FromResidual::from_residual")
def m_resid(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    if v.tag == "adt" and v.a[1] == "Err" and ev.g:
        # error conversion through a local From impl is followed
        m = re.match(r"^std::result::Result<(.*)>$", ev.g[0])
        m2 = re.match(r"^std::result::Result<(.*)>$", ev.g[1]) if len(ev.g) > 1 else None
        if m and m2:
            from program import split_args
            x, y = split_args(m.group(1)), split_args(m2.group(1))
            if len(x) == 2 and len(y) == 2 and x[1] != y[1]:
                b = find_from(e, x[1], y[1])
                if b is not None and e.can_inline(st, b):
                    return e.push(st, b, [v.a[2][0][1]], dest, target, ("wrap", RES, "Err", p), (), st.frames[-1].bb)
    return done(e, st, dest, target, p, v)


def find_from(e, target_ty, src_ty):
    from program import unify, targs
    for im in e.p.by_trait.get("std::convert::From", []):
        if unify(im["self"], target_ty) is None:
            continue
        tg = targs(im["trait"])
        if tg and unify(tg[0], src_ty) is not None:
            for n, pth in im["items"]:
                if n == "from":
                    return e.p.body(pth)
    return None


@model("std::convert::Into::into", "std::convert::From::from", "std::convert::TryInto::try_into")
def m_into(e, st, ev, a, dest, target, p):
    if ev.g and len(ev.g) > 1:
        s, d = (ev.g[0], ev.g[1]) if ev.decl.endswith("into") else (ev.g[1], ev.g[0])
        b = find_from(e, d, s)
        if b is not None and not is_gen(b) and e.can_inline(st, b) and not e.opaque(b.id):
            return e.push(st, b, [a[0]], dest, target, p, (), st.frames[-1].bb)
        if d.startswith(OPT + "<") and not s.startswith(OPT):
            return done(e, st, dest, target, p, Some(a[0]))
        if d == s or d.startswith(("std::string::String", "std::sync::Arc<str>", "std::boxed::Box<str>")):
            return done(e, st, dest, target, p, a[0])
    return done(e, st, dest, target, p, a[0])


# ---------------------------------------------------------------------------------------------
# transparent wrappers

def ident(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, a[0])


for _n in [
    "std::future::IntoFuture::into_future", "std::pin::Pin::<Ptr>::new_unchecked", "std::pin::Pin::<Ptr>::new",
    "std::boxed::Box::<T>::pin", "std::boxed::Box::<T>::new", "std::sync::Arc::<T>::new", "std::rc::Rc::<T>::new",
    "coerce::tracing::Instrument::instrument", "core::fmt::rt::Argument::<'_>::new_display",
    "core::fmt::rt::Argument::<'_>::new_debug", "std::hint::must_use", "std::cell::RefCell::<T>::new",
    "protobuf::MessageField::<T>::some", "protobuf::EnumOrUnknown::<E>::new", "protobuf::MessageField::<T>::unwrap",
    "std::convert::identity", "std::sync::Arc::<T, A>::clone", "std::boxed::Box::<T, A>::into_inner",
    "std::boxed::Box::<T, A>::into_pin", "futures::FutureExt::boxed", "futures::FutureExt::fuse",
]:
    TAB[_n] = ident


@model("protobuf::EnumOrUnknown::<E>::unwrap", "protobuf::EnumOrUnknown::<E>::enum_value_or_default", "protobuf::EnumOrUnknown::<E>::enum_value_or")
def m_enum_value(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, e.deref(st, a[0]))


@model_rx(r"^(tokio::sync|parking_lot::lock_api|std::sync)::(Mutex|RwLock)::<.*>::new$")
def m_lock_new(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, a[0])


def m_deref(e, st, ev, a, dest, target, p):
    x = a[0]
    if x.tag == "ref":
        v = e.read(st, x.a[0])
        if v.tag == "ref":
            x = v
        elif v.tag not in ("adt", "tup", "clo", "upd", "moved", "coll", "iter", "arr", "hv"):
            x = v
    return done(e, st, dest, target, p, x)


for _n in ["std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
           "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::string::String::as_str",
           "std::vec::Vec::<T, A>::as_slice", "std::borrow::BorrowMut::borrow_mut", "std::sync::Arc::<T, A>::as_ref",
           "std::pin::Pin::<Ptr>::as_mut", "std::pin::Pin::<Ptr>::get_mut", "std::pin::Pin::<&'a mut T>::get_unchecked_mut",
           "std::pin::Pin::<&'a mut T>::get_mut", "std::vec::Vec::<T, A>::as_mut_slice",
           "std::boxed::Box::<T, A>::as_mut", "std::boxed::Box::<T, A>::as_ref", "std::string::String::as_bytes"]:
    TAB[_n] = m_deref


@model_rx(r"^(parking_lot::lock_api|std::sync)::(Mutex|RwLock)::<.*>::(lock|read|write)$")
def m_lock(e, st, ev, a, dest, target, p):
    if not e.emit(st, ev):
        return []
    return m_deref(e, st, ev, a, dest, target, p)


@model("std::clone::Clone::clone", "std::string::ToString::to_string", "std::borrow::ToOwned::to_owned",
       "std::slice::<impl [T]>::to_vec", "core::str::<impl str>::to_string", "std::slice::<impl [T]>::into_vec",
       "std::str::<impl str>::to_owned", "std::option::Option::<&T>::clone")
def m_clone(e, st, ev, a, dest, target, p):
    x = a[0]
    if x.tag == "ref":
        x = e.read(st, x.a[0])
    return done(e, st, dest, target, p, x)


@model("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def m_eq(e, st, ev, a, dest, target, p):
    x, y = e.resolve(st, a[0]), e.resolve(st, a[1])
    neg = ev.decl.endswith("::ne")
    for u, w in ((x, y), (y, x)):
        if w.tag == "adt" and w.a[1] is not None:
            ad = e.p.adts.get(w.a[0])
            isen = (ad and ad["enum"]) or w.a[0] in (OPT, RES)
            if isen and u.tag != "adt":
                out = []
                s1 = st.copy()
                k = e.variant(st, u)
                if e.assume_variant(s1, u, w.a[1]) is not None:
                    ok = k is not None or e.emit(s1, e.mkev(s1, "branch", value=u, out=w.a[1], line=ev.line))
                    if ok:
                        if not w.a[2]:
                            out += done(e, s1, dest, target, p, B(not neg))
                        else:
                            r = T("bin", "Eq", x, y)
                            out += done(e, s1, dest, target, p, T("un", "Not", r) if neg else r)
                s2 = st.copy()
                allv = [v[0] for v in ad["variants"]] if ad else (["Some", "None"] if w.a[0] == OPT else ["Ok", "Err"])
                if e.assume_not(s2, u, [w.a[1]], allv) is not None:
                    ok = k is not None or e.emit(s2, e.mkev(s2, "branch", value=u, out=e.variant(s2, u) or "!" + w.a[1], line=ev.line))
                    if ok:
                        out += done(e, s2, dest, target, p, B(neg))
                return out
            if isen and u.tag == "adt":
                if u.a[1] != w.a[1]:
                    return done(e, st, dest, target, p, B(neg))
                if not u.a[2] and not w.a[2]:
                    return done(e, st, dest, target, p, B(not neg))
    if x.tag == "adt" and y.tag == "adt" and x.a[0] in (OPT, RES) and x.a[1] == y.a[1] and len(x.a[2]) == 1 and len(y.a[2]) == 1:
        x, y = x.a[2][0][1], y.a[2][0][1]
    r = T("bin", "Eq", x, y)
    if depth(r, 40) > 30:
        r = T("call", T("site", st.frames[-1].ctx, st.frames[-1].bb), "eq", ())
    return done(e, st, dest, target, p, T("un", "Not", r) if neg else r)


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def m_cmp(e, st, ev, a, dest, target, p):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[ev.decl.rsplit("::", 1)[1]]
    return done(e, st, dest, target, p, e.binop(op, e.resolve(st, a[0]), e.resolve(st, a[1])))


@model("std::ops::Add::add", "std::ops::Sub::sub", "std::ops::BitOr::bitor", "std::ops::Mul::mul")
def m_arith(e, st, ev, a, dest, target, p):
    op = {"add": "Add", "sub": "Sub", "bitor": "BitOr", "mul": "Mul"}[ev.decl.rsplit("::", 1)[1]]
    return done(e, st, dest, target, p, e.binop(op, e.resolve(st, a[0]), e.resolve(st, a[1])))


@model("std::ops::AddAssign::add_assign", "std::ops::SubAssign::sub_assign")
def m_aassign(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    op = "Add" if "Add" in ev.decl else "Sub"
    if not _wr(e, st, loc, e.binop(op, e.resolve(st, e.read(st, loc)), e.resolve(st, a[1])), ev):
        return []
    return done(e, st, dest, target, p, UNIT)


@model("std::ops::Not::not")
def m_not(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("un", "Not", e.resolve(st, a[0])))


@model("std::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(e, st, ev, a, dest, target, p):
    v = e.resolve(st, a[0])
    k = e.variant(st, v)
    return done(e, st, dest, target, p, T("discrv", T("k", k)) if k else T("discrv", v))


@model("std::future::get_context")
def m_ctx(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("any", T("cx")))


@model("std::mem::drop")
def m_drop(e, st, ev, a, dest, target, p):
    if not e.emit(st, e.mkev(st, "drop", value=a[0], line=ev.line, ty=ev.g[0] if ev.g else "")):
        return []
    return done(e, st, dest, target, p, UNIT)


# pure results are identified by their arguments, not by the site
@model_rx(r"^(std::fmt::(format|Arguments)|std::any::(type_name|TypeId)|std::time::Duration::(from_|as_)|std::str::<impl str>::to_lowercase|chrono::Duration::)")
def m_pure(e, st, ev, a, dest, target, p):
    aa = []
    for x in a:
        x = e.resolve(st, x, 3)
        if depth(x, 20) > 7:
            from engine import trim
            x = trim(x, 6)
        aa.append(x)
    extra = tuple(T("k", g) for g in ev.g) if ("type_name" in ev.decl or "TypeId" in ev.decl) else ()
    return done(e, st, dest, target, p, T("call", T("pure"), ev.decl, tuple(aa) + extra))


# ---------------------------------------------------------------------------------------------
# futures

@model("futures::Future::poll", "std::future::Future::poll")
def m_poll(e, st, ev, a, dest, target, p):
    x = a[0]
    v = e.deref(st, x)
    f = st.frames[-1]
    if v.tag == "clo":
        b = e.p.body(v.a[0])
        if b is not None and b.coroutine and e.can_inline(st, b) and e.inline(b.id):
            out = []
            if f.sel:
                s2 = st.copy()
                out += e.finish_call(s2, dest, target, adt(POLL, "Pending"))
            return out + e.push(st, b, [v, T("any", T("cx"))], dest, target, ("ready",), v.a[2], f.bb)
    if v.tag == "readyv":
        return e.finish_call(st, dest, target, adt(POLL, "Ready", (("0", v.a[0]),)))
    if v.tag == "pollfn":
        c = e.deref(st, v.a[0])
        b = e.p.body(c.a[0]) if c.tag == "clo" else None
        if b is not None and e.can_inline(st, b):
            return e.push(st, b, [v.a[0], T("any", T("cx"))], dest, target, ("select",), c.a[2], f.bb, sel=True)
    if v.tag == "timeout":
        s2 = st.copy()
        out = []
        if e.emit(s2, e.mkev(s2, "timeout", value=v, line=ev.line)):
            out += e.finish_call(s2, dest, target, adt(POLL, "Ready", (("0", Err(T("any", T("elapsed")))),)))
        inner = v.a[0]
        b = e.p.body(inner.a[0]) if inner.tag == "clo" else None
        if b is not None and b.coroutine and e.can_inline(st, b):
            return out + e.push(st, b, [inner, T("any", T("cx"))], dest, target, ("wrap", RES, "Ok", ("ready",)), inner.a[2], f.bb)
        if not e.emit(st, e.mkev(st, "await", value=inner, line=ev.line, args=[inner])):
            return out
        r = T("await", inner, T("site", f.ctx, f.bb))
        e.kill_facts(st, r)
        return out + e.finish_call(st, dest, target, adt(POLL, "Ready", (("0", Ok(r)),)))
    if v.tag == "joinall":
        it = v.a[0]
        return start(e, st, dest, target, it.a[0], it.a[1], ("join", it.a[0], it.a[1], ()))
    out = []
    if f.sel:
        out += e.finish_call(st.copy(), dest, target, adt(POLL, "Pending"))
    if not e.emit(st, e.mkev(st, "await", value=v, line=ev.line, args=[v])):
        return out
    r = T("await", v, T("site", f.ctx, f.bb))
    e.kill_facts(st, r)
    return out + e.finish_call(st, dest, target, adt(POLL, "Ready", (("0", r),)))


@model("tokio::macros::support::poll_fn", "std::future::poll_fn")
def m_pollfn(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("pollfn", a[0]))


@model("tokio::time::timeout")
def m_timeout(e, st, ev, a, dest, target, p):
    if not e.emit(st, ev):
        return []
    return done(e, st, dest, target, p, T("timeout", a[1], e.resolve(st, a[0])))


@model("futures::future::join_all", "futures::future::try_join_all")
def m_joinall(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("joinall", as_iter(e, st, a[0])))


@model("std::future::ready", "futures::future::ready")
def m_fready(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("readyv", a[0]))


@model("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_blocking")
def m_spawn(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    f = st.frames[-1]
    ev.kind = "spawn"
    if not e.emit(st, ev):
        return []
    handle = T("call", T("site", f.ctx, f.bb), "tokio::spawn", (v,) if depth(v) < 6 else ())
    b = e.p.body(v.a[0]) if v.tag == "clo" else None
    mode = e.spawn(v, st) if callable(e.spawn) else e.spawn
    if b is None and mode == "inline" and v.tag == "call":
        if not e.emit(st, e.mkev(st, "await", value=v, line=ev.line, args=[v])):
            return []
        return done(e, st, dest, target, p, handle)
    if b is None and mode == "inline" and v.tag == "joinall":
        it = v.a[0]
        return start(e, st, dest, target, it.a[0], it.a[1], ("join", it.a[0], it.a[1], ()))
    if b is None or mode == "event" or not e.can_inline(st, b) or any(fr.body is b for fr in st.frames):
        return done(e, st, dest, target, p, handle)
    if mode == "inline":
        return e.push(st, b, [v, T("any", T("cx"))], dest, target, ("const", handle, p), v.a[2], f.bb)
    # fork: the task is a separate root that starts with what it captured
    out = done(e, st.copy(), dest, target, p, handle)
    s2 = st.copy()
    v2 = e.resolve(s2, v)
    ctx = e.ctx(f.ctx, (f.bb, "spawn"))
    e.kill_frame(s2, 0)
    e.p.prepare(b)
    s2.frames = (Frame(b, 0, None, None, ("top2",), v.a[2], ctx),)
    s2.mode = "spawned"
    s2.store[e.local(s2, 1)] = v2
    s2.store[e.local(s2, 2)] = T("any", T("cx"))
    out.append(s2)
    return out


# ---------------------------------------------------------------------------------------------
# callables

@model("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once")
def m_fncall(e, st, ev, a, dest, target, p):
    tup = e.deref(st, a[1]) if len(a) > 1 else UNIT
    args = list(tup.a[0]) if tup.tag == "tup" else [tup]
    return e.call_closure(st, a[0], args, dest, target, p)


# ---------------------------------------------------------------------------------------------
# iteration

def as_iter(e, st, x):
    v = e.deref(st, x)
    if v.tag == "iter":
        return v
    return T("iter", v if not refs(v) else e.resolve(st, v), ())


@model("std::iter::IntoIterator::into_iter", "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
       "std::collections::VecDeque::<T, A>::iter", "std::collections::VecDeque::<T, A>::iter_mut")
def m_into_iter(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, as_iter(e, st, a[0]))


@model_rx(r"^std::collections::(HashMap|HashSet|BTreeMap|BTreeSet|VecDeque|BinaryHeap)::<.*>::(iter|iter_mut|values|values_mut|keys|into_values|into_keys|drain)$|^std::vec::Vec::<.*>::drain$")
def m_map_iter(e, st, ev, a, dest, target, p):
    n = ev.decl.rsplit("::", 1)[1]
    if n == "drain":
        if not e.emit(st, ev):
            return []
    it = as_iter(e, st, a[0])
    if n in ("values", "values_mut", "keys", "into_values", "into_keys"):
        it = T("iter", it.a[0], it.a[1] + (("proj", "values" if "values" in n else "keys"),))
    if n == "drain":
        loc = _mutloc(e, st, a[0])
        e.write(st, loc, T("coll", EMPTY, ()))
    return done(e, st, dest, target, p, it)


_ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "take", "enumerate", "rev", "flatten", "skip", "peekable",
          "take_while", "skip_while", "inspect", "by_ref", "chain", "zip", "flat_map", "fuse", "step_by"}


@model_rx(r"^std::iter::(Iterator|DoubleEndedIterator)::(%s)$" % "|".join(sorted(_ADAPT)))
def m_adapt(e, st, ev, a, dest, target, p):
    n = ev.decl.rsplit("::", 1)[1]
    it = as_iter(e, st, a[0])
    if n in ("cloned", "copied", "peekable", "by_ref", "fuse", "rev"):
        if n == "rev":
            it = T("iter", it.a[0], it.a[1] + (("rev",),))
        return done(e, st, dest, target, p, it)
    extra = tuple(a[1:])
    return done(e, st, dest, target, p, T("iter", it.a[0], it.a[1] + ((n,) + extra,)))


def start(e, st, dest, target, base, ads, cont):
    """take the next element of base: exhausted, or an element"""
    out = []
    if cont[0] != "next":
        key = (st.key(), dest, target, base, ads, cont)
        if key in e.visited:
            return []
        e.visited.add(key)
    f = st.frames[-1]
    known_empty = base is EMPTY or base.tag == "default" or (base.tag == "coll" and base.a[0].tag == "empty" and not base.a[1])
    s1 = st.copy()
    if e.emit(s1, e.mkev(s1, "next", value=base, out="None", args=[], loc=T("ads", ads))):
        out += exhausted(e, s1, dest, target, base, ads, cont)
    if known_empty:
        return out
    limited = any(a[0] in ("take", "take_while") for a in ads)
    elems = []
    if base.tag == "coll":
        elems = list(base.a[1])
        if base.a[0].tag != "empty" and not (base.a[0].tag == "from" and any(x.tag == "clo" for x in elems)):
            elems.append(T("elem", base.a[0]))
    elif base.tag == "arr" and len(base.a[0]) <= 4:
        elems = list(base.a[0])
    else:
        elems = [T("elem", base)]
    for el in elems:
        s2 = st.copy()
        if el.tag == "elem":
            e.kill_facts(s2, el)
            for l in [l for l in s2.store if l.a[0].tag == "H" and contains(l.a[0].a[0], el)]:
                del s2.store[l]
        if not e.emit(s2, e.mkev(s2, "next", value=base, out="Some", args=[el], loc=T("ads", ads))):
            continue
        out += advance(e, s2, dest, target, base, ads, 0, el, cont)
    return out


def advance(e, st, dest, target, base, ads, idx, el, cont):
    while idx < len(ads):
        a = ads[idx]
        if a[0] == "map":
            return e.call_closure(st, a[1], [el], dest, target, ("it", base, ads, idx + 1, cont))
        if a[0] in ("filter", "take_while", "skip_while"):
            return e.call_closure(st, a[1], [el], dest, target, ("itf", base, ads, idx + 1, el, cont))
        if a[0] == "filter_map":
            return e.call_closure(st, a[1], [el], dest, target, ("itfm", base, ads, idx + 1, cont))
        if a[0] == "inspect":
            return e.call_closure(st, a[1], [el], dest, target, ("const", el, ("it", base, ads, idx + 1, cont)))
        if a[0] == "proj":
            el = e.deref(st, el)
            el = fld(el, ".1" if a[1] == "values" else ".0")
        elif a[0] == "enumerate":
            el = T("tup", (T("any", T("idx")), el))
        elif a[0] == "zip":
            o = e.deref(st, a[1])
            el = T("tup", (el, T("elem", o.a[0] if o.tag == "iter" else o)))
        elif a[0] in ("flatten", "flat_map"):
            if a[0] == "flat_map":
                return e.call_closure(st, a[1], [el], dest, target, ("it", base, ads[:idx] + (("flatten",),) + ads[idx + 1:], idx, cont))
            v = e.deref(st, el)
            k = e.variant(st, v)
            if v.tag == "adt" and v.a[0] in (OPT, RES) or k in ("Some", "None", "Ok", "Err"):
                if k in ("None", "Err"):
                    return start(e, st, dest, target, base, ads, cont)
                el = payload(v, k)
            else:
                el = T("elem", v)
        elif a[0] == "chain":
            pass
        idx += 1
    return deliver(e, st, dest, target, base, ads, el, cont)


FILLED = {}
FILL = re.compile(r"::(push|push_back|push_front|insert|extend|push_str|append)$")


def filled(b, bb):
    """the locals that the loop around this block adds to: a collection that is empty after it is so because there was nothing to go through"""
    memo = FILLED.setdefault(b.id, {})
    if bb not in memo:
        from program import succs
        def reach(i):
            seen, todo = set(), [i]
            while todo:
                for j in succs(b.blocks[todo.pop()]["t"]):
                    if j not in seen:
                        seen.add(j)
                        todo.append(j)
            return seen
        out = set()
        for i in reach(bb):
            t = b.blocks[i]["t"]
            if t[0] == "call" and t[1][0] == "fn" and FILL.search(t[1][1].get("p", "")) and t[2] and bb in reach(i):
                x = t[2][0][1][0] if t[2][0][0] in ("m", "c") and len(t[2][0][1]) == 1 else None
                out |= {s[2][1][0] for k in reach(bb) for s in b.blocks[k]["s"] if s[0] == "=" and s[1] == [x] and s[2][0] == "ref" and len(s[2][1]) == 1}
        memo[bb] = sorted(out)
    return memo[bb]


def exhausted(e, st, dest, target, base, ads, cont):
    k = cont[0]
    if k == "next":
        fr = st.frames[-1]
        for n in filled(fr.body, fr.bb):
            loc = T("loc", T("L", len(st.frames) - 1, n), ())
            v = st.store.get(loc)
            if v is not None and v.tag == "coll" and v.a[0] is EMPTY and not v.a[1]:
                e.write(st, loc, T("coll", T("empty", strip_iter(base)), ()))
        return done(e, st, dest, target, cont[1], NONE)
    if k == "each":
        return done(e, st, dest, target, cont[2], UNIT)
    if k == "collect":
        return done(e, st, dest, target, cont[2], T("coll", T("from", strip_iter(base), T("ads", tuple(a[0] for a in ads))) if not cont[1] else EMPTY if False else T("from", strip_iter(base), T("ads", tuple(a[0] for a in ads))), cont[1]))
    if k == "extend":
        old = e.read(st, cont[3])
        b0 = T("from", base, T("ads", tuple(a[0] for a in ads)))
        if old.tag == "coll":
            items = old.a[1] + tuple(x for x in cont[1] if x not in old.a[1])
            e.write(st, cont[3], T("coll", b0 if old.a[0].tag == "empty" else old.a[0], items[: e.ccap + 1]))
        return done(e, st, dest, target, cont[2], UNIT)
    if k == "find":
        r = {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE, "find_map": NONE}[cont[1]]
        return done(e, st, dest, target, cont[3], r)
    if k == "join":
        if not e.emit(st, e.mkev(st, "joined", value=base, args=[base])):
            return []
        return e.finish_call(st, dest, target, adt(POLL, "Ready", (("0", T("coll", T("from", strip_iter(base), T("ads", ())), cont[3])),)))
    if k == "retain":
        return done(e, st, dest, target, cont[2], UNIT)
    raise RuntimeError(k)


def strip_iter(b):
    return b


def deliver(e, st, dest, target, base, ads, el, cont):
    k = cont[0]
    if k == "next":
        return done(e, st, dest, target, cont[1], Some(el))
    if k == "each":
        return e.call_closure(st, cont[1], [el], dest, target, ("each2", base, ads, cont))
    if k in ("collect", "extend"):
        acc = cont[1]
        if not e.emit(st, e.mkev(st, "collect", value=el, args=[el, base], loc=T("ads", ads))):
            return []
        el = e.resolve(st, el)
        if el not in acc and len(acc) < e.ccap:
            acc = acc + (el,)
        return start(e, st, dest, target, base, ads, (k, acc) + cont[2:])
    if k == "find":
        return e.call_closure(st, cont[2], [el], dest, target, ("pred", cont[1], base, ads, el, cont))
    if k == "join":
        v = e.deref(st, el)
        f = st.frames[-1]
        if v.tag == "clo":
            b = e.p.body(v.a[0])
            if b is not None and b.coroutine and e.can_inline(st, b):
                return e.push(st, b, [v, T("any", T("cx"))], dest, target, ("joinelem", cont[1], cont[2], cont[3]), v.a[2], f.bb)
        if not e.emit(st, e.mkev(st, "await", value=v, args=[v])):
            return []
        r = T("await", v, T("site", f.ctx, f.bb))
        e.kill_facts(st, r)
        return start(e, st, dest, target, base, ads, ("join", cont[1], cont[2], cont[3] + ((r,) if r not in cont[3] and len(cont[3]) < 3 else ())))
    if k == "retain":
        return e.call_closure(st, cont[1], [el], dest, target, ("retain2", base, ads, cont, el))
    raise RuntimeError(k)


def pred_done(e, st, f, p, v):
    _, kind, base, ads, el, cont = p
    out = []
    if kind == "find_map":
        for s2, pl in cases(e, st, v, "Some", "None"):
            if pl is not None:
                out += post(e, s2, f, cont[3], Some(pl))
            else:
                out += start(e, s2, f.dest, f.target, base, ads, cont)
        return out
    for want in (True, False):
        s2 = st.copy()
        vv = e.deref(s2, v)
        known = e.truth(s2, vv)
        if e.assume_bool(s2, vv, want) is None:
            continue
        if known is None and not e.emit(s2, e.mkev(s2, "branch", value=vv, out=want, line=0)):
            continue
        if kind in ("any", "find", "position") and want:
            r = TRUE if kind == "any" else Some(el) if kind == "find" else Some(T("any", T("idx")))
            out += post(e, s2, f, cont[3], r)
        elif kind == "all" and not want:
            out += post(e, s2, f, cont[3], FALSE)
        else:
            out += start(e, s2, f.dest, f.target, base, ads, cont)
    return out


@model("std::iter::Iterator::next")
def m_next(e, st, ev, a, dest, target, p):
    it = as_iter(e, st, a[0])
    return start(e, st, dest, target, it.a[0], it.a[1], ("next", p))


@model("std::iter::Iterator::for_each")
def m_for_each(e, st, ev, a, dest, target, p):
    it = as_iter(e, st, a[0])
    return start(e, st, dest, target, it.a[0], it.a[1], ("each", a[1], p))


@model("std::iter::Iterator::collect")
def m_collect(e, st, ev, a, dest, target, p):
    it = as_iter(e, st, a[0])
    return start(e, st, dest, target, it.a[0], it.a[1], ("collect", (), p))


@model("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::find",
       "std::iter::Iterator::position", "std::iter::Iterator::find_map")
def m_find(e, st, ev, a, dest, target, p):
    it = as_iter(e, st, a[0])
    return start(e, st, dest, target, it.a[0], it.a[1], ("find", ev.decl.rsplit("::", 1)[1], a[1], p))


@model_rx(r"::retain$")
def m_retain(e, st, ev, a, dest, target, p):
    if not e.emit(st, ev):
        return []
    loc = _mutloc(e, st, a[0])
    base = e.resolve(st, e.read(st, loc))
    f = st.frames[-1]
    e.write(st, loc, T("hv", T("hvsite", T("site", f.ctx, f.bb), 0), base))
    return start(e, st, dest, target, base, (), ("retain", a[1], p))


@model_rx(r"slice::<impl \[T\]>::(sort\w*|reverse|rotate_left|rotate_right|shuffle)$")
def m_sort(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    if v.tag != "coll" or v.a[0].tag != "empty" or v.a[1]:
        return NotImplemented
    return done(e, st, dest, target, p, UNIT) if e.emit(st, ev) else []


@model("std::iter::Iterator::partition")
def m_partition(e, st, ev, a, dest, target, p):
    # both halves stand for the elements of the whole: which of them an element is in is not tracked
    it = as_iter(e, st, a[0])
    h = T("coll", T("from", strip_iter(it.a[0]), T("ads", tuple(x[0] for x in it.a[1]))), ())
    return done(e, st, dest, target, p, T("tup", (h, h)))


# collections: constructors, contents of locally built vectors, draining ------------------------

@model_rx(r"^std::(vec::Vec|collections::\w+)::<.*>::(new|with_capacity)$")
def m_newcoll(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, T("coll", EMPTY, ()))


@model_rx(r"^std::(vec::Vec|collections::VecDeque)::<.*>::(push|push_back|push_front)$|^std::collections::(HashMap|HashSet)::<.*>::insert$|^std::vec::Vec::<.*>::insert$")
def m_pushc(e, st, ev, a, dest, target, p):
    if not e.emit(st, ev):
        return []
    loc = _mutloc(e, st, a[0])
    old = e.read(st, loc)
    f = st.frames[-1]
    n = ev.decl.rsplit("::", 1)[1]
    r = e.fresh(st, ev.path, [a[0]] + a[1:])
    if old.tag == "coll" and loc.a[0].tag == "L":
        item = e.resolve(st, a[1] if n != "insert" or len(a) == 2 else T("tup", (a[1], a[2])))
        if n == "insert" and "vec::Vec" in ev.decl:
            item = e.resolve(st, a[2])
        el = old.a[1]
        if item not in el and len(el) < e.ccap + 1:
            el = el + (item,)
        e.write(st, loc, T("coll", EMPTY if old.a[0].tag == "empty" else old.a[0], el))
    else:
        from engine import strip_hv
        e.write(st, loc, T("hv", T("hvsite", T("site", f.ctx, f.bb), 0), strip_hv(old)))
    return done(e, st, dest, target, p, r)


@model("std::iter::Extend::extend")
def m_extend(e, st, ev, a, dest, target, p):
    loc = _mutloc(e, st, a[0])
    old = e.read(st, loc)
    if old.tag != "coll" or loc.a[0].tag != "L":
        return NotImplemented
    it = as_iter(e, st, a[1])
    return start(e, st, dest, target, it.a[0], it.a[1], ("extend", (), p, loc))


@model_rx(r"(slice::<impl \[T\]>|core::slice::<impl \[T\]>|std::slice::<impl \[T\]>|VecDeque::<.*>)::(first|first_mut|last|last_mut|front|back|front_mut|back_mut)$")
def m_first(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    if v.tag == "coll" and v.a[0].tag == "empty" and not v.a[1]:
        return done(e, st, dest, target, p, NONE)
    return NotImplemented


@model_rx(r"^std::(vec::Vec|collections::VecDeque)::<.*>::(pop|pop_front|pop_back)$")
def m_pop(e, st, ev, a, dest, target, p):
    if not e.emit(st, ev):
        return []
    loc = _mutloc(e, st, a[0])
    base = e.read(st, loc)
    from engine import strip_hv
    b2 = strip_hv(base)
    out = []
    f = st.frames[-1]
    s1 = st.copy()
    if e.emit(s1, e.mkev(s1, "next", value=b2, out="None", args=[], line=ev.line, loc=T("ads", ()))):
        out += done(e, s1, dest, target, p, NONE)
    if b2.tag == "coll":
        els = list(b2.a[1]) + ([T("elem", b2.a[0])] if b2.a[0].tag != "empty" else [])
    else:
        els = [T("elem", b2)]
    for el in els:
        s2 = st.copy()
        if el.tag == "elem":
            e.kill_facts(s2, el)
        e.write(s2, loc, T("hv", T("hvsite", T("site", f.ctx, f.bb), 0), b2) if b2.tag != "coll" else b2)
        if e.emit(s2, e.mkev(s2, "next", value=b2, out="Some", args=[el], line=ev.line, loc=T("ads", ()))):
            out += done(e, s2, dest, target, p, Some(el))
    return out


@model_rx(r"hash_map::Entry::<.*>::(or_insert_with|or_insert|or_default)$")
def m_orins(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    n = ev.decl.rsplit("::", 1)[1]
    out = []
    for s, pl, isp in cases(e, st, v, "Occupied", "Vacant", both=True, line=ev.line):
        if isp:
            out += done(e, s, dest, target, p, T("fld", pl, ".value"))
        else:
            inner = T("loc", T("H", T("fld", pl, ".value")), ())
            if n == "or_insert_with":
                out += e.call_closure(s, a[1], [], dest, target, ("store", inner, p, (ev.path, ev.decl, a[0], ev.line, ev.g)))
            elif e.emit(s, ev):
                e.write(s, inner, a[1] if n == "or_insert" else T("default", T("k", "entry")))
                out += done(e, s, dest, target, p, T("ref", inner, True))
    return out


# vec![..]
@model("std::boxed::Box::<T>::new_uninit")
def m_bu(e, st, ev, a, dest, target, p):
    f = st.frames[-1]
    return done(e, st, dest, target, p, T("any", T("site", f.ctx, f.bb)))


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_biv(e, st, ev, a, dest, target, p):
    v = e.deref(st, a[0])
    w = e.read(st, T("loc", T("H", v), ()))
    for s in subterms(w):
        if s.tag == "arr":
            return done(e, st, dest, target, p, T("coll", EMPTY, tuple(s.a[0][:5])))
    return done(e, st, dest, target, p, w)


# protobuf wrappers
@model("protobuf::MessageField::<T>::into_option", "protobuf::MessageField::<T>::from_option",
       "protobuf::MessageField::<T>::as_ref")
def m_mf(e, st, ev, a, dest, target, p):
    return done(e, st, dest, target, p, a[0])
