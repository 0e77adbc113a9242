"""Wire formats: every decoder undoes its encoder. The value an encoder's path serialises is substituted, symbolically, for what the
decoder parses; each decoder path that is compatible with it must rebuild the original value."""
from rules import *

CONV = re.compile(r"(::|^)(to_string|to_owned|into_actor_id|to_actor_id|from_str|parse_str|parse|clone|cloned|into|from|as_ref|as_deref|as_str|as_slice|"
                  r"to_vec|into_option|unwrap|expect|into_boxed_\w+|into_string|try_into|try_from|unwrap_or_default)$")
# conversion functions that are each other's inverse: kept opaque inside larger messages and decided separately
PAIRS = [r"remote::net::message::(datetime_to_timestamp|timestamp_to_datetime)$",
         r"convert::(From|Into)<.*(proto::)?.*(ShardHostStatus|SingletonState|ClientType|RemoteNode|ActorRefErr)>"]
PAIRFN = re.compile(r"(datetime_to_timestamp|timestamp_to_datetime)$")
LOSSY = {"filter", "filter_map", "take", "skip", "step_by", "take_while", "skip_while", "rev", "chain", "zip", "enumerate", "flat_map"}


class Subst:
    """reduction of decoder terms, with `payload` standing for what was parsed"""

    def __init__(self, q, payload, pq, tag=None):
        self.q, self.payload, self.pq, self.tag, self.memo = q, payload, pq, tag, {}

    def __call__(self, t, d=30):
        if d < 0:
            return t
        t = self.q.val(t)
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.red(t, d)
        return r

    def red(self, t, d):
        g = t.tag
        if g in ("conv", "await"):
            return self(t.a[0], d - 1)
        if g == "hv":
            return self(t.a[1], d - 1)
        if g == "call":
            if re.search(r"Message::parse_from_bytes|::parse_from_bytes$", t.a[1]):
                return Ok(self.payload)
            if self.tag is not None and t.a[1].endswith("::from_i32"):
                return Some(self.tag)
            if self.tag is not None and t.a[1].endswith("::split_first"):
                return Some(T("tup", (T("k", 0), T("cut"))))
            if PAIRFN.search(t.a[1]) and t.a[2]:
                b = self(t.a[2][0], d - 1)
                if b.tag == "call" and PAIRFN.search(b.a[1]) and b.a[1] != t.a[1]:
                    return b.a[2][0]
                return T("call", t.a[0], t.a[1], (b,) + tuple(t.a[2][1:]))
            if CONV.search(t.a[1]) and t.a[2]:
                b = self(t.a[2][0], d - 1)
                return T("okw", b) if re.search(r"(from_str|parse_str|parse|try_into|try_from)$", t.a[1]) else b
            return T("call", t.a[0], t.a[1], tuple(self(x, d - 1) for x in t.a[2]))
        if g == "fld":
            b = self(t.a[0], d - 1)
            if b.tag == "adt" and t.a[1][0] == "@" and b.a[1] != t.a[1][1:]:
                return T("fld", b, t.a[1])
            if b.tag == "cut":
                return b
            if b.tag == "okw":
                return b.a[0] if t.a[1] == ".0" else b
            if b.tag == "adt" and b.a[0] == OPT and b.a[1] == "Some" and t.a[1] not in ("@Some", "@None", ".0"):
                b = b.a[2][0][1]      # an optional message field, unwrapped
            return fld(b, t.a[1])
        if g == "upd":
            return T("upd", self(t.a[0], d - 1), tuple((k, self(v, d - 1)) for k, v in t.a[1]))
        if g == "elem":
            b = self(t.a[0], d - 1)
            if b.tag == "coll":
                return b.a[1][0] if len(b.a[1]) == 1 else T("cut")
            return T("elem", b)
        if g == "coll":
            return T("coll", self(t.a[0], d - 1), tuple(self(x, d - 1) for x in t.a[1]))
        if g == "from":
            return self(t.a[0], d - 1) if not (set(t.a[1].a[0]) & LOSSY) else T("from", self(t.a[0], d - 1), t.a[1])
        if g == "iter":
            return self(t.a[0], d - 1)
        if g == "adt":
            return T("adt", t.a[0], t.a[1], tuple((k, self(v, d - 1)) for k, v in t.a[2]))
        if g == "tup":
            return T("tup", tuple(self(x, d - 1) for x in t.a[0]))
        return t


def full(q, t, d=24):
    """encoder-side value with conversions removed"""
    return Subst(q, T("k", "<nested>"), q)(t, d)


def same(q, t, o):
    """the (reduced) value t is the original o, rebuilt"""
    if t.tag == "okw":
        t = t.a[0]
    if t.tag == "cut" or t.tag == "k" and isinstance(t.a[0], str) and "::" in t.a[0] or canon(q, t, 14) == canon(q, o, 14):
        return True
    if t.tag == "adt" and t.a[0] == OPT and t.a[1] == "Some" and same(q, t.a[2][0][1], o):
        return True
    if t.tag == "adt":
        v = t.a[1]
        oo = o
        if v is not None and v != t.a[0].split("::")[-1] or t.a[0] in (OPT, RES):
            ov = q.variant(o)
            if ov != v and not (ov is None and t.a[2]):
                return False
            oo = fld(o, "@" + v)
        return all(same(q, x, fld(oo, "." + k)) for k, x in t.a[2] if k != "special_fields")
    if t.tag == "tup":
        return all(same(q, x, fld(o, ".%d" % i)) for i, x in enumerate(t.a[0]))
    if t.tag == "coll":
        src = t.a[0]
        while src.tag == "coll":
            src = src.a[0]
        if src.tag == "from":
            return False
        return canon(q, src, 14) == canon(q, o, 14) and all(same(q, x, T("elem", o)) for x in t.a[1])
    return False


def brlab(ev, q):
    if ev.kind == "branch":
        return ("br", q.full(ev.value), str(ev.out))
    if ev.kind == "call" and not ev.inl:
        if m(ev, r"Message::write_to_bytes$"):
            return ("wb", q.full(ev.args[0]))
        for a in ev.args:
            t = strip(q, a)
            if t.tag == "discr" and strip(q, t.a[0]).tag == "adt":
                return ("tag", strip(q, t.a[0]))
    return None


class EQ:
    """encoder-side queries: the variants its path has established"""

    def __init__(self, q, obs):
        self.q = q
        self.e = q.e
        self.st = q.st
        self.f = {}
        for x in obs:
            if x[0] != "br":
                continue
            _, v, out = x
            self.f[canon(q, full(q, v), 14)] = out

    def val(self, t):
        return t if t.tag in ("fld", "arg", "elem") else self.q.val(t)

    def variant(self, t):
        if t.tag == "adt":
            return t.a[1]
        return self.f.get(canon(self, t, 14))


def compatible(v, out):
    """variant v (or None) against a branch outcome 'A' or '!A|B'"""
    if v is None or v.startswith("!"):
        return True
    if out.startswith("!"):
        return v not in out[1:].split("|")
    return v == out


def roundtrip(c, key, enc, dec, opaque=(), okvar="Ok", payload=None, what=None, needs=1, tagged=False):
    """run both; for every path of the encoder that produces something, every compatible path of the decoder rebuilds the input"""
    op = list(opaque) + PAIRS
    es = c.run(enc, brlab, opaque=op)
    ds = c.run(dec, brlab, opaque=op)
    n = got = 0
    for o in es:
        if o.kind != "return":
            continue
        q0 = Q(o.eng, o.state)
        q = EQ(q0, o.obs)
        v = q0.val(o.value)
        if okvar and not (v.tag == "adt" and v.a[1] == okvar):
            continue
        if payload:
            p = payload(q0, v, o)
        else:
            p = None
            t = strip(q0, v.a[2][0][1]) if okvar else v
            if okvar:
                while t.tag == "fld":
                    t = strip(q0, t.a[0])
                if t.tag == "call" and t.a[1].endswith("write_to_bytes"):
                    p = t.a[2][0]
                else:
                    wb = [x[1] for x in o.obs if x[0] == "wb"]
                    if len(wb) == 1:
                        p = wb[0]
                    elif not wb and t.tag in ("coll", "arr"):
                        p = T("k", "<nothing>")
            else:
                p = t
        if p is None:
            continue
        p = full(q0, p)
        tags = [x[1] for x in o.obs if x[0] == "tag"]
        if tagged and len(set(tags)) != 1:
            continue
        got += 1
        before = n
        for w in ds:
            if w.kind != "return":
                continue
            wq = Q(w.eng, w.state)
            s = Subst(wq, p, q, tags[0] if tagged else None)
            if not okvar:
                s.memo[T("arg", 1)] = p
            feas = True
            for x in w.obs:
                if x[0] != "br":
                    continue
                r, f = s(x[1]), x[2]
                if r.tag == "k":
                    feas = feas and str(r.a[0]) == f
                else:
                    feas = feas and (r.tag == "cut" or compatible(q.variant(r), f))
            if not feas:
                continue
            wv = wq.val(w.value)
            n += 1
            if okvar:
                if wv.tag != "adt" or wv.a[1] != okvar:
                    c.fail(key + ":refused", "%s: a value encoded by %s is refused when it is decoded" % (what or key, short(enc.id)), out=w)
                    continue
                wv = wv.a[2][0][1]
            r = s(wv)
            c.check(same(q, r, T("arg", 1)), key + ":differs", "%s: encoding and decoding yields %s" % (what or key, cut(canon(q, r, 9), 260)), out=w)
        c.check(n > before, key + ":none", "%s: %s is encoded to something that cannot be decoded" % (what or key, cut(canon(q, p, 4))), out=o)
    c.check(got >= needs, key + ":unencoded", "%s: only %d kinds of values are encoded (%d expected)" % (what or key, got, needs))
    return got



@prop("R03")
def wire(c):
    def method(trait, s, n):
        return c.method(trait, s, n)

    c.rule("events", "Every kind of event written to a connection or a topic carries its kind's tag and is read back as the same kind with the same content.")
    for s, n in (("remote::net::message::ClientEvent", 6), ("remote::net::message::SessionEvent", 11), ("remote::stream::system::SystemEvent", 4)):
        roundtrip(c, short(s), method("StreamData", s, "write_to_bytes"), method("StreamData", s, "read_from_bytes"), okvar="Some", tagged=True, needs=n)

    c.rule("values", "Converting a value to its wire form and back yields the value: errors with their details, nodes with their attributes, "
           "states and types.")

    def conv(rx):
        return c.one([b for i, b in c.p.bodies.items() if re.search(rx, i)], rx)
    W = "coerce::remote::net::proto::network::"
    err = conv(r"From<coerce::actor::refs::ActorRefErr> for .*proto::network::ActorRefErr>::from$")
    rerr = conv(r"From<.*proto::network::ActorRefErr> for coerce::actor::refs::ActorRefErr>::from$")
    roundtrip(c, "ActorRefErr", err, rerr, okvar=None, needs=12)
    rn = conv(r"node::RemoteNode as std::convert::From<.*network::RemoteNode>>::from$")
    for src in ("node::RemoteNode", "&coerce::remote::cluster::node::RemoteNode", "node::RemoteNodeState"):
        b = conv(r"From<(coerce::remote::cluster::)?%s> for .*network::RemoteNode>::from$" % re.escape(src))
        roundtrip(c, "RemoteNode<-" + src.split("::")[-1] + ("&" if src[0] == "&" else ""), b, rn, okvar=None)
    for src in ("RemoteNodeState", "&coerce::remote::net::proto::network::NodeIdentity"):
        b = conv(r"node::RemoteNode as std::convert::From<.*%s>>::from$" % re.escape(src.split("::")[-1]))
        for o in c.run(b, brlab, opaque=PAIRS):
            if o.kind != "return":
                continue
            q = EQ(Q(o.eng, o.state), o.obs)
            r = full(Q(o.eng, o.state), o.value)
            ren = {"id": "node_id", "tag": "node_tag"} if "Identity" in src else {}
            for k, v in (r.a[2] if r.tag == "adt" else ()):
                w = T("fld", T("arg", 1), "." + ren.get(k, k))
                got = v
                c.check(same(q, got, w) or PAIRFN.search(callname(got)) and same(q, got.a[2][0], fld(fld(w, "@Some"), ".0")) or opt_pair(q, got, w),
                        "node:%s.%s" % (short(src), k), "%s of a node is taken from %s" % (k, cut(canon(q, got, 9))), out=o)
    for a, b in ((r"From<.*net::client::ClientType> for .*proto::network::ClientType>::from$", r"client::ClientType as std::convert::From<.*>>::from$"),
                 (r"Into<.*proto::sharding::ShardHostStatus> for .*coordinator::ShardHostStatus>::into$", r"From<.*proto::sharding::ShardHostStatus> for .*>::from$"),
                 (r"SingletonState as std::convert::Into<.*>>::into$", r"SingletonState as std::convert::From<.*>>::from$")):
        roundtrip(c, re.sub(r"\W+", "", a)[-40:], conv(a), conv(b), okvar=None, needs=2)
    d2t = conv(r"^coerce::remote::net::message::datetime_to_timestamp$")
    t2d = conv(r"^coerce::remote::net::message::timestamp_to_datetime$")
    for o in c.run(d2t, None):
        q = Q(o.eng, o.state)
        r = strip(q, o.value)
        f = {k: canon(q, v) for k, v in r.a[2]} if r.tag == "adt" else {}
        if f:
            c.check(re.search(r"::timestamp\(a1\)$", f.get("seconds", "")) and re.search(r"timestamp_subsec_nanos\(a1\)$", f.get("nanos", "")), "time:encode",
                    "a time is written as %s seconds and %s nanoseconds" % (f.get("seconds"), f.get("nanos")), out=o)
    for o in c.run(t2d, None):
        if o.kind == "return":
            r = c.ret(o, 9)
            mm = re.search(r"from_timestamp(_opt)?\((.*?),(.*?)\)", r)
            if mm:
                c.check(mm.group(2) == "a1.seconds" and mm.group(3) == "a1.nanos", "time:decode", "a time is read from %s" % cut(r), out=o)

    c.rule("messages", "Every actor message of the library that can be sent to another node decodes to what was encoded, and so does its result.")
    n = 0
    for i, b in sorted(c.p.bodies.items()):
        mm = re.match(r"^<(coerce::.*) as coerce::actor::message::Message>::(as_bytes|write_remote_result)$", i)
        if not mm or re.match(r"^coerce::(actor|persistent)", mm.group(1)):
            continue
        d = c.p.body(i.replace("as_bytes", "from_bytes") if mm.group(2) == "as_bytes" else i.replace("write_remote", "read_remote"))
        if d is None:
            continue
        n += 1
        roundtrip(c, short(mm.group(1)) + "." + mm.group(2), b, d)
    c.check(n >= 20, "count", "only %d message codecs found" % n)


def callname(t):
    return t.a[1] if t.tag == "call" else ""


def opt_pair(q, t, w):
    """an optional time converted element-wise"""
    if t.tag == "adt" and t.a[0] == OPT:
        v = q.variant(w)
        if t.a[1] != v:
            return False
        if v == "None":
            return True
        x = t.a[2][0][1]
        return x.tag == "call" and PAIRFN.search(x.a[1]) and same(q, x.a[2][0], fld(fld(w, "@Some"), ".0"))
    return False
