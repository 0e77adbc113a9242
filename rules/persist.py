"""Persistence: sequence numbers, persisting, recovery, storage providers, journal types and entries."""
from rules import *

JR = r"journal::Journal"
JAPI = [r"^coerce::persistent::journal::Journal::<.*>::\w+$", r"^coerce::persistent::context::ActorPersistence::\w+$"]
STORAGE = r"coerce::persistent::journal::storage::JournalStorage::"


def wrote(ev, field):
    return ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == field


SEQ = ".last_sequence_id"


def plus(s, n):
    return r"^\(%s Add %s\)$" % (re.escape(s), n)


# ---------------------------------------------------------------------------------------------
@prop("P01")
def sequences(c):
    c.rule("write", "Every entry written carries a sequence number greater than the journal's last one (entries of a batch consecutive "
           "numbers), the journal's counter moves to the last number used exactly when the storage acknowledged the write, and success "
           "is reported exactly then.")
    for name, op in (("persist_message", "write_message"), ("persist_batch", "write_message_batch"), ("persist_snapshot", "write_snapshot")):
        b = c.inherent(JR, name)

        def mon(s, ev, q, op=op):
            st, seqs = s
            if called(ev, STORAGE + r"write_\w+$") and not ev.path.endswith("::" + op):
                return Bad("op", "the entry is stored with %s" % short(ev.path))
            v = awaited(ev, q, STORAGE + op + "$")
            if v:
                if st != "new":
                    return Bad("twice", "the entry is written to storage more than once")
                if canon(q, v.a[2][0]) != "a1.storage" or canon(q, v.a[2][1]) != "a1.persistence_id":
                    return Bad("id", "the entry is written to %s under %s" % (canon(q, v.a[2][0]), canon(q, v.a[2][1])))
                e = canon(q, v.a[2][2], 9)
                got = tuple(re.findall(r"sequence:(.*?),payload_type", e))
                base = "a1.last_sequence_id"
                if op == "write_message_batch":
                    if not re.match(r"coll\((a2\.entries|empty|none\(a2\.entries\))\|", e):
                        return Bad("batch", "the batch written is %s" % cut(e))
                    for i, g in enumerate(got):
                        want = r"%s|many" % (i + 1) if i < 3 else r"\d+|'?many'?"
                        if not re.match(r"^\(a1\.last_sequence_id Add '?(%s)'?\)$" % want, g):
                            return Bad("seq", "entry %d of a batch gets sequence %s" % (i + 1, g))
                    for x, y in re.findall(r"payload_type:(.*?),bytes:(.*?)}", e):
                        if x != "each(a2.entries).payload_type" or y != "each(a2.entries).bytes":
                            return Bad("content", "the stored entry holds %s, %s" % (x, y))
                else:
                    if len(got) != 1 or not re.match(r"^\(a1\.last_sequence_id Add [1-9]\d*\)$", got[0]):
                        return Bad("seq", "the entry gets sequence %s, which is not greater than the last one used" % (got,))
                    mm = re.search(r"bytes:([^{}]*)\}$", e)
                    if not mm or mm.group(1) != "a2":
                        return Bad("content", "the stored entry's bytes are %s" % cut(e[-80:]))
                    T_ = "message_type_map" if op == "write_message" else "snapshot_type_map"
                    if T_ not in e:
                        return Bad("type", "the stored entry's type is not looked up in the %s" % T_)
                return ("written", got)
            if ev.kind == "branch" and st == "written" and re.match(r"JournalStorage::write_\w+\(", canon(q, ev.value)):
                if ev.out == "Ok":
                    return ("acked", seqs)
                if ev.out == "Err":
                    return ("failed", seqs)
            if wrote(ev, SEQ):
                v = canon(q, ev.value)
                if st != "acked":
                    return Bad("early", "the sequence counter moves although the storage has not acknowledged the write (%s)" % st)
                if op == "write_message_batch":
                    if not re.match(r"^(a1\.last_sequence_id|\(a1\.last_sequence_id Add '?(\d|many)'?\))$", v) or (seqs and v == "a1.last_sequence_id"):
                        return Bad("advance", "the counter is set to %s after a batch with sequences %s" % (v, seqs))
                    if seqs and v != seqs[-1] and "many" not in v:
                        return Bad("advance", "the counter is set to %s after a batch with sequences %s" % (v, seqs))
                elif v != seqs[0]:
                    return Bad("advance", "the counter is set to %s after writing sequence %s" % (v, seqs))
                return ("moved", seqs)
            if wrote(ev, ".last_snapshot_sequence_id"):
                if op != "write_snapshot" or st not in ("acked", "moved") or canon(q, ev.value) != "Some{0:%s}" % seqs[0]:
                    return Bad("snap", "the last snapshot's sequence is set to %s" % canon(q, ev.value))
                return None
            return None
        # every entry of a batch is put into what is written
        every = foreach(r"^a2\.entries$", lambda ev, q: ev.kind == "collect" or (mutation(ev, q) or [0])[0] in ("push", "push_back"), "entries", must=True)
        init, mon = combine(write=(("new", ()), mon), **({"each": every} if name == "persist_batch" else {}))
        for o in c.watch(b, mon, init, name):
            if o.kind != "return":
                continue
            r = c.ret(o)
            st = o.obs[-1][0]
            if st == "moved":
                c.check(r.startswith("Ok"), name + ":ok", "%s reports %s although the entry was stored" % (name, cut(r)), out=o)
            else:
                c.check(r.startswith("Err") and st == "failed", name + ":err", "%s returns %s in state %s (the storage did not acknowledge, or the counter did not move)" % (name, cut(r), st), out=o)

    c.rule("recover", "Recovering reads the newest snapshot and then the messages after it; the counter ends at the sequence of the last "
           "entry read, whether or not the entry's type is known.")
    b = c.inherent(JR, "recover_snapshot")

    def mon(s, ev, q):
        if awaited(ev, q, STORAGE + r"read_\w+$"):
            if not awaited(ev, q, STORAGE + "read_latest_snapshot$"):
                return Bad("read", "recovery reads something other than the latest snapshot")
            return "read"
        if ev.kind == "branch" and canon(q, ev.value) == RS + "?" and ev.out in ("Some", "None"):
            return "found" if ev.out == "Some" else "none"
        if wrote(ev, SEQ):
            if canon(q, ev.value) != RS + "??.sequence":
                return Bad("seq", "the counter is set to %s after recovering a snapshot" % canon(q, ev.value))
            return "moved"
        return None
    RS = "JournalStorage::read_latest_snapshot(a1.storage,a1.persistence_id)"
    for o in c.watch(b, mon, "new", "recover_snapshot"):
        if o.kind == "return":
            r = c.ret(o)
            if r.startswith("Err"):
                c.check(o.obs in ("read",), "rs:err", "recover_snapshot fails although a snapshot was read", out=o)
            elif o.obs == "found":
                c.fail("rs:seq", "a snapshot is recovered without moving the counter to its sequence", out=o)
            else:
                c.check(o.obs in ("none", "moved"), "rs:ok", "recover_snapshot reports success in state %s" % (o.obs,), out=o)
                if r.startswith("Ok{0:Some"):
                    c.check(o.obs == "moved", "rs:some", "a snapshot is returned that was not read", out=o)
                    c.check("sequence:" + RS + "??.sequence" in r, "rs:payload", "the recovered snapshot carries %s" % cut(r), out=o)
    b = c.inherent(JR, "recover_messages")
    RM = "JournalStorage::read_latest_messages(a1.storage,a1.persistence_id,a1.last_sequence_id)"

    def mon(s, ev, q):
        v = awaited(ev, q, STORAGE + r"read_\w+$")
        if v:
            if canon(q, v) != RM:
                return Bad("read", "recovery reads messages with %s" % cut(canon(q, v)))
            return "read"
        if ev.kind == "next" and canon(q, ev.value).startswith(RM):
            if s == "entry":
                return Bad("seq", "the counter does not follow a recovered entry")
            return "entry" if ev.out == "Some" else "end"
        if wrote(ev, SEQ):
            if not re.match(r"^each\(%s\?\?\)\.sequence$" % re.escape(RM), canon(q, ev.value)):
                return Bad("seq", "the counter is set to %s while recovering messages" % canon(q, ev.value))
            return "moved"
        return None
    for o in c.watch(b, mon, "new", "recover_messages"):
        if o.kind == "return":
            r = c.ret(o)
            c.check(o.obs == "read" if r.startswith("Err") else o.obs in ("read", "end"), "rm:end", "recover_messages returns %s in state %s" % (cut(r), o.obs), out=o)

    c.rule("writers", "Only the journal's own persist and recover operations move its counter.")
    ok = {"new", "persist_message", "persist_batch", "persist_snapshot", "recover_snapshot", "recover_messages"}
    for bd, l in c.all(field_writers(c.p, SEQ), "writes of the journal's counter"):
        c.check(only_via(c.p, bd, lambda r: re.search(r"journal::Journal(::<.*>)?::(%s)$" % "|".join(ok), r)),
                "writer:" + short(bd.id), "%s changes the journal's counter" % short(bd.id), where="%s:%s" % (bd.file if hasattr(bd, "file") else "", l))


# ---------------------------------------------------------------------------------------------
# retry policies: shared by persisting and recovery

def sense(q, ev):
    """normalise a branch on `attempt-number >= maximum`: ('max', n, reached)"""
    if ev.kind != "branch" or str(ev.out) not in ("True", "False"):
        return None
    mm = re.match(r"^\((.*) (Ge|Gt|Lt|Le) (.*)\)$", canon(q, ev.value))
    if not mm or "max_attempts" not in mm.group(0):
        return None
    l, op, r = mm.groups()
    if "max_attempts" in l:
        l, r = r, l
        op = {"Ge": "Le", "Gt": "Lt", "Lt": "Gt", "Le": "Ge"}[op]
    out = str(ev.out) == "True"
    if op in ("Lt", "Le"):
        out = not out
        op = {"Lt": "Ge", "Le": "Gt"}[op]
    return (l, op, out)


def retry_monitor(policy_call, attempt, failed, ok, hook=None):
    """state: (attempts made, phase, delay pending, stopped, hook calls since the failure)"""
    def mon(s, ev, q):
        n, ph, delay, stop, hk = s
        if attempt(ev, q):
            if ph not in ("idle", "retry"):
                return Bad("again", "another attempt is made in phase %s" % ph)
            if delay in ("due", "unknown") and n:
                return Bad("delay", "an attempt is repeated without the configured delay")
            return (min(n + 1, 4), "trying", None, stop, 0)
        if ph == "trying" and failed(ev, q):
            return (n, "failed", None, stop, 0)
        if ph == "trying" and ok(ev, q):
            return (n, "ok", None, stop, 0)
        if hook and awaited(ev, q, hook):
            if hk or ph in ("idle", "trying", "ok"):
                return Bad("hook", "the error hook is called %s" % ("twice" if hk else "in phase " + ph))
            return (n, ph, delay, stop, 1)
        if ev.kind == "branch" and re.search(policy_call + r"\(.*\)$", canon(q, ev.value)) and ph in ("failed",):
            if ev.out in ("Panic", "ReturnErr", "StopActor"):
                return (n, "policy:" + ev.out, None, stop, hk)
            if ev.out == "Retry":
                return (n, "policy:Retry", None, stop, hk)
        if ph.startswith("policy:Retry"):
            if ev.kind == "branch" and re.search(r"@Retry\.0$", canon(q, ev.value)):
                return (n, "retry" if ev.out == "UntilSuccess" else "policy:Retry:max", "unknown", stop, hk)
            x = sense(q, ev)
            if x:
                l, op, reached = x
                want = str(n) if n <= 3 else r"many"
                if op != "Ge" and not (op == "Gt" and False):
                    return Bad("bound", "attempt %s is compared with the maximum by %s" % (l, op))
                if n <= 3 and l.strip("'") != str(n):
                    return Bad("count", "after %d attempts the number compared with the maximum is %s" % (n, l))
                return (n, "exhausted" if reached else "retry", "unknown", stop, hk)
        if ph == "retry" and ev.kind == "branch" and canon(q, ev.value).endswith(".delay"):
            return (n, ph, "due" if ev.out == "Some" else None, stop, hk)
        if ev.kind == "await" and re.match(r"^(time::)?sleep(::sleep)?\(", canon(q, ev.value)):
            if not re.search(r"\.delay\?\)$", canon(q, ev.value)):
                return Bad("sleep", "waits for %s" % cut(canon(q, ev.value)))
            if ph != "retry":
                return Bad("sleep", "waits in phase %s" % ph)
            return (n, ph, None, stop, hk)
        if wrote(ev, ".status"):
            v = q.val(ev.value)
            if v.tag == "adt" and v.a[1] == "Stopping":
                if ph not in ("policy:StopActor", "exhausted"):
                    return Bad("stop", "the actor is stopped in phase %s" % ph)
                return (n, ph, delay, True, hk)
        return None
    return mon


@prop("P02")
def persisting(c):
    c.rule("api", "Persisting encodes the given value once, hands it to the actor's own journal, and reports success exactly when the journal "
           "did; a value that cannot be encoded, and nothing else, is refused without touching the journal.")
    batching(c)
    c.rule("policy", "A failed attempt is handled by the actor's policy: retried with the same data (after the configured delay, and at most the "
           "configured number of attempts, after which the actor is stopped and the error returned), returned, returned after stopping the "
           "actor, or a panic.")
    OP = r"coerce::persistent::actor::PersistentActor::"
    for name, jop, ser in (("persist", "persist_message", r"Message::as_bytes\(a2\)"), ("persist_batch", "persist_batch", None),
                           ("snapshot", "persist_snapshot", r"Snapshot::into_remote_envelope\(a2\)")):
        b = c.fn(OP[:-2] + "::" + name)
        J = r"journal::Journal::<.*>::" + jop + "$"
        ctxarg = "a3"

        def attempt(ev, q):
            return awaited(ev, q, r"journal::Journal::<.*>::persist_\w+$")

        def res(ev, q, want, jop=jop):
            return ev.kind == "branch" and ev.out == want and re.match(r"^Journal::%s\(" % jop, canon(q, ev.value))
        inner = retry_monitor(r"PersistentActor::persist_failure_policy", attempt, lambda ev, q: res(ev, q, "Err"), lambda ev, q: res(ev, q, "Ok"))

        def mon(s, ev, q, name=name, jop=jop, inner=inner, ser=ser):
            enc, core = s
            v = attempt(ev, q)
            if v is not None:
                if not v.a[1].endswith(jop):
                    return Bad("op", "%s uses %s" % (name, short(v.a[1])))
                j = canon(q, v.a[2][0], 9)
                if not re.match(r"^ActorPersistence::journal_mut\(.*\ba3\b.*\)$", j):
                    return Bad("journal", "%s writes to %s" % (name, cut(j)))
                d = canon(q, v.a[2][1], 9)
                if ser is None:
                    if d != "a2":
                        return Bad("data", "%s writes %s" % (name, cut(d)))
                elif not re.search("^(Arc::new\\()?(Envelope::into_bytes\\()?%s\\?" % ser, d):
                    return Bad("data", "%s writes %s" % (name, cut(d)))
            if ser and ev.kind == "branch" and re.match("^%s$" % ser, canon(q, ev.value)):
                return (ev.out, core)
            if ser is None and ev.kind == "branch" and re.match(r"^(Vec|slice)::is_empty\(a2\.entries\)$", canon(q, ev.value)):
                return ("empty" if str(ev.out) == "True" else "full", core)
            z = ser is None and ev.kind == "branch" and re.match(r"^\((?:Vec|slice)?(?:::)?len\(a2\.entries\) (Eq|Ne|Gt|Lt) (0|1)\)$", canon(q, ev.value))
            if z and (z.group(1) == "Lt") == (z.group(2) == "1"):
                return ("empty" if (str(ev.out) == "True") == (z.group(1) in ("Eq", "Lt")) else "full", core)
            r = inner(core, ev, q)
            if isinstance(r, Bad):
                return r
            if r is None:
                return None
            return (enc, r)
        c.cur = "policy"
        for o in c.watch(b, mon, ("new", (0, "idle", None, False, 0)), name, opaque=JAPI):
            if o.kind != "return":
                continue
            enc, (n, ph, delay, stop, hk) = o.obs
            r = c.ret(o)
            c.cur = "api"
            if ph == "ok":
                c.check(r.startswith("Ok"), name + ":ok", "%s reports %s although the journal stored the entry" % (name, cut(r)), out=o)
            elif ph == "idle":
                good = (enc == "Err" and re.match(r"Err\{0:Serialisation\{0:%s!" % (ser or "x"), r)) or (enc == "empty" and r.startswith("Ok"))
                c.check(good, name + ":none", "%s returns %s without writing anything (%s)" % (name, cut(r), enc), out=o)
            else:
                c.cur = "policy"
                if ph in ("policy:ReturnErr",):
                    c.check(re.match(r"^Err\{0:Journal::%s\(.*!" % jop, r) and not stop, name + ":return", "%s returns %s (stopped: %s) under the return-error policy" % (name, cut(r), stop), out=o)
                elif ph == "policy:StopActor":
                    c.check(re.match(r"^Err\{0:ActorStopping", r) and stop, name + ":stop", "%s returns %s (stopped: %s) under the stop policy" % (name, cut(r), stop), out=o)
                elif ph == "exhausted":
                    c.check(re.match(r"^Err\{0:Journal::%s\(.*!" % jop, r) and stop, name + ":exhausted", "%s returns %s (stopped: %s) when the attempts are used up" % (name, cut(r), stop), out=o)
                else:
                    c.fail(name + ":end", "%s returns %s in phase %s" % (name, cut(r), ph), out=o)


# ---------------------------------------------------------------------------------------------
PA = r"persistent::actor::PersistentActor::"
RH = r"journal::RecoveryHandler::recover$"


def by_sequence(c, q, op, args):
    """does a sort put journal entries in the order of their sequence numbers"""
    if not op.startswith("sort") or len(args) < 2:
        return False
    f = strip(q, args[1])
    b = c.p.body(f.a[0]) if f.tag == "clo" else None
    if b is None:
        return False
    r = [c.ret(o) for o in c.run(b, None) if o.kind == "return"]
    return bool(r) and all(re.match(r"^a2\.sequence$" if "key" in op else r"^[\w:]*cmp\(a2\.sequence,a3\.sequence\)$", x) for x in r)


@prop("P03")
def recovery(c):
    c.rule("started", "A persistent actor starts by: its pre-recovery hook, loading its journal, applying the snapshot, applying every message in "
           "journal order, its post-recovery hook; when any of it fails the post-recovery hook is not reached, a failed application is "
           "reported and stops the actor, and nothing further is applied.")
    b = c.one([x for x in c.p.impl_method(r"^coerce::actor::Actor$", r"^A$", "started") if "persistent" in x.id], "Actor::started for persistent actors")
    R = r"PersistentActor::recover\(a1,PersistentActor::persistence_key\(a1,a2\),a2\)"

    def mon(s, ev, q):
        # phase: new pre loaded failed snap msgs badsnap reported stopped end
        if ev.kind == "await":
            for h in ("pre_recovery", "recover", "post_recovery", "on_recovery_failed", "on_recovery_err"):
                v = awaited(ev, q, PA + h + "$")
                if not v:
                    continue
                if canon(q, v.a[2][0]) != "a1":
                    return Bad("self", "%s runs on another actor" % h)
                if h == "pre_recovery":
                    return "pre" if s == "new" else Bad("pre", "the pre-recovery hook runs in phase %s" % s)
                if h == "recover":
                    if s != "pre":
                        return Bad("load", "the journal is loaded in phase %s" % s)
                    if not re.match("^%s$" % R, canon(q, v)):
                        return Bad("key", "the journal loaded is %s" % cut(canon(q, v)))
                    return "loading"
                if h == "on_recovery_failed":
                    return "end-failed" if s == "failed" else Bad("failed", "the recovery-failed hook runs in phase %s" % s)
                if h == "on_recovery_err":
                    return "reported" if s == "apply-failed" else Bad("err", "the recovery-error hook runs in phase %s" % s)
                if h == "post_recovery":
                    return "end" if s in ("loaded-nothing", "snap-done", "msgs-done") else Bad("post", "the post-recovery hook runs in phase %s" % s)
            v = awaited(ev, q, RH)
            if v:
                src, a, seq, by = [canon(q, x, 9) for x in v.a[2][:4]]
                if a != "a1":
                    return Bad("actor", "recovered state is applied to %s" % a)
                ms = re.match(r"^%s@Recovered\.0\.snapshot\?\.handler$" % R, src)
                me = re.match(r"^each\(%s@Recovered\.0\.messages\?\)\.handler$" % R, src)
                if not ms and not me:
                    return Bad("source", "something not from the journal is applied: %s" % cut(src))
                if seq != src[:-8] + ".sequence" or by != src[:-8] + ".bytes":
                    return Bad("payload", "an entry is applied with another entry's content")
                if ms:
                    return "snap-applied" if s == "have-snap" else Bad("snap", "a snapshot is applied in phase %s" % s)
                return "msg-applied" if s == "have-msg" else Bad("msg", "a message is applied in phase %s" % s)
            return None
        if ev.kind == "branch":
            t = canon(q, ev.value, 9)
            if re.match("^%s$" % R, t):
                return {"Recovered": "recovered", "Disabled": "loaded-nothing", "Failed": "failed"}.get(ev.out)
            if re.match(r"^%s@Recovered\.0\.snapshot$" % R, t) and s == "recovered":
                return "have-snap" if ev.out == "Some" else "snap-done"
            if re.match(r"^%s@Recovered\.0\.messages$" % R, t):
                if s == "snap-done":
                    return None if ev.out == "Some" else "msgs-done"
                return None
            if t.startswith("RecoveryHandler::recover("):
                if s == "snap-applied":
                    return "snap-done" if ev.out == "Ok" else "apply-failed"
                if s == "msg-applied":
                    return "msg-ok" if ev.out == "Ok" else "apply-failed"
        if ev.kind == "next" and re.search(r"@Recovered\.0\.messages", canon(q, ev.value, 9)):
            if any(a[0] in RESTRICT or a[0] in ("rev", "filter", "filter_map") for a in ev.loc.a[0]):
                return Bad("part", "not all recovered messages are applied in order")
            if s not in ("snap-done", "msg-ok"):
                return Bad("order", "recovered messages are visited in phase %s" % s)
            return "have-msg" if ev.out == "Some" else "msgs-done"
        if wrote(ev, ".status"):
            v = q.val(ev.value)
            if v.tag == "adt" and v.a[1] == "Stopping":
                if s in ("reported",):
                    return "stopped"
                if s == "apply-failed":
                    return Bad("report", "the actor is stopped without reporting the recovery error")
                if s not in ("failed", "end-failed", "stopped"):
                    return Bad("stop", "the actor is stopped in phase %s" % s)
        return None
    for o in c.watch(b, mon, "new", "started", opaque=JAPI + [PA + "recover$", RH]):
        if o.kind == "return":
            c.check(o.obs in ("end", "end-failed", "stopped"), "end", "starting a persistent actor ends in phase %s" % o.obs, out=o)

    c.rule("load", "Loading opens the journal under the given key, reads the snapshot, then the messages, and reports exactly what was read; a "
           "failure to read is reported to the actor and handled by its policy (retry with delay and bound, stop, panic), and is never taken for an empty journal.")
    b = c.method(r"ActorRecovery$", r".", "recover_journal")
    INIT = r"ActorPersistence::init_journal\(.*\)"

    def attempt(ev, q):
        return awaited(ev, q, r"journal::Journal::<.*>::recover_snapshot$")

    def failed(ev, q):
        return ev.kind == "branch" and ev.out == "Err" and re.match(r"^Journal::recover_(snapshot|messages)\(%s\)$" % INIT, canon(q, ev.value))

    def ok(ev, q):
        return ev.kind == "branch" and ev.out == "Ok" and re.match(r"^Journal::recover_messages\(%s\)$" % INIT, canon(q, ev.value))
    inner = retry_monitor(r"PersistentActor::recovery_failure_policy", attempt, failed, ok, hook=PA + "on_recovery_err$")

    def mon(s, ev, q):
        sn, core = s
        if called(ev, r"ActorPersistence::init_journal$"):
            if core[1] not in ("idle", "retry"):
                return Bad("init", "the journal is opened in phase %s" % core[1])
            k = canon(q, ev.args[1])
            if k not in ("a2?", "PersistentActor::persistence_key(a1,a3)"):
                return Bad("key", "the journal is opened under %s" % k)
            return ("open", core)
        if attempt(ev, q) and sn != "open":
            return Bad("reopen", "recovery is attempted in a journal that was not opened for this attempt")
        if ev.kind == "branch" and re.match(r"^Journal::recover_snapshot\(%s\)$" % INIT, canon(q, ev.value)):
            sn = "snap" if ev.out == "Ok" else sn
        v = awaited(ev, q, r"journal::Journal::<.*>::recover_messages$")
        if v:
            if sn != "snap":
                return Bad("order", "messages are read before the snapshot was read")
            sn = "msgs"
        r = inner(core, ev, q)
        if isinstance(r, Bad):
            return r
        if r is None and sn == s[0]:
            return None
        return (sn, r or core)
    for o in c.watch(b, mon, ("new", (0, "idle", None, False, 0)), "load", opaque=JAPI):
        if o.kind != "return":
            continue
        sn, (n, ph, delay, stop, hk) = o.obs
        r = c.ret(o, 9)
        if ph == "ok":
            c.check(re.match(r"^Recovered\{0:RecoveredJournal\{snapshot:Journal::recover_snapshot\(.*\)\?,messages:Journal::recover_messages\(.*\)\?\}\}$", r),
                    "load:ok", "loading returns %s" % cut(r), out=o)
        else:
            c.check(r == "Failed" and stop and hk == 1 and ph in ("exhausted", "policy:StopActor"), "load:failed",
                    "loading returns %s in phase %s (stopped: %s, error reported %d times)" % (cut(r), ph, stop, hk), out=o)

    c.rule("entries", "Every recovered entry of a configured type is returned, in the order read, with its own bytes and sequence and the handler registered "
           "for its type; the handler decodes the bytes as the registered type and applies the value once, or reports the decoding error.")
    RM = r"each\(JournalStorage::read_latest_messages\(a1\.storage,a1\.persistence_id,a1\.last_sequence_id\)\?\?\)"

    def act(ev, q):
        x = mutation(ev, q)
        if x and x[0] in ("push", "push_back"):
            return True
        return ev.kind == "collect"

    def skip(ev, q):
        x = member(ev, q)
        return x is not None and x[2] is False and x[0].endswith(".recoverable_messages")
    ini, fe = foreach(r"^JournalStorage::read_latest_messages\(", act, "recovered messages", skip=skip)

    def mon(s, ev, q):
        if ev.kind == "next" and re.search(r"^JournalStorage::read_latest_messages", canon(q, ev.value)) and any(a[0] == "rev" for a in ev.loc.a[0]):
            return Bad("rev", "recovered messages are visited in reverse")
        x = mutation(ev, q)
        if x and x[0] in ("push", "push_back", "push_front", "insert") and "RecoveredPayload" in str(x[2]):
            if x[0] not in ("push", "push_back"):
                return Bad("order", "recovered messages are collected out of order (%s)" % x[0])
            v = strip(q, ev.args[1])
            p = {n: canon(q, t, 9) for n, t in v.a[2]} if v.tag == "adt" else {}
            if not re.match("^%s.sequence$" % RM, p.get("sequence", "")) or not re.search(r"%s\.bytes" % RM, p.get("bytes", "")) \
                    or not re.match(r"^HashMap::get\(a1\.types\.recoverable_messages,%s\.payload_type\)\?$" % RM, p.get("handler", "")):
                return Bad("payload", "a recovered message carries %s" % cut(str(p), 300))
        x = ev.kind == "call" and re.search(r"::(sort\w*|reverse|rotate_left|rotate_right|shuffle)(::<.*>)?$", ev.decl or "")
        if x and not by_sequence(c, q, x.group(1), ev.args):
            return Bad("order", "recovered messages are reordered (%s)" % x.group(1))
        return fe(s, ev, q)
    for o in c.watch(c.inherent(JR, "recover_messages"), mon, ini, "entries"):
        pass
    for o in c.run(c.inherent(JR, "recover_snapshot"), lambda ev, q: ("read", str(ev.out)) if ev.kind == "branch" and
                   re.match(r"^JournalStorage::read_latest_snapshot\([^()]*\)$", canon(q, ev.value)) else None):
        r = c.ret(o, 9)
        if o.kind == "return" and ("read", "Err") in o.obs:
            c.check(r.startswith("Err"), "snapshot:failed", "a failure to read the snapshot is taken for %s" % cut(r), out=o)
        if r.startswith("Ok{0:Some"):
            S_ = r"JournalStorage::read_latest_snapshot\(a1\.storage,a1\.persistence_id\)\?\?"
            c.check(re.search(r"handler:HashMap::get\(a1\.types\.recoverable_snapshots,%s\.payload_type\)\?" % S_, r) and re.search(r"bytes:.*%s\.bytes" % S_, r),
                    "snapshot", "the recovered snapshot is %s" % cut(r), out=o)
    for k, dec, app in (("MessageRecoveryHandler<", "Message::from_bytes", "Recover::recover"),
                        ("SnapshotRecoveryHandler<", "Snapshot::from_remote_envelope", "RecoverSnapshot::recover")):
        b = c.method(r"journal::RecoveryHandler<", k, "recover")
        outs = c.run(b, lambda ev, q: ("apply", canon(q, ev.value)) if ev.kind == "await" and re.match(r"^Recover\w*::recover\(", canon(q, ev.value)) else
                     ("dec", ev.out) if ev.kind == "branch" and canon(q, ev.value) == dec + "(a4)" else None)
        for o in c.all(outs, "paths of " + k):
            ap = [x[1] for x in o.obs if x[0] == "apply"]
            if ("dec", "Ok") in o.obs:
                c.check(ap == ["%s(a2,%s(a4)?,a5)" % (app, dec)] and c.ret(o).startswith("Ok"), k + "ok", "a decoded entry: applied %s, returns %s" % (ap, cut(c.ret(o))), out=o)
            else:
                c.check(not ap and ("dec", "Err") in o.obs and c.ret(o).startswith("Err") and dec + "(a4)!" in c.ret(o), k + "err",
                        "an entry that was not decoded: applied %s, returns %s" % (ap, cut(c.ret(o))), out=o)


# ---------------------------------------------------------------------------------------------
# ordered selection by sequence number

FLIP = {"Gt": "Lt", "Lt": "Gt", "Ge": "Le", "Le": "Ge", "Eq": "Eq", "Ne": "Ne"}
NEG = {"Gt": "Le", "Le": "Gt", "Ge": "Lt", "Lt": "Ge", "Eq": "Ne", "Ne": "Eq"}


def relation(ev, q, left):
    """('Gt', right) when the branch established `left Gt right` for a left side matching the pattern"""
    if ev.kind != "branch" or str(ev.out) not in ("True", "False"):
        return None
    t = q.val(ev.value)
    neg = str(ev.out) == "False"
    while t.tag == "un" and t.a[0] in ("Not", "!"):
        neg = not neg
        t = q.val(t.a[1])
    if t.tag != "bin" or t.a[0] not in FLIP:
        return None
    l, r, op = canon(q, t.a[1], 9), canon(q, t.a[2], 9), t.a[0]
    if not re.search(left, l):
        if not re.search(left, r):
            return None
        l, r, op = r, l, FLIP[op]
    return (NEG[op] if neg else op, r)


def selecting(coll, allow_in, allow_out):
    """observer: the elements of coll that are kept (collected, or found and sliced from) satisfy every bound, those passed over break one.
    allow_in: {bound: allowed relations of a kept element}; allow_out likewise (any one suffices)"""
    E = r"^each\(.*%s\)(\.\d)?\.sequence$" % coll

    def mon(s, ev, q):
        st, rels = s
        x = relation(ev, q, E)
        if x and st == "elem":
            if x[1] in allow_in or x[1] in allow_out:
                return (st, rels + (x,)) if x not in rels else None
            if re.match(r"^a\d", x[1]) or x[1].isdigit():
                return Bad("bound", "a message's sequence is compared with %s" % x[1])
            return None
        if ev.kind == "next" and re.search(coll + "$", canon(q, ev.value, 9)):
            if any(a[0] in ("take", "skip", "step_by") for a in ev.loc.a[0]):
                return Bad("partial", "only part of the messages is considered")
            if any(a[0] == "rev" for a in ev.loc.a[0]):
                return Bad("rev", "messages are visited in reverse")
            if st == "elem" and rels and not any(r[0] in allow_out.get(r[1], ()) for r in rels):
                return Bad("out", "a message is passed over although its sequence is %s" % (rels,))
            return ("elem", ()) if ev.out == "Some" else ("end", ())
        x = mutation(ev, q)
        kept = ev.kind == "collect" or (ev.kind == "retain" and str(ev.out) == "True") or (x and x[0] in ("push", "push_back", "split_off", "drain")) or \
            (ev.kind == "call" and re.search(r"::index$", ev.path or ""))
        if kept and st == "elem" and rels:
            for r in rels:
                if r[0] not in allow_in.get(r[1], ()):
                    return Bad("in", "a message is kept although its sequence is %s" % (r,))
            return ("elem", ()) if ev.kind != "retain" else ("kept", ())
        if ev.kind == "retain" and str(ev.out) == "False" and st == "elem":
            if rels and not any(r[0] in allow_out.get(r[1], ()) for r in rels):
                return Bad("out", "a message is removed although its sequence is %s" % (rels,))
            return ("kept", ())
        return None
    return ("new", ()), mon


@prop("P04")
def inmemory(c):
    M = r"InMemoryJournalStorage"
    J = lambda n: c.method(r"JournalStorage$", M, n)
    AT = r"(HashMap::get(_mut)?\(a1\.store,a2\)\?|HashMap::entry\(a1\.store,a2\)@(?:Vacant|Occupied)\.0\.value|OccupiedEntry::(get_mut|into_mut)\(HashMap::entry\(a1\.store,a2\)@Occupied\.0\)|Entry::or_\w+\(HashMap::entry\(a1\.store,a2\).*\))"
    c.rule("write", "Writing appends exactly the given entries, in order, to the given id's own list (messages or snapshots), creating the journal when it is new and "
           "leaving everything else as it was; it reports success only after that.")
    for n, lst, other in (("write_snapshot", "snapshots", "messages"), ("write_message", "messages", "snapshots"), ("write_message_batch", "messages", "snapshots")):
        b = J(n)

        def lab(ev, q):
            x = mutation(ev, q)
            if x:
                return ("mut",) + (x[0], x[1], tuple(x[2]))
            y = member(ev, q)
            if y and y[0] == "a1.store":
                return ("has", y[1], y[2])
            if ev.kind == "next":
                return ("next", canon(q, ev.value), ev.out)
            return None
        for o in c.all(c.run(b, lab), "paths of " + n):
            if o.kind != "return":
                continue
            c.check(c.ret(o).startswith("Ok"), n + ":ret", "%s returns %s" % (n, cut(c.ret(o))), out=o)
            mu = [x[1:] for x in o.obs if x[0] == "mut" and x[1] != "entry"]
            hs = [x[2] for x in o.obs if x[0] == "has"]
            c.check(all(x[1] == "a2" for x in o.obs if x[0] == "has"), n + ":id", "%s looks at another journal" % n, out=o)
            nx = [x for x in o.obs if x[0] == "next" and x[1] == "a3"]
            if nx and nx[-1][2] == "None" and len(nx) == 1 and not mu:
                continue
            good = False
            for op, col, args in mu:
                if col == "a1.store" and op in ("insert", "or_insert", "or_insert_with"):
                    v = args[1] if len(args) > 1 else ""
                    want = r"a3" if n == "write_message_batch" else r"(arr|coll|\[)?.*a3.*"
                    g = re.search(r"%s:coll\(empty\|\)" % other, v) and (re.search(r"%s:%s[,}]" % (lst, want), v))
                    if hs and hs[-1] is True and op == "insert":
                        c.fail(n + ":replace", "%s replaces an existing journal" % n, out=o)
                    if op != "insert" and re.search(r"%s:coll\(empty\|\).*%s:coll\(empty\|\)|default" % ((other, lst) if "snapshots" < other else (lst, other)), v):
                        continue
                    c.check(args and args[0] == "a2" and (g or op != "insert"), n + ":new", "%s creates %s under %s" % (n, cut(v), args[:1]), out=o)
                    good = bool(g)
                else:
                    c.check(op in ("push", "append", "extend", "push_back") and re.match(r"^%s\.%s$" % (AT, lst), col), n + ":append",
                            "%s does %s on %s" % (n, op, cut(col)), out=o)
                    c.check(args == ("a3",) or args == ("each(a3)",), n + ":entry", "%s stores %s" % (n, cut(str(args))), out=o)
                    good = True
            c.check(good, n + ":stored", "%s reports success without storing the entry" % n, out=o)

    c.rule("read", "Reading returns what was written under the given id: the most recently written snapshot; every message after the given sequence (all when it "
           "is zero), in order; the message with exactly the given sequence; all messages between the given bounds, in order; nothing else.")
    MS = r"%s\.messages" % AT
    for o in c.all(c.run(J("read_latest_snapshot"), lambda ev, q: ("has", member(ev, q)[1]) if member(ev, q) and member(ev, q)[0] == "a1.store" else None), "paths"):
        if o.kind == "return":
            r = c.ret(o, 9)
            c.check(re.match(r"^Ok\{0:(None|(Some\{0:)?(slice::last|Vec::last|slice::iter::last)?\(?%s\.snapshots\)?\??\}?)\}$" % AT, r) or
                    re.match(r"^Ok\{0:(None|.*::(last|max_by_key|next_back)\(.*%s\.snapshots.*)" % AT, r), "snap", "the latest snapshot is %s" % cut(r), out=o)
    init, mon = selecting(r"HashMap::get\(a1\.store,a2\)\?\.messages", {"a3": ("Gt", "Ge")}, {"a3": ("Lt", "Le")})

    def mon2(s, ev, q, mon=mon):
        z, core = s
        if ev.kind == "branch" and canon(q, ev.value) == "a3":
            z = "zero" if str(ev.out) == "0" else "some" if str(ev.out) == "other" else "odd:%s" % ev.out
            return (z, core)
        x = relation(ev, q, r"^a3$")
        if x and x[1] == "0":
            return ("zero" if x[0] in ("Eq", "Le") else "some", core)
        r = mon(core, ev, q)
        if r is None or isinstance(r, Bad):
            return r
        return (z, r)
    for o in c.watch(J("read_latest_messages"), mon2, ("new", init), "latest"):
        if o.kind == "return":
            r = c.ret(o, 9)
            if re.match(r"^Ok\{0:Some\{0:HashMap::get\(a1\.store,a2\)\?\.messages\}\}$", r):
                c.check(o.obs[0] == "zero", "latest:all", "all messages are returned for sequence %s" % o.obs[0], out=o)
            else:
                c.check(re.match(r"^Ok\{0:(None|HashMap::get\(a1.store,a2\)!?|Some\{0:.*)\}$", r), "latest:ret", "read_latest_messages returns %s" % cut(r), out=o)
                if re.match(r"^Ok\{0:(None|Some\{0:coll\(empty\|\)\})\}$", r) and o.obs[1][0] != "end" and o.obs[0] != "new":
                    c.fail("latest:none", "no messages are returned although not all were considered", out=o)
    init, mon = selecting(r"HashMap::get\(a1\.store,a2\)\?\.messages", {"a3": ("Eq",)}, {"a3": ("Ne",)})
    for o in c.watch(J("read_message"), mon, init, "one"):
        if o.kind == "return":
            r = c.ret(o, 9)
            if r.startswith("Ok{0:Some"):
                c.check(re.match(r"^Ok\{0:Some\{0:each\(HashMap::get\(a1\.store,a2\)\?\.messages\)\}\}$", r) and ("Eq", "a3") in o.obs[1], "one:found",
                        "read_message returns %s, known: %s" % (cut(r), o.obs[1]), out=o)
            else:
                c.check(r == "Ok{0:None}" and not ("Eq", "a3") in o.obs[1], "one:none", "read_message returns %s" % cut(r), out=o)
    init, mon = selecting(r"HashMap::get\(a1\.store,a2\)\?\.messages", {"a3": ("Ge",), "a4": ("Le",)}, {"a3": ("Lt",), "a4": ("Gt",)})

    def mon3(s, ev, q, mon=mon):
        seen, core = s
        if ev.kind == "collect" and core[0] == "elem":
            bs = {r[1] for r in core[1]}
            if bs != {"a3", "a4"}:
                return Bad("unbounded", "a message is returned without comparing it with both bounds (compared: %s)" % sorted(bs))
        r = mon(core, ev, q)
        if r is None or isinstance(r, Bad):
            return r
        return (seen, r)
    outs = c.watch(J("read_messages"), mon3, ("", init), "range", panics=True)
    for o in outs:
        c.check(o.kind != "panic", "range:panic", "reading a range panics", out=o)
        if o.kind == "return":
            r = c.ret(o, 9)
            c.check(r.startswith("Ok{0:"), "range:ret", "read_messages returns %s" % cut(r), out=o)
            c.check(not re.match(r"^Ok\{0:Some\{0:HashMap::get\(a1\.store,a2\)\?\.messages\}\}$", r), "range:all", "all messages are returned, whatever the bounds", out=o)

    c.rule("delete", "Deleting up to a sequence removes only messages up to it, and all of those before it, of that id; snapshots stay. Deleting an id removes that id's journal and no other.")
    init, mon = selecting(r"\.messages", {"a3": ("Gt", "Ge")}, {"a3": ("Lt", "Le")})

    def mon4(s, ev, q, mon=mon):
        last, core = s
        x = mutation(ev, q)
        if x and x[0] in ("remove", "clear", "drain", "truncate") and x[1].startswith("a1.store"):
            return Bad("remove", "deleting messages does %s on %s" % (x[0], x[1]))
        y = relation(ev, q, r"\b(slice|Vec)::last\(.*\.messages\)\?\.sequence$")
        if y and y[1] == "a3":
            return ("below" if y[0] in ("Lt", "Le") else "above", core)
        if ev.kind == "branch" and re.search(r"::last\(.*\.messages\)$", canon(q, ev.value, 9)) and ev.out == "None":
            return ("below", core)
        w = None
        if ev.kind == "write" and ev.loc.a[0].tag == "H":
            v = strip(q, ev.value)
            if v.tag == "adt" and v.a[0].endswith("ActorJournal"):
                p = {n: canon(q, t, 9) for n, t in v.a[2]}
                if not re.search(r"\.snapshots$", p.get("snapshots", "")):
                    return Bad("snap", "deleting messages leaves the snapshots as %s" % cut(p.get("snapshots", "")))
                w = p.get("messages", "")
            elif ev.loc.a[1] and ev.loc.a[1][-1] == ".messages":
                w = canon(q, ev.value, 9)
            if w is not None:
                if re.match(r"^coll\((empty)?\|\)$", w) and not (last == "below" or core[0] == "end") and "split_off" not in core[0]:
                    if last == "taken":
                        return None
                    return Bad("all", "all messages are deleted although some may be newer")
                if re.search(r"\.messages$", w) and last == "below":
                    return Bad("none", "no message is deleted although all are older")
        r = mon(core, ev, q)
        if r is None or isinstance(r, Bad):
            return r
        return (last, r)
    for o in c.watch(J("delete_messages_to"), mon4, ("new", init), "to"):
        pass
    for o in c.run(J("delete_messages_to"), lambda ev, q: ("look", member(ev, q)[1]) if member(ev, q) and member(ev, q)[0] == "a1.store" else None):
        c.check(all(x[1] == "a2" for x in o.obs), "to:id", "messages of another journal are deleted", out=o)
    for o in c.all(c.run(J("delete_all"), lambda ev, q: ("mut",) + tuple(map(str, mutation(ev, q))) if mutation(ev, q) else None), "paths"):
        c.check([x for x in o.obs] == [("mut", "remove", "a1.store", "['a2']")], "all", "deleting a journal does %s" % (o.obs,), out=o)


# ---------------------------------------------------------------------------------------------
@prop("P05")
def redis(c):
    RJ = r"journal::actor::RedisJournal"
    c.rule("commands", "Each storage request issues exactly one command with the request's own key, sequence numbers and encoded entries; it is answered exactly once, "
           "after the command completed: with what the command returned, decoded in order, or with its error.")
    W = r"JournalEntry::write_to_bytes\((a2\.entry|each\(a2\.entries\))\)\?"
    table = {
        "Write": [["ZADD", r"a2\.key", r"a2\.entry\.sequence", r"JournalEntry::write_to_bytes\(a2\.entry\)\?"]],
        "WriteBatch": [["ZADD", r"a2\.key"], [r"each\(a2\.entries\)\.sequence", r"JournalEntry::write_to_bytes\(each\(a2\.entries\)\)\?"]],
        "DeleteRange": [["ZREMRANGEBYSCORE", r"a2\.key", r"a2\.start_sequence", r"a2\.end_sequence"]],
        "ReadSnapshot": [["ZRANGE", r"a2\.0", r"\+inf", r"-inf", "BYSCORE", "REV", "LIMIT", "0", "1"]],
        "ReadMessage": [["ZRANGE", r"a2\.key", r"a2\.sequence_id", r"a2\.sequence_id", "BYSCORE"]],
        "ReadMessages": [["ZRANGE", r"a2\.key", r"(a2\.start_sequence\?|0)", r"(\+inf|.*a2\.end_sequence\?.*)", "BYSCORE"]],
        "Delete": [["DEL", r"a2\.0"]],
    }

    def words(q, t):
        t = strip(q, t)
        if t.tag == "arr":
            return [w for x in t.a[0] for w in words(q, x)]
        return [canon(q, t, 9).strip("'").strip('"')]
    for msg, want in table.items():
        b = c.handler(RJ, r"actor::%s$" % msg)

        def mon(s, ev, q, want=want):
            st, ws, per, rep, nsome = s
            if called(ev, r"\bredis::(\w+::)*cmd$|redis::(\w+::)?Cmd::new$"):
                if st != "new":
                    return Bad("cmd", "more than one command is issued")
                return ("cmd", tuple(words(q, ev.args[0])) if ev.args else (), per, rep, nsome)
            if called(ev, r"redis::(\w+::)*Cmd::arg(::<.*>)?$"):
                w = tuple(words(q, ev.args[1]))
                if any("each(a2.entries)" in x for x in w):
                    return (st, ws, (per + w)[-4:], rep, nsome)
                return (st, ws + w, per, rep, nsome)
            if ev.kind == "next" and canon(q, ev.value) == "a2.entries":
                if nsome == "some":
                    g = per[-len(want[1]):]
                    if len(g) != len(want[1]) or not all(re.match("^%s$" % w, x) for w, x in zip(want[1], g)):
                        return Bad("entry", "an entry of a batch is written as %s" % (g,))
                if any(a[0] in RESTRICT or a[0] in ("filter", "rev") for a in ev.loc.a[0]):
                    return Bad("part", "not every entry of the batch is written")
                return (st, ws, (), rep, "some" if ev.out == "Some" else "end")
            if awaited(ev, q, r"redis::.*::(query_async|exec_async)(::<.*>)?$"):
                if st != "cmd":
                    return Bad("query", "a command is sent in state %s" % st)
                if len(ws) != len(want[0]) or not all(re.match("^%s$" % w, x) for w, x in zip(want[0], ws)):
                    return Bad("words", "the command is %s" % (ws,))
                if len(want) > 1 and nsome != "end":
                    return Bad("batch", "the command is sent before all entries were added")
                return ("sent", ws, per, rep, nsome)
            if ev.kind == "branch" and re.match(r"^Cmd::query_async\(", canon(q, ev.value)) and st == "sent" and ev.out in ("Ok", "Err"):
                return (ev.out, ws, per, rep, nsome)
            if called(ev, ONESHOT):
                if rep:
                    return Bad("twice", "a request is answered twice")
                ch, v = canon(q, ev.args[0]), canon(q, ev.args[1], 12)
                if not re.match(r"^a2\.(result_channel|1)$", ch):
                    return Bad("channel", "the answer goes to %s" % ch)
                if st == "sent" and re.match(r"^Cmd::query_async\(.*\)$", v):
                    return (st, ws, per, "ok", nsome)
                if not ((st == "Ok" and v.startswith("Ok{")) or (st == "Err" and v.startswith("Err{"))):
                    return Bad("answer", "a command that ended in %s is answered with %s" % (st, cut(v)))
                return (st, ws, per, "ok", nsome)
            return None
        for o in c.watch(b, mon, ("new", (), (), "", ""), msg, spawn="inline"):
            if o.kind != "return":
                continue
            if msg == "Delete":
                r = c.ret(o)
                c.check(o.obs[0] in ("Ok", "Err") and r.startswith(o.obs[0]), "Delete:ret", "deleting keys returns %s after %s" % (cut(r), o.obs[0]), out=o)
            else:
                c.check(o.obs[3] == "ok", msg + ":answer", "%s ends without an answer" % msg, out=o)
        if msg.startswith("Read"):
            outs = c.run(b, lambda ev, q: canon(q, ev.args[1], 14) if called(ev, ONESHOT) else
                         ("dec", canon(q, ev.args[0], 14)) if called(ev, r"JournalEntry::read_from_(bytes|slice)$") else None, spawn="inline")
            dec = [x[1] for o in outs for x in o.obs if x[0] == "dec"]
            c.check(dec and all("query_async" in x for x in dec), msg + ":decode", "%s decodes %s" % (msg, cut(str(dec))))

    c.rule("requests", "Each storage operation addresses the journal's messages or snapshots under keys made from the given id (the same key for every operation on the same "
           "thing), passes on its arguments, and returns the answer it waited for; a request that cannot be handed over or is never answered is an error.")
    K = lambda k: r'<fn value>\(a1\.key_provider_fn,a2,\'"%s"\',a1\.config\)' % k
    CH = r"oneshot::channel\(\)\.0"
    tb = {"write_snapshot": r"Write\{key:%s,entry:a3,result_channel:%s\}" % (K("snapshot"), CH),
          "write_message": r"Write\{key:%s,entry:a3,result_channel:%s\}" % (K("journal"), CH),
          "write_message_batch": r"WriteBatch\{key:%s,entries:a3,result_channel:%s\}" % (K("journal"), CH),
          "read_latest_snapshot": r"ReadSnapshot\{0:%s,1:%s\}" % (K("snapshot"), CH),
          "read_latest_messages": r"ReadMessages\{key:%s,start_sequence:Some\{0:a3\},end_sequence:None,result_channel:%s\}" % (K("journal"), CH),
          "read_message": r"ReadMessage\{key:%s,sequence_id:a3,result_channel:%s\}" % (K("journal"), CH),
          "read_messages": r"ReadMessages\{key:%s,start_sequence:Some\{0:a3\},end_sequence:Some\{0:a4\},result_channel:%s\}" % (K("journal"), CH),
          "delete_messages_to": r"DeleteRange\{key:%s,start_sequence:(0|-\d+|.*MIN),end_sequence:a3,result_channel:%s\}" % (K("journal"), CH),
          "delete_all": r"Delete\{0:(coll\(empty\||\[)(%s,%s|%s,%s)(\)|\])\}" % (K("journal"), K("snapshot"), K("snapshot"), K("journal"))}
    for n, pat in tb.items():
        b = c.method(r"JournalStorage$", r"RedisJournalStorage<", n)
        outs = c.run(b, lambda ev, q: ("msg", canon(q, message(ev, q)[1]), canon(q, message(ev, q)[2], 9)) if message(ev, q) else
                     ("sent", ev.out) if ev.kind == "branch" and re.match(r"^LocalActorRef::(notify|send)\(", canon(q, ev.value)) else
                     ("rx", ev.out) if ev.kind == "branch" and canon(q, ev.value) == "oneshot::channel().1" else
                     ("await",) if ev.kind == "await" and canon(q, ev.value) == "oneshot::channel().1" else None, opaque=API)
        for o in c.all(outs, "paths of " + n):
            if o.kind != "return":
                continue
            ms = [x for x in o.obs if x[0] == "msg"]
            c.check(len(ms) == 1 and ms[0][1] == "a1.redis_journal" and re.match("^%s$" % pat, ms[0][2]), n + ":msg", "%s sends %s" % (n, cut(str([x[1:] for x in ms]), 300)), out=o)
            r = c.ret(o, 9)
            if ("sent", "Err") in o.obs:
                c.check(r.startswith("Err"), n + ":lost", "%s returns %s although the request could not be handed over" % (n, cut(r)), out=o)
            elif n == "delete_all":
                c.check(r.startswith("LocalActorRef::send(") and r.endswith("?"), n + ":ret", "%s returns %s" % (n, cut(r)), out=o)
            elif ("rx", "Err") in o.obs:
                c.check(r.startswith("Err"), n + ":noanswer", "%s returns %s although no answer came" % (n, cut(r)), out=o)
            else:
                c.check(("await",) in o.obs and r == "oneshot::channel().1?", n + ":ret", "%s returns %s" % (n, cut(r)), out=o)
    c.rule("keys", "A key is made of the configured prefix, the persistence id and the kind, so that different ids and kinds never share a key.")
    for o in c.run(c.fn("coerce_redis::journal::create_provider"), None, opaque=API + [r"into_actor$"]):
        if o.kind == "return":
            r = c.ret(o, 9)
            c.check(re.search(r"key_provider_fn:fn:[\w:]*get_(clustered_)?redis_key", r) or "key_provider_fn" in r, "fn", "the provider is %s" % cut(r), out=o)
    for f in ("get_redis_key", "get_clustered_redis_key"):
        for o in c.run(c.fn("coerce_redis::journal::" + f), None):
            r = c.ret(o, 12)
            c.check(re.search(r"\[.*a3\.key_prefix.*\]", r) and re.search(r"\ba1\b", r) and re.search(r"\ba2\b", r), f, "a key is %s" % r, out=o)
            mm = re.search(r"Arguments::new\((.*),\[(.*)\]\)", r)
            if mm:
                # placeholders in template order; the id and the kind must be separated by a literal
                tpl = mm.group(1)
                lit = re.findall(r"\\\\xc0([^\\]*?)(?=\\\\xc|\\\\x00)", tpl)
                args = mm.group(2).split(",")
                if len(args) >= 2 and {args[-2], args[-1]} == {"a1", "a2"}:
                    c.check(re.search(r"\\xc0\\{1,2}x[0-9a-f]{2}[^\\]+\\{1,2}xc[0-9]\\{1,2}x00", tpl), f + ":sep", "id and kind are not separated in the key: %s" % tpl, out=o)


# ---------------------------------------------------------------------------------------------
def batching(c):
    b = c.inherent(r"EventBatch<", "message")
    for o in c.run(b, lambda ev, q: (mutation(ev, q)[0], mutation(ev, q)[1], tuple(mutation(ev, q)[2])) if mutation(ev, q) else None):
        if o.kind == "return":
            c.check(len(o.obs) == 1 and o.obs[0][:2] == ("push", "a1.entries") and
                    re.match(r"^BatchedEntry\{payload_type:HashMap::get\(a1\.journal_types\.message_type_map,TypeId::of\('M'\)\)\?,bytes:Message::as_bytes\(a2\)\?\}$", o.obs[0][2][0]),
                    "batch", "adding a message to a batch does %s" % cut(str(o.obs)), out=o)


def snapshot_marks(c):
    """what is remembered as the last snapshot's sequence is the sequence of the snapshot written or read"""
    def mon(s, ev, q):
        v = awaited(ev, q, STORAGE + "write_snapshot$")
        if v:
            e = q.val(v.a[2][2])
            return canon(q, fld(e, ".sequence"))
        if wrote(ev, ".last_snapshot_sequence_id"):
            d = canon(q, ev.value)
            if d == "None" or d == "Some{0:%s}" % s or re.match(r"^Some\{0:JournalStorage::read_latest_snapshot\(a1\.storage,a1\.persistence_id\)\?\?\.sequence\}$", d):
                return None
            return Bad("mark", "the last snapshot's sequence is taken to be %s" % cut(d))
        return None
    for w in ("persist_snapshot", "recover_snapshot"):
        c.watch(c.inherent(JR, w), mon, "?", w)


@prop("P06")
def journal_types(c):
    c.rule("entry", "An entry decoded from its own encoding is that entry: every field is written and read back from the same place; undecodable data is refused.")
    F = {"sequence", "payload_type", "bytes"}
    w = c.inherent(r"storage::JournalEntry", "write_to_bytes")
    for o in c.run(w, lambda ev, q: (ev.out, canon(q, ev.value, 9)) if ev.kind == "branch" and canon(q, ev.value).startswith("Message::write_to_bytes(") else None):
        for out, t in o.obs:
            mm = {k: v for k, v in re.findall(r"(\w+):([\w.]+)", t)}
            c.check(all(mm.get(f) == "a1." + f for f in F), "write", "an entry is encoded as %s" % cut(t), out=o)
            c.check(c.ret(o).startswith("Some" if out == "Ok" else "None"), "write:ret", "encoding returns %s after %s" % (cut(c.ret(o)), out), out=o)
    for n in ("read_from_slice", "read_from_bytes"):
        for o in c.all(c.run(c.inherent(r"storage::JournalEntry", n), lambda ev, q: (ev.out,) if ev.kind == "branch" and re.match(r"^Message::parse_from_bytes\(a1\)$", canon(q, ev.value)) else None), "paths"):
            r = c.ret(o, 9)
            if ("Ok",) in o.obs:
                mm = {k: v for k, v in re.findall(r"(\w+):(Message::parse_from_bytes\(a1\)\?\.\w+)", r)}
                c.check(r.startswith("Some{0:JournalEntry{") and all(mm.get(f, "").endswith("?." + f) for f in F), n, "an entry is decoded as %s" % cut(r), out=o)
            else:
                c.check(r == "None" and ("Err",) in o.obs, n + ":err", "undecodable data is read as %s" % cut(r), out=o)
    c.rule("types", "Configuring a type under an identifier records both directions: the type's entries are written under that identifier, and entries under that identifier are "
           "recovered as that type; the recorded types are those of the actor's own type.")
    for n, rec, mp, h, tv in (("message", "recoverable_messages", "message_type_map", "MessageRecoveryHandler", "M"),
                              ("snapshot", "recoverable_snapshots", "snapshot_type_map", "SnapshotRecoveryHandler", "S")):
        b = c.inherent(r"JournalTypes<", n)
        for o in c.run(b, lambda ev, q: (mutation(ev, q)[0], mutation(ev, q)[1], tuple(mutation(ev, q)[2])) if mutation(ev, q) else None):
            got = sorted(o.obs)
            c.check(len(got) == 2 and any(x[0] == "insert" and x[1] == "a1." + mp and x[2] == ("TypeId::of('%s')" % tv, "a2") for x in got)
                    and any(x[0] == "insert" and x[1] == "a1." + rec and x[2][0] == "a2" and x[2][1].startswith(h + "{") for x in got), n, "configuring a %s does %s" % (n, got), out=o)
        b = c.inherent(r"JournalTypes<", n + "_type_mapping")
        for o in c.run(b, None):
            r = c.ret(o)
            c.check(r == "None" or re.match(r"^Some\{0:HashMap::get\(a1\.%s,TypeId::of\('%s'\)\)\?\}$" % (mp, tv), r) or re.match(r"^HashMap::get\(a1\.%s,TypeId::of\('%s'\)\)$" % (mp, tv), r), n + "_map",
                    "the identifier of a %s is looked up as %s" % (n, r), out=o)
        for o in c.run(c.inherent(r"JournalTypes<", "recoverable_%ss" % n), None):
            c.check(c.ret(o) == "a1." + rec, n + "_rec", "the recoverable %ss are %s" % (n, c.ret(o)), out=o)
    b = c.fn("coerce::persistent::journal::types::init_journal_types")
    for o in c.run(b, lambda ev, q: ("conf",) if called(ev, r"PersistentActor::configure$") else ("has",) + member(ev, q)[1:3] if member(ev, q) else
                   ("ins", mutation(ev, q)[2][0]) if mutation(ev, q) and mutation(ev, q)[0] == "insert" else None):
        if o.kind != "return":
            continue
        ids = [x[1] for x in o.obs if x[0] in ("has", "ins")]
        c.check(all(x == "TypeId::of('A')" for x in ids), "cache:key", "the types are cached under %s" % ids, out=o)
        c.check(("conf",) in o.obs or any(x[0] == "has" and x[2] for x in o.obs), "cache:conf", "the actor's types are neither cached nor configured", out=o)
    batching(c)
    c.rule("journal", "An actor's journal is opened empty under the given key in the configured storage; reading and clearing address that journal (or the id asked for) and nothing newer than the last snapshot is cleared.")
    b = c.inherent(r"ActorPersistence", "init_journal")
    for o in c.run(b, lambda ev, q: canon(q, ev.value, 9) if ev.kind == "write" and ev.loc.a[1] and ev.loc.a[1][-1] == ".journal" else None):
        if o.kind == "return":
            c.check(o.obs and re.search(r"^Some\{0:Journal\{persistence_id:a2,last_sequence_id:0,last_snapshot_sequence_id:None,storage:StorageProvider::journal_storage\(a1\.storage_provider\)\?", o.obs[-1]),
                    "init", "the journal is %s" % cut(str(o.obs)), out=o)
    snapshot_marks(c)
    b = c.inherent(JR, "clear_old_messages")
    for o in c.run(b, lambda ev, q: canon(q, ev.value) if ev.kind == "await" else None):
        if o.obs:
            c.check(list(o.obs) == ["JournalStorage::delete_messages_to(a1.storage,a1.persistence_id,a1.last_snapshot_sequence_id?)"], "clear", "clearing old messages does %s" % (o.obs,), out=o)
        else:
            c.check(c.ret(o) == "False", "clear:none", "clearing reports %s without doing anything" % c.ret(o), out=o)
    b = c.inherent(JR, "read_messages")
    for o in c.run(b, lambda ev, q: canon(q, ev.value) if ev.kind == "await" else ("pid", ev.out) if ev.kind == "branch" and canon(q, ev.value).endswith("persistence_id") else
                   ("rd", ev.out) if ev.kind == "branch" and canon(q, ev.value) == "a2.read" else None):
        aw = [x for x in o.obs if isinstance(x, str)]
        pid = "a2.persistence_id?" if ("pid", "Some") in o.obs else "a1.persistence_id"
        if ("rd", "Message") in o.obs:
            c.check(aw == ["JournalStorage::read_message(a1.storage,%s,a2.read@Message.sequence_id)" % pid], "read:one", "reading a message does %s" % aw, out=o)
        elif ("rd", "Range") in o.obs:
            c.check(aw == ["JournalStorage::read_messages(a1.storage,%s,a2.read@Range.0.start,a2.read@Range.0.end)" % pid], "read:range", "reading a range does %s" % aw, out=o)
        r = c.ret(o)
        c.check(r.startswith(("Ok", "Err", "JournalStorage::read")), "read:ret", "reading returns %s" % cut(r), out=o)
    for o in c.run(c.inherent(JR, "clear"), lambda ev, q: canon(q, ev.value) if ev.kind == "await" else None):
        c.check(list(o.obs) == ["JournalStorage::delete_all(a1.storage,a1.persistence_id)"], "clear:all", "clearing a journal does %s" % (o.obs,), out=o)
