"""L03-L06, L08, L13: executing one test."""
from kit import *
from rules import rule, Anchor

FORMATS = (("ShTest", r"<litcheck_lit::formats::sh::ShTest as .*TestFormat>::execute$"),
           ("ExecutableTest", r"<litcheck_lit::formats::executable::ExecutableTest as .*TestFormat>::execute$"))


def get(m, k, d=None):
    for a, b in m:
        if a == k:
            return b
    return d


def put(m, **kw):
    d = dict(m)
    d.update(kw)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


BLOCKING = ("join", "recv", "wait_with_output", "write_all", "read_to_end", "read_to_string", "park", "scope")


class Proc(Mon):
    """The life of one child process: what the code has observed of it and done to it."""
    init = ()

    def timeout_ids(self, v):
        return ("arg", 2) in ids_in(v)

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if "process::Command" in nm and last in ("spawn", "output", "status"):
            a, b = st.copy(), st.copy()
            a.mon, b.mon = put(st.mon, spawn="ok"), put(st.mon, spawn="err")
            return [(a, ok(("sym", ("child",), ()))), (b, err(("sym", ("spawnerr",), ())))]
        if "process::Child" in nm and last in ("try_wait", "wait"):
            killed = get(st.mon, "killed")
            outs = []
            key = "after" if killed else "obs"
            s = st.copy()
            s.mon = put(s.mon, **{key: "err"})
            outs.append((s, err(("sym", ("waiterr",), ()))))
            if last == "try_wait":
                s = st.copy()
                s.mon = put(s.mon, **{key: "running"})
                outs.append((s, ok(NONE)))
            s = st.copy()
            s.mon = put(s.mon, **{key: "exited"})
            x = ("sym", ("exitstatus",), ())
            outs.append((s, ok(some(x) if last == "try_wait" else x)))
            if last == "wait":
                for o, _ in outs:
                    if killed:
                        o.mon = put(o.mon, reaped=True)
                    else:
                        o.mon = put(o.mon, blocked=get(o.mon, "blocked") or "Child::wait")
            return outs
        if "process::Child" in nm and last == "kill":
            s = st.copy()
            s.mon = put(s.mon, killed=True)
            return [(s, TOP)]
        if "ExitStatus" in nm and last == "code":
            cd = get(st.mon, "code")
            outs = []
            for k, v in (("none", NONE), ("zero", some(("int", 0))), ("nonzero", some(("sym", ("code",), ())))):
                if cd in (None, k):
                    s = st.copy()
                    s.mon = put(s.mon, code=k)
                    s.facts[(("code",), ())] = ("ne", frozenset((0,)))
                    outs.append((s, v))
            return outs
        if "ExitStatus" in nm and last in ("success", "exit_ok"):
            cd = get(st.mon, "code")
            outs = []
            for k in ("none", "zero", "nonzero"):
                if cd in (None, k):
                    s = st.copy()
                    s.mon = put(s.mon, code=k)
                    g = k == "zero"
                    outs.append((s, (TRUE if g else FALSE) if last == "success" else (ok(UNIT) if g else err(TOP))))
            return outs
        if last == "is_zero" and c.args and self.timeout_ids(e.norm(st, c.args[0])):
            z = get(st.mon, "zero")
            outs = []
            for k in (True, False):
                if z in (None, k):
                    s = st.copy()
                    s.mon = put(s.mon, zero=k)
                    outs.append((s, TRUE if k else FALSE))
            return outs
        if last in ("lt", "le", "gt", "ge") and len(c.args) == 2:
            a, b = e.norm(st, c.args[0]), e.norm(st, c.args[1])
            ta, tb = self.timeout_ids(a), self.timeout_ids(b)
            if ta != tb:
                # elapsed <= timeout style: not expired when the elapsed side is the smaller one
                outs = []
                for res in (True, False):
                    smaller_is_first = (last in ("lt", "le")) == res
                    expired = smaller_is_first if ta else not smaller_is_first
                    s = st.copy()
                    s.mon = put(s.mon, expired=expired)
                    outs.append((s, TRUE if res else FALSE))
                return outs
        if last in ("eq", "ne") and len(c.args) == 2:
            a, b = e.norm(st, c.args[0]), e.norm(st, c.args[1])
            if "Duration" in nm and self.timeout_ids(a) != self.timeout_ids(b):
                outs = []
                z = get(st.mon, "zero")
                for res in (True, False):
                    k = res == (last == "eq")
                    if z in (None, k):
                        s = st.copy()
                        s.mon = put(s.mon, zero=k)
                        outs.append((s, TRUE if res else FALSE))
                return outs
        if last == "spawn" and "thread" in nm:
            return [(st, ("sym", ("thread", c.fr.fn.name, c.blk), ()))]
        if last in BLOCKING and not nm.startswith("core::") and "Path" not in nm and "str::" not in nm and "slice" not in nm \
                and get(st.mon, "spawn") == "ok" and (nm.startswith("std::") or "parking_lot" in nm):
            st.mon = put(st.mon, **({"late": last} if get(st.mon, "killed") else {"blocked": get(st.mon, "blocked") or nm}))
            return None
        return None


@rule("L03")
def l03(r):
    status = adt(r, "TestStatus")
    res = adt(r, "TestResult", "litcheck_lit")
    sfi = fidx(r, res, "status")
    fn, e, outs = proc(r)
    for s, v in outs:
        stt = e.proj(v, sfi)
        name = vname(r.p, status, stt[2]) if stt[0] == "adt" and stt[1] == status else "?"
        g = lambda k: get(s.mon, k)  # noqa: E731
        if g("spawn") != "ok":
            want = {"Unresolved"}
            why = "the process could not be started"
        elif name == "Timeout":
            good = g("zero") is False and g("expired") is True and g("obs") == "running"
            r.ob("status", "timeout: zero=%s expired=%s last=%s" % (g("zero"), g("expired"), g("obs")), good, "spurious-timeout",
                 "%s: a path reports a timeout although %s" % (fn.loc(), "no timeout was configured" if g("zero") is not False else
                                                              "the timeout has not expired" if g("expired") is not True else
                                                              "the process had already ended"))
            continue
        elif g("obs") == "err":
            want, why = {"Unresolved"}, "waiting for the process failed"
        elif g("obs") == "exited":
            want = {"none": {"Unresolved"}, "zero": {"Pass"}, "nonzero": {"Fail"}}.get(g("code"), set())
            why = {"none": "the process was ended by a signal", "zero": "the exit code is 0",
                   "nonzero": "the exit code is not 0"}.get(g("code"), "its exit code was never looked at")
        else:
            want, why = {"Timeout"} if g("expired") else set(), "the process is still running"
        r.ob("status", "%s -> %s" % (why, name), name in want, "status|%s" % why,
             "%s: a path reports status %s although %s" % (fn.loc(), name, why))
    seen = {get(s.mon, "obs") for s, v in outs}
    r.need("exited" in seen, "the exit status of test commands")
    r.floor("status", 5)


def proc(r):
    fn = r.fn(r"litcheck_lit::utils::ShellCommand::wait_with_timeout$")
    m = Proc(r.p, watch=(r"process::(Child|Command)::", r"ExitStatus", r"thread"), small=80)
    e, outs = analyse(r, fn, m)
    return fn, e, outs


@rule("L08")
def l08(r):
    fn, e, outs = proc(r)
    status = adt(r, "TestStatus")
    res = adt(r, "TestResult", "litcheck_lit")
    sfi = fidx(r, res, "status")
    for s, v in outs:
        stt = e.proj(v, sfi)
        name = vname(r.p, status, stt[2]) if stt[0] == "adt" and stt[1] == status else "?"
        g = lambda k: get(s.mon, k)  # noqa: E731
        if g("spawn") != "ok":
            continue
        if name == "Timeout":
            r.ob("timeout-path", "killed before anything blocks", g("killed") is True and not g("blocked"),
                 "timeout|not-killed-first",
                 "%s: on the timeout path %s" % (fn.loc(), "the process is never killed" if not g("killed") else
                                                 "%s blocks before the process is killed" % g("blocked")))
            r.ob("timeout-path", "reaped after the kill", g("reaped") is True or g("after") == "exited", "timeout|not-reaped",
                 "%s: a timed out process is never waited for after it was killed" % fn.loc())
            r.ob("timeout-path", "nothing waits on the output pipes", not g("late"), "timeout|waits-on-pipes",
                 "%s: after the kill the code waits (%s) for pipes that descendants of the command may hold open" % (fn.loc(), g("late")))
        elif g("obs") == "exited":
            r.ob("exit-path", "the process has been waited for (%s)" % name, not g("killed"), "exit|killed",
                 "%s: a process that ended by itself is killed" % fn.loc())
    r.floor("timeout-path", 3)
    r.floor("exit-path", 2)
    timeouts(r)
    r.floor("timeout-config", 2)
    # the readers of both output streams are started: nothing is lost and the child cannot block on a full pipe
    n = 0
    for f in sorted(r.p.reachable([fn.name])):
        for bi, t, c in r.p.callees(r.p.fns[f]):
            nm = c.get("r") or c["p"]
            if nm.startswith("std::process::Command::") and nm.rsplit("::", 1)[-1] in ("stdout", "stderr"):
                n += 1
    r.ob("pipes", "stdout and stderr are captured (%d)" % n, n >= 2, "pipes", "%s: an output stream is not captured" % fn.loc())


def timeouts(r):
    """Both formats hand the configured timeout to the process runner."""
    for fmt, pat in FORMATS:
        fn = r.fn(pat)
        m = Mon(r.p, watch=(r"ShellCommand::wait_with_timeout$", r"TempDir"), stop=(r"ShellCommand::(?!wait_with_timeout)", r"TestScript::", r"SubstitutionSet",
                                                                        r"BooleanExpr", r"write_script$", r"SourceFile", r"Input::"), init=frozenset())
        seen = []

        def before(e, st, c):
            if c.name.endswith("ShellCommand::wait_with_timeout"):
                v = c.args[1]
                seen.append((v, c, dict(st.facts)))
                st.mon = st.mon | {describe_timeout(v)}
                return [(st, ("sym", ("runresult",), ()))]
        m.before_call = before
        e, outs = analyse(r, fn, m)
        kinds = {describe_timeout(v) for v, c, f in seen}
        r.ob("timeout-config", "%s: %s" % (fmt, sorted(kinds)), kinds == {"none", "seconds"}, "%s|timeout-config" % fmt,
             "%s: the process runner is given %s instead of the configured timeout in seconds (or none)" % (fn.loc(), sorted(kinds)))


def describe_timeout(v):
    if v[0] == "sym" and isinstance(v[1], tuple):
        i = v[1]
        if i[0] == "const" and i[1].endswith("Duration::ZERO"):
            return "none"
        if i[0] in ("kadt", "konst") and "Duration" in i[1]:
            return "none"
        if i[0] == "app" and i[1].endswith("Duration::from_secs") and i[2][0] == "sym" and ("arg", 3) in ids_in(i[2]):
            return "seconds"
        if i[0] == "app" and i[1].endswith("::from_secs"):
            return "other-seconds"
    if v[0] == "adt" and v[1].endswith("Duration"):
        return "none"
    return "other:%s" % (v[1][0] if v[0] == "sym" else v[0])
