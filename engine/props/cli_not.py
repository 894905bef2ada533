"""L18: the `not` command inverts the outcome of the command it runs."""
from kit import *
from rules import rule
from props.fc_report import get, put
from props.lit_run import exit_kind
from models import strip


PROG, ARGV = ("sym", ("prog",), ()), ("sym", ("argv",), ())


class Not(Mon):
    init = ()

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if not c.args:
            return None
        if last in ("split_first", "first", "is_empty", "len") and self.is_whole(e, st, c.args[0]):
            outs = []
            for given in ((True, False) if get(st.mon, "given") is None else (get(st.mon, "given"),)):
                s = st.copy()
                s.mon = put(s.mon, given=given)
                if last == "is_empty":
                    v = FALSE if given else TRUE
                elif last == "len":
                    v = ("sym", ("argc",), ()) if given else ("int", 0)
                    if given:
                        s.facts[(("argc",), ())] = ("ne", frozenset((0,)))
                elif not given:
                    v = NONE
                elif last == "first":
                    v = some(PROG)
                else:
                    v = some(("tup", (PROG, ARGV)))
                outs.append((s, v))
            return outs
        if last == "from" and len(c.args) == 1:
            b = e.truth(st, c.args[0]) if c.args[0][0] not in ("str", "arr", "tup", "adt", "ref") else None
            if b is not None and "From<bool>" in nm:
                return [(st, ("int", int(b)))]
        if last in ("index", "get", "skip") and len(c.args) > 1:
            v, i = e.deref_all(st, c.args[0]), e.deref_all(st, c.args[1])
            if self.is_whole(e, st, v) and last != "skip":
                if i == ("int", 0):
                    return [(st, PROG if last == "index" else some(PROG))]
                if i[0] == "adt" and i[1].endswith("RangeFrom") and i[3] == (("int", 1),):
                    return [(st, ARGV if last == "index" else some(ARGV))]
            if last == "skip" and i == ("int", 1) and self.over(e, st, v):
                return [(st, ARGV)]
        if last == "remove" and self.is_whole(e, st, c.args[0]) and e.deref_all(st, c.args[1]) == ("int", 0):
            s = st.copy()
            loc = (c.args[0][1], c.args[0][2])
            e.set(s, loc, ARGV)
            return [(s, PROG)]
        if "process::Command" in nm and last in ("status", "output", "spawn"):
            outs = []
            for k in ("ran", "failed"):
                s = st.copy()
                s.mon = put(s.mon, run=k)
                if last == "status":
                    v = ("sym", ("exitstatus",), ())
                elif last == "spawn":
                    v = ("sym", ("child",), ())
                else:
                    v = ("sym", ("output",), ())
                outs.append((s, ok(v) if k == "ran" else err(("sym", ("runerr",), ()))))
            return outs
        if "process::Child" in nm and last in ("wait", "wait_with_output"):
            s = st.copy()
            s.mon = put(s.mon, run="failed")
            return [(st, ok(("sym", ("exitstatus",), ()))), (s, err(("sym", ("runerr",), ())))]
        if "io::error::Error" in nm and last == "kind":
            outs = []
            a = [x for x in self.p.adts if x.endswith("ErrorKind") and "io" in x]
            nf = [i for i, v in enumerate(self.p.adts[a[0]]["v"]) if v["n"] == "NotFound"][0]
            for k in ("notfound", "other"):
                s = st.copy()
                s.mon = put(s.mon, err=k)
                outs.append((s, ("adt", a[0], nf if k == "notfound" else self.other(a[0], nf), ())))
            return outs
        if last in ("code", "success", "signal", "core_dumped", "exit_ok") and "ExitStatus" in (nm + str(c.trait)):
            outs = []
            cur = get(st.mon, "code")
            for k in (("crash", "zero", "nonzero") if cur is None else (cur,)):
                s = st.copy()
                s.mon = put(s.mon, code=k)
                n = ("int", 0) if k == "zero" else ("sym", ("exitcode",), ())
                if last == "code":
                    v = NONE if k == "crash" else some(n)
                    if k == "nonzero":
                        s.facts[(("exitcode",), ())] = ("ne", frozenset((0,)))
                elif last == "success":
                    v = TRUE if k == "zero" else FALSE
                elif last == "signal":
                    v = some(("sym", ("signal",), ())) if k == "crash" else NONE
                elif last == "exit_ok":
                    v = ok(UNIT) if k == "zero" else err(("sym", ("exiterr",), ()))
                else:
                    return None
                outs.append((s, v))
            return outs
        if "process::Command" in nm and last == "new":
            s = st.copy()
            s.mon = put(s.mon, prog=e.norm(s, e.deref_all(s, c.args[0])))
            return [(s, ("sym", ("cmd",), ()))]
        if "process::Command" in nm and last in ("args", "arg"):
            s = st.copy()
            s.mon = put(s.mon, args=get(s.mon, "args", ()) + ((last, strip(e.norm(s, e.deref_all(s, c.args[1])))),))
            return [(s, c.args[0])]
        return None

    def over(self, e, st, v):
        return collection(e.deref_all(st, v)) == self.whole

    def is_whole(self, e, st, v):
        return strip(e.deref_all(st, v)) == self.whole

    def elements(self, e, st, c, src, ety, site):
        if collection(e.deref_all(st, src)) != ARGV:
            return None
        a = get(st.mon, "args", ())
        x = ("sym", ("argument",), ())
        s0, s1 = st.copy(), st.copy()
        if not a:
            # no arguments: nothing to pass on
            s0.mon = put(st.mon, args=(("args", ARGV),))
            s1.mon = put(st.mon, args=(("loop", 0),))
            return [(s0, None), (s1, x)]
        if a == (("loop", 0), ("arg", x)):
            s0.mon = put(st.mon, args=(("args", ARGV),))
            s1.mon = put(st.mon, args=(("loop", 0),))
            return [(s0, None), (s1, x)]
        s0.mon = put(st.mon, args=(("incomplete", 0),))
        return [(s0, None)]

    def other(self, a, nf):
        return 0 if nf != 0 else 1


@rule("L18")
def l18(r):
    r.assumptions += ["a process that exits on its own has an exit code, one that is killed by a signal (crashes) has none"]
    fn = r.fn(r"<litcheck::commands::not::Not as .*Command>::run$")
    t = adt(r, "Not", r"commands::not")
    ec, cmd = fidx(r, t, "expect_crash"), fidx(r, t, "command")
    for expect in (True, False):
        n = len(r.p.adts[t]["v"][0]["f"])
        fs = [("sym", ("arg", 1), (j,)) for j in range(n)]
        fs[ec] = TRUE if expect else FALSE
        m = Not(r.p)
        m.whole = ("sym", ("arg", 1), (cmd,))
        e, outs = analyse(r, fn, m, [("adt", t, 0, tuple(fs))], State(mon=()))
        r.need(outs, "paths of the not command")
        seen = set()
        for s, v in outs:
            g = lambda k: get(s.mon, k)  # noqa: E731
            k, pay = result_of(e, s, v)
            x = exit_kind(e, pay) if k == "ok" else "error"
            if g("run") is None:
                want = ("nothing to run", 126)
            elif g("run") == "failed":
                want = ("the program was not found", 127) if g("err") == "notfound" else ("the program could not be started", 126) if g("err") else ("the program could not be started", None)
            elif g("code") == "crash":
                want = ("the program crashed%s" % (" as expected" if expect else ""), 0 if expect else 1)
            elif g("code") == "nonzero":
                want = ("the program exited with a non-zero status", 1 if expect else 0)
            elif g("code") == "zero":
                want = ("the program exited with status 0", 1)
            else:
                want = ("the program's exit status was not looked at", None)
            seen.add(want[0])
            x = {"success": 0, "failure": 1}.get(x, x)
            r.ob("exit", "%s%s: exit %s" % (want[0], " (--crash)" if expect else "", x), x == want[1], "exit|%s|%s" % (expect, want[0]),
                 "%s: with%s --crash, when %s, `not` exits with %s instead of %s" % (fn.loc(), "" if expect else "out", want[0], x, want[1]))
            if g("run") is not None:
                p, a = g("prog"), g("args") or ()
                good = strip(p) == PROG and a == (("args", ARGV),)
                r.ob("command", "program and arguments", good, "command", "%s: the command that is run is not the one given to `not` with all its arguments (%s, %s)" % (fn.loc(), p, a))
        r.need(len(seen) >= 6, "the outcomes of the command run by `not` (found %s)" % sorted(seen))
