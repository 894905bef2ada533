"""L01, L02: the lit driver (exit status, bookkeeping of reports)."""
from kit import *
from rules import rule, Anchor

FAILING = {"Unresolved", "Timeout", "Fail", "Xpass"}
SUCCESS = ("kadt", "std::process::ExitCode", 0)


def exit_kind(e, v):
    """Classify an ExitCode value: int, 'success', 'failure' or the term."""
    if v[0] == "sym" and isinstance(v[1], tuple):
        i = v[1]
        if i[0] == "kadt" and i[1].endswith("ExitCode"):
            return i[2]
        if i[0] == "const" and i[1].endswith("ExitCode::SUCCESS"):
            return 0
        if i[0] == "const" and i[1].endswith("ExitCode::FAILURE"):
            return 1
        if i[0] == "app" and i[1].endswith("ExitCode") and i[2][0] == "int":
            return i[2][1]
    return None


class StatusKeys(Mon):
    """Every value of type TestStatus obtained by iterating a collection is forked over the ten statuses; the
    typestate remembers whether a failing one was seen."""
    init = frozenset()

    def elements(self, e, st, c, src, ety, site):
        n, ref = ety, 0
        pair = None
        if n is not None and n[0] == "tuple" and n[3]:
            pair = len(n[3])
            n = n[3][0]
        while n is not None and n[0] == "ref" and n[3]:
            n, ref = n[3][0], ref + 1
        if n is None or n[0] != "adt" or n[2] != self.status:
            return None
        outs = [(st, None)]
        for i, v in enumerate(e.p.adts[self.status]["v"]):
            s = st.copy()
            if v["n"] in FAILING:
                s.mon = s.mon | {"F"}
            x = ("adt", self.status, i, ())
            if ref:
                root = ("L", ("statuskey", c.fr.id, c.blk, site), 0)
                s.env[root] = x
                x = ("ref", root, ())
            if pair:
                x = ("tup", (x,) + tuple(e.fresh(s, ("elem", c.fr.fn.name, c.blk, site, c.fr.id, j), [src])
                                         for j in range(1, pair)))
            outs.append((s, x))
        return outs

    def after_call(self, e, s, c, ret):
        if c.name.rsplit("::", 1)[-1] in ("try_for_each_with", "try_for_each", "try_for_each_init", "try_reduce"):
            s.mon = s.mon | {("run", ret[1])} if ret[0] == "sym" else s.mon

    def pinned(self, i):
        return isinstance(i, tuple) and i[0] == "call" and self.runsite is not None and i[1:3] == self.runsite


RUNITER = ("try_for_each_with", "try_for_each", "try_for_each_init")


def run_site(r, fn):
    out = []
    for bi, t, c in r.p.callees(fn):
        if (c.get("r") or c["p"]).rsplit("::", 1)[-1] in RUNITER:
            out.append(bi)
    return out


@rule("L01")
def l01(r):
    status = adt(r, "TestStatus")
    start = r.fn(r"litcheck::commands::lit::start$")
    m = StatusKeys(r.p, watch=(r"TestStatus::is_failure$",), stop=(r"::collect_results$", r"::print_results$", r"TestRunner::"))
    m.status = status
    m.runsite = None
    sites = run_site(r, start)
    # the parallel run over the pending tests: its Result decides whether the run was aborted
    owner, site = start, sites
    if not sites:
        for n in sorted(r.p.reachable([start.name])):
            f = r.p.fns[n]
            if not f.ext and run_site(r, f):
                owner, site = f, run_site(r, f)
                break
    r.need(len(site) == 1, "the parallel run of the selected tests in lit's driver")
    m.runsite = (owner.name, (site[0],))
    e, outs = analyse(r, start, m)
    r.floor("exit-status", 3)
    for s, v in outs:
        k, pay = result_of(e, s, v)
        if k == "err":
            r.ob("exit-status", "start: an error is returned", True)
            continue
        x = exit_kind(e, pay) if k == "ok" else None
        failing = "F" in s.mon
        aborted = None
        for t, f in s.facts.items():
            if isinstance(t[0], tuple) and t[0][0] == "call" and t[0][1:3] == m.runsite and t[1] == () and f[0] == "var":
                aborted = f[1] == frozenset((1,))
        what = "failing status seen=%s run aborted=%s exit=%s" % (failing, aborted, x)
        if x is None:
            r.ob("exit-status", what, False, "start|unknown-exit", "lit's driver returns an exit code the analysis cannot "
                 "evaluate (%r)" % (pay,))
        elif x == 0:
            r.ob("exit-status", what, not failing and aborted is False,
                 "start|success-with-%s" % ("failure" if failing else "abort"),
                 "%s: a path of lit's driver returns exit status 0 although %s" % (
                     start.loc(), "a recorded status is a failure" if failing else "the run may have been aborted"))
        else:
            r.ob("exit-status", what, failing or aborted is True, "start|failure-without-cause",
                 "%s: a path of lit's driver returns exit status %s although no recorded status is a failure and the run "
                 "was not aborted" % (start.loc(), x))
    # the table of failing statuses
    isf = r.fn(r"TestStatus::is_failure$")
    for i, v in enumerate(r.p.adts[status]["v"]):
        e2 = Engine(r.p, Monitor())
        st = State(mon=None)
        st.env[("L", "arg", 0)] = ("adt", status, i, ())
        o = e2.analyse(isf, [("ref", ("L", "arg", 0), ())], st)
        r.cover(e2)
        want = TRUE if v["n"] in FAILING else FALSE
        r.ob("failure-table", v["n"], len(o) > 0 and all(x == want for _, x in o), "is_failure|" + v["n"],
             "%s: status %s is classified as %sfailing" % (isf.loc(), v["n"], "non-" if want == TRUE else ""))
    r.floor("failure-table", 10)
    # the `run` sub-command hands the verdict of the driver on
    run = r.fn(r"<litcheck::commands::lit::Lit as .*Command>::run$")
    lit = adt(r, "Lit", "commands")
    m2 = Mon(r.p, watch=(r"commands::lit::start$",), stop=(r"commands::lit::start$", r"show_suites$", r"show_tests$"), init=())
    m2.pinned = lambda i: i == ("arg", 1)

    def after(e, s, c, ret):
        if c.name == start.name:
            s.mon = (ret,)
    m2.after_call = after
    e3, outs = analyse(r, run, m2)
    n = 0
    for s, v in outs:
        vs = e3.variants(s, ("sym", ("arg", 1), ()), lit)
        if vidx(r, lit, "Run") not in vs:
            continue
        n += 1
        k, pay = result_of(e3, s, v)
        started = s.mon != ()
        good = (v == s.mon[0]) if started else (k == "err" or (exit_kind(e3, pay) or 0) != 0)
        r.ob("run-subcommand", "started=%s" % started, good, "run|%s" % ("verdict-replaced" if started else "success-without-run"),
             "%s: `lit run` %s" % (run.loc(), "does not return the verdict of the run" if started else
                                   "returns success without running any test"))
    r.floor("run-subcommand", 2)


# ---------------------------------------------------------------------------------------------- L02
class Buckets(Mon):
    """Typestate of one in-flight report and of the result buckets."""
    init = (None, frozenset(), frozenset(), frozenset())
    # (in-flight report (kind, status) | None, facts seen, buckets known empty, statuses recorded)

    def kname(self, e, st, v):
        v = e.norm(st, v)
        if v[0] == "at":
            v = v[1]
        return v[2] if v[0] == "adt" and v[1] == self.status else None

    def elements(self, e, st, c, src, ety, site):
        if ety is None:
            return None
        t = ety
        if t[0] == "adt" and t[2] == self.report:
            outs = [(self.end(e, st, c), None)]
            for i in self.choices:
                s = self.end(e, st.copy(), c)
                x = e.fresh(s, ("elem", c.fr.fn.name, c.blk, site, c.fr.id), [src])
                fi = tuple(self.path)
                x = ("symo", x[1], (), ((fi, ("adt", self.status, i, ())),))
                s.mon = (("report", i), s.mon[1] | ({"other"} if i != self.excl else frozenset()), s.mon[2], s.mon[3])
                outs.append((s, x))
            return outs
        if t[0] == "adt" and t[3] and t[3][0][0] == "adt" and t[3][0][2] == self.test:
            outs = [(self.end(e, st, c), None)]
            s = self.end(e, st.copy(), c)
            x = e.fresh(s, ("elem", c.fr.fn.name, c.blk, site, c.fr.id), [src])
            s.mon = (("pending", None),) + s.mon[1:]
            outs.append((s, x))
            return outs
        return None

    def end(self, e, st, c):
        """The previous report must have been recorded by now."""
        if st.mon[0] is not None:
            st = st.copy()
            self.bad("dropped|%s" % (st.mon[0][0],), "%s:%s: a %s is not recorded in any bucket on some path" % (
                c.fr.fn.file, c.line, "report received from a worker" if st.mon[0][0] == "report" else
                "test that was never handed out"))
            st.mon = (None,) + st.mon[1:]
        return st

    def bad(self, key, msg):
        self.viol[key] = msg

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        nm = c.name
        if nm.endswith("Config::is_selected"):
            a, b = st.copy(), st.copy()
            if st.mon[0] and st.mon[0][0] == "pending":
                a.mon = (("pending", self.skip), st.mon[1] | {"other"}) + st.mon[2:]
                b.mon = (("pending", self.excl),) + st.mon[1:]
            return [(a, TRUE), (b, FALSE)]
        if "BTreeMap" in nm or "HashMap" in nm or "btree" in nm:
            if last == "entry":
                k = self.kname(e, st, c.args[1])
                if k is None:
                    self.bad("unknown-bucket", "%s: a bucket is selected by a key that is not the report's status" % c.loc())
                return [(st, ("sym", ("bucket", k), ()))]
            if last in ("or_insert_with", "or_insert", "or_default", "or_insert_with_key", "and_modify"):
                if c.args[0][0] == "sym" and c.args[0][1][0] == "bucket":
                    return [(st, c.args[0])]
            if last in ("get_mut",):
                k = self.kname(e, st, c.args[1])
                x = ("sym", ("bucket", k), ())
                return [(st.copy(), NONE), (st.copy(), some(x))]
            if last == "remove":
                k = self.kname(e, st, c.args[1])
                ok_ = k in st.mon[2] and k not in st.mon[3]
                if not ok_:
                    self.bad("removed|%s" % self.sname(k), "%s: the bucket of status %s is removed although it may hold reports" % (
                        c.loc(), self.sname(k)))
                return None
            if last == "insert":
                k = self.kname(e, st, c.args[1])
                bag = e.norm(st, c.args[2])
                bag = bag[1] if bag[0] == "at" else bag
                if bag[0] == "sym" and bag[1][0] == "bag":
                    for x in bag[1][1]:
                        if x != k:
                            self.bad("misfiled|%s" % self.sname(x), "%s: a test whose status is %s is recorded under %s" % (
                                c.loc(), self.sname(x), self.sname(k)))
                    s = st.copy()
                    if k in st.mon[3]:
                        self.bad("overwritten|%s" % self.sname(k), "%s: the reports recorded under %s are overwritten" % (c.loc(), self.sname(k)))
                    s.mon = (s.mon[0], frozenset(x for x in s.mon[1] if x != ("bag", bag[1][1])), s.mon[2], s.mon[3] | bag[1][1])
                    return [(s, TOP)]
                return None
            if last in ("clear", "retain", "pop_first", "pop_last", "split_off"):
                self.bad("destructive|" + last, "%s: recorded reports are discarded (%s)" % (c.loc(), last))
        if last in ("new", "with_capacity", "default") and "Vec" in nm:
            return [(st, ("sym", ("bag", frozenset()), ()))]
        if nm.endswith("::into_vec") or nm.endswith("box_new") or "slice::into_vec" in nm:
            return [(st, ("sym", ("bag", frozenset()), ()))]
        if last == "is_empty" and "Vec" in nm:
            v = e.norm(st, c.args[0])
            v = v[1] if v[0] == "at" else v
            if v[0] == "sym" and v[1][0] == "bag":
                return [(st, FALSE if v[1][1] else TRUE)]
            v = self.unref(v)
            if v[0] == "sym" and v[1][0] == "bucket":
                k = v[1][1]
                a = st.copy()
                a.mon = (a.mon[0], a.mon[1], a.mon[2] | {k}, a.mon[3])
                if k in st.mon[3]:
                    return [(st, FALSE)]
                return [(a, TRUE), (st.copy(), FALSE)]
        if last in ("push", "push_back", "push_front", "insert") and "Vec" in nm:
            s = st.copy()
            item = e.norm(s, c.args[-1])
            item = item[1] if item[0] == "at" else item
            stt = self.status_of(e, s, item)
            if s.mon[0] is None:
                if stt is not None:
                    self.bad("invented", "%s: a report that was not received is recorded" % c.loc())
                    return None
                return None
            tgt = e.norm(s, c.args[0])
            tgt = tgt[1] if tgt[0] == "at" else tgt
            tgt = self.unref(tgt)
            want = s.mon[0][1]
            if tgt[0] == "sym" and tgt[1][0] == "bucket":
                if tgt[1][1] != want or stt != want:
                    self.bad("misfiled|%s" % self.sname(want), "%s: a test whose status is %s is recorded under %s" % (
                        c.loc(), self.sname(want), self.sname(tgt[1][1])))
                s.mon = (None, s.mon[1], s.mon[2] - {tgt[1][1]}, s.mon[3] | {tgt[1][1]})
                return [(s, UNIT)]
            if tgt[0] == "sym" and tgt[1][0] == "bag":
                if stt != want:
                    self.bad("misfiled|%s" % self.sname(want), "%s: a test whose status is %s is recorded with status %s" % (
                        c.loc(), self.sname(want), self.sname(stt)))
                nb = ("sym", ("bag", tgt[1][1] | {stt}), ())
                a = c.args[0]
                e.set(s, e.deref(a), nb)
                s.mon = (None, frozenset(x for x in s.mon[1] if x != ("bag", tgt[1][1])) | {("bag", nb[1][1])}, s.mon[2], s.mon[3])
                return [(s, UNIT)]
        return None

    def unref(self, v):
        while v[0] == "sym" and v[2] and v[2][-1] == "*":
            v = ("sym", v[1], v[2][:-1])
        return v

    def sname(self, k):
        return self.p.adts[self.status]["v"][k]["n"] if isinstance(k, int) else "another status"

    def status_of(self, e, s, x):
        """Status index of a TestReport value."""
        v = x
        for i in self.path:
            v = e.proj(v, i)
        return v[2] if v[0] == "adt" and v[1] == self.status else None


@rule("L02")
def l02(r):
    status = adt(r, "TestStatus")
    rep = adt(r, "TestReport", "commands")
    res = adt(r, "TestResult", "litcheck_lit")
    test = adt(r, "Test", "litcheck_lit")
    fn = r.fn(r"litcheck::commands::lit::collect_results$")
    viol, npaths = {}, 0
    excl, skip = vidx(r, status, "Excluded"), vidx(r, status, "Skipped")
    # statuses a worker can report: `Skipped` is left out when nothing in the test formats' crate constructs it
    mk = [f.name for f in r.p.local_fns() if f.crate.startswith("litcheck_lit") and not f.derived
          and constructs(f, status, skip)]
    r.note("constructors of the Skipped status among the test formats: %s." % (mk or "none"))
    for i in range(len(r.p.adts[status]["v"])):
        if i == skip and not mk:
            continue
        # reports of this status, interleaved with reports of excluded tests
        m = Buckets(r.p, watch=(r"BTreeMap", r"Config::is_selected$", r"Vec::push"), force=(r"TestResult::new$",))
        m.status, m.report, m.test, m.viol = status, rep, test, viol
        m.path = (fidx(r, rep, "result"), fidx(r, res, "status"))
        m.excl, m.skip, m.choices = excl, skip, sorted({i, excl})
        e, outs = analyse(r, fn, m)
        npaths += len(outs)
        for s, v in outs:
            k, pay = result_of(e, s, v)
            other = "other" in s.mon[1]
            if s.mon[0] is not None:
                viol["dropped|" + s.mon[0][0]] = "%s: a report is not recorded on some path" % fn.loc()
            bags = [x for x in s.mon[1] if x != "other" and x[1]]
            if k == "ok":
                r.ob("accounting", "ok other=%s recorded=%s" % (other, sorted(m.sname(x) for x in s.mon[3])), not bags and other,
                     "unflushed" if bags else "ok-all-excluded",
                     "%s: %s" % (fn.loc(), "tests set aside as %s never reach the results" % sorted(m.sname(x) for b in bags for x in b[1])
                                 if bags else "the run is reported as successful although every test was excluded"))
            else:
                r.ob("accounting", "err other=%s" % other, k == "err" and not other, "err-some-selected",
                     "%s: the results are discarded (error) although some test was selected" % fn.loc())
    m.viol = viol
    for k, msg in m.viol.items():
        r.ob("bucket", k, False, k, msg)
    if not m.viol:
        r.ob("bucket", "every report and every pending test is recorded once under its own status (%d paths)" % npaths, True)
    r.floor("accounting", 3)
    # workers: whatever a test produced is what is sent
    sends(r)


def constructs(f, adt_, variant):
    for sts, t, u in f.blocks:
        for s in sts:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][:3] == ("adt", adt_, variant):
                return True
            if s[0] == "=" and s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1]["t"][0] == "adt" \
                    and s[2][1][1]["t"][2] == adt_ and s[2][1][1].get("v") == variant:
                return True
    return any(constructs(g, adt_, variant) for g in f.prom)


def sends(r):
    """Each worker step has sent exactly one report, carrying the result it obtained."""
    status = adt(r, "TestStatus")
    rep = adt(r, "TestReport", "commands")
    rfi = fidx(r, rep, "result")
    tfi = fidx(r, rep, "test")
    for name, excl in ((r"TestRunner::run$", False), (r"TestRunner::mark_excluded$", True)):
        fn = r.fn(name)
        m = Mon(r.p, watch=(r"mpsc::Sender(<.*>)?::send$", r"TestFormat::execute$"), init=(0, None, None), small=60)

        def before(e, st, c):
            if (c.trait or c.name).endswith("TestFormat::execute"):
                s1, s2 = st.copy(), st.copy()
                s1.mon = (s1.mon[0], "exec", None)
                s2.mon = (s2.mon[0], "execerr", None)
                x = ("sym", ("execresult",), ())
                return [(s1, ok(x)), (s2, err(("sym", ("execerr",), ())))]
            if c.name.endswith("::send") and "mpsc" in c.name:
                s = st.copy()
                v = e.norm(s, c.args[1])
                v = v[1] if v[0] == "at" else v
                x = e.proj(v, rfi)
                stt = e.proj(x, 0)
                if x == ("sym", ("execresult",), ()):
                    tag = "exec"
                elif stt[0] == "adt" and stt[1] == status:
                    tag = vname(r.p, status, stt[2])
                else:
                    tag = "?"
                tv = e.proj(v, tfi)
                s.mon = (s.mon[0] + 1 if s.mon[0] < 3 else 3, s.mon[1], (tag, tv == ("sym", ("arg", 2), ())))
                return [(s, TOP)]
            return None
        m.before_call = before
        e, outs = analyse(r, fn, m)
        for s, v in outs:
            k, pay = result_of(e, s, v)
            n, ex, what = s.mon
            if excl:
                good = (k == "ok" and n == 1 and what == ("Excluded", True))
            elif ex == "execerr":
                # the test could not be executed: reported as such, whether or not the run goes on
                good = n == 1 and what in (("Unresolved", True), ("Fail", True))
            else:
                good = k == "ok" and ex == "exec" and n == 1 and what == ("exec", True)
            r.ob("worker-report", "%s %s sent=%d %s" % (fn.name.rsplit("::", 1)[-1], ex or "-", n, what), good,
                 "%s|%s" % (fn.name.rsplit("::", 1)[-1], "report"),
                 "%s: a worker step returns %s having sent %d reports (%s) for the test it was given" % (fn.loc(), k, n, what))
    r.floor("worker-report", 3)
