"""L04-L06, L13, L14, L16: what a test format does around the run of its commands."""
from kit import *
from rules import rule, Anchor
from props.lit_exec import FORMATS, get, put

RUN = r"ShellCommand::wait_with_timeout$"
STOP = (r"ShellCommand::", r"TestScript::", r"SubstitutionSet", r"BooleanExpr", r"write_script$", r"SourceFile", r"Input::")


def path_of(v):
    """(root id, field path without derefs) of an opaque value, looking through deref()/as_ref() style wrappers."""
    pth = []
    for _ in range(30):
        if v[0] == "at":
            v = v[1]
            continue
        if v[0] not in ("sym", "symo"):
            return None
        pth = [x for x in v[2] if x != "*"] + pth
        i = v[1]
        if isinstance(i, tuple) and i[0] == "app" and len(i) == 3 and TRANSPARENT.search(str(i[1])):
            v = i[2]
            continue
        return i, tuple(pth)
    return None


TRANSPARENT = re.compile(r"(::(deref|as_ref|as_slice|as_deref|borrow|as_str|as_path|into_iter|iter|as_os_str|clone|to_owned|into|from|to_path_buf|into_path_buf"
                         r"|to_string_lossy|into_owned|to_string)|^iter|^deref|^into:.*)$")


def contains(v, pred):
    """Whether some sub-term of v satisfies pred."""
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        return any(contains(x, pred) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(contains(x, pred) for x in v)
    return False


def emptiness(e, st, c):
    """Strings and vectors built up locally: only whether they are empty (and, for a rule that asks, which inputs their
    content comes from) is tracked."""
    last = c.name.rsplit("::", 1)[-1]
    nm = c.name
    prov = getattr(e.mon, "prov", None)
    if re.search(r"(string::String|vec::Vec(<.*>)?|VecDeque|OsString|PathBuf)::(new|with_capacity)$", nm) or \
            re.search(r"<(alloc::)?(string::String|vec::Vec(<.*>)?) as core::default::Default>::default$", nm):
        s = st.copy()
        return [(s, ("sym", ("coll", 0, frozenset()), ()))]
    if last in ("push", "push_str", "write_str", "write_fmt", "write_char", "insert", "push_back", "extend_from_slice", "insert_str", "extend",
                "add_assign", "append") and c.args:
        v = e.deref_all(st, c.args[0])
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "coll":
            s = st.copy()
            grow = last in ("push", "push_back", "write_char", "insert")
            if last in ("push_str", "write_str", "insert_str", "add_assign"):
                t = e.norm(st, c.args[-1])
                t = t[1] if t[0] == "at" else t
                grow = t[0] == "str" and len(t[1]) > 0
            if last == "write_fmt" and v[1][1] == 0:
                grow = True     # format strings here always print something
            pr = v[1][2]
            if prov:
                pr = prov(e, st, c, pr, c.args[-1])
            nv = ("sym", ("coll", 1 if grow or v[1][1] == 1 else 2, pr), ())
            e.set(s, e.deref(c.args[0]) if c.args[0][0] != "ref" else refloc(e, s, c.args[0]), nv)
            unit = last in ("push", "push_str", "insert", "push_back", "extend_from_slice", "insert_str", "extend", "add_assign", "append")
            return [(s, UNIT if unit else ok(UNIT))]
    if last in ("is_empty", "len") and c.args:
        v = e.norm(st, c.args[0])
        v = v[1] if v[0] == "at" else v
        p = path_of(v)
        if p and isinstance(p[0], tuple) and p[0][0] == "coll" and p[0][1] in (0, 1):
            if last == "is_empty":
                return [(st, FALSE if p[0][1] else TRUE)]
            if p[0][1] == 0:
                return [(st, ("int", 0))]
    if last in ("collect", "from_iter") and c.args and e.deref_all(st, c.args[0])[0] == "iter":
        from models import loop_states, exact
        if exact(e.deref_all(st, c.args[0])):
            return None
        done, _ = loop_states(e, tagst(st, 0), c, c.args[0], lambda s, x: [(tagst(s, 1), False, None)])
        outs = []
        for s in done:
            n = s.env[("L", "coll-nonempty", 0)][1]
            s = s.copy()
            del s.env[("L", "coll-nonempty", 0)]
            outs.append((s, ("sym", ("coll", n, prov(e, st, c, frozenset(), c.args[0]) if prov else frozenset()), ())))
        return outs
    return None


def refloc(e, s, a):
    while True:
        loc = (a[1], a[2])
        v = e.get(s, loc)
        if v[0] != "ref":
            return loc
        a = v


def tagst(s, n):
    s = s.copy()
    s.env[("L", "coll-nonempty", 0)] = ("int", n)
    return s


class Fmt(Mon):
    """One execution of a test by a format."""
    init = ()
    small = 60
    retries = "none"
    lists = ("requires", "unsupported", "xfails")
    max_states = 200000

    def setup(self, r):
        self.r = r
        self.script = adt(r, "TestScript", "litcheck_lit")
        self.span = adt(r, "Span", "litcheck_core")
        self.status = adt(r, "TestStatus")
        self.result = adt(r, "TestResult", "litcheck_lit")
        self.sfi = fidx(r, self.result, "status")
        self.fields = {n: fidx(r, self.script, n) for n in ("xfails", "requires", "unsupported", "allowed_retries")}
        self.test = adt(r, "Test", "litcheck_lit")
        self.bad = {}
        return self

    def script_value(self):
        n = self.retries
        if n == "none":
            v = NONE
        else:
            fs = [TOP] * len(self.r.p.adts[self.span]["v"][0]["f"])
            fs[fidx(self.r, self.span, "spanned")] = ("int", n)
            v = some(("adt", self.span, 0, tuple(fs)))
        return ("symo", ("script",), (), (((self.fields["allowed_retries"],), v),))

    def kind_of(self, v):
        """Which list of conditions a collection (or a reference to one) is, and whether all of it is meant."""
        whole = path_of(v)
        for n in ("requires", "unsupported", "xfails"):
            f = self.fields[n]
            if whole and whole == (("script",), (f,)):
                return n, True
            if contains(v, lambda x: x[0] in ("sym", "symo") and x[1] == ("script",) and tuple(y for y in x[2] if y != "*")[:1] == (f,)):
                return n, False
        if whole and whole[0] == ("arg", 1):
            fs = whole[1]
            if len(fs) == 1 and self.self_field(fs[0]) == "unsupported":
                return "unsupported", True
        if contains(v, lambda x: x[0] == "sym" and x[1] == ("arg", 1) and self.self_field(next((y for y in x[2] if y != "*"), None)) == "unsupported"):
            return "unsupported", False
        return None, False

    def self_field(self, i):
        a = self.selfadt
        fs = self.r.p.adts[a]["v"][0]["f"]
        if not isinstance(i, int) or i >= len(fs):
            return None
        n = fs[i]
        return n["n"] if isinstance(n, dict) else n

    def elements(self, e, st, c, src, ety, site):
        v = src
        k, whole = self.kind_of(v)
        if k is None:
            return None
        if not whole:
            self.bad["partial|" + k] = "%s: only a part of the `%s` conditions is looked at" % (c.loc(), k)
        if k not in self.lists:
            return [(st.copy(), None)]
        return [(st.copy(), None), (st.copy(), ("sym", ("cond", k), ()))]

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("TestScript::parse"):
            a, b = st.copy(), st.copy()
            a.mon = put(st.mon, parse="ok")
            b.mon = put(st.mon, parse="err")
            return [(a, ok(self.script_value())), (b, err(("sym", ("parseerr",), ())))]
        if nm.endswith("TestScript::apply_substitutions"):
            a, b = st.copy(), st.copy()
            a.mon = put(st.mon, subst=get(st.mon, "run", 0) == 0)
            b.mon = put(st.mon, err="substitutions")
            return [(a, ok(UNIT)), (b, err(("sym", ("substerr",), ())))]
        if nm.endswith("BooleanExpr::evaluate"):
            v = e.norm(st, c.args[0])
            k = None
            for x in ids_in(v):
                if isinstance(x, tuple) and x[0] == "cond":
                    k = x[1]
            if k is None:
                kk, _ = self.kind_of(v)
                if kk:
                    self.bad["partial|" + kk] = "%s: only a part of the `%s` conditions is looked at" % (c.loc(), kk)
                return None
            feats = e.norm(st, c.args[1])
            p = path_of(feats)
            want = p and p[0] == ("arg", 2)
            if not want:
                self.bad["features|" + k] = "%s: a `%s` condition is not evaluated against the features available to the test" % (c.loc(), k)
            a, b = st.copy(), st.copy()
            if k != "requires":
                a.mon = put(st.mon, **{k + "_true": True})
            else:
                b.mon = put(st.mon, **{k + "_false": True})
            return [(a, TRUE), (b, FALSE)]
        if nm.endswith("ShellCommand::wait_with_timeout") or nm.endswith("ShellCommand::wait"):
            outs = []
            for s in ("Unresolved", "Pass", "Fail", "Timeout"):
                i = vidx(self.r, self.status, s)
                a = st.copy()
                n = get(st.mon, "run", 0)
                a.mon = put(st.mon, run=min(n + 1, 5), hist=(get(st.mon, "hist", ()) + (s,))[-5:])
                outs.append((a, ("symo", ("runresult",), (), (((self.sfi,), ("adt", self.status, i, ())),))))
            self.at_run(e, st, c)
            return outs
        return emptiness(e, st, c)

    def at_run(self, e, st, c):
        pass

    def fact(self, s, term):
        f = s.facts.get(term)
        return None if not f or f[0] != "eq" else f[1]

    def flag(self, s, argn, *fields):
        for (i, pth), f in s.facts.items():
            if i == ("arg", argn) and tuple(x for x in pth if x != "*") == fields and f[0] == "eq":
                return bool(f[1])
        return None

    def pinned(self, i):
        return i in (("runresult",), ("script",))


def self_adt(r, fmt):
    return adt(r, fmt, "litcheck_lit")


def run_fmt(r, fmt, pat, cls=Fmt, stop=STOP, watch=(RUN, r"FeatureSet::", r"BooleanExpr::evaluate$"), **kw):
    fn = r.fn(pat)
    m = cls(r.p, watch=watch, stop=tuple(x for x in stop), **kw).setup(r)
    m.selfadt = self_adt(r, fmt)
    e, outs = analyse(r, fn, m)
    return fn, m, e, outs


def status_of(r, m, e, v):
    stt = e.proj(v, m.sfi)
    if stt[0] == "adt" and stt[1] == m.status:
        return vname(r.p, m.status, stt[2])
    return "?"


@rule("L04")
def l04(r):
    """XFAIL conditions and the not-xfail marker."""
    test = adt(r, "Test", "litcheck_lit")
    notfi = fidx(r, test, "xfail_not")
    fn, m, e, outs = run_fmt(r, *FORMATS[0], lists=("xfails",), retries=1)
    for s, v in outs:
        k, pay = result_of(e, s, v)
        g = lambda x: get(s.mon, x)  # noqa: E731
        if k == "err" or not g("run"):
            continue
        last = g("hist")[-1]
        if last == "Pass" and g("run") > 1:
            last = "FlakyPass"
        got = status_of(r, m, e, pay)
        xnot = m.flag(s, 2, notfi)
        if g("xfails_true") and xnot is False:
            want = {"Pass": "Xpass", "FlakyPass": "Xpass", "Fail": "Xfail"}.get(last, last)
            why = "an XFAIL condition holds"
        elif g("xfails_true") and xnot is None:
            r.ob("xfail", "xfail_not consulted", False, "xfail|not-consulted", "%s: XFAIL is applied without looking at whether "
                 "the test is marked as not expected to fail" % fn.loc())
            continue
        else:
            want = last
            why = "the test is marked as not expected to fail" if xnot else "no XFAIL condition holds"
        r.ob("xfail", "%s, run ended in %s -> %s" % (why, last, got), got == want, "xfail|%s|%s" % (why, last),
             "%s: %s and the commands ended in status %s, but the test is reported as %s instead of %s" % (fn.loc(), why, last, got, want))
    seen = [(get(s.mon, "xfails_true"), m.flag(s, 2, notfi), (get(s.mon, "hist") or ("",))[-1]) for s, v in outs]
    for last in ("Pass", "Fail", "Timeout", "Unresolved"):
        r.ob("xfail-considered", last, any(x[0] and x[1] is False and x[2] == last for x in seen) or last in ("Timeout", "Unresolved"),
             "xfail|ignored|" + last, "%s: XFAIL conditions are not evaluated when the commands ended in %s" % (fn.loc(), last))
    for key, msg in m.bad.items():
        if "xfails" in key:
            r.ob("xfail-conditions", key, False, key, msg)
    r.ob("xfail-conditions", "every XFAIL condition is looked at, against the test's features", not any("xfails" in k for k in m.bad), None,
         None) if not any("xfails" in k for k in m.bad) else None
    r.floor("xfail", 8)
    # the other format knows no XFAIL: the run's verdict is the test's verdict
    fn, m, e, outs = run_fmt(r, *FORMATS[1])
    for s, v in outs:
        k, pay = result_of(e, s, v)
        if k == "err" or not get(s.mon, "run"):
            continue
        last, got = get(s.mon, "hist")[-1], status_of(r, m, e, pay)
        r.ob("executable", "%s -> %s" % (last, got), last == got and get(s.mon, "run") == 1, "executable|" + last,
             "%s: an executable test whose process ended in %s is reported as %s" % (fn.loc(), last, got))
    r.floor("executable", 4)


@rule("L06")
def l06(r):
    """ALLOWED_RETRIES."""
    for n in ("none", 0, 1, 2):
        fn, m, e, outs = run_fmt(r, *FORMATS[0], lists=(), retries=n)
        allowed = 0 if n == "none" else n
        for s, v in outs:
            k, pay = result_of(e, s, v)
            g = lambda x: get(s.mon, x)  # noqa: E731
            if k == "err" or not g("run") or g("xfails_true"):
                continue
            hist, got = g("hist"), status_of(r, m, e, pay)
            runs = g("run")
            good = runs <= allowed + 1 and all(h == "Fail" for h in hist[:-1])
            r.ob("retry", "retries=%s runs=%s" % (n, "/".join(hist)), good, "retry|%s" % ("too-many" if runs > allowed + 1 else "after-" + [h for h in hist[:-1] if h != "Fail"][0]
                 if not good else "x"),
                 "%s: with %s allowed retries the commands are run %d times (%s)" % (fn.loc(), allowed, runs, ", ".join(hist)))
            last = hist[-1]
            if last == "Fail":
                r.ob("exhausted", "retries=%s runs=%d" % (n, runs), runs == allowed + 1, "retry|gives-up-early",
                     "%s: with %s allowed retries a failing test is given up after %d runs" % (fn.loc(), allowed, runs))
            want = "FlakyPass" if last == "Pass" and runs > 1 else last
            r.ob("retry-status", "%s -> %s" % ("/".join(hist), got), got == want, "retry-status|%s" % ("flaky" if want == "FlakyPass" else last),
                 "%s: a test whose runs ended in %s is reported as %s instead of %s" % (fn.loc(), ", ".join(hist), got, want))
    r.floor("retry", 20)
    r.floor("exhausted", 4)


@rule("L05")
def l05(r):
    """REQUIRES / UNSUPPORTED / --no-execute gate the run."""
    cfg, opts = adt(r, "Config", "litcheck_lit"), adt(r, "Options", "litcheck_lit")
    ofi, nfi = fidx(r, cfg, "options"), fidx(r, opts, "no_execute")
    for fmt, pat in FORMATS:
        fn, m, e, outs = run_fmt(r, fmt, pat, lists=("requires", "unsupported"))
        seen = set()
        for s, v in outs:
            k, pay = result_of(e, s, v)
            g = lambda x: get(s.mon, x)  # noqa: E731
            noexec = m.flag(s, 3, ofi, nfi)
            got = status_of(r, m, e, pay) if k == "ok" else "error"
            ran = bool(g("run"))
            gate = "REQUIRES" if g("requires_false") else "UNSUPPORTED" if g("unsupported_true") else None
            if g("parse") == "err":
                seen.add("parse")
                r.ob("gate", "%s: unparsable script -> %s" % (fmt, got), not ran and got in ("Unresolved", "error"), "%s|parse" % fmt,
                     "%s: a test whose script cannot be parsed %s" % (fn.loc(), "is run" if ran else "is reported as " + got))
            elif gate:
                seen.add(gate)
                r.ob("gate", "%s: %s -> %s" % (fmt, gate, got), not ran and got == "Unsupported", "%s|%s" % (fmt, gate),
                     "%s: a test ruled out by %s %s" % (fn.loc(), gate, "is run" if ran else "is reported as " + got))
            elif noexec:
                seen.add("noexec")
                r.ob("gate", "%s: --no-execute -> %s" % (fmt, got), not ran and got in ("Pass", "error"), "%s|no-execute" % fmt,
                     "%s: with --no-execute a test %s" % (fn.loc(), "is run" if ran else "is reported as " + got))
            elif k == "ok":
                seen.add("run")
                r.ob("gate", "%s: nothing rules the test out -> run=%s" % (fmt, ran), ran and noexec is False, "%s|%s" % (fmt, "not-run" if not ran else "no-execute-not-consulted"),
                     "%s: a test that nothing rules out %s (%s)" % (fn.loc(), "is not run" if not ran else "is run without consulting --no-execute", got))
        need = {"UNSUPPORTED", "noexec", "run"} | ({"parse", "REQUIRES"} if fmt == "ShTest" else set())
        for x in sorted(need):
            r.ob("gate-considered", "%s: %s" % (fmt, x), x in seen, "%s|never|%s" % (fmt, x), "%s: no path handles %s" % (fn.loc(), x))
        for key, msg in m.bad.items():
            if "xfails" not in key:
                r.ob("gate-conditions", key, False, "%s|%s" % (fmt, key), msg)
    r.floor("gate", 9)
    r.floor("gate-considered", 8)


# ---------------------------------------------------------------------------------------------- L13
def roots(v, out=None):
    """(root id, field path) of every opaque sub-term of v."""
    out = set() if out is None else out
    if isinstance(v, tuple):
        if v and v[0] in ("sym", "symo") and len(v) >= 3 and isinstance(v[2], tuple):
            p = path_of(v)
            if p:
                out.add(p)
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                roots(x, out)
    elif isinstance(v, frozenset):
        for x in v:
            roots(x, out)
    return out


PARTIAL = {"index", "skip", "take", "step_by", "split_first", "split_last", "split_at", "first", "last", "nth", "filter", "filter_map", "skip_while",
           "take_while", "truncate", "pop", "drain", "retain"}


class Env(Fmt):
    """What has been configured on the process before it is started."""
    lists = ()

    def describe(self, e, st, v):
        """Names of the inputs a value was computed from."""
        v = e.norm(st, v)
        ps = roots(v)
        for x in e.behind(st, [v]):
            ps |= roots(x)
            for i in e.sources(x):
                if isinstance(i, tuple):
                    ps |= roots(i) | {(i, ())}
        out = set()
        for root, pth in ps:
            for name, (n, fs) in self.inputs.items():
                if root == ("arg", n) and pth[:len(fs)] == fs:
                    out.add(name)
            if isinstance(root, tuple) and root[0] == "origin":
                out.add(root[1])
            if isinstance(root, tuple) and root[0] == "coll":
                out |= root[2]
        return frozenset(out)

    def prov(self, e, st, c, old, x):
        new = self.describe(e, st, x)
        self.ordered(c, old, new)
        return old | new

    def elements(self, e, st, c, src, ety, site):
        r = Fmt.elements(self, e, st, c, src, ety, site)
        if r is None and "test environment" in self.describe(e, st, src):
            from models import elem
            a, b = st.copy(), st.copy()
            if not get(st.mon, "env-elem"):
                a.mon = put(st.mon, noenv=True)     # there was nothing to set
            b.mon = put(st.mon, **{"env-elem": True})
            x = elem(e, b, c, src, site)
            return [(a, None), (b, x)]
        return r

    def ordered(self, c, a, b):
        if "inherited PATH" in a and "search paths" in b and "search paths" not in a:
            self.bad["order"] = "%s: the inherited PATH takes precedence over the configured search paths" % c.loc()

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if last in PARTIAL and c.args:
            d = self.describe(e, st, c.args[0])
            for x in sorted(d & {"search paths", "test environment"}):
                self.bad["order|" + last] = "%s: only a part of the %s is used (%s)" % (c.loc(), x, last)
        if nm.startswith("std::env::var") and c.args:
            v = e.norm(st, c.args[0])
            if v == ("str", "PATH"):
                x = ("sym", ("origin", "inherited PATH"), ())
                outs = [(st.copy(), some(x) if last == "var_os" else ok(x)),
                        (st.copy(), NONE if last == "var_os" else err(("sym", ("novar",), ())))]
                return outs
        if nm.endswith("Iterator::chain") or nm.endswith("::chain"):
            self.ordered(c, self.describe(e, st, c.args[0]), self.describe(e, st, c.args[1]))
            return None
        if "process::Command" in nm and not nm.startswith("litcheck"):
            s = st.copy()
            if last == "new":
                s.mon = put(s.mon, prog=self.describe(e, st, c.args[0]) | ({"literal"} if e.norm(st, c.args[0])[0] == "str" else frozenset()))
                return [(s, ("sym", ("command",), ()))]
            if last in ("current_dir", "envs", "env"):
                d = self.describe(e, st, c.args[-1])
                if last == "env":
                    k = e.norm(st, c.args[1])
                    if k == ("str", "PATH"):
                        s.mon = put(s.mon, PATH=get(s.mon, "PATH", frozenset()) | d)
                    else:
                        s.mon = put(s.mon, env=get(s.mon, "env", frozenset()) | d | self.describe(e, st, c.args[1]))
                elif last == "envs":
                    s.mon = put(s.mon, env=get(s.mon, "env", frozenset()) | d)
                else:
                    s.mon = put(s.mon, cwd=d)
                return [(s, c.args[0])]
            if last in ("env_clear", "env_remove"):
                self.bad["env-" + last] = "%s: the environment the command inherits is %s" % (c.loc(), "cleared" if last == "env_clear" else "reduced")
        return Fmt.before_call(self, e, st, c)


@rule("L13")
def l13(r):
    test, suite, tcfg = adt(r, "Test", "litcheck_lit"), adt(r, "TestSuite", "litcheck_lit"), adt(r, "TestConfig", "litcheck_lit")
    cfg, opts = adt(r, "Config", "litcheck_lit"), adt(r, "Options", "litcheck_lit")
    inputs = {
        "working directory": (2, (fidx(r, test, "suite"), fidx(r, suite, "working_dir"))),
        "test environment": (2, (fidx(r, test, "config"), fidx(r, tcfg, "env"))),
        "search paths": (3, (fidx(r, cfg, "options"), fidx(r, opts, "search_paths"))),
        "test file": (2, (fidx(r, test, "absolute_path"),)),
        "format": (1, ()),
    }
    for fmt, pat in FORMATS:
        class E_(Env):
            pass
        E_.inputs = inputs
        fn, m, e, outs = run_fmt(r, fmt, pat, cls=E_, stop=tuple(x for x in STOP if x != r"ShellCommand::"),
                                 watch=(RUN, r"process::Command", r"FeatureSet::", r"BooleanExpr::evaluate$"))
        runs = 0
        for s, v in outs:
            if not get(s.mon, "run"):
                continue
            runs += 1
            g = lambda x: get(s.mon, x, frozenset())  # noqa: E731
            r.ob("cwd", fmt, g("cwd") == {"working directory"}, "%s|cwd" % fmt,
                 "%s: the command is run in %s instead of the suite's working directory" % (fn.loc(), ", ".join(sorted(g("cwd"))) or "lit's own directory"))
            r.ob("env", fmt, "test environment" in g("env") or bool(get(s.mon, "noenv")), "%s|env" % fmt,
                 "%s: the command is run without the test's environment variables" % fn.loc())
            r.ob("path", fmt, {"search paths"} <= g("PATH"), "%s|path" % fmt,
                 "%s: the command is run without the configured search paths in PATH" % fn.loc())
            want = {"test file"} if fmt == "ExecutableTest" else {"format"}
            r.ob("program", fmt, bool(g("prog")) and (g("prog") <= want | {"literal"}), "%s|program" % fmt,
                 "%s: the program that is started is computed from %s" % (fn.loc(), ", ".join(sorted(g("prog")))))
        inh = any("inherited PATH" in get(s.mon, "PATH", ()) for s, v in outs if get(s.mon, "run"))
        r.ob("path", fmt + ": inherited PATH kept", inh, "%s|path-inherited" % fmt, "%s: the inherited PATH is not passed on to the command" % fn.loc())
        r.need(runs, "a path of %s that runs a command" % fn.name)
        for k, msg in m.bad.items():
            if k.startswith("order") or k.startswith("env-"):
                r.ob("path", k, False, "%s|%s" % (fmt, k), msg)
    r.floor("cwd", 2)
    r.floor("path", 4)


# ---------------------------------------------------------------------------------------------- L14, L16
class Tmp(Env):
    """The temporary directory of a test and the substitutions made available to it."""
    def shape(self, e, st, v):
        v = e.norm(st, v)
        ops = set()
        for x in e.behind(st, [v]):
            for i in set(e.sources(x)) | set(ids_in(x)):
                if isinstance(i, tuple) and i[0] == "app":
                    ops.add(str(i[1]).rsplit("::", 1)[-1])
        return ops & {"parent", "file_name", "file_stem", "extension"}

    def record(self, e, s, k, v, c):
        k = e.norm(s, k)
        k = k[1] if k[0] == "at" else k
        if k[0] == "sym" and isinstance(k[1], tuple) and k[1][0] == "app" and len(k[1]) == 3:
            k = k[1][2]
        if k[0] != "str":
            return
        vv = e.norm(s, v)
        vv = vv[1] if vv[0] == "at" else vv
        lit = frozenset({"=" + vv[1]}) if vv[0] == "str" else frozenset()
        d = self.describe(e, s, v) | lit | frozenset("." + x for x in self.shape(e, s, v))
        subs = dict(get(s.mon, "subs", ()))
        n = self.depth(e, s, v)
        if n is not None:
            d |= {".depth%d" % min(n, 1)}
        subs[k[1]] = d
        s.mon = put(s.mon, subs=tuple(sorted(subs.items(), key=lambda x: x[0])))

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"tempdir::TempDir::(new|new_in)$", nm):
            s, b = st.copy(), st.copy()
            s.mon = put(s.mon, temp=get(st.mon, "temp", 0) + 1, tempdropped=False)
            if last == "new_in":
                s.mon = put(s.mon, tempin=self.describe(e, st, c.args[0]))
            return [(s, ok(("sym", ("origin", "temp dir"), ()))), (b, err(("sym", ("temperr",), ())))]
        if re.search(r"tempdir::TempDir::(into_path)$", nm) or (nm.endswith("mem::forget") and c.args and self.is_temp(e, st, c.args[0])):
            s = st.copy()
            s.mon = put(s.mon, templeak=True)
            return [(s, ("sym", ("origin", "temp dir"), ()))]
        if re.search(r"path::Path(Buf)?::(join|push|parent|pop|with_file_name|set_file_name|with_extension|set_extension)$", nm) or \
                re.search(r"tempdir::TempDir::path$", nm):
            d = self.depth(e, st, c.args[0])
            if d is not None:
                d = self.step(e, st, last, d, c.args[1] if len(c.args) > 1 else None)
                v = ("sym", ("inpath", ("sym", ("origin", "temp dir"), ()), max(-1, min(d, 3))), ())
                s = st.copy()
                if last in ("push", "pop", "set_file_name", "set_extension"):
                    e.set(s, refloc(e, s, c.args[0]), v)
                    return [(s, UNIT if last in ("push", "set_file_name") else TRUE)]
                return [(s, some(v) if last == "parent" else v)]
        if re.search(r"path::Path(Buf)?::(to_string_lossy|to_path_buf|into_os_string|display|clone)$", nm) and self.depth(e, st, c.args[0]) is not None:
            return [(st, ("sym", ("inpath", ("sym", ("origin", "temp dir"), ()), self.depth(e, st, c.args[0])), ()))]
        if re.search(r"tempdir::TempDir::close$", nm):
            s = st.copy()
            s.mon = put(s.mon, tempdropped=True)
            return [(s, ok(UNIT))]
        if nm.endswith("ScopedSubstitutionSet::new"):
            s = st.copy()
            s.mon = put(s.mon, parent=self.describe(e, st, c.args[0]))
            return [(s, ("sym", ("scoped",), ()))]
        if re.search(r"SubstitutionSet::(insert|extend)$", nm) and "Scoped" in nm:
            s = st.copy()
            if last == "extend":
                s.mon = put(s.mon, extended=get(s.mon, "extended", frozenset()) | self.describe(e, st, c.args[1]))
            if last == "insert":
                self.record(e, s, c.args[1], c.args[2], c)
            else:
                a = e.deref_all(s, c.args[1])
                if a[0] == "iter" and a[1] == "arr":
                    a = a[2]
                if a[0] == "arr":
                    for x in a[1]:
                        x = e.deref_all(s, x)
                        if x[0] == "tup":
                            self.record(e, s, x[1][0], x[1][1], c)
            return [(s, UNIT)]
        if nm.endswith("TestScript::apply_substitutions"):
            outs = Fmt.before_call(self, e, st, c)
            for s, v in outs:
                s.mon = put(s.mon, applied=get(s.mon, "subs", ()), user=get(s.mon, "parent", frozenset()) | get(s.mon, "extended", frozenset()))
            return outs
        return Env.before_call(self, e, st, c)

    def value(self, e, st, v):
        v = e.norm(st, v)
        return v[1] if v[0] == "at" else v

    def depth(self, e, st, v):
        """How many components below the temporary directory a path lies (-1: not inside), None for other paths."""
        p = path_of(self.value(e, st, v))
        if p is None or p[1]:
            return None
        if p[0] == ("origin", "temp dir"):
            return 0
        if isinstance(p[0], tuple) and p[0][0] == "inpath":
            return p[0][2]
        return None

    def step(self, e, st, op, d, arg):
        if d < 0 or op == "path":
            return d
        if op in ("join", "push"):
            # joining an absolute path replaces everything before it
            x = e.norm(st, arg)
            absolute = self.describe(e, st, x) & {"test file", "working directory", "suite source directory"} and not self.shape(e, st, x) - {"parent"}
            return -1 if absolute else d + 1
        if op in ("parent", "pop"):
            return d - 1
        return d if d > 0 else -1

    def is_temp(self, e, st, v):
        v = e.norm(st, v)
        return v[0] == "sym" and v[1] == ("origin", "temp dir") and not v[2]

    def on_drop(self, e, st, fr, val, ty, line):
        if val[0] == "sym" and val[1] == ("origin", "temp dir") and (not val[2]) and ty[0] == "adt" and ty[2].endswith("TempDir"):
            st.mon = put(st.mon, tempdropped=True)
        return None

    def at_run(self, e, st, c):
        self.runs.append((get(st.mon, "temp", 0), get(st.mon, "tempdropped"), get(st.mon, "applied"), get(st.mon, "templeak"), get(st.mon, "user", frozenset()), c.loc()))

    def pinned(self, i):
        return i == ("origin", "temp dir") or Env.pinned(self, i)


def shtest_tmp(r):
    test, suite, tcfg = adt(r, "Test", "litcheck_lit"), adt(r, "TestSuite", "litcheck_lit"), adt(r, "TestConfig", "litcheck_lit")

    class T_(Tmp):
        runs = []
        inputs = {
            "working directory": (2, (fidx(r, test, "suite"), fidx(r, suite, "working_dir"))),
            "suite source directory": (2, (fidx(r, test, "suite"), fidx(r, suite, "source_dir"))),
            "test file": (2, (fidx(r, test, "absolute_path"),)),
            "test path in suite": (2, (fidx(r, test, "path"),)),
            "test's substitutions": (2, (fidx(r, test, "config"), fidx(r, tcfg, "substitutions"))),
            "format's substitutions": (1, (fidx(r, self_adt(r, "ShTest"), "extra_substitutions"),)),
        }
    return run_fmt(r, *FORMATS[0], cls=T_, stop=STOP, watch=(RUN, r"tempdir::", r"FeatureSet::", r"BooleanExpr::evaluate$", r"SubstitutionSet::(insert|extend)$"),
                   retries=1)


@rule("L14")
def l14(r):
    """Each run of a test has its own temporary directory, alive while the commands run and gone afterwards."""
    fn, m, e, outs = shtest_tmp(r)
    r.need(m.runs, "a run of the commands")
    for n, dropped, applied, leak, user, loc in m.runs:
        r.ob("alive", loc, n >= 1 and not dropped, "temp|dropped" if n else "temp|none",
             "%s: %s" % (loc, "the temporary directory named by %t is removed before the commands run" if n else "the commands run without a temporary directory"))
    for s, v in outs:
        if get(s.mon, "temp", 0):
            r.ob("removed", "after " + "/".join(get(s.mon, "hist") or ("error",)), get(s.mon, "tempdropped") is True and not get(s.mon, "templeak"), "temp|leaked",
                 "%s: the temporary directory of the test is left behind (run: %s)" % (fn.loc(), "/".join(get(s.mon, "hist") or ("error",))))
            d = get(s.mon, "tempin", frozenset())
            r.ob("place", "created under " + ", ".join(sorted(d)), "working directory" in d, "temp|place",
                 "%s: the temporary directory is not created under the suite's working directory" % fn.loc())
    r.floor("alive", 3)
    r.floor("removed", 4)


@rule("L16")
def l16(r):
    """Built-in substitutions."""
    fn, m, e, outs = shtest_tmp(r)
    r.need(m.runs, "a run of the commands")
    want = {
        "%s": (lambda d: "test file" in d and not any(x.startswith(".") for x in d), "the test file's path"),
        "%S": (lambda d: "test file" in d and ".parent" in d and ".file_name" not in d and ".file_stem" not in d, "the test file's directory"),
        "%t": (lambda d: "temp dir" in d and ".depth1" in d and ".file_stem" not in d, "a path inside the test's temporary directory"),
        "%basename_t": (lambda d: "temp dir" in d and (".file_stem" in d or ".file_name" in d) or "test path in suite" in d and ".file_name" in d, "the last component of %t"),
        "%%": (lambda d: d == {"=%"}, "a literal %"),
    }
    for n, dropped, applied, leak, user, loc in m.runs:
        r.ob("applied", "substitutions applied before the run", applied is not None, "subst|not-applied", "%s: the commands run before substitutions are applied to the script" % loc)
        a = dict(applied or ())
        for k in ("test's substitutions", "format's substitutions"):
            r.ob("configured", k, k in user, "subst|" + k, "%s: the %s are not applied to the script" % (loc, k))
        for k, (f, what) in want.items():
            r.ob("builtin", k, k in a and f(a[k]), "subst|" + k,
                 "%s: %s %s" % (loc, k, "is not defined" if k not in a else "does not stand for %s (computed from %s)" % (what, ", ".join(sorted(a[k])) or "nothing known")))
    for s, v in outs:
        if get(s.mon, "err") == "substitutions":
            r.ob("bad-substitution", "error -> not run", not get(s.mon, "run") and result_of(e, s, v)[0] == "err", "subst|error-ignored",
                 "%s: the commands run although a substitution could not be applied" % fn.loc())
    r.floor("builtin", 5)
    r.floor("bad-substitution", 1)
