"""F02: a failure recorded during a FileCheck run reaches the exit status, and nothing else does."""
from kit import *
from rules import rule, Anchor
from props.lit_run import exit_kind


def get(m, k, d=None):
    for a, b in m:
        if a == k:
            return b
    return d


def put(m, **kw):
    d = dict(m)
    d.update(kw)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


class T:
    """The types involved."""
    def __init__(self, r):
        self.mres = adt(r, "MatchResult", "filecheck")
        self.mtype = adt(r, "MatchType", "filecheck")
        self.tyi = fidx(r, self.mres, "ty")
        self.failed = vidx(r, self.mtype, "Failed")
        self.cfe = adt(r, "CheckFailedError")
        self.tr = adt(r, "TestResult", "filecheck")
        self.tf = adt(r, "TestFailed")
        self.trerr = fidx(r, self.tr, "error")
        self.tferrs = fidx(r, self.tf, "errors")
        self.n = len(r.p.adts[self.mtype]["v"])

    def path(self, ty, pr):
        """Whether projection pr of a value of type ty is the list of errors of a test result."""
        while ty is not None and ty[0] == "ref" and ty[3]:
            ty = ty[3][0]
        pr = tuple(x for x in pr if x != "*")
        return ty is not None and ty[0] == "adt" and (ty[2] == self.tr and pr == (self.trerr, self.tferrs) or ty[2] == self.tf and pr == (self.tferrs,))

    def mk(self, i, some_info=True):
        """A match result of kind i."""
        ty = ("adt", self.mtype, i, (("sym", ("err",), ()),) if i == self.failed else ())
        o = some(("sym", ("info",), ())) if some_info else NONE
        return ("adt", self.mres, 0, (ty, o) if self.tyi == 0 else (o, ty))


def is_vec_of(t, a):
    while t is not None and t[0] == "ref" and t[3]:
        t = t[3][0]
    if t is None or t[0] != "adt" or not t[3]:
        return False
    x = t[3][0]
    if x[0] in ("slice", "array") and x[3]:
        x = x[3][0]
    return x[0] == "adt" and x[2] == a


class Stored(Mon):
    """Iterating match results: every failed one is pushed onto the errors of the receiver, and no other is."""
    init = ()

    def leave(self, st):
        cur = get(st.mon, "cur")
        if cur is not None and (cur == self.t.failed) != bool(get(st.mon, "rec")):
            st.mon = put(st.mon, bad="lost" if cur == self.t.failed else "spurious")
        st.mon = put(st.mon, cur=None, rec=False)

    def elements(self, e, st, c, src, ety, site):
        if ety is None or ety[0] != "adt":
            return None
        plain = ety[2] == RES and len(ety[3]) == 2 and ety[3][1][0] == "adt" and ety[3][1][2] == self.t.cfe
        if ety[2] != self.t.mres and not plain:
            return None
        s = st.copy()
        self.leave(s)
        s.mon = put(s.mon, all=True)
        outs = [(s, None)]
        for i in range(self.t.n):
            for inf in (True, False):
                s = st.copy()
                self.leave(s)
                s.mon = put(s.mon, cur=i, all=False, seen=(get(s.mon, "seen") or frozenset()) | {i})
                x = self.t.mk(i, inf)
                if plain:       # what the rule `iterated` shows for the iterator over match results
                    x = err(("sym", ("err",), ())) if i == self.t.failed else ok(x[3][1 - self.t.tyi])
                outs.append((s, x))
        return outs

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if last in ("push", "extend", "append", "insert", "extend_one") and c.args and is_vec_of(e.op_type(c.fr, c.term["a"][0]), self.t.cfe):
            s = st.copy()
            mine = self.mine(e, st, c.args[0])
            s.mon = put(s.mon, rec=bool(get(s.mon, "rec")) or mine)
            return [(s, UNIT)]
        if last == "next_back" and c.name.startswith(("<smallvec", "smallvec", "<alloc", "alloc", "<core", "core")):
            xs = self.elements(e, st, c, e.deref_all(st, c.args[0]), ("adt", self.t.mres, self.t.mres, ()), ("nb",))
            return [(s, NONE if x is None else some(x)) for s, x in xs]
        if c.name.endswith(("TestResult::matched", "TestResult::passed")) and not get(st.mon, "alone"):
            return [(st, UNIT)]
        return None

    def mine(self, e, st, a):
        """Whether reference a is to arg1.error.errors."""
        v = e.norm(st, a)
        for _ in range(4):
            if v[0] == "at":
                v = v[1]
        if v[0] == "ref":
            return v[1] == self.root and tuple(x for x in v[2] if x != "*") == (self.t.trerr, self.t.tferrs)
        return v[0] == "sym" and v[1] == ("arg", 1) and tuple(x for x in v[2] if x != "*") == (self.t.trerr, self.t.tferrs)


def receiver(root):
    """arg 1 as a reference to a test result held in `root`."""
    st = State(mon=())
    st.env[root] = ("sym", ("arg", 1), ())
    return st, ("ref", root, ())


class Emptiness(Mon):
    """Whether the list of errors of argument 1 is empty is forked once."""
    init = ()

    def pinned(self, i):
        return i == ("nerrors",)

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if KEEPS.search(c.name):
            return [(st, UNIT)]
        if last in ("is_empty", "len", "first", "last") and c.args and is_vec_of(e.op_type(c.fr, c.term["a"][0]), self.t.cfe):
            outs = []
            for b in (True, False):
                k = get(st.mon, "empty")
                if k is not None and k != b:
                    continue
                s = st.copy()
                s.mon = put(s.mon, empty=b)
                if last == "is_empty":
                    v = TRUE if b else FALSE
                elif last == "len":
                    v = ("int", 0) if b else ("sym", ("nerrors",), ())
                    if not b:
                        s.facts[(("nerrors",), ())] = ("ne", frozenset((0,)))
                else:
                    v = NONE if b else some(("sym", ("oneerror",), ()))
                outs.append((s, v))
            return outs
        return None


# only diagnostics are changed; that no stored error is removed is decided by the rule `kept`
KEEPS = re.compile(r"TestFailed::dedup_searched_regions$|TestResult::attach_input_dump$")
REMOVE = re.compile(r"(Vec|SmallVec|VecDeque)(<.*>)?::(clear|truncate|pop|remove|swap_remove|drain|retain|retain_mut|split_off|dedup|dedup_by|dedup_by_key|"
                    r"extract_if|set_len|pop_if|splice)$")
SWAP = re.compile(r"^core::mem::(take|replace|swap)$")


def stored(fn, t, o, n=6):
    """Whether operand o of fn may be a reference to the errors of a test result (not to a vector of its own)."""
    if o[0] not in ("c", "m") or n == 0:
        return True
    loc, pr = o[1]
    if t.path(fn.locals[loc], pr):
        return True
    if 1 <= loc <= fn.argc:
        return is_vec_of(fn.locals[loc], t.cfe)
    hit = False
    for sts, tm, _ in fn.blocks:
        for x in sts:
            if x[0] == "=" and x[1] == (loc, ()):
                if x[2][0] == "ref":
                    hit = hit or t.path(fn.locals[x[2][1][0]], x[2][1][1]) or (bool(x[2][1][1]) and stored(fn, t, ("c", (x[2][1][0], ())), n - 1))
                elif x[2][0] in ("use", "cast") and x[2][1][0] in ("c", "m"):
                    hit = hit or stored(fn, t, x[2][1], n - 1)
    return hit


@rule("F02")
def f02(r):
    t = T(r)
    kinds = [v["n"] for v in r.p.adts[t.mtype]["v"]]

    # classification of single results
    def run1(pattern, arg, st=None, mon=None):
        fn = r.fn(pattern)
        m = mon or Mon(r.p, watch=(), force=(r"litcheck_filecheck::",), init=())
        e, outs = analyse(r, fn, m, [arg], st)
        r.need(outs, "paths of %s" % fn.name)
        return fn, e, outs
    for i in range(t.n):
        for inf in (True, False):
            x = t.mk(i, inf)
            fn, e, outs = run1(r"matcher::result::MatchResult::into_result$", x)
            for s, v in outs:
                k, _ = result_of(e, s, v)
                r.ob("classified", "into_result of %s" % kinds[i], k == ("err" if i == t.failed else "ok"), "into_result|" + kinds[i],
                     "%s: a result of kind %s is turned into %s" % (fn.loc(), kinds[i], k))
        for pat, v0 in ((r"matcher::result::MatchResult::is_ok$", t.mk(i)), (r"matcher::result::MatchType::is_ok$", t.mk(i)[3][t.tyi])):
            root = ("L", "self", 0)
            st = State(mon=())
            st.env[root] = v0
            fn, e, outs = run1(pat, ("ref", root, ()), st)
            for s, v in outs:
                r.ob("classified", "%s of %s" % (fn.name.split("::")[-2], kinds[i]), v == (FALSE if i == t.failed else TRUE),
                     "%s|%s" % (fn.name.split("::")[-2] + "::is_ok", kinds[i]), "%s: a result of kind %s counts as %s" % (fn.loc(), kinds[i], v))
    # the iterator over results, and storing them
    for nx in ("next", "next_back"):
        it = r.p.find(r"MatchIter as core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator)>::%s$" % nx)
        for fn in it:
            m = Stored(r.p, watch=(), force=(r"litcheck_filecheck::",))
            m.t, m.root = t, ("L", "self", 0)
            m.leave = lambda st: None
            st, a = receiver(m.root)
            e, outs = analyse(r, fn, m, [a], st)
            r.need(outs, "paths of %s" % fn.name)
            for s, v in outs:
                k, x = option_of(e, s, v)
                cur = get(s.mon, "cur")
                if cur is None:
                    r.ob("iterated", "%s: end" % nx, k == "none", "matchiter|%s|end" % nx, "%s: the iterator does not end where the results do" % fn.loc())
                    continue
                kk = result_of(e, s, x)[0] if k == "some" else k
                r.ob("iterated", "%s: %s" % (nx, kinds[cur]), kk == ("err" if cur == t.failed else "ok"), "matchiter|%s|%s" % (nx, kinds[cur]),
                     "%s: a result of kind %s is yielded as %s" % (fn.loc(), kinds[cur], kk))
    fn = r.fn(r"test::result::TestResult::append$")
    m = Stored(r.p, watch=(), force=(r"litcheck_filecheck::",), stop=(r"into_static",))
    m.t, m.root = t, ("L", "self", 0)
    st, a = receiver(m.root)
    e, outs = analyse(r, fn, m, [a, ("sym", ("arg", 2), ())], st)
    r.need(outs, "paths of %s" % fn.name)
    for s, v in outs:
        m.leave(s)
        r.ob("stored", "append", not get(s.mon, "bad"), "append|%s" % get(s.mon, "bad"), "%s: %s" % (
            fn.loc(), "a failed result is not stored as an error" if get(s.mon, "bad") == "lost" else "a successful result is stored as an error"))
        r.ob("stored", "append: all results", bool(get(s.mon, "all")), "append|early", "%s: a path stops before every result was stored" % fn.loc())
    fn = r.fn(r"test::result::TestResult::failed$")
    m = Stored(r.p, watch=(), force=(r"litcheck_filecheck::",))
    m.t, m.root = t, ("L", "self", 0)
    st, a = receiver(m.root)
    e, outs = analyse(r, fn, m, [a, ("sym", ("arg", 2), ())], st)
    for s, v in outs:
        r.ob("stored", "failed", bool(get(s.mon, "rec")), "failed|lost", "%s: an error is not stored on some path" % fn.loc())
    for nm, args in (("matched", 2), ("passed", 1)):
        fn = r.fn(r"test::result::TestResult::%s$" % nm)
        m = Stored(r.p, watch=(), force=(r"litcheck_filecheck::",), stop=(r"into_static",))
        m.t, m.root = t, ("L", "self", 0)
        st, a = receiver(m.root)
        st.mon = put(st.mon, alone=True)
        e, outs = analyse(r, fn, m, [a, ("sym", ("arg", 2), ())][:args], st)
        for s, v in outs:
            r.ob("stored", nm, not get(s.mon, "rec"), nm + "|spurious", "%s: a successful check is stored as an error" % fn.loc())
    # constructors keep the errors they are given
    for pat, args, path in ((r"test::result::TestResult::from_error$", [("sym", ("arg", 1), ())], (t.trerr,)),
                            (r"errors::TestFailed::new$", [("sym", ("arg", 1), ()), ("sym", ("arg", 2), ())], (t.tferrs,))):
        fn = r.fn(pat)
        e, outs = analyse(r, fn, Mon(r.p, watch=(), init=(), stop=(r"context::",)), args)
        for s, v in outs:
            for f in path:
                v = e.proj(v, f)
            r.ob("stored", fn.name.split("::", 1)[1], e.norm(s, v) == ("sym", ("arg", 1), ()), "%s|lost" % fn.name.split("::")[-1],
                 "%s: the errors given are not kept" % fn.loc())
    # the result is successful exactly when no errors are stored
    for pat in (r"TestResult::is_ok$", r"TestResult::is_failed$", r"TestResult::into_result$"):
        fn = r.fn(pat)
        m = Emptiness(r.p, watch=(), force=(r"test::result::TestResult::",), stop=(r"dedup_searched_regions$",))
        m.t = t
        into = pat.endswith("into_result$")
        e, outs = analyse(r, fn, m)
        r.need(outs, "paths of %s" % fn.name)
        for s, v in outs:
            em = get(s.mon, "empty")
            nm = fn.name.split("::")[-1]
            if into:
                k, pay = result_of(e, s, v)
                good = em is not None and k == ("ok" if em else "err")
                if k == "err":
                    src = e.norm(s, pay)
                    r.ob("verdict", "into_result returns the errors", ("arg", 1) in ids_in(src), "into_result|other-error",
                         "%s: the error returned is not the one with the recorded failures" % fn.loc())
            else:
                b = v if v in (TRUE, FALSE) else TRUE if e.truth(s, v) is True else FALSE if e.truth(s, v) is False else None
                good = em is not None and b is not None and (b == TRUE) == (em == nm.endswith("ok"))
            r.ob("verdict", "%s: errors %s" % (nm, "none" if em else "some" if em is False else "unknown"), good, "%s|%s" % (nm, em),
                 "%s: with %s errors stored, %s gives %s" % (fn.loc(), "no" if em else "some", nm, v[0] if into else v))
    # nothing removes stored errors
    n = 0
    for fn in r.p.local_fns():
        if not fn.name.startswith(("litcheck_filecheck::", "<litcheck_filecheck::", "litcheck::")):
            continue
        for bi, tm, c in r.p.callees(fn):
            nm = c.get("r") or c["p"]
            tys = [x for x in (c.get("ra") or c.get("a") or ()) if isinstance(x, tuple)]
            hit = False
            if REMOVE.search(nm):
                hit = any(x[0] == "adt" and x[2] == t.cfe or x[0] in ("slice", "array") and x[3] and x[3][0][2] == t.cfe for x in tys[:1]) and \
                    stored(fn, t, tm["a"][0])
            elif SWAP.search(nm):
                hit = any(x[0] == "adt" and x[2] in (t.tr, t.tf) or is_vec_of(x, t.cfe) and stored(fn, t, tm["a"][0]) for x in tys[:1])
            n += 1
            if hit:
                r.ob("kept", "%s in %s" % (nm, fn.name), False, "kept|%s|%s" % (fn.name, nm.rsplit("::", 1)[-1]),
                     "%s: stored errors are removed by a call of %s" % (fn.loc(tm["l"]), nm.rsplit("::", 1)[-1]))
    r.ob("kept", "%d calls in the filecheck and command crates" % n, n > 500, "kept|none", "no calls were examined")
    checker(r, t)
    command(r, t)


def fork(site, names=("ok", "err")):
    def f(m, e, st, c, **kw):
        outs = []
        for k in names:
            s = st.copy()
            v = ("sym", (site, k), ())
            s.mon = put(s.mon, **{site: k if get(s.mon, site) in (None, k) else "err"})
            outs.append((s, ok(v) if k == "ok" else err(v)))
        return outs
    return f


class Flow(Mon):
    """Calls in `forks` succeed or fail; calls in `mark` return a marked value."""
    init = ()

    def before_call(self, e, st, c):
        if KEEPS.search(c.name):
            return [(st, UNIT)]
        for pat, site in self.forks:
            if re.search(pat, c.name) or (c.trait and re.search(pat, c.trait)):
                return fork(site)(self, e, st, c)
        for pat, site in self.marks:
            if re.search(pat, c.name):
                s = st.copy()
                s.mon = put(s.mon, **{site: True, site + ".args": tuple(e.norm(s, e.deref_all(s, x)) for x in c.args)})
                return [(s, ("sym", (site,), ()))]
        return self.more(e, st, c) if self.more else None
    more = None
    marks = forks = ()


def checker(r, t):
    """Checker::check_input and Test::verify hand the verdict on."""
    fn = r.fn(r"litcheck_filecheck::check::Checker::check_input$")
    m = Flow(r.p, watch=(r"discover_blocks$", r"check_blocks$", r"TestResult::from_error$"), stop=(r"context::", r"attach_input_dump$", r"diagnostics::"))
    m.forks = ((r"check::discover_blocks$", "discover"),)
    m.marks = ((r"check::check_blocks$", "blocks"), (r"TestResult::from_error$", "failure"), (r"errors::TestFailed::new$", "testfailed"))
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of check_input")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        d = g("discover")
        v = e.norm(s, v)
        w = v[1][0] if v[0] in ("sym", "symo") and isinstance(v[1], tuple) and v[1] else None
        args = g(("failure" if w == "failure" else "blocks") + ".args") or ()
        if d is None:
            good = w == "failure" and bool(g("testfailed"))
            msg = "returns without evaluating the checks or reporting a failure"
        elif d == "err":
            good = w == "failure" and ("sym", ("discover", "err"), ()) in args
            msg = "does not report that a label was not found"
        else:
            good = w == "blocks" and ("sym", ("discover", "ok"), ()) in args
            msg = "does not return the result of evaluating the blocks that were found"
        r.ob("handed-on", "check_input: blocks found=%s" % d, good, "check_input|%s" % d, "%s: a path %s" % (fn.loc(), msg))
    fn = r.fn(r"litcheck_filecheck::test::Test::verify$")
    m = Flow(r.p, watch=(r"CheckFileParser::parse$", r"CheckFile::compile$", r"Checker::check_input$", r"TestResult::into_result$"),
             stop=(r"context::", r"diagnostics::", r"Checker::new$"))
    m.forks = ((r"CheckFileParser::parse$", "parse"), (r"CheckFile::compile$", "compile"), (r"TestResult::into_result$", "result"))
    m.marks = ((r"Checker::check_input$", "check"), (r"Checker::new$", "checker"))
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of verify")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        k, pay = result_of(e, s, v)
        st = {x: g(x) for x in ("parse", "compile", "result")}
        allok = all(x == "ok" for x in st.values()) and g("check")
        anyerr = "err" in st.values()
        r.ob("handed-on", "verify: %s" % st, (k == "ok" and allok) or (k == "err" and anyerr), "verify|%s" % k,
             "%s: verification returns %s although %s" % (fn.loc(), "success" if k == "ok" else "an error",
                                                          "parsing, compiling or checking failed or did not happen" if k == "ok" else "no step failed"))
        if k == "ok":
            r.ob("handed-on", "verify: the parsed checks are applied to the given input",
                 ("arg", 2) in ids_in(g("check.args")) and ("compile", "ok") in ids_in(g("checker.args")), "verify|other",
                 "%s: something else than the given input and check file is checked" % fn.loc())
    fn = r.fn(r"litcheck_filecheck::test::Test::verify_file$")
    m = Flow(r.p, watch=(r"Test::verify$",), stop=(r"diagnostics::",))
    m.forks = ((r"Test::verify$", "verify"),)
    e, outs = analyse(r, fn, m)
    for s, v in outs:
        k, _ = result_of(e, s, v)
        g = get(s.mon, "verify")
        r.ob("handed-on", "verify_file: verify=%s" % g, k == "err" if g != "ok" else k == "ok", "verify_file|%s" % g,
             "%s: the verdict of the verification is replaced" % fn.loc())


def command(r, t):
    dump = adt(r, "Dump", "filecheck")
    fn = r.fn(r"<litcheck::commands::filecheck::FileCheck as .*Command>::run$")
    m = Flow(r.p, watch=(r"test::Test::verify", r"Options::validate$"), stop=(r"diagnostics::",))
    m.forks = ((r"test::Test::verify$", "verify"), (r"test::Test::verify_file$", "verify"), (r"Options::validate$", "validate"),
               (r"Input::into_source$", "source"))

    def more(e, st, c):
        # a comparison of the dump kind
        if c.name.rsplit("::", 1)[-1] in ("eq", "ne") and any((e.op_type(c.fr, a) or (0, 0, 0, ()))[3:] and
                                                         "Dump" in repr(e.op_type(c.fr, a)) for a in c.term["a"]):
            k = [e.norm(st, e.deref_all(st, x)) for x in c.args]
            lit_ = [x for x in k if x[0] == "adt" and x[1] == dump]
            if len(lit_) == 1:
                outs = []
                for b in (True, False):
                    s = st.copy()
                    s.mon = put(s.mon, help=b if lit_[0][2] == self_help else None)
                    outs.append((s, TRUE if b == c.name.endswith("eq") else FALSE))
                return outs
        return None
    self_help = vidx(r, dump, "Help")
    m.more = more

    def on_var(e, st, term, allowed, a):
        if a == dump:
            st.mon = put(st.mon, help=allowed == frozenset((self_help,)))
    m.on_var = on_var
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of the filecheck command")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        k, pay = result_of(e, s, v)
        ver = g("verify")
        x = exit_kind(e, pay) if k == "ok" else None
        what = "filecheck: verify=%s help=%s returned=%s" % (ver, g("help"), "error" if k == "err" else "exit %s" % x)
        if k == "ok" and x == 0:
            r.ob("exit", what, ver == "ok" or (ver is None and g("help") is True), "filecheck|success|%s" % ver,
                 "%s: the command succeeds although %s" % (fn.loc(), "the verification failed" if ver == "err" else "nothing was verified"))
        else:
            r.ob("exit", what, ver != "ok" and (k == "err" or x is not None), "filecheck|failure",
                 "%s: the command fails although the verification succeeded" % fn.loc())
        r.ob("exit", what + " options", g("validate") == "ok" or (k == "err" and ver is None), "filecheck|invalid-options",
             "%s: input is verified although the options were rejected or not validated" % fn.loc())
    fn = r.fn(r"^litcheck::run$")
    m = Flow(r.p, watch=(r"Command::run$", r"is_help_requested$"))

    def more2(e, st, c):
        nm = c.name + " " + str(c.trait)
        if re.search(r"Command(>)?::run( |$)", nm):
            s = st.copy()
            s.mon = put(s.mon, ran=True)
            return [(s, ("sym", ("commandrun",), ()))]
        if re.search(r"is_help_requested", nm):
            outs = []
            for b in (True, False):
                s = st.copy()
                s.mon = put(s.mon, help=b)
                outs.append((s, TRUE if b else FALSE))
            return outs
        return None
    m.more = more2
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of the command dispatcher")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        if g("ran"):
            good = v == ("sym", ("commandrun",), ())
            msg = "does not return the outcome of the command"
        else:
            k, pay = result_of(e, s, v)
            good = k == "err" or (exit_kind(e, pay) or 0) != 0
            msg = "succeeds without running the command"
        r.ob("exit", "dispatcher: ran=%s help=%s" % (bool(g("ran")), g("help")), good, "dispatch|%s" % bool(g("ran")), "%s: a path %s" % (fn.loc(), msg))
    r.floor("exit", 4)
