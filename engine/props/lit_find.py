"""L11: which files become the tests of a suite."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put

SUITE, ROOTCFG = ("sym", ("suite",), ()), ("sym", ("cfg",), ())
SRC, ENTRY, EPATH, ABS = (("sym", (x,), ()) for x in ("srcdir", "entry", "epath", "abspath"))
INSUITE, INROOT, SUITETOML, FNAME, REQ = (("sym", (x,), ()) for x in ("insuite", "inroot", "suitetoml", "filename", "requested"))
TEST, NPATH, LOADERR, WALKERR, LIST = (("sym", (x,), ()) for x in ("test", "npath", "loaderr", "walkerr", "testlist"))
WALK = "walker"


def view(v):
    """Paths that denote the same path."""
    for _ in range(10):
        w = strip(v)
        if w[0] == "sym" and not w[2] and isinstance(w[1], tuple) and w[1][0] == "app" and len(w[1]) == 3 and \
                re.search(r"(^|::)(to_path_buf|as_path|into_path|as_os_str|into_os_string|as_encoded_bytes|to_str|to_string_lossy|into_path_buf|as_mut|into_inner|clone|to_os_string|as_ref|borrow|into|from)$|^into:", str(w[1][1])):
            w = w[1][2]
        elif w[0] == "iter" and w[1] in ("same", "cloned"):
            w = w[2]
        if w == v:
            return w
        v = w
    return v


def flat(v):
    """(root, field path) of a place reached through pointers."""
    path = ()
    for _ in range(10):
        v = view(v)
        if v[0] != "sym" or not v[2]:
            break
        path = tuple(x for x in v[2] if x != "*") + path
        v = ("sym", v[1], ())
    return v, path


class Find(Mon):
    """One search: `mode` all (the whole source directory) or find (a path inside it)."""
    init = ()
    watch = (r"Searcher::new$", r"Test::new$", r"TestSuiteRegistry>?::load_from_path$", r"TestList::push_back$", r"glob::Pattern::matches_path$", r"Path::(is_file|is_dir|strip_prefix)$")
    max_states = 400000
    stop = (r"TestSuite::(source_dir|name|working_dir)$", r"TestList::", r"TestList as .*default$", r"Test::new$")

    def setup(self, r, mode):
        self.r, self.mode = r, mode
        self.tc = adt(r, "TestConfig", "litcheck_lit")
        self.pi, self.xi = fidx(r, self.tc, "patterns"), fidx(r, self.tc, "exclude")
        self.ts = adt(r, "TestSuite", "litcheck_lit::suite")
        self.ci = fidx(r, self.ts, "config")
        self.bad = {}
        self.onecfg = None
        return self

    # ------------------------------------------------------------ helpers
    def v(self, e, st, x):
        return view(e.norm(st, e.deref_all(st, x)))

    def fork(self, st, key, vals=(True, False), **kw):
        cur = get(st.mon, key)
        outs = []
        for b in ((cur,) if cur is not None else vals):
            s = st.copy()
            s.mon = put(s.mon, **dict(kw, **{key: b}))
            outs.append((s, b))
        return outs

    def boolfork(self, st, key, neg=False, **kw):
        return [(s, TRUE if b != neg else FALSE) for s, b in self.fork(st, key, **kw)]

    def which_set(self, v):
        """'patterns' / 'exclude' when v is (part of) that set of the configuration that applies."""
        base, pr = flat(collection(v))
        for k, i in (("patterns", self.pi), ("exclude", self.xi)):
            if base == ROOTCFG and pr in ((i,), (i, 0)) or base == SUITE and pr in ((self.ci, i), (self.ci, i, 0)):
                if (base == SUITE) != (self.mode == "all") and not (self.mode == "all" and base == ROOTCFG):
                    self.bad["config"] = "the %s of another configuration are applied" % k
                return k
        return None

    def judge(self, e, st, where):
        """The current entry has been dealt with."""
        m = st.mon
        if get(m, "cur") is None:
            return
        g = lambda k: get(m, k)  # noqa: E731
        msg = None
        if g("cur") == "error":
            msg = "an error met while searching is ignored and the search goes on"
        elif g("cur") == "skipped":
            if g("dir"):
                if g("suite") is not True or g("isroot") or g("issrc"):
                    msg = "a directory without a configuration of its own is not searched"
                elif not g("nested"):
                    msg = "the tests of a nested suite are not looked for at all"
                elif g("nested") != 1:
                    msg = "a nested suite is recorded more than once"
            elif g("dir") is None:
                msg = "an entry is skipped without looking at whether it is a directory"
            elif self.accept(m) is not False:
                msg = "a file is rejected although it is %s" % self.describe(m)
        else:
            if g("dir"):
                if g("pushed"):
                    msg = "a directory becomes a test"
                elif g("suite") is True and not g("isroot") and not g("issrc"):
                    msg = "a directory that contains a nested suite is searched for tests of the outer suite"
                elif g("nested"):
                    msg = "a directory that is searched is also loaded as a suite of its own"
            elif g("dir") is None:
                msg = "an entry is taken for a test without looking at whether it is a directory"
            elif self.accept(m) is not True and g("pushed"):
                msg = "a file becomes a test although it is %s" % self.describe(m)
            elif self.accept(m) is True and not g("pushed"):
                msg = "a file that meets all the criteria for a test does not become one"
            elif self.accept(m) is None:
                msg = "a file is not judged by all the criteria (%s)" % self.describe(m)
            elif g("pushed") and g("pushed") != 1:
                msg = "a file becomes more than one test"
        if msg:
            k = "entry|" + msg.split(" (")[0]
            self.bad[k] = "%s: %s" % (where, msg)

    CLEAR = dict(cur=None, dir=None, suite=None, isroot=None, issrc=None, nested=None, pushed=None, hidden=None, file=None, match=None, excl=None, noexcl=None, patq=None, inside=None)

    def accept(self, m):
        g = lambda k: get(m, k)  # noqa: E731
        if g("hidden") is True or g("file") is False or g("match") is False or g("excl") is True:
            return False
        if g("hidden") is False and g("file") is True and g("match") is True and (g("excl") is False or g("noexcl") is True):
            return True
        return None

    def describe(self, m):
        g = lambda k: get(m, k)  # noqa: E731
        w = lambda k, a, b: a if g(k) is True else b if g(k) is False else "not checked for being %s" % a  # noqa: E731
        x = "not excluded" if g("noexcl") else w("excl", "excluded", "not excluded")
        return "%s, %s, %s and %s" % (w("hidden", "hidden", "not hidden"), w("file", "a regular file", "not a regular file"),
                                      w("match", "matched by a pattern", "matched by no pattern"), x)

    # ------------------------------------------------------------ events
    def elements(self, e, st, c, src, ety, site, depth=0):
        if src[0] == "adt" and src[1] == WALK:
            s0 = st.copy()
            self.judge(e, s0, c.loc())
            s0.mon = put(s0.mon, **self.CLEAR)
            if get(s0.mon, "walked") == "error":
                return [(s0, None)]
            end = s0.copy()
            end.mon = put(end.mon, walked="end")
            outs = [(end, None)]
            s = s0.copy()
            s.mon = put(s.mon, cur="error")
            outs.append((s, err(WALKERR)))
            s = s0.copy()
            s.mon = put(s.mon, cur="entry")
            root = ("L", ("walked", c.fr.id, c.blk), 0)
            s.env[root] = ENTRY
            clo = src[3][0]
            if clo[0] == "sym":
                return outs + [(s, ok(ENTRY))]
            res = e.call_value(c.fr, site + ("w",), c.line, clo, [("ref", root, ())], s)
            if res is None:
                raise Anchor("the filter of the file search")
            for s2, b in res:
                t = e.assume(s2, b, True)
                if t is not None:
                    t = t.copy()
                    t.env.pop(root, None)
                    outs.append((t, ok(ENTRY)))
                f = e.assume(s2, b, False)
                if f is not None:
                    f = f.copy()
                    f.env.pop(root, None)
                    f.mon = put(f.mon, cur="skipped")
                    self.judge(e, f, c.loc())
                    f.mon = put(f.mon, anynested=bool(get(f.mon, "anynested") or get(f.mon, "nested")), **self.CLEAR)
                    f.mon = put(f.mon, walked="end")
                    outs.append((f, None))
            return outs
        k = self.which_set(e.deref_all(st, src))
        if k:
            key = "match" if k == "patterns" else "excl"
            if get(st.mon, "patq"):
                st = st.copy()
                self.bad["patq"] = "%s: a pattern is passed over" % c.loc()
                st.mon = put(st.mon, patq=None)
            if get(st.mon, key) is True:
                return [(st, None)]
            s0, s1 = st.copy(), st.copy()
            s0.mon = put(s0.mon, **{key: False})
            s1.mon = put(s1.mon, patq=key)
            return [(s0, None), (s1, ("sym", ("pat",), ()))]
        w = collection(e.norm(st, e.deref_all(st, src)))
        if w[0] == "sym" and isinstance(w[1], tuple) and w[1][0] == "vec" and not w[2]:
            if get(st.mon, "nestvec") not in (None, w):
                return [(st, None)]
            if get(st.mon, "npend"):
                st = st.copy()
                self.bad["nskip"] = "%s: a nested suite that was found is not loaded" % c.loc()
                st.mon = put(st.mon, npend=None)
            s0, s1 = st.copy(), st.copy()
            s0.mon = put(s0.mon, nloaded=True)
            if not get(st.mon, "anynested"):
                return [(s0, None)]
            s1.mon = put(s1.mon, npend=True, nroot=None, nsrc=None)
            return [(s0, None), (s1, NPATH)]
        if ety is not None and re.search(r"walkdir|PathBuf|glob::Pattern", str(ety)) and not self.known(src):
            self.bad["loop"] = "%s: a loop over %s that is not followed" % (c.loc(), ety[1])
        return None

    def known(self, src):
        return src[0] in ("arr", "iter")

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if not c.args:
            if nm.endswith(("Vec::new", "VecDeque::new")):
                return [(st, ("sym", ("vec", c.fr.fn.name, c.blk), ()))]
            if nm.endswith("TestList as core::default::Default>::default"):
                return [(st, LIST)]
            return None
        if nm.endswith("TestSuite::source_dir"):
            return [(st, SRC)]
        if nm.endswith("Searcher::new"):
            s = st.copy()
            p = self.v(e, st, c.args[0])
            want = SRC if self.mode == "all" else ABS
            if p != want:
                self.bad["root"] = "%s: the search does not start at %s" % (c.loc(), "the suite's source directory" if want == SRC else "the requested path")
            if e.truth(st, c.args[1]) is not True:
                self.bad["deep"] = "%s: directories below the one searched are not searched" % c.loc()
            s.mon = put(s.mon, searched=True)
            return [(s, ("adt", WALK, 0, (c.args[2],)))]
        a0 = e.deref_all(st, c.args[0])
        if a0[0] == "adt" and a0[1] == WALK:
            if last in ("into_walker", "into_iter", "by_ref"):
                return [(st, a0)]
            if last == "next":
                return [(s, NONE if x is None else some(x)) for s, x in self.elements(e, st, c, a0, None, ("n",))]
        x0 = self.v(e, st, c.args[0])
        if last == "into_diagnostic":
            k, pay = result_of(e, st, a0)
            if k == "ok":
                return [(st, ok(pay))]
            if k == "err":
                return [(st, err(pay))]
        if x0 == FNAME and last in ("as_encoded_bytes", "to_string_lossy"):
            return [(st, FNAME)]
        if x0 == FNAME and last == "to_str":
            return [(st, some(FNAME)), (st.copy(), NONE)]
        if x0 == ENTRY:
            if last in ("path", "into_path"):
                return [(st, EPATH)]
            if last == "file_type":
                return [(st, ("sym", ("ftype",), ()))]
            if last == "file_name":
                return [(st, FNAME)]
        if x0 == ("sym", ("ftype",), ()):
            if last == "is_dir":
                return self.boolfork(st, "dir")
            if last == "is_file":
                return self.boolfork(st, "file")
        cur = (EPATH if get(st.mon, "cur") else ABS)
        if x0 in (EPATH, ABS):
            if last == "is_dir":
                if x0 == ABS:
                    return self.boolfork(st, "reqdir")
                return self.boolfork(st, "dir")
            if last == "is_file":
                if x0 != cur:
                    self.bad["file"] = "%s: another path is checked for being a file" % c.loc()
                return self.boolfork(st, "file")
            if last == "file_name":
                return [(st, some(FNAME))]
            if last == "is_absolute":
                return [(st, TRUE)]
            if last == "join" and x0 == EPATH:
                if e.deref_all(st, c.args[1]) == ("str", "lit.suite.toml"):
                    return [(st, SUITETOML)]
            if last == "strip_prefix":
                b = self.v(e, st, c.args[1])
                if b == SRC:
                    if x0 == EPATH and self.mode == "all":
                        return [(st, ok(INSUITE))]
                    # a requested path may lead out of the source directory (`..`, absolute)
                    outs = []
                    for s, i in self.fork(st, "inside"):
                        outs.append((s, ok(INSUITE) if i else err(("sym", ("notinside",), ()))))
                    return outs
                if b == ABS and x0 == EPATH:
                    return [(st, ok(INROOT))]
        if x0 == SRC and last == "join":
            if self.v(e, st, c.args[1]) == REQ:
                return [(st, ABS)]
            return None
        if x0 == SRC and last in ("is_absolute", "is_dir"):
            return [(st, TRUE)]
        if x0 == SUITETOML:
            if last == "try_exists":
                outs = []
                for s, b in self.fork(st, "suite", (True, False, "err")):
                    outs.append((s, err(("sym", ("existserr",), ())) if b == "err" else ok(TRUE if b else FALSE)))
                return outs
            if last in ("exists", "is_file"):
                return self.boolfork(st, "suite")
        if last in ("eq", "ne") and len(c.args) == 2:
            x1 = self.v(e, st, c.args[1])
            for p, q in ((x0, x1), (x1, x0)):
                if p in (EPATH, NPATH) and q in (SRC, ABS):
                    issrc = q == SRC
                    if p == EPATH:
                        return self.boolfork(st, "issrc" if issrc else "isroot", neg=last == "ne")
                    outs = []
                    for s, b in self.boolfork(st, "nsrc" if issrc else "nroot", neg=last == "ne"):
                        if get(s.mon, "nsrc") or get(s.mon, "nroot"):
                            s.mon = put(s.mon, npend=None)   # recorded paths are never these
                        outs.append((s, b))
                    return outs
        if x0 == FNAME and last == "starts_with":
            if self.lit(e, st, c.args[1]) == ".":
                return self.boolfork(st, "hidden")
        if nm.endswith("::matches_path") or nm.endswith("::matches_path_with"):
            if x0 == ("sym", ("pat",), ()):
                p = self.v(e, st, c.args[1])
                key = get(st.mon, "patq")
                want = INSUITE if get(st.mon, "inside") is not False and (get(st.mon, "inside") or (self.mode == "all" and get(st.mon, "cur"))) else cur
                if p != want:
                    self.bad["glob"] = "%s: a pattern is matched with something other than the path of the file in the suite" % c.loc()
                if key is None:
                    return None
                outs = []
                for b in (True, False):
                    s = st.copy()
                    s.mon = put(s.mon, patq=None, **({key: True} if b else {}))
                    outs.append((s, TRUE if b else FALSE))
                return outs
        if last in ("is_empty", "len"):
            k = self.which_set(a0)
            if k and last == "is_empty":
                outs = []
                for s, b in self.fork(st, "noexcl" if k == "exclude" else "nopat"):
                    if b and k == "patterns":
                        s.mon = put(s.mon, match=False)
                    if b:
                        s.mon = put(s.mon, **{"excl" if k == "exclude" else "match": False})
                    outs.append((s, TRUE if b else FALSE))
                return outs
        if last in ("push", "push_back", "insert") and len(c.args) > 1 and self.v(e, st, c.args[-1]) == EPATH and a0[0] == "sym":
            s = st.copy()
            vec = collection(e.norm(st, a0))
            n = get(st.mon, "nested") or 0
            if get(st.mon, "dir") is not True:
                self.bad["nestfile"] = "%s: something that is not a directory is recorded as a nested suite" % c.loc()
            s.mon = put(s.mon, nested=n + 1, nestvec=vec, anynested=True)
            return [(s, UNIT)]
        if nm.endswith("::load_from_path"):
            s = st.copy()
            if len(c.args) < 2 or self.v(e, st, c.args[1]) != NPATH:
                self.bad["loadpath"] = "%s: something other than a nested suite that was found is loaded" % c.loc()
            s.mon = put(s.mon, npend=None)
            f = s.copy()
            f.mon = put(f.mon, loaderr=True)
            return [(s, ok(UNIT)), (f, err(LOADERR))]
        if nm.endswith("Test::new"):
            s = st.copy()
            p, su = self.v(e, st, c.args[0]), self.v(e, st, c.args[1])
            want = INSUITE if get(st.mon, "cur") else REQ
            if p == INROOT:
                self.bad["name|search root"] = "%s: tests found by searching a directory inside the suite are identified by their path in that directory, not in the suite" % c.loc()
            elif p != want:
                self.bad["name"] = "%s: a test is not identified by its path in the suite" % c.loc()
            if su != SUITE:
                self.bad["suite"] = "%s: a test is not created for the suite that was searched" % c.loc()
            cf = self.cfg(e, st, c.args[2])
            if get(st.mon, "cur") and cf:
                self.onecfg = c.loc()
            if cf != self.mode:
                self.bad["testcfg"] = "%s: a test is not given the configuration that applies where it was found" % c.loc()
            return [(s, TEST)]
        if nm.endswith("TestList::push_back"):
            s = st.copy()
            if self.v(e, st, c.args[1]) != TEST:
                self.bad["push"] = "%s: something other than the test that was found is added" % c.loc()
            s.mon = put(s.mon, pushed=(get(st.mon, "pushed") or 0) + 1, list=self.v(e, st, c.args[0]))
            return [(s, UNIT)]
        if "TestList::" in nm and last not in ("len", "is_empty", "iter", "front", "back"):
            self.bad["list"] = "%s: tests that were found are removed or replaced (%s)" % (c.loc(), last)
        return None

    def cfg(self, e, st, x):
        v = e.norm(st, e.deref_all(st, x))
        return {(ROOTCFG, ()): "find", (SUITE, (self.ci,)): "all"}.get(flat(v))

    def lit(self, e, st, x):
        v = e.deref_all(st, x)
        if v[0] == "str":
            return v[1] if isinstance(v[1], str) else v[1].decode("latin1")
        if v[0] == "int":
            return chr(v[1]) if v[1] < 0x110000 else ""
        if v[0] == "arr":
            return "".join(chr(y[1]) for y in v[1] if y[0] == "int")
        return ""


def entry_points(r):
    for mode in ("all", "find"):
        fn = r.fn(r"<litcheck_lit::test::registry::default::DefaultTestRegistry as .*TestRegistry>::%s$" % mode)
        m = Find(r.p).setup(r, mode)
        me = ("sym", ("self",), ())
        args = [me, SUITE, ("sym", ("lit",), ()), ("sym", ("suites",), ())] if mode == "all" else [me, REQ, SUITE, ("sym", ("lit",), ()), ROOTCFG, ("sym", ("suites",), ())]
        e, outs = analyse(r, fn, m, args, State(mon=()))
        yield mode, fn, m, e, outs


@rule("L11")
def l11(r):
    r.assumptions += ["walkdir yields every entry below the directory it is given, and does not descend into directories the filter rejects",
                      "the root of a search is a directory; a suite's source directory is not below one of the directories it contains"]
    for mode, fn, m, e, outs in entry_points(r):
        r.need(outs, "paths of %s" % fn.name)
        seen = set()
        for s, v in outs:
            g = lambda k: get(s.mon, k)  # noqa: E731
            k, pay = result_of(e, s, v)
            what = None
            if k == "err":
                good = g("cur") == "error" or g("loaderr")
                why = "search error" if g("cur") == "error" else "nested suite error"
                r.ob("outcome", "%s: %s" % (mode, why), good, "outcome|%s|spurious" % mode, "%s: an error is returned although the search and the nested suites were fine" % fn.loc())
                seen.add(why)
                continue
            if k != "ok":
                what = "a path whose outcome is not known"
            elif g("loaderr"):
                what = "an error met while loading a nested suite is dropped"
            elif g("searched"):
                seen.add("searched")
                if g("walked") != "end":
                    what = "the search stops before every entry was looked at"
                elif g("anynested") and not g("nloaded"):
                    what = "nested suites that were found are not loaded"
                elif g("npend"):
                    what = "a nested suite that was found is not loaded"
                elif mode == "find" and g("reqdir") is not True:
                    what = "a path that is not known to be a directory is searched"
                elif self_list(e, s, pay) != LIST:
                    what = "the tests that are returned are not those that were found"
            elif mode == "all":
                what = "the suite's source directory is not searched"
            else:
                seen.add("file")
                a = m.accept(s.mon)
                if g("reqdir") is not False:
                    what = "a directory is not searched"
                elif a is None:
                    what = "a requested file is not judged by all the criteria (%s)" % m.describe(s.mon)
                elif a != (g("pushed") == 1):
                    what = "a requested file that is %s %s" % (m.describe(s.mon), "does not become a test" if a else "becomes a test")
                elif self_list(e, s, pay) != LIST:
                    what = "the tests that are returned are not those that were found"
            r.ob("outcome", "%s: %s" % (mode, "searched" if g("searched") else "file"), what is None, "outcome|%s|%s" % (mode, (what or "").split(" (")[0]), "%s: %s" % (fn.loc(), what))
        for k, msg in m.bad.items():
            r.ob("search", "%s: %s" % (mode, k), False, k, msg)
        r.ob("search", "%s: every entry" % mode, True)
        r.need({"searched", "search error", "nested suite error"} <= seen and (mode == "all" or "file" in seen), "the outcomes of %s (found %s)" % (fn.name, sorted(seen)))


def self_list(e, s, pay):
    return view(e.norm(s, e.deref_all(s, pay)))
