"""L19: which suites are loaded for the given paths, and which of their tests are selected."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put
from props.lit_find import view, flat


def S(*x):
    return ("sym", x, ())


TOMLNAME = "lit.suite.toml"
SELF, LIT, KEY, SUITE, SRC, CWD = S("self"), S("lit"), S("key"), S("suite"), S("srcdir"), S("cwd")


class Base(Mon):
    init = ()

    def __init__(self, p, r, **kw):
        super().__init__(p, **kw)
        self.r = r
        self.bad = {}
        self.iterated = None
        self.reg = adt(r, "DefaultTestSuiteRegistry")
        self.fields = {(f["n"] if isinstance(f, dict) else f): i for i, f in enumerate(r.p.adts[self.reg]["v"][0]["f"])}
        r.need({"suites", "tests_by_suite", "config_cache", "local_config_cache"} <= set(self.fields), "the fields of the suite registry")

    def v(self, e, st, x):
        return view(e.norm(st, e.deref_all(st, x)))

    def field(self, e, st, x):
        """The name of the field of the registry that x is (a reference to)."""
        v = e.norm(st, x)
        if v[0] == "at":
            v = v[1]
        base, pr = flat(v)
        if base == SELF and len(pr) == 1:
            for n, i in self.fields.items():
                if i == pr[0]:
                    return n
        return None

    def fork(self, st, key, vals=(True, False)):
        cur = get(st.mon, key)
        outs = []
        for b in ((cur,) if cur is not None else vals):
            s = st.copy()
            s.mon = put(s.mon, **{key: b})
            outs.append((s, b))
        return outs

    def bools(self, st, key, neg=False):
        return [(s, TRUE if b != neg else FALSE) for s, b in self.fork(st, key)]

    def flag(self, k, c, msg):
        self.bad.setdefault(k, "%s: %s" % (c.loc(), msg))

    def pinned(self, i):
        return isinstance(i, tuple) and i and isinstance(i[0], str) and i[0] in ("suite", "key", "list", "found", "cfg", "path", "self")

    def common(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("env::current_dir"):
            return [(st, ok(CWD))]
        if not c.args:
            return None
        a0 = e.deref_all(st, c.args[0])
        x0 = self.v(e, st, c.args[0])
        if nm.endswith("path::Path::new"):
            return [(st, c.args[0])]
        if last in ("into_diagnostic", "wrap_err", "wrap_err_with"):
            k, pay = result_of(e, st, a0)
            if k != "?":
                return [(st, ok(pay) if k == "ok" else err(pay))]
        if nm.endswith("TestSuite::source_dir"):
            return [(st, S("srcdir", *x0[1][1:]))]
        if nm.endswith("TestSuite::id"):
            return [(st, S("key", *x0[1][1:]))]
        return None


# ------------------------------------------------------------------ load
class Load(Base):
    stop = (r"load_from_path$", r"DefaultTestSuiteRegistry::clear$", r"TestSuiteSet::")
    watch = (r"load_from_path$", r"DefaultTestSuiteRegistry::clear$")

    def before_call(self, e, st, c):
        r = self.common(e, st, c)
        if r is not None or not c.args:
            return r
        if c.name.endswith("DefaultTestSuiteRegistry::clear"):
            s = st.copy()
            if get(s.mon, "any"):
                self.flag("clear", c, "suites that were loaded are removed again")
            s.mon = put(s.mon, cleared=True)
            return [(s, UNIT)]
        if c.name.endswith("load_from_path"):
            s, f = st.copy(), st.copy()
            if self.v(e, st, c.args[1]) != S("input"):
                self.flag("input", c, "something other than a path that was given is loaded")
            elif get(st.mon, "pend") is not True:
                self.flag("twice", c, "a path is loaded more than once")
            s.mon = put(s.mon, pend=False, any=True)
            f.mon = put(f.mon, pend=False, failed=True)
            return [(s, ok(UNIT)), (f, err(S("loaderr")))]
        return None

    def elements(self, e, st, c, src, ety, site):
        base, pr = flat(collection(e.norm(st, e.deref_all(st, src))))
        while base[0] == "iter" and base[1] in ("same",):
            base, pr = flat(collection(base[2]))
        if base != LIT:
            return None
        if get(st.mon, "pend"):
            self.flag("skip", c, "a path that was given is skipped")
        if get(st.mon, "failed"):
            self.flag("failed", c, "a path that cannot be loaded is ignored")
        s0, s1 = st.copy(), st.copy()
        s0.mon = put(s0.mon, pend=None, done=True)
        s1.mon = put(s1.mon, pend=True)
        self.iterated = pr
        return [(s0, None), (s1, S("input"))]


# ------------------------------------------------------------------ load_from_path
class FromPath(Base):
    stop = (r"find_nearest_suite$", r"load_tests_for_suite$", r"TestSuite::(filter_by_path|source_dir|id|search_paths)$")
    watch = (r"find_nearest_suite$", r"load_tests_for_suite$", r"TestSuite::filter_by_path$")

    def before_call(self, e, st, c):
        r = self.common(e, st, c)
        if r is not None or not c.args:
            return r
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        x0 = self.v(e, st, c.args[0])
        if last == "canonicalize":
            if x0 != S("input"):
                self.flag("canon", c, "something other than the path that was given is looked up")
            s, f = st.copy(), st.copy()
            f.mon = put(f.mon, missing=True)
            return [(s, ok(S("path"))), (f, err(S("ioerr")))]
        if x0 == S("path"):
            if last == "starts_with" and self.v(e, st, c.args[1]) == CWD:
                return self.bools(st, "below")
            if last == "strip_prefix" and self.v(e, st, c.args[1]) == SRC:
                return [(s, ok(S("rel")) if b else err(S("notbelow"))) for s, b in self.fork(st, "insuite")]
            if last == "starts_with" and self.v(e, st, c.args[1]) == SRC:
                return self.bools(st, "insuite")
        if nm.endswith("find_nearest_suite"):
            if self.v(e, st, c.args[1]) != S("path"):
                self.flag("nearest", c, "the suite of another path is looked for")
            if self.v(e, st, c.args[2]) != CWD:
                self.flag("root", c, "suites are looked for outside of the working directory")
            outs = []
            for k, val in (("err", err(S("suiteerr"))), ("none", ok(NONE)), ("some", ok(some(SUITE)))):
                s = st.copy()
                s.mon = put(s.mon, nearest=k)
                outs.append((s, val))
            return outs
        if nm.endswith("filter_by_path"):
            s = st.copy()
            x1 = e.deref_all(st, c.args[1])
            good = self.v(e, st, c.args[1]) == S("rel") if get(st.mon, "insuite") else strip(x1) == ("str", "")
            if x0 != SUITE or not good or get(st.mon, "insuite") is None:
                self.flag("filter", c, "the tests that are selected are not those below the path that was given")
            if get(st.mon, "loaded"):
                self.flag("late", c, "the selection is made after the tests were looked for")
            s.mon = put(s.mon, filtered=True)
            return [(s, UNIT)]
        if nm.endswith("load_tests_for_suite"):
            s, f = st.copy(), st.copy()
            if self.v(e, st, c.args[1]) != SUITE:
                self.flag("suite", c, "the tests of another suite are looked for")
            s.mon = put(s.mon, loaded=True)
            f.mon = put(f.mon, loaded="err")
            return [(s, ok(UNIT)), (f, err(S("testserr")))]
        return None


# ------------------------------------------------------------------ load_tests_for_suite
class Tests(Base):
    stop = (r"TestSuite::(filter_by_path|source_dir|id|search_paths)$", r"get_local_config$", r"TestList::", r"TestRegistry::", r"SelectedTestFormat as .*registry$")
    watch = (r"TestList::(append|clear)$", r"TestRegistry::(all|find)$", r"get_local_config$", r"TestSuite::search_paths$")
    GUARD = ("L", ("paths",), 0)

    def pinned(self, i):
        return super().pinned(i) or isinstance(i, tuple) and i and i[0] in ("searchpaths", "fmt", "registry")

    def setup(self):
        self.ci = fidx(self.r, adt(self.r, "TestSuite", "litcheck_lit::suite"), "config")
        tc = adt(self.r, "TestConfig", "litcheck_lit")
        self.fi = fidx(self.r, tc, "format")
        return self

    def fmt(self, e, st, x):
        """Whose format x is: suite or local."""
        base, pr = flat(e.norm(st, e.deref_all(st, x)))
        return {(SUITE, (self.ci, self.fi)): "suite", (S("cfg"), (self.fi,)): "local"}.get((base, pr))

    def leave(self, st, c):
        g = lambda k: get(st.mon, k)  # noqa: E731
        if g("path"):
            if g("covered") is True and g("searched"):
                self.flag("covered", c, "a path below another one that is searched is searched as well, so that its tests are found twice")
            elif g("covered") is not True and not g("searched"):
                self.flag("skipped", c, "a selected path is not searched")
            elif g("covered") is None:
                self.flag("uncovered", c, "a path is searched without looking at whether a path above it is searched as well")
        st.mon = put(st.mon, path=None, covered=None, searched=None, cfg=None)

    def elements(self, e, st, c, src, ety, site):
        x = view(collection(e.norm(st, e.deref_all(st, src))))
        if x == S("searchpaths"):
            s = st.copy()
            if get(st.mon, "found"):
                self.flag("lost", c, "tests that were found are not kept")
            self.leave(s, c)
            s0, s1 = s.copy(), s
            s0.mon = put(s0.mon, done=True)
            s1.mon = put(s1.mon, path=True)
            if get(st.mon, "nopaths") and not get(st.mon, "path"):
                return [(s0, None)]
            return [(s0, None), (s1, S("path"))]
        if x == S("ancestors"):
            # the path itself comes first, then those above it
            n = get(st.mon, "anc")
            s1 = st.copy()
            if n is None:
                s1.mon = put(s1.mon, anc=1)
                return [(s1, S("path"))]
            return self.parents(s1)
        if x == S("parents"):
            return self.parents(st.copy())
        return None

    def parents(self, st):
        if get(st.mon, "covered") is True:
            return [(st, None), (st.copy(), S("parent"))]
        s0 = st.copy()
        s0.mon = put(s0.mon, covered=False)
        return [(s0, None), (st, S("parent"))]

    def before_call(self, e, st, c):
        r = self.common(e, st, c)
        if r is not None or not c.args:
            return r
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        a0 = e.deref_all(st, c.args[0])
        x0 = self.v(e, st, c.args[0])
        if nm.endswith("TestSuite::search_paths"):
            return [(st, S("guard"))]
        if x0 == S("guard") and last in ("deref", "deref_mut"):
            return [(st, ("ref", self.GUARD, ()))]
        if x0 == S("searchpaths"):
            if last in ("is_empty", "len") and last == "is_empty":
                return self.bools(st, "nopaths")
            if last == "contains":
                k = self.v(e, st, c.args[1])
                if strip(e.deref_all(st, c.args[1])) == ("str", ""):
                    if get(st.mon, "nopaths"):
                        return [(st, FALSE)]
                    return self.bools(st, "whole")
                if k == S("path"):
                    return [(st, TRUE)]
                if k == S("parent"):
                    if get(st.mon, "covered") is True:
                        return [(st, TRUE), (st.copy(), FALSE)]
                    s = st.copy()
                    s.mon = put(s.mon, covered=True)
                    return [(s, TRUE), (st, FALSE)]
            if last in ("retain", "remove", "clear", "pop_first", "pop_last", "insert", "split_off"):
                self.flag("paths", c, "the paths that are selected are changed (%s)" % last)
        if x0 == S("path"):
            if last == "ancestors":
                s = st.copy()
                s.mon = put(s.mon, anc=None)
                return [(s, S("ancestors"))]
            if last == "parent":
                return [(st, NONE), (st.copy(), some(S("parent")))]
        if last == "skip" and view(collection(e.norm(st, a0))) == S("ancestors") and e.deref_all(st, c.args[1]) == ("int", 1):
            return [(st, S("parents"))]
        if self.field(e, st, c.args[0]) == "tests_by_suite":
            if last in ("get_mut", "get") and self.v(e, st, c.args[1]) == KEY:
                return [(st, some(S("list")))]
            if last == "entry" and self.v(e, st, c.args[1]) == KEY:
                return [(st, S("listentry"))]
            self.flag("listof", c, "the tests of another suite are used (%s)" % last)
        if x0 == S("listentry"):
            return [(st, S("list"))]
        if nm.endswith("TestFormat>::registry") or nm.endswith("TestFormat::registry"):
            f = self.fmt(e, st, c.args[0])
            return [(st, S("registry", f or "other"))]
        if nm.endswith("get_local_config"):
            s, f = st.copy(), st.copy()
            if self.v(e, st, c.args[0]) != SUITE or self.v(e, st, c.args[1]) != S("path"):
                self.flag("cfgof", c, "the configuration of another path is looked up")
            f.mon = put(f.mon, failed=True)
            return [(s, ok(S("cfg"))), (f, err(S("cfgerr")))]
        if "TestRegistry" in nm and last in ("all", "find"):
            s, f = st.copy(), st.copy()
            whole = last == "all"
            reg = self.v(e, st, c.args[0])
            if whole:
                good = get(st.mon, "nopaths") or get(st.mon, "whole")
                if not good:
                    self.flag("all", c, "the whole suite is searched although only some paths are selected")
                if self.v(e, st, c.args[1]) != SUITE:
                    self.flag("suite", c, "another suite is searched")
            else:
                if get(st.mon, "nopaths") is not False or get(st.mon, "whole") is not False:
                    self.flag("some", c, "only some paths are searched although the whole suite is selected")
                if self.v(e, st, c.args[1]) != S("path") or self.v(e, st, c.args[2]) != SUITE:
                    self.flag("where", c, "something other than the selected path is searched")
                if self.v(e, st, c.args[4]) != S("cfg"):
                    self.flag("withcfg", c, "the search does not use the configuration of the path that is searched")
            if reg != S("registry", "suite" if whole else "local"):
                self.flag("format", c, "tests are looked for in another way than the format given for that path does")
            if get(st.mon, "found") or whole and get(st.mon, "searched"):
                self.flag("again", c, "tests are looked for twice")
            s.mon = put(s.mon, searched=(get(s.mon, "searched") or 0) + 1 if get(s.mon, "searched") != 2 else 2, found=True)
            f.mon = put(f.mon, failed=True)
            return [(s, ok(S("found"))), (f, err(S("finderr")))]
        if nm.endswith("TestList::append"):
            s = st.copy()
            if x0 != S("list") or self.v(e, st, c.args[1]) != S("found"):
                self.flag("append", c, "something other than the tests that were found is added to those of the suite")
            s.mon = put(s.mon, found=None, kept=True)
            return [(s, UNIT)]
        if nm.endswith("TestList::clear"):
            s = st.copy()
            if get(st.mon, "kept"):
                self.flag("clear", c, "tests that were found are removed again")
            if x0 == S("list"):
                s.mon = put(s.mon, cleared=True)
            return [(s, UNIT)]
        if "TestList::" in nm and last not in ("len", "is_empty", "iter"):
            self.flag("list", c, "tests that were found are removed (%s)" % last)
        return None


# ------------------------------------------------------------------ find_nearest_suite
class Nearest(Base):
    stop = (r"load_without_cache$", r"search_directory$", r"PathPrefixTree::", r"TestSuite::source_dir$", r"TestSuiteRegistry>::get$", r"TestSuiteSet::get$")
    watch = (r"load_without_cache$", r"PathPrefixTree::get$")

    def judge(self, st, c):
        """The current directory has been dealt with, and the search goes on."""
        g = lambda k: get(st.mon, k)  # noqa: E731
        if g("at"):
            if g("cache") is None:
                self.flag("nocache", c, "a directory is passed without looking at whether the suite it belongs to is known")
            elif g("cache"):
                self.flag("cached", c, "a known suite of a directory is passed over")
            elif g("toml") in ("err", "badload"):
                self.flag("error", c, "a suite configuration that cannot be read is passed over")
            elif g("toml") is None:
                self.flag("notoml", c, "a directory is passed without looking for a suite configuration in it")
            elif g("toml") == "found" and g("contains") is not False:
                self.flag("passed", c, "a suite is passed over although it may contain the path")
        st.mon = put(st.mon, cache=None, toml=None, contains=None, n=None)

    def here(self, st):
        return {"path": S("path"), "first": S("dir"), "anc": S("ancestor")}.get(get(st.mon, "at"))

    def key(self, st):
        """All views of the directory that is being looked at."""
        h = self.here(st)
        if h == S("dir"):
            return {S("dir"), S("path")} if get(st.mon, "isdir") else {S("dir")}
        return {h} if h else {S("path")}

    def elements(self, e, st, c, src, ety, site):
        if src[0] == "adt" and src[1] == "search":
            outs = []
            for s, t in self.fork(st.copy(), "toml", ("none", "found", "err")):
                if t == "none":
                    # any other entry is tried with the filter
                    root = ("L", ("entry", c.fr.id, c.blk), 0)
                    s1 = s.copy()
                    s1.env[root] = S("entry", "other")
                    for s2, b in e.call_value(c.fr, site + ("o",), c.line, src[3][0], [("ref", root, ())], s1) or ():
                        if e.assume(s2, b, True) is not None:
                            self.flag("otherfile", c, "a file that is not a suite configuration is taken for one")
                    outs.append((s, None))
                elif t == "err":
                    outs.append((s, err(S("searcherr"))))
                else:
                    root = ("L", ("entry", c.fr.id, c.blk), 0)
                    s.env[root] = S("entry", "toml")
                    res = e.call_value(c.fr, site + ("w",), c.line, src[3][0], [("ref", root, ())], s)
                    if res is None:
                        raise Anchor("the filter of the search for suite configurations")
                    for s2, b in res:
                        x = e.assume(s2, b, True)
                        if x is None:
                            self.flag("missed", c, "a suite configuration is overlooked")
                            continue
                        x = x.copy()
                        x.env.pop(root, None)
                        outs.append((x, ok(S("entry", "toml"))))
            return outs
        x = view(collection(e.norm(st, e.deref_all(st, src))))
        if x == S("ancestors"):
            s = st.copy()
            first = get(st.mon, "at") != "first" and not get(st.mon, "up")
            if not first:
                self.judge(s, c)
                if get(st.mon, "cwd"):
                    self.flag("above", c, "suites are looked for above the working directory")
            elif get(st.mon, "at") == "path":
                # the directory itself is looked at again
                s.mon = put(s.mon, n=None)
            s0, s1 = s.copy(), s
            s0.mon = put(s0.mon, at=None, exhausted=True)
            if first:
                s1.mon = put(s1.mon, at="first", up=True, cwd=None, cache=None, toml=None, contains=None)
                return [(s1, S("dir"))]
            s1.mon = put(s1.mon, at="anc", cwd=None)
            return [(s0, None), (s1, S("ancestor"))]
        return None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        r = self.common(e, st, c)
        if r is not None or not c.args:
            return r
        a0 = e.deref_all(st, c.args[0])
        x0 = self.v(e, st, c.args[0])
        if x0 == S("path"):
            if last == "is_dir":
                return self.bools(st, "isdir")
            if last == "is_file":
                return self.bools(st, "isdir", neg=True)
            if last == "parent":
                return [(st, some(S("dir")))]
            if last == "ancestors" and get(st.mon, "isdir"):
                return [(st, S("ancestors"))]
        if x0 == S("dir") and last == "ancestors":
            if get(st.mon, "isdir") is not False:
                self.flag("parent", c, "the search for the suite of a directory does not start at that directory")
            return [(st, S("ancestors"))]
        if self.field(e, st, c.args[0]) == "config_cache" and last == "get":
            k = self.v(e, st, c.args[1])
            s = st.copy()
            if get(s.mon, "at") is None and k == S("path"):
                s.mon = put(s.mon, at="path")
            if k not in self.key(s):
                self.flag("lookup", c, "the suite of another directory is looked up")
            return [(s2, some(S("key", "cached")) if b else NONE) for s2, b in self.fork(s, "cache")]
        if "PathPrefixTree::" in nm:
            self.flag("cacheuse", c, "the known suites are used in a way that is not followed (%s)" % last)
        if re.search(r"TestSuiteRegistry>::get$|TestSuiteSet::get$", nm):
            if self.v(e, st, c.args[1]) == S("key", "cached"):
                v = S("suite", "cached")
                return [(st, some(v) if "Set" in nm else v)]
        if nm.endswith("search_directory"):
            k = self.v(e, st, c.args[0])
            s = st.copy()
            if get(s.mon, "at") is None and k == S("path"):
                s.mon = put(s.mon, at="path")
            if k not in self.key(s):
                self.flag("searchdir", c, "a suite configuration is looked for in another directory")
            if e.truth(st, c.args[1]) is not False:
                self.flag("deep", c, "the configuration of a suite further below is taken for that of the directory")
            return [(s, ("adt", "search", 0, (c.args[2],)))]
        if a0[0] == "adt" and a0[1] == "search" and last in ("next", "into_iter", "into_walker"):
            if last != "next":
                return [(st, a0)]
            return [(s, NONE if x is None else some(x)) for s, x in self.elements(e, st, c, a0, None, ("n",))]
        if x0[0] == "sym" and x0[1][0] == "entry":
            if last == "file_name":
                return [(st, S("name", x0[1][1]))]
            if last in ("path", "into_path"):
                return [(st, S("toml"))]
        if last in ("eq", "ne") and len(c.args) == 2:
            for p, q in ((x0, e.deref_all(st, c.args[1])), (self.v(e, st, c.args[1]), a0)):
                if p[0] == "sym" and p[1][0] == "name" and q[0] == "str":
                    same = q[1] == TOMLNAME and p[1][1] == "toml"
                    return [(st, TRUE if same == (last == "eq") else FALSE)]
            x1 = self.v(e, st, c.args[1])
            for p, q in ((x0, x1), (x1, x0)):
                if q == CWD and p in self.key(st):
                    return self.bools(st, "cwd", neg=last == "ne")
        if nm.endswith("load_without_cache"):
            if self.v(e, st, c.args[1]) != S("toml"):
                self.flag("load", c, "something other than the suite configuration that was found is loaded")
            s, f = st.copy(), st.copy()
            f.mon = put(f.mon, toml="badload")
            return [(s, ok(S("suite", "new"))), (f, err(S("loaderr")))]
        if last == "starts_with" and x0 in (S("dir"), S("path")) and self.v(e, st, c.args[1]) == S("srcdir", "new"):
            if x0 == S("path") and get(st.mon, "isdir") is not True:
                self.flag("within", c, "the file rather than its directory is compared with the source directory")
            return self.bools(st, "contains")
        return None


# ------------------------------------------------------------------ load_without_cache and the collections
class Register(Base):
    stop = (r"PathPrefixTree::", r"TestSuite::(parse|source_dir|id)$", r"TestSuiteSet::", r"TestSuiteRegistry>::get$", r"TestList as .*default$")

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if not c.args:
            if nm.endswith("TestList as core::default::Default>::default"):
                return [(st, S("emptylist"))]
            return self.common(e, st, c)
        r = self.common(e, st, c)
        if r is not None:
            return r
        f = self.field(e, st, c.args[0])
        x1 = self.v(e, st, c.args[1]) if len(c.args) > 1 else None
        if f == "config_cache" and last == "get":
            if x1 != S("path"):
                self.flag("lookup", c, "another configuration is looked up")
            return [(s, some(S("key", "cached")) if b else NONE) for s, b in self.fork(st, "cache")]
        if re.search(r"TestSuiteRegistry>::get$|TestSuiteSet::get$", nm) and x1 == S("key", "cached"):
            v = S("suite", "cached")
            return [(st, some(v) if "Set" in nm else v)]
        if nm.endswith("TestSuite::parse"):
            if self.v(e, st, c.args[0]) != S("path"):
                self.flag("parse", c, "another configuration is read")
            s, g = st.copy(), st.copy()
            g.mon = put(g.mon, failed=True)
            return [(s, ok(S("suite", "new"))), (g, err(S("parseerr")))]
        if last in ("insert", "try_insert") and f:
            s = st.copy()
            x2 = self.v(e, st, c.args[2]) if len(c.args) > 2 else None
            nk = S("key", "new")
            if f == "suites" and x1 == S("suite", "new"):
                s.mon = put(s.mon, suites=True)
            elif f == "tests_by_suite" and x1 == nk and x2 == S("emptylist"):
                s.mon = put(s.mon, tests=True)
            elif f == "config_cache" and x2 == nk and x1 == S("path"):
                s.mon = put(s.mon, bypath=True)
            elif f == "config_cache" and x2 == nk and x1 == S("srcdir", "new"):
                s.mon = put(s.mon, bysrc=True)
            else:
                self.flag("insert", c, "something other than the suite that was read is recorded in `%s`" % f)
            return [(s, TRUE if f == "suites" else NONE if f == "tests_by_suite" else UNIT if last == "insert" else ok(UNIT))]
        if f and last in ("clear", "remove", "retain", "pop_first", "pop_last"):
            self.flag("remove", c, "known suites or tests are removed")
        return None


class Drain(Base):
    """into_iter: the lists of all suites one after the other."""
    stop = (r"TestList::", r"TestList as ")

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("TestList as core::default::Default>::default"):
            return [(st, S("list", "empty"))]
        if not c.args:
            return None
        x0 = self.v(e, st, c.args[0])
        if last in ("pop_first", "pop_last") and self.field(e, st, c.args[0]) == "tests_by_suite":
            if get(st.mon, "pend"):
                self.flag("lost", c, "the tests of a suite are lost")
            s0, s1 = st.copy(), st.copy()
            s0.mon = put(s0.mon, drained=True)
            n = "base" if get(st.mon, "base") is None else "next"
            s1.mon = put(s1.mon, base=True, pend=n == "next")
            return [(s0, NONE), (s1, some(("tup", (S("key"), S("list", n)))))]
        if nm.endswith("TestList::append"):
            x1 = self.v(e, st, c.args[1])
            s = st.copy()
            root = e.norm(st, e.deref_all(st, c.args[0]))
            b = view(root)
            if x1 == S("list", "next") and b in (S("list", "base"), S("list", "empty")):
                s.mon = put(s.mon, pend=None)
            elif x1 == S("list", "base") and b == S("list", "empty"):
                s.mon = put(s.mon, moved=True)
            else:
                self.flag("append", c, "the tests of a suite are not added to those of the others")
            return [(s, UNIT)]
        if nm.endswith("IntoIterator>::into_iter") and x0[0] == "sym" and x0[1][0] == "list":
            return [(st, ("adt", "tests", 0, (x0,)))]
        return None

    def elements(self, e, st, c, src, ety, site):
        base, pr = flat(collection(e.norm(st, e.deref_all(st, src))))
        if base == SELF and pr and pr[0] == self.fields["tests_by_suite"]:
            if get(st.mon, "pend"):
                self.flag("lost", c, "the tests of a suite are lost")
            s0, s1 = st.copy(), st.copy()
            s0.mon = put(s0.mon, drained=True)
            n = "base" if get(st.mon, "base") is None else "next"
            s1.mon = put(s1.mon, base=True, pend=n == "next")
            return [(s0, None), (s1, ("tup", (S("key"), S("list", n))))]
        return None


def run(r, what, pattern, cls, args, judge):
    fn = r.fn(pattern)
    m = cls(r.p, r)
    if hasattr(m, "setup"):
        m.setup()
    st = State(mon=())
    if cls is Tests:
        st.env[Tests.GUARD] = S("searchpaths")
    e, outs = analyse(r, fn, m, args, st)
    r.need(outs, "paths of %s" % fn.name)
    seen = set()
    for s, v in outs:
        k, pay = result_of(e, s, v) if cls is not Drain else ("", v)
        bad, tag = judge(m, e, s, k, pay, lambda x: get(s.mon, x))
        seen.add(tag)
        r.ob(what, tag or k, bad is None, "%s|%s" % (what, bad), "%s: %s" % (fn.loc(), bad))
    for k, msg in m.bad.items():
        r.ob(what, k, False, "%s|%s" % (what, k), msg)
    return m, fn, seen


def j_load(m, e, s, k, pay, g):
    if k == "err":
        return (None if g("failed") else "an error is returned although every path could be loaded"), "error"
    if k != "ok":
        return "a path whose outcome is not known", "?"
    if g("failed"):
        return "a path that cannot be loaded is ignored", "ok"
    if not g("done"):
        return "not every path that was given is loaded", "ok"
    if not g("cleared"):
        return "suites of an earlier run are kept", "ok"
    return None, "ok"


def j_path(m, e, s, k, pay, g):
    err_ = g("missing") or g("below") is False or g("nearest") == "err" or g("loaded") == "err"
    if k == "err":
        return (None if err_ else "an error is returned although the path could be loaded"), "error"
    if k != "ok":
        return "a path whose outcome is not known", "?"
    if err_:
        return ("a path that does not exist is ignored" if g("missing") else "a path outside of the working directory is accepted" if g("below") is False else "an error is ignored"), "ok"
    if g("below") is None or g("nearest") is None:
        return "a path is not looked up", "ok"
    if g("nearest") == "none":
        return None, "none"
    if not g("filtered"):
        return "the path that was given is not selected in its suite", "ok"
    if not g("loaded"):
        return "the tests of the suite are not looked for", "ok"
    return None, "ok"


def j_tests(m, e, s, k, pay, g):
    if k == "err":
        return (None if g("failed") else "an error is returned although every search succeeded"), "error"
    if k != "ok":
        return "a path whose outcome is not known", "?"
    whole = g("nopaths") or g("whole")
    if g("failed"):
        return "a search that fails is ignored", "ok"
    if g("found"):
        return "tests that were found are not kept", "ok"
    if not g("cleared"):
        return "tests that were found before are kept, and so are found twice", "ok"
    if whole and not g("kept"):
        return "the whole suite is selected but not searched", "ok"
    if not whole and not g("done"):
        return "not every selected path is searched", "ok"
    if view(s.env.get(Tests.GUARD, TOP)) != S("searchpaths"):
        return "the selection of the suite is lost, so that a further path selects less or more than it should", "ok"
    return None, "whole" if whole else "paths"


def j_nearest(m, e, s, k, pay, g):
    if k == "err":
        return (None if g("toml") in ("err", "badload") else "an error is returned although every configuration could be read"), "error"
    if k != "ok":
        return "a path whose outcome is not known", "?"
    o, x = option_of(e, s, pay)
    if o == "none":
        if g("toml") in ("err", "badload"):
            return "a suite configuration that cannot be read is ignored", "none"
        if not g("exhausted"):
            if not g("cwd"):
                return "the search ends before the working directory", "none"
            if g("cache") is not False or g("toml") is None or g("toml") == "found" and g("contains") is not False:
                return "the working directory itself is not looked at", "none"
        return None, "none"
    if o != "some":
        return "a path whose outcome is not known", "?"
    x = m.v(e, s, x)
    if x == S("suite", "cached"):
        return (None if g("cache") else "a suite that does not belong to the directory is returned"), "cached"
    if x == S("suite", "new"):
        if g("cache") is not False:
            return "a suite is loaded without looking at whether it is known", "new"
        if g("at") != "path" and g("contains") is not True:
            return "a suite is returned whose source directory does not contain the path", "new"
        return None, "new"
    return "something other than a suite that was found is returned", "?"


def j_reg(m, e, s, k, pay, g):
    if k == "err":
        return (None if g("failed") else "an error is returned although the configuration could be read"), "error"
    if k != "ok":
        return "a path whose outcome is not known", "?"
    x = m.v(e, s, pay)
    if g("cache"):
        return (None if x == S("suite", "cached") else "a known suite is read again"), "known"
    if g("failed"):
        return "a configuration that cannot be read is ignored", "?"
    if x != S("suite", "new"):
        return "the suite that was read is not the one that is returned", "new"
    for n, t in (("suites", "the suites"), ("tests", "the suites with tests"), ("bypath", "those found by configuration file"), ("bysrc", "those found by source directory")):
        if not g(n):
            return "a suite that was read is not recorded among %s" % t, "new"
    if g("cache") is None:
        return "a suite is read without looking at whether it is known", "new"
    return None, "new"


def j_drain(m, e, s, k, v, g):
    if not g("drained") or g("pend"):
        return "not the tests of all suites are run", ""
    if v[0] != "adt" or v[1] != "tests" or v[3][0] not in (S("list", "base"), S("list", "empty")):
        return "the tests that are run are not those of the suites", ""
    if v[3][0] == S("list", "empty") and g("base") and not g("moved"):
        return "the tests of a suite are lost", ""
    return None, "tests"


@rule("L19")
def l19(r):
    r.assumptions += ["a path prefix tree returns for a path what was last inserted for it", "`TestList::append` moves all elements, and a BTreeMap is drained by popping"]
    T = r"DefaultTestSuiteRegistry as .*TestSuiteRegistry>::"
    m, fn, seen = run(r, "load", T + r"load$", Load, [SELF, LIT], j_load)
    cfg = adt(r, "Config", "litcheck_lit::config")
    opt = [a for a in r.p.adt_named("Options") if "litcheck_lit" in a]
    r.need(len(opt) == 1, "the options of lit")
    r.ob("load", "the given paths", m.iterated == (fidx(r, cfg, "options"), fidx(r, opt[0], "tests")), "load|paths", "%s: something other than the list of paths that were given is loaded" % fn.loc())
    r.need({"ok", "error"} <= seen, "the outcomes of %s" % fn.name)
    m, fn, seen = run(r, "path", T + r"load_from_path$", FromPath, [SELF, S("input"), LIT], j_path)
    r.need({"ok", "error", "none"} <= seen, "the outcomes of %s" % fn.name)
    m, fn, seen = run(r, "tests", r"DefaultTestSuiteRegistry::load_tests_for_suite$", Tests, [SELF, SUITE, CWD, LIT], j_tests)
    r.need({"whole", "paths", "error"} <= seen, "the outcomes of %s" % fn.name)
    m, fn, seen = run(r, "nearest", r"DefaultTestSuiteRegistry::find_nearest_suite$", Nearest, [SELF, S("path"), CWD, LIT], j_nearest)
    r.need({"cached", "new", "none", "error"} <= seen, "the outcomes of %s (found %s)" % (fn.name, seen))
    m, fn, seen = run(r, "register", r"DefaultTestSuiteRegistry::load_without_cache$", Register, [SELF, S("path"), LIT], j_reg)
    r.need({"known", "new", "error"} <= seen, "the outcomes of %s" % fn.name)
    m, fn, seen = run(r, "drain", r"DefaultTestSuiteRegistry as .*IntoIterator>::into_iter$", Drain, [SELF], j_drain)
    # clear removes everything that is known
    fn = r.fn(r"DefaultTestSuiteRegistry::clear$")
    m = Clear(r.p, r)
    e, outs = analyse(r, fn, m, [SELF], State(mon=()))
    for s, _ in outs:
        left = [f for f in m.fields if not get(s.mon, f)]
        r.ob("clear", fn.name, not left, "clear|" + ",".join(left), "%s: %s of an earlier run are kept" % (fn.loc(), ", ".join(left)))


class Clear(Base):
    stop = (r"PathPrefixTree::", r"TestSuiteSet::")

    def before_call(self, e, st, c):
        if c.args and c.name.rsplit("::", 1)[-1] == "clear":
            f = self.field(e, st, c.args[0])
            if f:
                s = st.copy()
                s.mon = put(s.mon, **{f: True})
                return [(s, UNIT)]
        return None
