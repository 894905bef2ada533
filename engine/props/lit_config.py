"""L12: how the configuration of a directory is made up from those of the suite and the directories above it."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put
from props.lit_find import view, flat, entry_points

OWN, PAR = ("own",), ("par",)
MAPS = ("env", "substitutions", "available_features")
FALLBACK = ("format", "patterns", "exclude")


class Inherit(Mon):
    """One call of `inherit`: every field of the result as layers (lowest first) of the two configurations."""
    init = ()
    stop = (r"FeatureSet::(extend|is_empty|insert)$", r"SubstitutionSet::(extend|is_empty|insert)$", r"PatternSet::is_empty$")

    def setup(self, r):
        self.tc = adt(r, "TestConfig", "litcheck_lit")
        self.fields = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.tc]["v"][0]["f"]]
        self.bad = {}
        return self

    def layers(self, v):
        """The layers of a value, or None."""
        if v[0] == "adt" and v[1] == "layers":
            return v[3]
        base, pr = flat(collection(v))
        if base[0] == "sym" and base[1] in (OWN, PAR) and pr and isinstance(pr[0], int):
            return ((base[1], pr[0]),)
        return None

    def before_call(self, e, st, c):
        if not c.args:
            return None
        last = c.name.rsplit("::", 1)[-1]
        a0 = e.deref_all(st, c.args[0])
        ls = self.layers(a0)
        if ls is None:
            return None
        if last == "clone":
            return [(st, a0)]
        if last in ("is_empty", "len") and len(ls) == 1:
            outs = []
            for b in (True, False):
                k = "empty %s.%d" % (ls[0][0][0], ls[0][1])
                cur = get(st.mon, k)
                if cur is not None and cur != b:
                    continue
                s = st.copy()
                s.mon = put(s.mon, **{k: b})
                outs.append((s, (TRUE if b else FALSE) if last == "is_empty" else ("int", 0) if b else ("sym", ("nonzero",), ())))
            return outs
        if last in ("extend", "append") and len(c.args) == 2:
            xs = self.layers(e.deref_all(st, c.args[1]))
            if xs is not None and c.args[0][0] == "ref":
                s = st.copy()
                e.set(s, e.deref(c.args[0]), ("adt", "layers", 0, tuple(x for x in ls if x not in xs) + xs))
                return [(s, UNIT)]
        if last in ("insert", "push", "or_insert") and len(c.args) > 1 and c.args[0][0] == "ref":
            k = view(e.norm(st, e.deref_all(st, c.args[1])))
            if k[0] == "sym" and k[1][0] == "key" and (len(c.args) == 2 or view(e.norm(st, e.deref_all(st, c.args[2]))) == ("sym", ("val",) + k[1][1:], ())):
                x = (k[1][1], k[1][2])
                s = st.copy()
                e.set(s, e.deref(c.args[0]), ("adt", "layers", 0, tuple(y for y in ls if y != x) + (x,)))
                s.mon = put(s.mon, pend=None)
                return [(s, TOP)]
            self.bad["insert"] = "%s: something other than an entry of one of the two configurations is added" % c.loc()
        if last in ("remove", "clear", "retain", "pop_first", "pop", "truncate", "drain", "split_off", "swap_remove", "shift_remove"):
            self.bad["remove"] = "%s: entries are removed (%s)" % (c.loc(), last)
        return None

    def elements(self, e, st, c, src, ety, site):
        ls = self.layers(e.deref_all(st, src))
        if ls is None:
            return None
        if get(st.mon, "pend"):
            st = st.copy()
            self.bad["skip"] = "%s: an entry is not taken over" % c.loc()
            st.mon = put(st.mon, pend=None)
        if len(ls) != 1:
            self.bad["loop"] = "%s: entries of a mixture are iterated" % c.loc()
            return None
        emp = "empty %s.%d" % (ls[0][0][0], ls[0][1])
        known = get(st.mon, emp)
        if known is True:
            return [(st, None)]
        s1 = st.copy()
        s1.mon = put(s1.mon, pend=True, **{emp: False, emp + " it": True})
        st = st.copy()
        if known is None:
            st.mon = put(st.mon, **{emp: True})
        elif not get(st.mon, emp + " it"):
            st = None
        k = ("sym", ("key",) + ls[0], ())
        tup = self.fields[ls[0][1]] in ("env", "substitutions")
        return ([(st, None)] if st else []) + [(s1, ("tup", (k, ("sym", ("val",) + ls[0], ()))) if tup else k)]


def inherit(r):
    fn = r.fn(r"TestConfig::inherit$")
    m = Inherit(r.p).setup(r)
    st = State(mon=())
    so, sp = ("L", ("own",), 0), ("L", ("par",), 0)
    st.env[so], st.env[sp] = ("sym", OWN, ()), ("sym", PAR, ())
    e, outs = analyse(r, fn, m, [("ref", so, ()), ("ref", sp, ())], st)
    r.need(outs, "paths of %s" % fn.name)
    dflt = None
    for s, _ in outs:
        for i, f in enumerate(m.fields):
            v = e.get(s, (so, (i,)))
            ls = m.layers(v)
            emp = {x: get(s.mon, "empty %s.%d" % (x[0], i)) for x in (OWN, PAR)}
            what = None
            if ls is None or any(x[1] != i for x in ls):
                what = "is something other than the same field of one of the two"
            elif f in MAPS:
                got = [x[0] for x in ls if not emp[x[0]]]
                want = [x for x in (PAR, OWN) if not emp[x]]
                if got != want and not (f == "available_features" and set(got) == set(want)):
                    what = "does not consist of what is inherited overridden by its own entries (%s instead of %s)" % ([x[0] for x in got], [x[0] for x in want])
            elif f in ("patterns", "exclude"):
                if len(ls) != 1 or not (ls[0][0] == (PAR if emp[OWN] else OWN) and emp[OWN] is not None or emp[OWN] and emp[PAR]):
                    what = "is not its own if it is given, and the inherited one otherwise (takes %s, own %s)" % (ls[0][0][0], {True: "empty", False: "given", None: "not looked at"}[emp[OWN]])
            elif f == "format":
                a = adt(r, "SelectedTestFormat")
                vs = e.variants(s, ("sym", OWN, (i,)), a)
                d = vidx(r, a, "Default")
                own = vs != {d}
                if own and d in vs and ls[0][0] == OWN:
                    what = "is left at the default although one is inherited"
                elif len(ls) != 1 or ls[0][0] != (OWN if own else PAR):
                    what = "is not its own if one is given, and the inherited one otherwise"
            else:
                what = "is a field that the rule does not know"
            r.ob("inherit", f, what is None, "inherit|%s|%s" % (f, (what or "").split(" (")[0]), "%s: `%s` of the result %s" % (fn.loc(), f, what))
        r.ob("inherit", "entries", not get(s.mon, "pend"), "inherit|skip", "%s: an entry is not taken over" % fn.loc())
    for k, msg in m.bad.items():
        r.ob("inherit", k, False, "inherit|" + k, msg)
    # the sets that `extend` and `insert` of which were taken as given
    for n in ("FeatureSet", "SubstitutionSet"):
        f2 = r.fn(r"config::\w+::%s::extend$" % n)
        m2 = Extend(r.p)
        st = State(mon=())
        root = ("L", ("set",), 0)
        st.env[root] = ("sym", ("set",), ())
        e2, o2 = analyse(r, f2, m2, [("ref", root, ()), ("sym", ("new",), ())], st)
        r.need(o2, "paths of %s" % f2.name)
        for s, _ in o2:
            r.ob("inherit", f2.name, get(s.mon, "all") and not get(s.mon, "pend"), "extend|" + n, "%s: not every entry is added" % f2.loc())
        for k, msg in m2.bad.items():
            r.ob("inherit", "%s %s" % (n, k), False, "extend|%s|%s" % (n, k), msg)


class Extend(Mon):
    """Every element of the argument is added to the collection inside the receiver."""
    init = ()

    def setup(self):
        return self

    def __init__(self, p, **kw):
        super().__init__(p, **kw)
        self.bad = {}

    def src(self, e, st, v):
        w = view(collection(e.norm(st, e.deref_all(st, v))))
        while w[0] == "iter" and w[1] in ("map", "same"):
            w = view(collection(w[2]))
        return w == ("sym", ("new",), ())

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if last == "extend" and len(c.args) == 2 and not c.name.startswith("litcheck_lit"):
            dst = e.norm(st, e.deref_all(st, c.args[0]))
            if flat(dst)[0] == ("sym", ("set",), ()):
                x = e.deref_all(st, c.args[1])
                if x[0] == "sym" and x[1] == ("new",) or self.src(e, st, x):
                    s = st.copy()
                    s.mon = put(s.mon, all=True)
                    return [(s, UNIT)]
                self.bad["other"] = "%s: something other than the given entries is added" % c.loc()
        if last == "insert" and len(c.args) > 1:
            k = view(e.norm(st, e.deref_all(st, c.args[1])))
            if k[0] == "sym" and k[1][0] == "new" or ids_in(k) & {("newel",)}:
                s = st.copy()
                s.mon = put(s.mon, pend=None)
                return [(s, TOP)]
        if last in ("retain", "clear", "pop", "remove"):
            self.bad["remove"] = "%s: entries are removed" % c.loc()
        return None

    def elements(self, e, st, c, src, ety, site):
        if not self.src(e, st, src):
            return None
        if get(st.mon, "pend"):
            self.bad["skip"] = "%s: an entry is not taken over" % c.loc()
        s0, s1 = st.copy(), st.copy()
        s0.mon = put(s0.mon, all=True, pend=None)
        s1.mon = put(s1.mon, pend=True)
        return [(s0, None), (s1, ("sym", ("newel",), ()))]


# ------------------------------------------------------------------ local configurations
SRC, PIS, P0, PP, ACP, REST, COMP, DIR, TOML = (("sym", (x,), ()) for x in ("srcdir", "pathinsuite", "p0", "parentdir", "ancestorpath", "rest", "component", "dir", "toml"))
SUITE, CACHED, ACF, PERR, WERR, CACHE = (("sym", (x,), ()) for x in ("suite", "cachedcfg", "ancestorcfg", "parseerr", "searcherr", "cache"))
LITCFG = ("sym", ("lit",), ())
FILE = "lit.local.toml"


class Local(Mon):
    """The descent from the suite (or a known directory above) to a directory of it."""
    init = ()
    watch = (r"PathPrefixTree::", r"TestConfig::(inherit|parse)$", r"search_directory$", r"Path::(strip_prefix|components)$")
    stop = (r"TestSuite::source_dir$", r"PathPrefixTree::", r"TestConfig::(inherit|parse)$", r"search_directory$")

    def setup(self, r):
        self.ci = fidx(r, adt(r, "TestSuite", "litcheck_lit::suite"), "config")
        self.ent = [a for a in r.p.adt_named("Entry") if "path_tree" in a]
        r.need(len(self.ent) == 1, "the entry type of the path tree")
        self.ent = self.ent[0]
        fs = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.ent]["v"][0]["f"]]
        r.need(set(fs) == {"path", "data"}, "the fields of a path tree entry")
        self.efs = fs
        self.bad = {}
        return self

    def pinned(self, i):
        return isinstance(i, tuple) and len(i) in (1, 2) and i[0] in ("eff", "ancestorcfg", "cachedcfg", "suite")

    def v(self, e, st, x):
        return view(e.norm(st, e.deref_all(st, x)))

    def cfgv(self, e, st, x):
        """A configuration value: suite config, cached, nearest, or an effective one."""
        base, pr = flat(e.norm(st, e.deref_all(st, x)))
        if base == SUITE and pr == (self.ci,):
            return "suite"
        if pr and (base[0] != "sym" or base[1][0] != "eff" or any(x != 0 for x in pr)):
            return None     # (the pointer inside a box is the box)
        return base if base[0] == "sym" else None

    def target(self, st):
        d = get(st.mon, "isdir")
        return None if d is None else P0 if d else PP

    def fork(self, st, key, vals=(True, False)):
        cur = get(st.mon, key)
        outs = []
        for b in ((cur,) if cur is not None else vals):
            s = st.copy()
            s.mon = put(s.mon, **{key: b})
            outs.append((s, b))
        return outs

    def eff(self, st):
        x = get(st.mon, "eff")
        return {"suite": "suite", "ancestor": ACF}.get(x, ("sym", ("eff", x), ()))

    def leave(self, st, where):
        g = lambda k: get(st.mon, k)  # noqa: E731
        if g("comp"):
            if not g("pushed"):
                self.bad["push"] = "%s: a directory on the way is not looked at" % where
            elif g("pend"):
                self.bad["pend"] = "%s: a local configuration is found but does not take effect" % where
            elif g("seen") is None:
                self.bad["unseen"] = "%s: a directory on the way is not searched for a local configuration" % where
        st.mon = put(st.mon, comp=None, pushed=None, seen=None, pend=None, parsed=None)

    def elements(self, e, st, c, src, ety, site):
        if src[0] == "adt" and src[1] == "search":
            outs = []
            for s, t in self.fork(st.copy(), "seen", ("none", "toml", "other", "error")):
                if t == "none":
                    outs.append((s, None))
                elif t == "error":
                    s.mon = put(s.mon, pend="error")
                    outs.append((s, err(WERR)))
                else:
                    root = ("L", ("entry", c.fr.id, c.blk), 0)
                    s.env[root] = ("sym", ("entry", t), ())
                    res = e.call_value(c.fr, site + ("w",), c.line, src[3][0], [("ref", root, ())], s)
                    if res is None:
                        raise Anchor("the filter of the search for local configurations")
                    for s2, b in res:
                        for yes in (True, False):
                            x = e.assume(s2, b, yes)
                            if x is None:
                                continue
                            x = x.copy()
                            x.env.pop(root, None)
                            if yes and t == "other":
                                self.bad["other"] = "%s: a file that is not a local configuration is taken for one" % c.loc()
                            elif not yes and t == "toml":
                                self.bad["missed"] = "%s: a local configuration is overlooked" % c.loc()
                            if yes:
                                x.mon = put(x.mon, pend="toml")
                                outs.append((x, ok(("sym", ("entry", t), ()))))
                            else:
                                outs.append((x, None))
            return outs
        if view(collection(e.norm(st, e.deref_all(st, src)))) == ("sym", ("components",), ()):
            s = st.copy()
            self.leave(s, c.loc())
            s0, s1 = s.copy(), s
            s0.mon = put(s0.mon, done=True)
            s1.mon = put(s1.mon, comp=True)
            return [(s0, None), (s1, COMP)]
        return None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if not c.args:
            return None
        a0 = e.deref_all(st, c.args[0])
        x0 = self.v(e, st, c.args[0])
        if nm.endswith("TestSuite::source_dir"):
            return [(st, SRC)]
        if last == "into_diagnostic":
            k, pay = result_of(e, st, a0)
            if k != "?":
                return [(st, ok(pay) if k == "ok" else err(pay))]
        if nm.endswith("search_directory"):
            if self.v(e, st, c.args[0]) != DIR or not get(st.mon, "comp") or not get(st.mon, "pushed"):
                self.bad["searchdir"] = "%s: a local configuration is looked for somewhere other than in the next directory on the way" % c.loc()
            if e.truth(st, c.args[1]) is not False:
                self.bad["deep"] = "%s: a local configuration of a directory further below is taken for that of the directory" % c.loc()
            return [(st, ("adt", "search", 0, (c.args[2],)))]
        if a0[0] == "adt" and a0[1] == "search" and last in ("next", "into_walker", "into_iter"):
            if last != "next":
                return [(st, a0)]
            return [(s, NONE if x is None else some(x)) for s, x in self.elements(e, st, c, a0, None, ("n",))]
        if x0[0] == "sym" and x0[1][0] == "entry":
            if last == "file_name":
                return [(st, ("sym", ("name", x0[1][1]), ()))]
            if last in ("path", "into_path"):
                return [(st, TOML if x0[1][1] == "toml" else ("sym", ("otherfile",), ()))]
        if last in ("eq", "ne") and len(c.args) == 2:
            for p, q in ((x0, e.deref_all(st, c.args[1])), (self.v(e, st, c.args[1]), a0)):
                if p[0] == "sym" and p[1][0] == "name" and q[0] == "str":
                    same = (q[1] == FILE) == (p[1][1] == "toml")
                    if q[1] != FILE:
                        same = False
                    return [(st, TRUE if same == (last == "eq") else FALSE)]
        if last == "join":
            x1 = self.v(e, st, c.args[1])
            if x0 == SRC and x1 == PIS:
                return [(st, P0)]
            if x0 == DIR and e.deref_all(st, c.args[1]) == ("str", FILE):
                return [(st, TOML)]
            if x1 == COMP:
                return [(self.pushed(st, x0, c), DIR)]
        if x0 == TOML and last in ("exists", "is_file", "try_exists"):
            outs = []
            for s, t in self.fork(st, "seen", ("none", "toml")):
                if t == "toml":
                    s.mon = put(s.mon, pend="toml")
                b = TRUE if t == "toml" else FALSE
                outs.append((s, ok(b) if last == "try_exists" else b))
            return outs
        if x0 in (P0, PP):
            if last == "is_dir" and x0 == P0:
                return [(s, TRUE if b else FALSE) for s, b in self.fork(st, "isdir")]
            if last == "parent" and x0 == P0:
                return [(st, some(PP))]
            if last == "starts_with" and self.v(e, st, c.args[1]) == ACP and x0 == self.target(st):
                return [(s, TRUE if b else FALSE) for s, b in self.fork(st, "above")]
            if last == "strip_prefix":
                d = self.v(e, st, c.args[1])
                s = st.copy()
                if x0 != self.target(st):
                    self.bad["target"] = "%s: the directory that is asked for is not the one whose configuration is made up" % c.loc()
                if d == SRC:
                    s.mon = put(s.mon, start="suite", eff="suite")
                elif d == ACP:
                    if not (get(st.mon, "inside") and get(st.mon, "above")):
                        self.bad["ancestor"] = "%s: the configuration of a directory outside the suite, or not above the one asked for, is used" % c.loc()
                    s.mon = put(s.mon, start="ancestor", eff="ancestor")
                else:
                    self.bad["start"] = "%s: the descent starts somewhere other than at the suite or a directory whose configuration is known" % c.loc()
                return [(s, ok(REST))]
        if x0 == ACP and last == "starts_with" and self.v(e, st, c.args[1]) == SRC:
            return [(s, TRUE if b else FALSE) for s, b in self.fork(st, "inside")]
        if x0 == REST and last in ("components", "iter"):
            return [(st, ("sym", ("components",), ()))]
        if x0 == COMP and last in ("as_ref", "as_os_str"):
            return [(st, COMP)]
        if last == "push" and len(c.args) == 2 and self.v(e, st, c.args[1]) == COMP:
            s = self.pushed(st, x0, c)
            e.set(s, e.deref(c.args[0]), DIR)
            return [(s, UNIT)]
        if "PathPrefixTree::" in nm:
            x1 = self.v(e, st, c.args[1]) if len(c.args) > 1 else None
            if last == "get" and x1 == self.target(st):
                return [(s, some(CACHED) if b else NONE) for s, b in self.fork(st, "hit")]
            if last == "nearest_ancestor" and x1 == self.target(st):
                outs = []
                for s, b in self.fork(st, "near"):
                    outs.append((s, some(("adt", self.ent, 0, tuple(ACP if f == "path" else ACF for f in self.efs))) if b else NONE))
                return outs
            if last in ("insert", "try_insert"):
                val = self.cfgv(e, st, c.args[2])
                here = get(st.mon, "comp") and get(st.mon, "pushed")
                if x1 == DIR and here and get(st.mon, "seen") is not None or x1 == self.target(st) and get(st.mon, "done"):
                    if get(st.mon, "pend") or val != self.eff(st):
                        self.bad["remember"] = "%s: a configuration is remembered for a directory it does not belong to" % c.loc()
                else:
                    self.bad["rememberdir"] = "%s: a configuration is remembered for another directory" % c.loc()
                return [(st, UNIT if last == "insert" else ok(UNIT))]
            if last not in ("contains",):
                self.bad["cache"] = "%s: the known configurations are used in a way that is not followed (%s)" % (c.loc(), last)
        if nm.endswith("TestConfig::parse"):
            if x0 != TOML:
                self.bad["parse"] = "%s: something other than the local configuration that was found is read" % c.loc()
            s, f = st.copy(), st.copy()
            n = {"suite": 0, "ancestor": 0}.get(get(st.mon, "eff"), get(st.mon, "eff"))
            n = 1 - n if isinstance(n, int) else 0
            x = ("sym", ("eff", n), ())
            f.mon = put(f.mon, pend="error")
            s.mon = put(s.mon, parsed=n)
            return [(s, ok(x)), (f, err(PERR))]
        if nm.endswith("TestConfig::inherit"):
            s = st.copy()
            n = get(st.mon, "parsed")
            if n is None or self.cfgv(e, st, c.args[0]) != ("sym", ("eff", n), ()):
                self.bad["inherit"] = "%s: something other than the local configuration that was just read inherits" % c.loc()
            elif self.cfgv(e, st, c.args[1]) != self.eff(st):
                self.bad["inheritfrom"] = "%s: a local configuration inherits from something other than the configuration of the directory above it" % c.loc()
            s.mon = put(s.mon, eff=n, pend=None, parsed=None)
            return [(s, UNIT)]
        return None

    def pushed(self, st, x0, c):
        s = st.copy()
        g = lambda k: get(st.mon, k)  # noqa: E731
        want = (DIR,) if g("moved") else (SRC,) if g("start") == "suite" else (ACP,)
        if x0 not in want or not g("comp") or g("pushed"):
            self.bad["way"] = "%s: the directories on the way are not visited one after the other" % c.loc()
        s.mon = put(s.mon, pushed=True, moved=True)
        return s


def local(r):
    fn = r.fn(r"::get_local_config$")
    m = Local(r.p).setup(r)
    args = []
    for i in range(fn.argc):
        t = fn.locals[i + 1]
        txt = t[1]
        args.append(SUITE if "TestSuite" in txt and "Tree" not in txt else CACHE if "PathPrefixTree" in txt else PIS if "Path" in txt else LITCFG if "Config" in txt else TOP)
    e, outs = analyse(r, fn, m, args, State(mon=()))
    r.need(outs, "paths of %s" % fn.name)
    seen = set()
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        k, pay = result_of(e, s, v)
        what = None
        if k == "err":
            seen.add("error")
            if g("pend") != "error":
                what = "an error is returned although every configuration could be read"
        elif k != "ok":
            what = "a path whose outcome is not known"
        elif g("pend") == "error":
            what = "a local configuration that cannot be read is ignored"
        elif g("hit"):
            seen.add("cached")
            if m.cfgv(e, s, pay) != CACHED:
                what = "the configuration that is known for the directory is not the one that is returned"
        else:
            seen.add("computed")
            if not g("done"):
                what = "the way down to the directory is not followed to its end"
            elif m.cfgv(e, s, pay) != m.eff(s):
                what = "the configuration that is returned is not that of the directory that was asked for"
        r.ob("local", "%s" % k, what is None, "local|" + (what or ""), "%s: %s" % (fn.loc(), what))
    for k, msg in m.bad.items():
        r.ob("local", k, False, "local|" + k, msg)
    r.need({"error", "computed"} <= seen, "the outcomes of %s" % fn.name)


@rule("L12")
def l12(r):
    r.assumptions += ["a path prefix tree returns for a path what was last inserted for it, and for the nearest ancestor one that was inserted for an ancestor"]
    inherit(r)
    local(r)
    for mode, fn, m, e, outs in entry_points(r):
        r.ob("search", mode, m.onecfg is None, "search|one configuration",
             "%s: a directory that is searched for tests gives all tests below it one configuration, whatever local configurations there are below it" % m.onecfg)
