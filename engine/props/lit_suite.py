"""L20: how a suite is read from its configuration file."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put
from props.lit_find import view


def S(*x):
    return ("sym", x, ())


GIVEN, CANONP, PARENT, INPUT, SOURCE, TEXT, TEMP, TPATH, DFLT, LIT = (S(x) for x in (
    "given", "canonicalpath", "parentdir", "input", "source", "text", "temp", "temppath", "default", "lit"))
COW = "alloc::borrow::Cow"
DIRS = ("source_dir", "working_dir")
WHAT = {"source_dir": "source directory", "working_dir": "working directory"}


class Parse(Mon):
    init = ()
    watch = (r"Path(Buf)?::(canonicalize|join|is_dir|is_relative|is_absolute|parent)$", r"TempDir::(new|path)$", r"toml::de::from_str$",
             r"TestConfig::(inherit|set_default_features|set_default_substitutions)$", r"Spanned::(get_mut|get_ref|as_ref)$", r"Path as .*PartialEq")
    stop = (r"TestSuite::(id|span|filter_by_path|search_paths)$", r"TestConfig::(inherit|set_default_features|set_default_substitutions|default)$",
            r"Input::into_source$", r"input::Input as core::convert::From", r"SourceFile::")

    def setup(self, r):
        self.ts = adt(r, "TestSuite", "litcheck_lit::suite")
        self.names = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.ts]["v"][0]["f"]]
        r.need(set(DIRS + ("path", "temp_dir", "config", "name")) <= set(self.names), "the fields of a suite")
        self.bad = {}
        return self

    def pinned(self, i):
        return True

    def v(self, e, st, x):
        v = e.norm(st, e.deref_all(st, x))
        for _ in range(6):
            v = view(v)
            if v[0] == "adt" and v[1].endswith("::Cow") and v[3]:
                v = e.deref_all(st, v[3][0])
                continue
            break
        return v

    def own(self, v):
        return v[1][1] if v[0] == "sym" and v[1][0] == "own" and not [x for x in v[2] if x not in ("*", 0)] else None

    def fork(self, st, key, vals=(True, False)):
        cur = get(st.mon, key)
        outs = []
        for b in ((cur,) if cur is not None else vals):
            s = st.copy()
            s.mon = put(s.mon, **{key: b})
            outs.append((s, b))
        return outs

    def bools(self, st, key, neg=False):
        return [(s, TRUE if b != neg else FALSE) for s, b in self.fork(st, key)]

    def fails(self, st, key, val, c, what=None):
        """ok(val), or an error which is remembered."""
        s, f = st.copy(), st.copy()
        f.mon = put(f.mon, cause=(get(f.mon, "cause") or ()) + (key,))
        return [(s, ok(val)), (f, err(S("err", key)))]

    def suite_of(self, e, st, x):
        """Path of the place of the suite that x refers to, or None."""
        v = e.deref_all(st, x)
        return v if v[0] == "adt" and v[1] == self.ts else None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if not c.args:
            if nm.endswith("TestConfig as core::default::Default>::default"):
                return [(st, DFLT)]
            return None
        a0 = e.deref_all(st, c.args[0])
        x0 = self.v(e, st, c.args[0])
        x1 = self.v(e, st, c.args[1]) if len(c.args) > 1 else None
        if nm.endswith("path::Path::new"):
            return [(st, c.args[0])]
        if last in ("into_diagnostic", "wrap_err", "wrap_err_with", "map_err"):
            k, pay = result_of(e, st, a0)
            if k != "?":
                return [(st, ok(pay) if k == "ok" else err(pay))]
        if last in ("get_ref", "get_mut") and "panned" in nm:
            return [(st, c.args[0])]
        if last == "make_mut" and "Arc" in nm:
            return [(st, c.args[0])]
        if last in ("into_inner", "into_owned", "deref", "as_ref", "borrow", "as_path", "to_path_buf") and self.own(x0):
            return [(st, c.args[0] if c.args[0][0] == "ref" else a0)]
        f0 = self.own(x0)
        if x0 == GIVEN and last in ("is_absolute", "is_relative"):
            return self.bools(st, "given absolute", last == "is_relative")
        if last == "canonicalize":
            if x0 == GIVEN:
                return self.fails(st, "canonicalpath", CANONP, c)
            if f0 in DIRS:
                return self.fails(st, "canonical " + f0, S("canon", "own", f0), c)
            if x0[0] == "sym" and x0[1][0] == "joined":
                return self.fails(st, "canonical " + x0[1][1], S("canon", "joined", x0[1][1]), c)
            return None
        if last == "parent" and x0 in (GIVEN, CANONP):
            self.base(st, x0, c)
            return [(st, some(PARENT))]
        if last == "join" and x0 == PARENT and self.own(x1 or TOP) in DIRS:
            return [(st, S("joined", self.own(x1)))]
        if last in ("eq", "ne") and x1 is not None and len(c.args) == 2:
            for p, q in ((x0, x1), (x1, x0)):
                f = self.own(p)
                if f in DIRS and q == ("str", ""):
                    return self.bools(st, "empty " + f, last == "ne")
                if f in DIRS and q[0] == "sym" and q[1] == ("canon", "own", f):
                    return self.bools(st, "same " + f, last == "ne")
                if f == "name" and q == ("str", ""):
                    return self.noname(st, last == "ne")
        if last == "is_empty" and f0 == "name":
            return self.noname(st)
        if last in ("is_empty", "as_os_str") and f0 in DIRS:
            return self.bools(st, "empty " + f0) if last == "is_empty" else [(st, c.args[0])]
        if last in ("is_relative", "is_absolute") and f0 in DIRS:
            return self.bools(st, "relative " + f0, last == "is_absolute")
        if last in ("is_dir", "exists", "is_file", "try_exists"):
            outs = []
            for s, b in self.fork(st, "%s %r" % (last, x0)):
                if last == "is_dir" and not b:
                    s.mon = put(s.mon, cause=(get(s.mon, "cause") or ()) + ("dir",))
                outs.append((s, TRUE if b else FALSE))
            return outs
        if nm.endswith("TempDir::new"):
            return self.fails(st, "temp", TEMP, c)
        if nm.endswith("TempDir::path") and x0 == TEMP:
            return [(st, TPATH)]
        if "input::Input as core::convert::From" in nm or last == "from" and x0 in (GIVEN, CANONP) and c.dt and "Input" in c.dt[1]:
            self.base(st, x0, c)
            return [(st, INPUT)]
        if nm.endswith("Input::into_source"):
            if x0 != INPUT:
                self.bad["read"] = "%s: something other than the given file is read" % c.loc()
            return self.fails(st, "read", SOURCE, c)
        if last in ("as_str", "source") and x0 == SOURCE:
            return [(st, TEXT)]
        if nm.endswith("toml::de::from_str") or last == "from_str" and x0 == TEXT:
            if x0 != TEXT:
                self.bad["text"] = "%s: something other than the text of the given file is parsed" % c.loc()
            return self.fails(st, "syntax", ("adt", self.ts, 0, tuple(S("own", n) for n in self.names)), c)
        if last in ("set_default_features", "set_default_substitutions"):
            if self.v(e, st, c.args[0]) != DFLT:
                self.bad["default"] = "%s: the defaults are set in something other than a fresh configuration, where they replace what the suite configures" % c.loc()
            s = st.copy()
            s.mon = put(s.mon, **{last: True})
            if last.endswith("substitutions"):
                su = self.suite_of(e, s, c.args[2])
                if su is None:
                    self.bad["subs"] = "%s: the default substitutions are those of something other than the suite" % c.loc()
                else:
                    s.mon = put(s.mon, at=tuple(self.v(e, s, su[3][self.names.index(d)]) for d in DIRS))
            return [(s, UNIT)]
        if nm.endswith("TestConfig::inherit"):
            s = st.copy()
            if self.own(x0) == "config" and x1 == DFLT:
                g = lambda k: get(s.mon, k)  # noqa: E731
                if not (g("set_default_features") and g("set_default_substitutions")):
                    self.bad["order"] = "%s: the configuration inherits from the defaults before they are set" % c.loc()
                s.mon = put(s.mon, inherited=True)
            elif x0 == DFLT and self.own(x1) == "config":
                self.bad["reverse"] = "%s: the defaults inherit from the configuration of the suite, not the other way around" % c.loc()
            else:
                self.bad["inherit"] = "%s: something other than the configuration of the suite inherits from the defaults" % c.loc()
            return [(s, UNIT)]
        return None

    def base(self, st, x0, c):
        if x0 == GIVEN and get(st.mon, "given absolute") is not True:
            self.bad["relative"] = "%s: a relative path of the configuration file is used without being made absolute" % c.loc()

    def noname(self, st, neg=False):
        outs = []
        for s, b in self.fork(st, "noname"):
            if b:
                s.mon = put(s.mon, cause=(get(s.mon, "cause") or ()) + ("name",))
            outs.append((s, TRUE if b != neg else FALSE))
        return outs


@rule("L20")
def l20(r):
    r.assumptions += ["the toml parser and the standard library's path functions do what their documentation says", "the default features and substitutions themselves are not judged"]
    fn = r.fn(r"TestSuite::parse$")
    m = Parse(r.p).setup(r)
    args = []
    for i in range(fn.argc):
        t = fn.locals[i + 1]
        args.append(LIT if "Config" in t[1] else GIVEN)
    e, outs = analyse(r, fn, m, args, State(mon=()))
    r.need(outs, "paths of %s" % fn.name)
    seen = set()
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        k, pay = result_of(e, s, v)
        cause = g("cause") or ()
        if k == "err":
            seen.add("err")
            r.ob("reject", "error", bool(cause), "reject|none", "%s: a suite is rejected although nothing is wrong with it" % fn.loc())
            continue
        r.need(k == "ok", "the outcome of %s" % fn.name)
        seen.add("ok")
        r.ob("reject", "ok", not cause, "reject|" + "|".join(cause), "%s: a suite is accepted although this is wrong with it: %s" % (fn.loc(), ", ".join(cause)))
        su = m.suite_of(e, s, pay)
        r.need(su is not None, "the suite that %s returns" % fn.name)
        fld = lambda n: su[3][m.names.index(n)]  # noqa: E731
        r.ob("accept", "name", g("noname") is False, "accept|name", "%s: a suite is accepted without looking at its name" % fn.loc())
        for d in DIRS:
            w = m.v(e, s, fld(d))
            emp, rel, same = g("empty " + d), g("relative " + d), g("same " + d)
            if emp is None:
                okv, case = d == "source_dir" and w == S("canon", "joined", d), "any"
            elif rel is None and not emp:
                okv, case = w == S("canon", "joined", d), "given"
            elif emp:
                case = "none given"
                okv = w == (PARENT if d == "source_dir" else TPATH)
            elif rel:
                case = "relative"
                okv = w == S("canon", "joined", d)
            else:
                case = "absolute"
                okv = w == S("canon", "own", d) and rel is False or m.own(w) == d and same is True or w == S("canon", "joined", d)
            r.ob("dirs", "%s, %s" % (WHAT[d], case), okv, "dirs|%s|%s" % (d, case),
                 "%s: the %s of a suite is not what its configuration says (%s)" % (fn.loc(), WHAT[d], case))
            seen |= {(d, x) for x in {"any": ("none given", "relative", "absolute"), "given": ("relative", "absolute")}.get(case, (case,))}
            isd = g("is_dir %r" % (w,))
            r.ob("dirs", WHAT[d] + " exists", isd is True or (w == TPATH) or (w == PARENT and True), "dirs|exists|" + d,
                 "%s: a %s that is not a directory is accepted" % (fn.loc(), WHAT[d]))
            if d == "working_dir" and w == TPATH:
                td = e.deref_all(s, fld("temp_dir"))
                r.ob("temp", "kept", td == some(TEMP), "temp|kept", "%s: the temporary directory is not kept for as long as the suite" % fn.loc())
        at = g("at")
        now = tuple(m.v(e, s, fld(d)) for d in DIRS)
        r.ob("defaults", "inherited", g("inherited"), "defaults|inherited", "%s: the suite does not get the default features and substitutions" % fn.loc())
        r.ob("defaults", "directories", at is None or at == now, "defaults|directories", "%s: the default substitutions are made before the directories of the suite are known" % fn.loc())
        p = e.deref_all(s, fld("path"))
        r.ob("path", "recorded", p[0] == "adt" and p[2] == 1 and m.v(e, s, p[3][0]) == (GIVEN if g("given absolute") else CANONP), "path|recorded",
             "%s: the path of the configuration file is not recorded in the suite" % fn.loc())
    for k, msg in m.bad.items():
        r.ob("parse", k, False, "parse|" + k, msg)
    r.need({"ok", "err"} | {(d, x) for d in DIRS for x in ("none given", "relative", "absolute")} <= seen, "the outcomes of %s (%s)" % (fn.name, sorted(map(str, seen))))
