"""F15: the patterns of a group are each kept whole, and share a first part only if it is the same."""
import itertools
import re
from absint import State
from kit import TRUE, FALSE, UNIT, adt, vname, vidx, fidx, result_of, option_of, some, NONE, ok, err, analyse  # noqa: F401
from strs import parts_of
from rules import rule, Anchor
from props.fc_report import get, put
from props.fc_smart import Smart, Pat, S, COW, KINDS

ORD = "core::cmp::Ordering"
MAKERS = ((r"pattern::Pattern(<.*>)?::from_prefix$", "first"), (r"pattern::Pattern(<.*>)?::compile$", "whole"),
          (r"\bSubstringMatcher(<.*>)?::new$", "text"), (r"\bRegexMatcher(<.*>)?::new$", "regex"), (r"SubstringSetMatcher(<.*>)?::new$", "texts"), (r"RegexSetMatcher(<.*>)?::new$", "regexes"))


class Groups(Smart):
    """mon: 'bad' something was rejected; the matchers that are made are kept as what they were made from."""
    watch = Smart.watch + (r"MatchAll(<.*>)?::compile$", r"CheckPattern(<.*>)?::(pop_prefix|compact)$")
    force = Smart.force + (r"as core::cmp::(Partial)?(Ord|Eq)", r"matchers::all::", r"prefix::PatternPrefix", r"span::Span.*cmp", r"VariableName")
    max_states = 200000
    symbolic = ()

    def setup(self, r):
        Smart.setup(self, r)
        self.memo = {}
        self.pattern = adt(r, "Pattern", r"filecheck::pattern::Pattern$")
        return self

    def freeze(self, e, st, v):
        v = e.deref_all(st, v)
        if v[0] == "adt":
            return ("adt", v[1], v[2], tuple(self.freeze(e, st, x) for x in v[3]))
        if v[0] in ("arr", "tup"):
            return (v[0], tuple(self.freeze(e, st, x) for x in v[1]))
        return e.norm(st, v)

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        for rx, kind in MAKERS:
            if re.search(rx, nm):
                b = st.copy()
                b.mon = put(b.mon, bad=True)
                x = self.freeze(e, st, c.args[0])
                v = ("adt", "made", 0, (("str", kind), x, e.deref_all(st, c.args[-1])))
                if kind in ("first", "whole"):      # which kind of matcher it becomes does not matter here
                    n = "Empty" if x[0] == "adt" and vname(e.p, x[1], x[2]) == "Empty" else "Smart"
                    v = ("adt", self.pattern, vidx(self.r, self.pattern, n), (v,))
                return [(st, ok(v)), (b, err(S("rejected")))]
        if re.search(r"core::mem::(replace|take)$", nm):
            loc, x = self.place(e, st, c.args[0])
            if loc and x[0] == "adt" and last == "replace":
                s = st.copy()
                e.set(s, loc, c.args[1])
                return [(s, x)]
        v = self.maps(e, st, c, nm, last)
        if v is None:
            v = self.compared(e, st, c, nm, last)
        if v is None:
            v = Smart.before_call(self, e, st, c)
        return v

    # maps by the order of their keys, as that is in the code
    def maps(self, e, st, c, nm, last):
        if not re.search(r"BTreeMap", nm + str(c.trait) + (repr(c.dt) if last in ("default", "new") else "")):
            return None
        if last in ("new", "default"):
            return [(st, ("adt", "pmap", 0, (("arr", ()),)))]
        loc, v = self.place(e, st, c.args[0])
        if v[0] != "adt" or v[1] != "pmap" or last not in ("get", "contains_key", "insert"):
            return None
        k = self.freeze(e, st, c.args[1])
        ents = v[3][0][1]
        hit = [i for i, x in enumerate(ents) if self.order(k, x[1][0]) == 0]
        if len(hit) > 1:
            raise Anchor("a key is equal to two keys of a map")
        if last == "contains_key":
            return [(st, TRUE if hit else FALSE)]
        if last == "get":
            return self.as_ref_opt(st, c, ents[hit[0]][1][1] if hit else None)
        s = st.copy()
        new = [x for i, x in enumerate(ents) if i not in hit] + [("tup", (ents[hit[0]][1][0] if hit else k, c.args[2]))]
        e.set(s, loc, ("adt", "pmap", 0, (("arr", tuple(new)),)))
        return [(s, some(ents[hit[0]][1][1]) if hit else NONE)]

    def as_ref_opt(self, st, c, v):
        if v is None:
            return [(st, NONE)]
        s, ref = self.new_root(st, ("mapval", c.fr.id, c.blk), v)
        return [(s, some(ref))]

    # comparisons of what is known by its order only
    def compared(self, e, st, c, nm, last):
        if len(c.args) != 2 or last not in ("cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge") or "cmp" not in nm + str(c.trait):
            return None
        if nm in e.p.fns and not e.p.fns[nm].ext:
            return None
        a, b = (self.uncow(e, st, x) for x in c.args)
        text = lambda x: x[0] == "str" or x[0] == "sym"  # noqa: E731
        if text(a) and text(b):
            o = self.order(a, b)
        elif a[0] == "int" and b[0] == "int":
            o = (a[1] > b[1]) - (a[1] < b[1])
        elif a[0] == "arr" and b[0] == "arr":
            o = self.order(self.freeze(e, st, a), self.freeze(e, st, b))
        elif a[0] == "adt" and b[0] == "adt" and a[1] == b[1] and a[1] not in ("made", "pmap"):
            o = self.order(self.freeze(e, st, a), self.freeze(e, st, b))
        else:
            return None
        if o is None:
            raise Anchor("%s: a comparison with more than one result" % c.loc())
        if last in ("cmp", "partial_cmp"):
            v = ("adt", ORD, o + 1, ())
            return [(st, some(v) if last == "partial_cmp" else v)]
        return [(st, TRUE if {"eq": o == 0, "ne": o != 0, "lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[last] else FALSE)]

    def order(self, a, b):
        k = (a, b)
        if k not in self.memo:
            self.memo[k] = self.order_(a, b)
        return self.memo[k]

    def order_(self, a, b):
        if a[0] == "arr":
            for x, y in zip(a[1], b[1]):
                o = self.order(x, y)
                if o:
                    return o
            return (len(a[1]) > len(b[1])) - (len(a[1]) < len(b[1]))
        if a[0] == "int" and b[0] == "int":
            return (a[1] > b[1]) - (a[1] < b[1])
        if a[0] != "adt":
            return (repr(a) > repr(b)) - (repr(a) < repr(b))
        n = self.p.impl_method.get(("core::cmp::Ord::cmp", a[1]))
        if n is None or n not in self.p.fns:        # not one of the repository: by variant, then by field
            return (a[2] > b[2]) - (a[2] < b[2]) or self.order(("arr", a[3]), ("arr", b[3]))
        st = State(mon=())
        refs = []
        for i, x in enumerate((a, b)):
            root = ("L", ("keep", "cmp", i), 0)
            st.env[root] = x
            refs.append(("ref", root, ()))
        e, outs = analyse(self.r, self.p.fns[n], self, refs, st)
        got = {e.deref_all(s, v) for s, v in outs}
        if len(got) != 1:
            return None
        v = got.pop()
        return v[2] - 1 if v[0] == "adt" and v[1] == ORD else None


class GroupRun(Pat):
    def __init__(self, r):
        Pat.__init__(self, r)
        self.m = Groups(r.p).setup(r)
        self.line = adt(r, "CheckLine", "filecheck")
        self.all = adt(r, "MatchAll", "filecheck")
        self.pre = adt(r, "Prefix", "filecheck::ast")
        self.cap = adt(r, "Capture", "filecheck::ast")
        self.tv = adt(r, "TypedVariable", "filecheck::expr")
        self.pp = adt(r, "PatternPrefix", "filecheck")
        self.simple = adt(r, "SimpleMatcher", "filecheck")

    def item(self, k, i):
        if k == "ret":      # an expression that is written like text i
            return ("adt", self.part, vidx(self.r, self.part, "Regex"), (self.struct(self.rp, pattern=self.sp(self.cow(S("src", "lit", i))), captures=("arr", ())),))
        return Pat.item(self, k, i)

    def one(self, parts):
        """The pattern the parser makes of parts (kind, number)."""
        self.kinds = ["cap"] * 9
        xs = [self.item(k, i) for k, i in parts]
        if len(xs) == 1 and parts[0][0] in ("lit", "re", "ret"):
            return ("adt", self.pat, vidx(self.r, self.pat, "Literal" if parts[0][0] == "lit" else "Regex"), (xs[0][3][0],))
        if not xs:
            return ("adt", self.pat, vidx(self.r, self.pat, "Empty"), (S("where"),))
        return ("adt", self.pat, vidx(self.r, self.pat, "Match"), (self.sp(("arr", tuple(xs))),))

    def group(self, pats):
        st, cfg, _ = self.context({})
        lines = ("arr", tuple(self.struct(self.line, pattern=self.one(p)) for p in pats))
        e, outs = analyse(self.r, self.fn(r"filecheck::.*MatchAll::compile$"), self.m, [lines, cfg], st.copy())
        self.e = e
        return cfg, outs


    # ---- what matchers and patterns consist of: a sequence of parts, or None
    def same(self, x):
        v = x
        for _ in range(8):
            if v[0] == "adt" and v[1] in (COW, self.m.span):
                v = v[3][self.m.it] if v[1] == self.m.span else v[3][0]
        return v

    def ident(self, v):
        """The name of a variable, or of what is called as it."""
        return v[1][1] if v[0] == "sym" and v[1][0] == "name" else None

    def variable(self, v):
        v = self.same(v)
        return (vname(self.p, self.m.vn, v[2]), self.ident(self.same(v[3][0]))) if v[0] == "adt" and v[1] == self.m.vn else None

    def typed(self, v):
        f = dict(zip(self.fields(self.tv), v[3]))
        t = f["ty"]
        return (self.variable(f["name"]), vname(self.p, t[1], t[2]), t[3][0] if t[3] else None) if t[0] == "adt" else None

    def expression(self, v):
        """The parts of a regular expression with what it captures."""
        if v[0] != "adt" or v[1] != self.rp:
            return None
        f = dict(zip(self.fields(self.rp), v[3]))
        if f["captures"][0] != "arr":
            return None
        caps, whole = {}, None
        for c in f["captures"][1]:
            k = vname(self.p, self.cap, c[2])
            t = self.typed(c[3][0]) if k in ("Implicit", "Explicit") else None
            if t is None or t[0] is None or t[0][1] in caps or k == "Implicit" and whole:
                return None
            if k == "Implicit":
                whole = t
            else:
                caps[t[0][1]] = t
        toks = []
        for t in parts_of(self.e, self.s, self.same(f["pattern"])):
            toks += re.findall(r"\(\?:|\(\?P<|>|\)|.", t) if isinstance(t, str) else [t]
        out = []
        is_ = lambda i, k: i < len(toks) and toks[i][0] == "sym" and toks[i][1][0] == k  # noqa: E731
        at = lambda i, k: i < len(toks) and toks[i] == k  # noqa: E731
        i = 0
        while i < len(toks):
            if is_(i, "esc"):
                out.append(("lit", toks[i][1][1]))
                i += 1
            elif is_(i, "numpat"):
                who = toks[i][1][2]
                if who is None:
                    out.append(("num", toks[i][1][1]))
                else:
                    t = caps.pop(self.ident(who), None)
                    if t is None or t[1] != "Number":
                        return None
                    out.append(("ncap", t[0], toks[i][1][1], t[2]))
                i += 1
            elif at(i, "(?:") and is_(i + 1, "src") and at(i + 2, ")"):
                out.append(("re", toks[i + 1]))
                i += 3
            elif at(i, "(?P<") and is_(i + 1, "name") and at(i + 2, ">") and is_(i + 3, "src") and at(i + 4, ")"):
                t = caps.pop(self.ident(toks[i + 1]), None)
                if t is None or t[1] != "String":
                    return None
                out.append(("cap", t[0], toks[i + 3]))
                i += 5
            elif is_(i, "src") and len(toks) == 1:
                out.append(("re", toks[i]))
                i += 1
            else:
                return None
        if caps:
            return None
        if whole:
            if len(out) != 1 or out[0][0] not in ("re", "num"):
                return None
            if (whole[1] == "Number") != (out[0][0] == "num"):
                return None
            out = [("cap", whole[0], out[0][1])] if whole[1] == "String" else [("ncap", whole[0], out[0][1], whole[2])]
        return out

    def written(self, v):
        v = self.same(v)
        out = []
        for t in parts_of(self.e, self.s, v):
            if isinstance(t, str) or t[0] != "sym" or t[1][0] != "src":
                return None
            out.append(("lit", t))
        return out

    def rule_of(self, v):
        """The part [[...]] is."""
        v = self.same(v)
        if v[0] != "adt" or v[1] != self.match:
            return None
        n = vname(self.p, self.match, v[2])
        f = dict(zip([x["n"] if isinstance(x, dict) else x for x in self.p.adts[self.match]["v"][v[2]]["f"]], v[3]))
        if n == "Substitution":
            k, x = option_of(self.e, self.s, f["pattern"])
            return [("cap", self.variable(f["name"]), self.same(x)) if k == "some" else ("sub", self.variable(f["name"]))]
        fm = f["format"]
        k, x = option_of(self.e, self.s, fm)
        plain = x if k == "some" else S("default format")
        kc, who = option_of(self.e, self.s, f["capture"])
        ke, ex = option_of(self.e, self.s, f["expr"])
        if ke == "some":
            return [("expr", fm, self.variable(who) if kc == "some" else None, f["constraint"], ex)]
        return [("ncap", self.variable(who), plain, fm) if kc == "some" else ("num", plain)]

    def parts(self, v):
        """The parts of a pattern, a first part or a matcher."""
        v = self.same(v)
        if v[0] != "adt":
            return None
        if v[1] == "made":
            return self.written(v[3][1]) if v[3][0][1] == "text" else self.parts(v[3][1])
        if v[1] == self.rp:
            return self.expression(v)
        if v[1] in (self.pat, self.part, self.pre, self.pp):
            n = vname(self.p, v[1], v[2])
            f = v[3]
            if v[1] == self.pp:
                f = tuple(x for x, y in zip(f, self.p.adts[v[1]]["v"][v[2]]["f"]) if (y["n"] if isinstance(y, dict) else y) != "id")
            if n == "Empty":
                return []
            if n in ("Literal", "Substring"):
                return self.written(f[0])
            if n == "Regex":
                return self.expression(f[0])
            x = self.same(f[0])
            if x[0] == "arr":
                out = []
                for y in x[1]:
                    z = self.parts(y)
                    if z is None:
                        return None
                    out += z
                return out
            return self.rule_of(x)
        if v[1] == self.simple:
            return self.parts(v[3][0])
        if v[1] == self.m.pattern:
            return [] if vname(self.p, v[1], v[2]) == "Empty" else self.parts(v[3][0])
        return None

    def several(self, v):
        """What each of several matchers, or a matcher for all of them, looks for."""
        if v[0] == "arr":
            return [self.parts(x) for x in v[1]]
        if v[0] == "adt" and v[1] == "made":
            k, x = v[3][0][1], v[3][1]
            if x[0] != "arr":
                return None
            if k == "texts":
                return [self.written(y) for y in x[1]]
            if k == "regexes":
                return [self.expression(y) for y in x[1]]
        return None

    def configs(self, v, out):
        if v[0] == "adt" and v[1] == "made":
            out.add(v[3][2])
        elif v[0] in ("adt", "arr", "tup"):
            for x in v[3] if v[0] == "adt" else v[1]:
                self.configs(x, out)
        return out


def show(ps):
    return " / ".join("".join({"lit": "t%d", "ret": "{{t%d}}", "re": "{{e%d}}", "cap": "[[d%d:e]]", "sub": "[[x%.0d]]", "num": "[[#%%f%d]]", "ncap": "[[#%%f%d,d:]]", "expr": "[[#%%f%d,x]]", "cons": "[[#%%f%d,d:x]]"}[k] % i for k, i in p) for p in ps)


def kept(r, g, pats):
    """Every pattern of a group is found in exactly one place of what the group is compiled to."""
    n = 0
    cfg, outs = g.group(pats)
    fn = g.fn(r"filecheck::.*MatchAll::compile$")
    want = []
    for p in pats:
        g.s = State(mon=())
        want.append(g.parts(g.one(p)))
    key = lambda p: repr(p)  # noqa: E731
    done = any(not get(s.mon, "bad") for s, _ in outs)
    r.ob("kept", "%d patterns" % len(pats), done, "kept|never", "%s: the group %s is never compiled: all paths end before that" % (fn.loc(), show(pats)))
    for s, v in outs:
        g.s = s
        v = g.m.freeze(g.e, s, v)
        k, x = result_of(g.e, s, v)
        n += 1
        if k == "err":
            r.ob("kept", "%d patterns" % len(pats), get(s.mon, "bad") or any(not p for p in pats), "kept|rejected", "%s: the group %s is rejected although each of its patterns is valid" % (fn.loc(), show(pats)))
            continue
        if k != "ok" or get(s.mon, "bad"):
            r.ob("kept", "%d patterns" % len(pats), False, "kept|accepted", "%s: the group %s is compiled although one of its matchers was rejected" % (fn.loc(), show(pats)))
            continue
        vn = vname(r.p, g.all, x[2])
        pre = g.several(x[3][0])
        got, msg = [], None
        if pre is None:
            msg = "cannot be told what its first parts are"
        elif len(x[3]) == 1:
            got = pre
        else:
            suf = x[3][1]
            if suf[0] != "arr" or len(suf[1]) != len(pre):
                msg = "the first parts do not correspond to the lists of what follows them"
            else:
                for a, b in zip(pre, suf[1]):
                    for y in b[1] if b[0] == "arr" else (None,):
                        z = g.parts(y) if y is not None else None
                        got.append(None if a is None or z is None else a + z)
        if msg is None and sorted(map(key, got)) != sorted(map(key, want)):
            lost = [i for i, w in enumerate(want) if w not in got]
            msg = "pattern %d is not looked for as it is written" % (lost[0] + 1) if lost else "a pattern is looked for more often than it occurs"
        r.ob("kept", "%d patterns, %s" % (len(pats), vn), msg is None, "kept|" + str(msg)[:60], "%s: of the group %s, compiled to %s: %s" % (fn.loc(), show(pats), vn, msg))
        c = g.configs(x, set())
        r.ob("options", vn, c <= {g.e.deref_all(s, cfg)}, "options", "%s: a matcher of the group %s is made with other options" % (fn.loc(), show(pats)))
    return n


def formats(r):
    """Formats of numbers, of each kind."""
    nf, cs = adt(r, "NumberFormat", "filecheck"), adt(r, "CasingStyle", "filecheck")
    names = [v["n"] for v in r.p.adts[nf]["v"]]
    out = [NONE]
    for n in names:
        fs = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[nf]["v"][names.index(n)]["f"]]
        vals = {"precision": [("int", 0), ("int", 8)], "require_prefix": [FALSE, TRUE], "casing": [("adt", cs, i, ()) for i in range(len(r.p.adts[cs]["v"]))]}
        for x in itertools.product(*[vals[f] for f in fs]):
            out.append(some(("adt", nf, names.index(n), x)))
    return out


def firsts(r, g):
    """First parts which differ from each other, each with what it is (two that are the same have the same)."""
    A, B = S("src", "lit", 0), S("src", "lit", 1)
    pre = lambda n, x: ("adt", g.pre, vidx(r, g.pre, n), (x,))  # noqa: E731
    text = lambda t: g.sp(g.cow(t))  # noqa: E731
    out = [("text A", pre("Literal", text(A))), ("text A", pre("Substring", text(A))), ("text B", pre("Literal", text(B)))]
    ty = adt(r, "ValueType", "filecheck::expr")
    string = ("adt", ty, vidx(r, ty, "String"), ())
    number = lambda f: ("adt", ty, vidx(r, ty, "Number"), (f,))  # noqa: E731
    fms = formats(r)
    few = [fms[0], fms[1], fms[-1], fms[-2]]
    x, y, gx = g.name("User", "x"), g.name("User", "y"), g.name("Global", "x")
    cap = lambda k, n, t: ("adt", g.cap, vidx(r, g.cap, k), (g.struct(g.tv, name=n, ty=t),))  # noqa: E731
    caps = [("none", ())] + [("%s %s string" % (k, w), (cap(k, n, string),)) for k in ("Implicit", "Explicit") for w, n in (("x", x), ("y", y), ("$x", gx))]
    caps += [("%s x number %d" % (k, i), (cap(k, x, number(f)),)) for k in ("Implicit", "Explicit") for i, f in enumerate(fms if k == "Explicit" else few)]
    caps += [("x, y", (cap("Explicit", x, string), cap("Explicit", y, string))), ("y, x", (cap("Explicit", y, string), cap("Explicit", x, string)))]
    for w, c in caps:
        for t, n in ((A, "A"), (B, "B")) if w in ("none", "Explicit x string") else ((A, "A"),):
            out.append(("expression %s capturing %s" % (n, w), pre("Regex", g.struct(g.rp, pattern=text(t), captures=("arr", c)))))
    rule_ = lambda n, **kw: pre("Match", g.cow(g.struct(g.match, vidx(r, g.match, n), **kw)))  # noqa: E731
    for w, n in (("x", x), ("y", y), ("$x", gx)):
        out.append(("value of " + w, rule_("Substitution", name=n, pattern=NONE)))
    ex, bo = adt(r, "Expr", "filecheck::expr"), adt(r, "BinaryOp", "filecheck::expr")
    num = lambda k: ("adt", ex, vidx(r, ex, "Num"), (g.struct(g.m.num, format=NONE, value=("int", k)),))  # noqa: E731
    ops = [v["n"] for v in r.p.adts[bo]["v"]]
    bi = lambda o, a, b: ("adt", ex, vidx(r, ex, "Binary"), tuple({"op": ("adt", bo, ops.index(o), ()), "lhs": a, "rhs": b}.get(f["n"] if isinstance(f, dict) else f, S("where")) for f in r.p.adts[ex]["v"][vidx(r, ex, "Binary")]["f"]))  # noqa: E731
    v = g.var
    exprs = [("x", v(x)), ("y", v(y)), ("$x", v(gx)), ("1", num(1)), ("2", num(2)), ("x+1", bi("Add", v(x), num(1))), ("x-1", bi("Sub", v(x), num(1))), ("1+x", bi("Add", num(1), v(x))), ("x+2", bi("Add", v(x), num(2))), ("x+x", bi("Add", v(x), v(x)))]
    eq = ("adt", adt(r, "Constraint", "filecheck::ast"), 0, ())
    for i, f in enumerate(fms):
        for w, e in exprs[:1] if f not in few[:2] else exprs:
            for c, k in (("", NONE), ("x:", some(x))) if w != "x" else (("", NONE), ("x:", some(x)), ("y:", some(y))):
                out.append(("value %sformat %d of %s" % (c, i, w), rule_("Numeric", format=f, capture=k, constraint=eq, expr=some(e))))
    return out


def ordered(r, g):
    """First parts are taken to be the same only if they are, and are ordered consistently."""
    xs = firsts(r, g)
    n = r.p.impl_method.get(("core::cmp::Ord::cmp", g.pre))
    r.need(n in r.p.fns, "how first parts are ordered")
    at = r.p.fns[n].loc()
    m = [[g.m.order(a, b) for _, b in xs] for _, a in xs]
    for i, (a, _) in enumerate(xs):
        for j, (b, _) in enumerate(xs):
            o = m[i][j]
            good = o is not None and (o == 0) == (a == b)
            r.ob("same", "first parts", good, "same|%s|%s" % (a.split(" ")[0], b.split(" ")[0]), "%s: the first parts of patterns '%s' and '%s' are %s" % (at, a, b, "not ordered" if o is None else "taken for the same" if o == 0 else "not recognised as the same"))
            if good:
                r.ob("ordered", "first parts", m[j][i] == -o, "ordered|" + a.split(" ")[0], "%s: the order of '%s' and '%s' depends on which is asked" % (at, a, b))
    k = len(xs)
    if all(o is not None for q in m for o in q):
        for i in range(k):
            le = [j for j in range(k) if m[i][j] <= 0]
            bad = [(j, h) for j in le for h in range(k) if m[j][h] <= 0 and m[i][h] > 0]
            r.ob("ordered", "three first parts", not bad, "ordered|three|" + xs[i][0].split(" ")[0], "%s: the order of %s is not consistent" % (at, " and ".join("'%s'" % xs[h][0] for h in ((i,) + bad[0] if bad else ()))))
    r.floor("same", 2000)
    r.floor("ordered", 2000)


def alone(r, g, p):
    """The pattern of a label, or one marked LITERAL, is compiled to a matcher of all of it."""
    for name, ok_, args in (("compile_static", ("lit", "re", "ret", "num"), (S("where"),)), ("compile_literal", ("lit",), ())):
        if name == "compile_literal" and p[0][0] != "lit" or name == "compile_literal" and len(p) != 1:
            continue
        st, cfg, _ = g.context({})
        fn = g.fn(r"filecheck::pattern::Pattern::%s$" % name)
        g.e, outs = analyse(r, fn, g.m, list(args) + [g.one(p), cfg], st.copy())
        valid = all(k in ok_ for k, _ in p)
        g.s = State(mon=())
        want = g.parts(g.one(p))
        for s, v in outs:
            g.s = s
            v = g.m.freeze(g.e, s, v)
            k, x = result_of(g.e, s, v)
            if k == "err":
                r.ob("alone", name, get(s.mon, "bad") or not valid, "alone|rejected|" + name, "%s: the pattern %s is rejected although it is valid" % (fn.loc(), show([p])))
                continue
            r.ob("alone", name, k == "ok" and valid and g.parts(x) == want and not get(s.mon, "bad"), "alone|" + name, "%s: the pattern %s is %s" % (fn.loc(), show([p]), "accepted although it has variables" if not valid else "not compiled to a matcher of all of it"))
            r.ob("options", name, g.configs(x, set()) <= {g.e.deref_all(s, cfg)}, "options|" + name, "%s: a matcher of %s is made with other options" % (fn.loc(), show([p])))


ONES = tuple([(k, 0)] for k in KINDS) + ([("ret", 0)], [], [("lit", 1)], [("expr", 1)], [("cap", 1)])
TWOS = tuple([(a, 0), (b, 1)] for a in KINDS for b in KINDS)
MORE = ([("lit", 0), ("sub", 1), ("lit", 2)], [("lit", 0), ("re", 1), ("sub", 2)], [("sub", 0), ("lit", 1), ("re", 2)], [("cap", 0), ("lit", 1), ("expr", 2), ("lit", 3)], [("ret", 0), ("sub", 1)])
SOME = ([("lit", 0)], [("lit", 1)], [("lit", 0), ("sub", 1)], [("re", 0)], [("re", 0), ("expr", 1)], [("cap", 0), ("sub", 1)], [("ncap", 0)], [("sub", 0), ("lit", 1)], [("sub", 0)], [("expr", 0), ("lit", 1)])


@rule("F15")
def f15(r):
    g = GroupRun(r)
    ordered(r, g)
    for p in ONES + TWOS + MORE:
        kept(r, g, [p])
        if p:
            alone(r, g, p)
    r.floor("kept", 150)
    r.floor("alone", 90)
    most = ONES + tuple([(a, 0), (b, 1)] for a in KINDS for b in ("lit", "sub")) + MORE
    for p in itertools.product(most, repeat=2):
        kept(r, g, p)
    for p in itertools.product(SOME, repeat=3):
        kept(r, g, p)
    for a, b in itertools.combinations(SOME, 2):    # ones that share a first part after ones that do not
        for n in (4,) if r.tier == "quick" else (4, 5):
            for w in itertools.product((a, b), repeat=n):
                if len(set(map(id, w))) == 2:
                    kept(r, g, w)
    r.floor("kept", 4000)
