"""F12: what an expression evaluates to. F17: how numbers are written, matched and read back."""
import itertools
import re
from kit import *
from rules import rule
from absint import INT_BITS
from strs import text, text_call, parts_of
from props.fc_window import S
from props.fc_env import Env

COW = "alloc::borrow::Cow"
EITHER = "either::Either"
LIMIT = 1 << 127
ARITH = re.compile(r"(?:^|::)(?:i128|<impl i128>|num::i128)::(checked|overflowing|wrapping|saturating)_(add|sub|mul|div|div_euclid)$")
OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Min": "min", "Max": "max", "Eq": "eq"}


def exact(op, x, y):
    """The value of an operation on integers, None when undefined."""
    if op == "div":
        if y == 0:
            return None
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    if op not in ("add", "sub", "mul", "min", "max", "eq"):
        return None
    return {"add": x + y, "sub": x - y, "mul": x * y, "min": min(x, y), "max": max(x, y), "eq": int(x == y)}[op]


def term(op, a, b):
    if a[0] == "int" and b[0] == "int":
        r = exact(op, a[1], b[1])
        return S("undefined") if r is None else ("int", r)
    return S("op", op, a, b)


class Numbers(Env):
    watch = (r"evaluate_expr",)
    force = Env.force + (r"filecheck::expr::", r"filecheck::ast::", r"smart::searcher::", r"fmt::Display>::fmt")
    stop = (r"^log::", r"diagnostics::", r"SourceSpan::", r"errors::", r"NumberFormat::describe", r"core::hint::must_use")
    recurse = r"evaluate_expr|filecheck::expr::"
    recursion = 8
    casts = True
    env = None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if last == "must_use" and c.args:
            return [(st, c.args[0])]
        v = self.context(e, st, c, nm, last)
        if v is None:
            v = self.arith(e, st, c, nm, last)
        if v is None and re.search(r"SourceSpan|Spanned|ByteIndex|source_id|from_range_unchecked|LabeledSpan", nm) and last not in ("deref", "clone"):
            v = [(st, S("where"))] if last != "to_usize" else None
        if v is None:
            v = Env.before_call(self, e, st, c)
        if v is None:
            v = text_call(e, st, c)
        return v

    def context(self, e, st, c, nm, last):
        if last in ("as_str", "to_string", "deref", "as_ref", "borrow") and c.args:
            x = e.deref_all(st, c.args[0])
            for _ in range(3):
                if x[0] == "adt" and x[1] == self.span:
                    x = e.deref_all(st, x[3][self.it])
            if x[0] == "sym" and x[1][0] == "called" and (last in ("as_str", "to_string") or "Symbol" in nm):
                return [(st, ("str", x[1][1]))]
        if last == "env" and "Context" in nm:
            return [(st, S("env"))]
        if last == "get" and "LexicalScope" in nm + str(c.trait):
            k = self.key_of(e, st, c.args[1])
            x = (self.env or {}).get(k)
            if x is None:
                return [(st, NONE)]
            s = st.copy()
            root = ("L", ("keep", ("env", k)), 0)
            s.env[root] = x
            return [(s, some(("ref", root, ())))]
        if last == "pseudo_line_for_offset":
            return [(st, S("line", e.norm(st, e.deref_all(st, c.args[1]))))]
        if last == "source_file" and "Context" in nm:
            return [(st, some(S("file")))]
        if last in ("to_usize",) and "ByteIndex" in nm:
            return [(st, e.norm(st, c.args[0]))]
        if last == "start" and "SourceSpan" in nm:
            return [(st, S("start of", e.norm(st, e.deref_all(st, c.args[0]))))]
        if last == "span" and c.args:
            x = e.deref_all(st, c.args[0])
            if x[0] == "adt" and x[1] == self.span:
                return [(st, x[3][fidx_(self, e, "span")])]
        if last in ("try_into", "into", "try_from", "from") and c.args:
            to, frm = c.dt, c.callee.get("a", ())
            if last.startswith("try"):
                to = to[3][0] if to and to[0] == "adt" and to[1].startswith("core::result") and to[3] else None
            frm = [t for t in frm if isinstance(t, tuple) and t[0] in ("int", "bool") and t != to]
            x = e.norm(st, e.deref_all(st, c.args[0]))
            b = INT_BITS.get(to[1]) if to and to[0] in ("int", "bool") else None
            if b and len(frm) <= 1:
                if x[0] == "int":
                    fits = -(1 << b[0] - 1) <= x[1] < 1 << b[0] - 1 if b[1] else 0 <= x[1] < 1 << b[0]
                    return [(st, x if not last.startswith("try") else ok(x) if fits else err(S("too large")))]
                f = INT_BITS.get(frm[0][1]) if frm else b
                if x[0] == "sym" and (f == b or b[0] > f[0] and (b[1] or not f[1]) or x[1][0] == "line"):
                    return [(st, ok(x) if last.startswith("try") else x)]
                if x[0] in ("not", "isvar", "eqc"):
                    return [(st, x)]
        return None

    # arithmetic is exact or noted as not; whether an operation on unknown values overflows is a case of its own
    def arith(self, e, st, c, nm, last):
        if re.search(r"(^|::)cmp::(min|max)$|Ord::(min|max)$|Ord>::(min|max)$", nm) and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            return [(st, term(last, a, b))] if a[0] == b[0] == "int" or "evaluate" in c.fr.fn.name or a[0] == "sym" else None
        m = ARITH.search(nm)
        if m:
            how, op = m.groups()
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            t = term(op, a, b)
            if t == S("undefined") or t[0] == "int":
                v = t[1] if t[0] == "int" else None
                cases = [(st, v is not None and -LIMIT <= v < LIMIT)]
                wrapped = ("int", (v + LIMIT) % (2 * LIMIT) - LIMIT) if v is not None else t
            else:
                cases, wrapped = [], t
                for fits in (True, False):
                    s = st.copy()
                    s.mon = s.mon + ((t, fits),)
                    cases.append((s, fits))
            out = []
            for s, fits in cases:
                if how == "checked":
                    out.append((s, some(t) if fits else NONE))
                elif how == "overflowing":
                    out.append((s, ("tup", (t if fits else S("wrapped", wrapped), FALSE if fits else TRUE))))
                else:
                    out.append((s, t if fits else S(how, wrapped)))
            return out
        return None


def fidx_(m, e, f):
    return m.spanf.index(f)


class Make:
    """Values of the types of the code."""

    def __init__(self, r, mon):
        self.r, self.m, self.p = r, mon, r.p
        self.fmt, self.cas = adt(r, "NumberFormat", "filecheck"), adt(r, "CasingStyle", "filecheck")
        self.vt = adt(r, "ValueType", "filecheck")
        self.n = 0
        self.boxes = {}

    def names(self, a, i=0):
        return [f["n"] if isinstance(f, dict) else f for f in self.p.adts[a]["v"][i]["f"]]

    def mk(self, a, variant=None, **kw):
        i = vidx(self.r, a, variant) if variant else 0
        return ("adt", a, i, tuple(kw[f if not f.isdigit() else "_" + f] if (f if not f.isdigit() else "_" + f) in kw else S("where", f) for f in self.names(a, i)))

    def read(self, e, st, v, a):
        """(variant name, {field: value})"""
        v = e.deref_all(st, v)
        if v[0] != "adt" or v[1] != a:
            return "?", {}
        return vname(self.p, a, v[2]), {f: e.norm(st, e.deref_all(st, x)) for f, x in zip(self.names(a, v[2]), v[3])}

    def format(self, f):
        """f: None or (kind, precision, prefix, casing)"""
        if f is None:
            return NONE
        return some(self.bare(f))

    def bare(self, f):
        kw = dict(precision=("int", f[1]))
        if f[0] == "Hex":
            kw.update(require_prefix=TRUE if f[2] else FALSE, casing=("adt", self.cas, vidx(self.r, self.cas, f[3]), ()))
        return self.mk(self.fmt, f[0], **kw)

    def format_of(self, e, st, v):
        k, x = option_of(e, st, e.deref_all(st, v))
        if k == "none":
            return None
        return self.bare_of(e, st, x) if k == "some" else "?"

    def bare_of(self, e, st, x):
        k, f = self.read(e, st, x, self.fmt)
        p = f.get("precision", TOP)
        if p[0] != "int":
            return "?"
        if k != "Hex":
            return (k, p[1], None, None)
        c, q = f["casing"], f["require_prefix"]
        if c[0] != "adt" or q not in (TRUE, FALSE):
            return "?"
        return (k, p[1], q == TRUE, vname(self.p, self.cas, c[2]))

    def box(self, v):
        self.n += 1
        root = ("L", ("keep", self.n), 0)
        self.boxes[root] = v
        return ("ref", root, ())

    def number(self, value, f=None):
        return self.mk(self.m.num, value=value, format=self.format(f))

    def num(self, value, f=None):
        return self.mk(self.m.expr, "Num", _0=self.number(value, f))

    def name(self, kind, n):
        sp = tuple(n if f == "spanned" else S("where", n) for f in self.m.spanf)
        return ("adt", self.m.vn, vidx(self.r, self.m.vn, kind), (("adt", self.m.span, 0, sp),))

    def var(self, kind, n):
        return self.mk(self.m.expr, "Var", _0=self.name(kind, n))

    def two(self, op, a, b):
        return self.mk(self.m.expr, "Binary", op=("adt", self.m.bop, vidx(self.r, self.m.bop, op), ()), lhs=self.box(a), rhs=self.box(b))

    def state(self):
        st = State(mon=())
        st.env.update(self.boxes)
        return st

    def tree(self, e, st, x):
        """An expression of the code as nested tuples."""
        k, f = self.read(e, st, x, self.m.expr)
        if k == "Num":
            n = self.read(e, st, f["0"], self.m.num)[1]
            return ("num", n.get("value"), self.format_of(e, st, n.get("format", TOP)))
        if k == "Var":
            return ("var", self.m.key_of(e, st, f["0"]))
        if k == "Binary":
            return (vname(self.p, self.m.bop, f["op"][2]) if f["op"][0] == "adt" else "?", self.tree(e, st, f["lhs"]), self.tree(e, st, f["rhs"]))
        return "?"


FORMATS = [None] + [(k, p, None, None) for k in ("Unsigned", "Signed") for p in (0, 1, 2)] + \
    [("Hex", p, q, c) for p in (0, 1, 2) for q in (False, True) for c in ("Any", "Lower", "Upper")]
DEFAULT = ("Unsigned", 0, None, None)


def inferred(a, b):
    """The documented format of an expression of operands with formats a and b: 'conflict' if there is none."""
    if a is None or b is None:
        return a or b
    if a[0] != b[0] or a[2] != b[2] or a[1] != b[1] and a[1] and b[1]:
        return "conflict"
    c = a[3]
    if a[0] == "Hex" and a[3] != b[3]:
        if "Any" not in (a[3], b[3]):
            return "conflict"
        c = b[3] if a[3] == "Any" else a[3]
    return (a[0], max(a[1], b[1]), a[2], c)


def outcome(mk, e, st, v, either=True):
    """'err', ('num', value, format), ('text', value) or '?'"""
    k, x = result_of(e, st, v)
    if k == "err":
        return "err"
    x = e.deref_all(st, x)
    if k != "ok" or x[0] != "adt" or x[1] != EITHER:
        return "?"
    y = e.deref_all(st, x[3][0])
    if x[2] == 0:
        _, f = mk.read(e, st, y, mk.m.num)
        return ("num", f.get("value"), mk.format_of(e, st, f.get("format", TOP))) if f else "?"
    if y[0] == "adt" and y[1] == COW:
        y = e.deref_all(st, y[3][0])
    return ("text", e.norm(st, y))


@rule("F12")
def f12(r):
    m = Numbers(r.p).setup(r)
    mk = Make(r, m)
    fn = r.fn(r"(^|::)evaluate_expr$")
    at = fn.loc()

    ty = lambda t: NONE if t is None else some(mk.mk(mk.vt, "String") if t == "String" else mk.mk(mk.vt, "Number", _0=mk.format(t[0])))  # noqa: E731

    def ev(x, t=None, env=None):
        """{outcome: [what was assumed]}"""
        m.env = env or {}
        st = mk.state()
        root = ("L", ("keep", 0), 0)
        st.env[root] = x
        args = [S("where"), ("ref", root, ()), ty(t), S("ctx")]
        e, outs = analyse(r, fn, m, args, st)
        mk.boxes.clear()
        res = {}
        for s, v in outs:
            res.setdefault(outcome(mk, e, s, v), []).append(s.mon)
        if e.asserts and any("verflow" in str(a[0]) or "DivisionByZero" in str(a[0]) for a in e.asserts):
            res.setdefault("panic", []).append(())
        return res

    V = lambda i: S("value", i)  # noqa: E731
    shown = lambda got: " or ".join(sorted(str(x) if isinstance(x, str) else x[0] for x in got)) or "nothing"  # noqa: E731
    # a value and nothing else
    for f in FORMATS:
        r.ob("leaf", "literal %s" % (f,), set(ev(mk.num(V(1), f))) == {("num", V(1), f)}, "leaf|literal", "%s: a number does not evaluate to itself" % at)
    val = lambda *a, **kw: mk.mk(m.val, *a, **kw)  # noqa: E731
    TYPES = (None, "String", (None,), (("Hex", 2, True, "Lower"),))
    for kind, t in itertools.product(("User", "Global"), TYPES):
        x = mk.var(kind, S("name", "x"))
        key = (kind, S("name", "x"))
        for what, v, want in (("nothing", None, "err"), ("no value", val("Undef"), "err"), ("a text", val("Str", _0=("adt", COW, 0, (S("text", "x"),))), ("text", S("text", "x"))),
                              ("a number", val("Num", _0=mk.num(V(1), FORMATS[5])), ("num", V(1), FORMATS[5]))):
            r.ob("leaf", "%s %s %s" % (kind, what, t), set(ev(x, t, env={key: v} if v else {})) == {want}, "leaf|%s" % what, "%s: a variable that stands for %s does not evaluate to that" % (at, what))
    sym, symi = adt(r, "Symbol", "litcheck_core::symbol"), adt(r, "SymbolIndex", "litcheck_core::symbol")
    lines = []
    for i in range(40):
        where = S("place of", i)
        sp = tuple(("adt", sym, 0, (("adt", symi, 0, (("int", i),)),)) if f == "spanned" else where for f in m.spanf)
        got = ev(mk.mk(m.expr, "Var", _0=("adt", m.vn, vidx(r, m.vn, "Pseudo"), (("adt", m.span, 0, sp),))))
        if set(got) == {"err"}:
            continue
        lines.append(i)
        r.ob("leaf", "the line", set(got) == {("num", S("line", S("start of", where)), None)}, "leaf|line", "%s: @LINE does not evaluate to the number of the line it is on (%s)" % (at, shown(got)))
    r.ob("leaf", "the pseudo variables", len(lines) == 1, "leaf|pseudo", "%s: there is not just one pseudo variable" % at)

    # operations on unknown values
    def ref(x, env):
        """(value or 'err', the operations that must fit in 128 bits, format)"""
        if x[0] == "num":
            return x[1], (), x[2]
        if x[0] == "var":
            return ref(env[x[1]], env)
        (a, na, fa), (b, nb, fb) = ref(x[1], env), ref(x[2], env)
        need = na + nb
        if a == "err" or b == "err":
            return "err", (), None
        op = OPS[x[0]]
        t = term(op, a, b)
        if op in ("add", "sub", "mul", "div"):
            need += (t,)
        return t, need, "none" if fa is None and fb is None else "some"

    def build(x):
        if x[0] == "num":
            return mk.num(x[1], x[2])
        if x[0] == "var":
            return mk.var(*x[1])
        return mk.two(x[0], build(x[1]), build(x[2]))

    X = ("User", S("name", "x"))
    a, b, c = (("num", V(i), None) for i in (1, 2, 3))
    xv = ("var", X)
    ar = ("Add", "Sub", "Mul", "Div")
    trees = [(op, p, q) for op in ar for p, q in ((a, b), (xv, a), (a, xv), (xv, xv))]
    trees += [(o1, (o2, a, b), c) for o1 in ar for o2 in ar] + [(o1, a, (o2, b, c)) for o1 in ar for o2 in ar]
    trees += [(o1, (o2, a, xv), (o3, b, c)) for o1, o2, o3 in itertools.product(ar, repeat=3)]
    envs = [{X: ("num", V(9), None)}, {X: ("Sub", ("num", V(8), None), ("num", V(9), None))}]
    for t in trees:
        for env in envs if "var" in repr(t) else envs[:1]:
            want, need, _ = ref(t, env)
            got = ev(build(t), env={k: val("Num", _0=build(v)) for k, v in env.items()})
            good = bool(got)
            seen_ok = False
            for o, paths in got.items():
                for mon in paths:
                    # what was assumed to fit, or not to, on this path
                    bad = [x for x, fits in mon if not fits]
                    if o == "err":
                        good &= bool(bad) and bad[-1] in need
                    else:
                        good &= o[0] == "num" and o[1] == want and not bad and {x for x, f in mon} >= set(need)
                        seen_ok = True
            r.ob("value", "%s" % (t,), good and seen_ok, "value|%s" % t[0], "%s: an expression evaluates to something else than its value, or a value that does not fit in 128 bits is not an error (outcomes: %s)" % (at, shown(got)))
    # smallest, largest, and equal; the ends of the range
    ks = (-LIMIT, -LIMIT + 1, -(1 << 64) - 1, -7, -1, 0, 1, 2, 7, (1 << 32), (1 << 64) + 1, LIMIT - 1)
    for op in OPS:
        for x, y in itertools.product(ks, ks):
            w = exact(OPS[op], x, y)
            want = "err" if w is None or not -LIMIT <= w < LIMIT else ("num", ("int", w), None)
            got = set(ev(mk.two(op, mk.num(("int", x)), mk.num(("int", y)))))
            r.ob("extreme", "%s %d %d" % (op, x, y), got == {want}, "extreme|%s" % op, "%s: %s of %d and %d evaluates to %s" % (at, op.lower(), x, y, " or ".join(str(g[1][1] if g[0] == "num" and g[1][0] == "int" else g) for g in got)))
    # texts are not numbers
    tv = ("var", ("User", S("name", "t")))
    te = {tv[1]: val("Str", _0=("adt", COW, 0, (S("text", "t"),))), X: val("Undef")}
    for op in OPS:
        for p, q in ((a, tv), (tv, a), (tv, tv), (a, xv), (xv, a), (a, ("Add", b, tv)), (("Sub", tv, b), a)):
            got = set().union(*(ev(build((op, p, q)), t, te) for t in TYPES))
            r.ob("text", "%s" % ((op, p[0], q[0]),), got == {"err"}, "text|%s" % op, "%s: an operation on a text or on a variable without a value is not an error (%s)" % (at, shown(got)))
    # formats
    few = [f for f in FORMATS if f is None or f[1] < 2 and (f[3] in (None, "Any", "Upper"))]
    for f, g in itertools.product(few, few):
        for op in ("Add", "Min", "Eq") if r.tier != "quick" else ("Sub", "Max"):
            want = inferred(f, g)
            for t in (None, "String", (None,), (("Hex", 2, True, "Lower"),), (("Signed", 0, None, None),)):
                got = ev(mk.two(op, mk.num(V(1), f), mk.num(V(2), g)), t)
                good = True
                given = isinstance(t, tuple) and t[0] is not None
                for o in got:
                    if o == "err":
                        good &= want == "conflict" and not given or all(any(not x[1] for x in mon) for mon in got[o])
                    else:
                        good &= o[0] == "num" and (given or want != "conflict" and o[2] == want)
                good &= want == "conflict" and not given or any(o != "err" for o in got)
                r.ob("format", "%s %s %s" % (f, g, t), good, "format", "%s: the value of an expression has not the format its operands have in common, or a conflict between them is not an error unless there is an explicit format" % at)
    tiny = (None, DEFAULT, ("Unsigned", 1, None, None), ("Signed", 0, None, None), ("Hex", 0, False, "Any"), ("Hex", 0, True, "Upper"))
    for f, g, h in itertools.product(tiny, repeat=3):
        fa, fb, fc = mk.num(V(1), f), mk.num(V(2), g), mk.num(V(3), h)
        for left in (True, False):
            inner = inferred(f, g) if left else inferred(g, h)
            want = "conflict" if inner == "conflict" else inferred(inner, h) if left else inferred(f, inner)
            for t in (None, (None,), (("Hex", 2, True, "Lower"),)):
                got = ev(mk.two("Max", mk.two("Max", fa, fb), fc) if left else mk.two("Max", fa, mk.two("Max", fb, fc)), t)
                given = t is not None and t[0] is not None
                good = {o if o == "err" else o[0] for o in got} == {"num"} and (given or {o[2] for o in got} == {want}) if given or want != "conflict" else set(got) == {"err"}
                r.ob("format", "%s %s %s %s %s" % (f, g, h, left, t), good, "format", "%s: the value of an expression has not the format its operands have in common, or a conflict between them is not an error unless there is an explicit format" % at)
    inf = r.fn(r"Number::infer_expression_format$")
    for f, g in itertools.product(FORMATS, FORMATS):
        st = mk.state()
        ra, rb = ("L", ("keep", "a"), 0), ("L", ("keep", "b"), 0)
        st.env[ra], st.env[rb] = mk.number(V(1), f), mk.number(V(2), g)
        e, outs = analyse(r, inf, m, [("ref", ra, ()), ("ref", rb, ())], st)
        got = {mk.format_of(e, s, v) for s, v in outs}
        want = inferred(f, g)
        want = {None} if want == "conflict" else {DEFAULT} if want is None else {want}
        r.ob("infer", "%s %s" % (f, g), got == want, "infer|%s %s" % (f and f[0], g and g[0]), "%s: the format of an expression of operands with formats %s and %s is %s" % (inf.loc(), f, g, got))

    # operands joined from left to right
    fold = r.fn(r"BinaryOpAndOperand::fold$")
    boa = adt(r, "BinaryOpAndOperand", "filecheck")
    for n in range(5):
        for ops in itertools.product(("Add", "Sub"), repeat=n):
            mk.n = 0
            mk.boxes.clear()
            rest = tuple(mk.mk(boa, None, op=("adt", m.bop, vidx(r, m.bop, o), ()), operand=mk.box(mk.num(V(i + 1)))) for i, o in enumerate(ops))
            st = mk.state()
            e, outs = analyse(r, fold, m, [mk.num(V(0)), ("arr", rest)], st)
            want = ("num", V(0), None)
            for i, o in enumerate(ops):
                want = (o, want, ("num", V(i + 1), None))
            got = {mk.tree(e, s, v) for s, v in outs}
            r.ob("order", "%s" % (ops,), got == {want}, "order", "%s: the operators of an expression are not applied from left to right" % fold.loc())
    # calls by name
    call = r.fn(r"Expr::from_call$")
    for name in ("add", "sub", "mul", "div", "min", "max", "eq", "mod", "", "ADD", "addd", "minimum"):
        for n in range(4):
            mk.n = 0
            mk.boxes.clear()
            st = mk.state()
            sp = tuple(S("called", name) if f == "spanned" else S("where") for f in m.spanf)
            e, outs = analyse(r, call, m, [S("where"), ("adt", m.span, 0, sp), ("arr", tuple(mk.num(V(i)) for i in range(n)))], st)
            got = set()
            for s, v in outs:
                k, x = result_of(e, s, v)
                got.add(mk.tree(e, s, x) if k == "ok" else k)
            want = (name.capitalize(), ("num", V(0), None), ("num", V(1), None)) if n == 2 and name in ("add", "sub", "mul", "div", "min", "max") else "err"
            r.ob("call", "%s of %d" % (name, n), got == {want}, "call|%s" % name, "%s: a call of '%s' with %d arguments is %s" % (call.loc(), name, n, "not an error" if want == "err" else "not that operation on its arguments in their order"))
    r.floor("value", 40)
    r.floor("extreme", 1000)
    r.floor("infer", 600)
    r.floor("call", 40)


# ---- F17: numbers as texts

VALUE = S("value")
PROBES = sorted({0, 1, 5, 9, 10, 11, 12, 15, 16, 99, 100, 171, 255, 256, 999, 1000, 43981, 1 << 31, 1 << 32, (1 << 32) + 171, 1 << 63, 1 << 64, (1 << 64) + 43981, 10 ** 18, 10 ** 19,
                 10 ** 20, 10 ** 38, LIMIT - 1, LIMIT - 2} | {10 ** k - 1 for k in range(1, 39, 5)} | {16 ** k + 10 for k in range(1, 32, 5)})
PROBES = sorted(set(PROBES) | {-x for x in PROBES} | {-LIMIT})


def value_of(t, v):
    """The value of a term when the number is v; None when that cannot be said."""
    if t == VALUE:
        return v
    if t[0] == "int":
        return t[1]
    if t[0] == "not":
        x = value_of(t[1], v)
        return None if x is None else int(not x)
    if t[0] != "sym" or t[2] or not isinstance(t[1], tuple):
        return None
    k = t[1]
    if k[0] == "app" and len(k) == 4 and k[1] in ("Lt", "eq", "Add", "Sub", "Mul"):
        a, b = value_of(k[2], v), value_of(k[3], v)
        if a is None or b is None:
            return None
        return {"Lt": int(a < b), "eq": int(a == b), "Add": a + b, "Sub": a - b, "Mul": a * b}[k[1]]
    if k[0] == "cast":
        x = value_of(k[3], v)
        b, s = INT_BITS[k[2]]
        if x is None:
            return None
        x %= 1 << b
        return x - (1 << b) if s and x >> (b - 1) else x
    if k[0] == "abs":
        x = value_of(k[1], v)
        return None if x is None else abs(x)
    if k[0] == "app" and k[1] == "Neg":
        x = value_of(k[2], v)
        return None if x is None else -x
    return None


def render(p, v, frm="i128"):
    """What a part of a formatted text is when the number is v."""
    if isinstance(p, str):
        return p
    if p[0] == "sym" and isinstance(p[1], tuple) and p[1][0] == "spec":
        how, flags, width, prec, x = p[1][1:6]
    else:
        how, flags, width, prec, x = "new_display", 0, ("int", 0), ("int", 0), p
    x = value_of(x, v)
    w = value_of(width, v)
    if x is None or w is None:
        return None
    if how == "new_debug":
        how = "new_lower_hex" if flags >> 25 & 1 else "new_upper_hex" if flags >> 26 & 1 else "new_display"
    pre = ""
    if how in ("new_lower_hex", "new_upper_hex"):
        y = "%x" % (x % (1 << 128) if x < 0 else x)
        y = y.upper() if how == "new_upper_hex" else y
        pre = "0x" if flags >> 23 & 1 else ""
    elif how == "new_display":
        y = str(abs(x))
        pre = "-" if x < 0 else "+" if flags >> 21 & 1 else ""
    else:
        return None
    if not flags >> 27 & 1:
        return (pre + y).zfill(0).ljust(w) if False else (pre + y) + " " * max(0, w - len(pre + y))
    if flags >> 24 & 1:
        return pre + y.rjust(w - len(pre), "0")
    return (pre + y).rjust(w)


def written(f, v):
    """The documented text of a number; None when the format cannot express it."""
    k, p, q, c = f or DEFAULT
    if k == "Signed":
        return ("-" if v < 0 else "") + str(abs(v)).rjust(p, "0")
    if v < 0:
        return None
    if k == "Unsigned":
        return str(v).rjust(p, "0")
    x = "%x" % v
    return ("0x" if q else "") + (x.upper() if c == "Upper" else x).rjust(p, "0")


_A = lambda f: lambda ch: ch < "\x80" and f(ch)  # noqa: E731
CHARS = {"is_ascii_digit": _A(str.isdigit), "is_ascii_uppercase": _A(str.isupper), "is_ascii_lowercase": _A(str.islower), "is_ascii_alphabetic": _A(str.isalpha),
         "is_ascii_alphanumeric": _A(str.isalnum), "is_ascii_hexdigit": lambda ch: ch in "0123456789abcdefABCDEF", "is_lowercase": str.islower, "is_uppercase": str.isupper,
         "is_numeric": str.isnumeric, "is_alphabetic": str.isalpha, "is_ascii": lambda ch: ch < "\x80", "is_whitespace": str.isspace}


class Texts(Numbers):
    """Numbers being written: the sign of the number is a case of its own. Texts being read: see Digits."""
    watch = (r"evaluate_expr",)
    fmt_specs = True

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if last in ("is_negative", "is_positive") and c.args and e.norm(st, e.deref_all(st, c.args[0])) == VALUE:
            out = []
            for neg in (True, False):
                s = st.copy()
                s.mon = s.mon + (("negative", neg),)
                out.append((s, TRUE if neg == (last == "is_negative") else FALSE))
            return out
        if last in ("unsigned_abs", "abs", "wrapping_abs") and c.args:
            return [(st, S("abs", e.norm(st, e.deref_all(st, c.args[0]))))]
        if last in CHARS and len(c.args) == 1:
            x = e.norm(st, e.deref_all(st, c.args[0]))
            if x[0] == "int":
                return [(st, TRUE if CHARS[last](chr(x[1])) else FALSE)]
        v = self.digits(e, st, c, nm, last)
        return v if v is not None else Numbers.before_call(self, e, st, c)

    CLASSES = {"dec": "0123456789", "low": "abcdef", "up": "ABCDEF", "other": "gz_ "}

    def chars_of(self, d):
        """The characters of a text: [set of characters one of which occurs], in no order."""
        out = [] if not d[1] else [d[1]]
        if d[2]:
            out += ["0", "x"]
        return out + ([self.CLASSES[k] for k in d[3]] if d[4] else [])

    def digits(self, e, st, c, nm, last):
        """Operations on S("digits", sign, prefix, kinds of characters that occur, length without sign and prefix)."""
        if not c.args:
            return None
        x = e.deref_all(st, c.args[0])
        if x[0] == "adt" and x[1] == self.span:
            if last == "into_parts":
                return [(st, ("tup", (S("where"), x[3][self.it])))]
            x = e.deref_all(st, x[3][self.it])
        if x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "chars" and not x[2] and last in ("all", "any"):
            return self.every(e, st, c, x[1][1], last)
        if not (x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] == "digits" and not x[2]):
            return None
        d = x[1]
        if last in ("chars", "bytes", "as_bytes"):
            return [(st, S("chars", d) if last != "as_bytes" else x)]
        if last in ("iter", "copied"):
            return [(st, S("chars", d))]
        if last in ("len", "count"):
            return [(st, ("int", len(d[1]) + (2 if d[2] else 0) + d[4]))]
        if last == "is_empty":
            return [(st, FALSE if d[1] or d[2] or d[4] else TRUE)]
        if last in ("trim", "trim_start", "trim_end", "clone", "to_string", "to_owned", "as_str", "deref", "as_ref", "as_bytes", "borrow", "into", "from"):
            return [(st, x)]
        if last in ("starts_with", "strip_prefix", "trim_start_matches"):
            pat = e.norm(st, e.deref_all(st, c.args[1]))
            pats = [pat] if pat[0] in ("str", "int") else list(pat[1]) if pat[0] == "arr" else None
            if pats is None or any(q[0] not in ("str", "int") for q in pats):
                return None
            pats = {q[1] if q[0] == "str" else chr(q[1]) for q in pats}
            hit = None
            if d[1] and d[1] in pats:
                hit = ("digits", "", d[2], d[3], d[4])
            elif not d[1] and d[2] and "0x" in pats:
                hit = ("digits", "", False, d[3], d[4])
            elif not d[1] and any(q not in ("+", "-", "0x", "0X") for q in pats):
                return None
            if last == "starts_with":
                return [(st, TRUE if hit else FALSE)]
            if last == "strip_prefix":
                return [(st, some(("sym", hit, ())) if hit else NONE)]
            return [(st, ("sym", hit, ()) if hit else x)]
        if last in ("parse", "from_str", "from_str_radix"):
            t = c.dt
            to = t[3][0] if t and t[0] == "adt" and t[1].startswith("core::result") and t[3] else None
            if not to or to[1] != "i128":
                return None
            radix = 10
            if last == "from_str_radix":
                q = e.norm(st, c.args[1])
                if q not in (("int", 10), ("int", 16)):
                    return None
                radix = q[1]
            if d[2] or not d[4] or not set(d[3]) <= ({"dec"} if radix == 10 else {"dec", "low", "up"}):
                return [(st, err(S("not a number")))]
            out = []
            for fits in (True, False):
                s = st.copy()
                s.mon = s.mon + (("fits", fits),)
                out.append((s, ok(S("read", radix, "-" if d[1] == "-" else "", d[3], d[4])) if fits else err(S("too large"))))
            return out
        return None

    def every(self, e, st, c, d, last):
        res = []
        for chars in self.chars_of(d):
            got = set()
            for ch in chars:
                o = e.call_value(c.fr, c.blk, c.line, c.args[1], [("int", ord(ch))], st)
                if not o:
                    return None
                for s, v in o:
                    t = e.truth(s, v)
                    if t is None:
                        return None
                    got.add(t)
            res.append(got)
        if last == "all":
            if all(g == {True} for g in res):
                return [(st, TRUE)]
            if any(g == {False} for g in res):
                return [(st, FALSE)]
        else:
            if all(g == {False} for g in res):
                return [(st, FALSE)]
            if any(g == {True} for g in res):
                return [(st, TRUE)]
        return [(st, TRUE), (st, FALSE)]


# languages of regular expressions: small automata

AT = {"AT_BEGINNING": "\x03", "AT_END": "\x04"}


def nfa(pattern):
    """(transitions, start, accepting, problem) of a regular expression; edges are (from, set of characters or None, to)."""
    try:
        from re import _parser as sre
    except ImportError:
        import sre_parse as sre
    edges, n, groups, trouble = [], [0], [], []
    new = lambda: n.__setitem__(0, n[0] + 1) or n[0]  # noqa: E731

    def chars(items):
        neg, s = False, set()
        for op, av in items:
            o = str(op)
            if o == "CATEGORY" and str(av) == "CATEGORY_SPACE":
                s |= set(" \t\n")
            elif o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                s.add(chr(av))
            elif o == "RANGE":
                s |= {chr(x) for x in range(av[0], av[1] + 1)}
            elif o == "CATEGORY" and str(av) == "CATEGORY_DIGIT":
                s |= set("0123456789") | {"٣"}
            else:
                trouble.append(o)
        return s, neg

    def seq(items, a):
        for op, av in items:
            o = str(op)
            if o == "LITERAL":
                b = new()
                edges.append((a, frozenset(chr(av)), False, b))
            elif o == "AT" and str(av) in AT:
                b = new()
                edges.append((a, frozenset(AT[str(av)]), False, b))
            elif o == "ANY":
                b = new()
                edges.append((a, frozenset("\n"), True, b))
            elif o == "IN":
                b = new()
                s, neg = chars(av)
                edges.append((a, frozenset(s), neg, b))
            elif o == "SUBPATTERN":
                g, add, rem, sub = av
                if g is not None:
                    groups.append(g)
                if add or rem:
                    trouble.append("flags")
                b = seq(sub, a)
            elif o == "BRANCH":
                b = new()
                for alt in av[1]:
                    edges.append((seq(alt, a), None, False, b))
            elif o == "MAX_REPEAT":
                lo, hi, sub = av
                for _ in range(lo):
                    a = seq(sub, a)
                if str(hi) == "MAXREPEAT":
                    h = new()
                    edges.append((a, None, False, h))
                    edges.append((seq(sub, h), None, False, h))
                    b = h
                else:
                    b = new()
                    edges.append((a, None, False, b))
                    for _ in range(hi - lo):
                        a = seq(sub, a)
                        edges.append((a, None, False, b))
            else:
                trouble.append(o)
                b = a
            a = b
        return a

    try:
        tree = sre.parse(pattern)
        end = seq(tree, 0)
    except Exception as ex:      # not a regular expression
        return None, None, [], [str(ex)]
    names = {v: k for k, v in tree.state.groupdict.items()}
    return edges, end, [names.get(g) for g in groups], trouble


def included(p, q, alpha=None):
    """A text that p matches and q does not, or None."""
    (e1, f1), (e2, f2) = p, q
    alpha = alpha or {"0", "5", "9", "a", "c", "f", "g", "A", "C", "F", "G", "x", "X", "-", "+", " ", ".", "٣"}

    def adj(es):
        d = {}
        for a, s, neg, b in es:
            d.setdefault(a, []).append((s, neg, b))
        return d
    d1, d2 = adj(e1), adj(e2)

    def close(d, s):
        s, w = set(s), list(s)
        while w:
            for x, _, b in d.get(w.pop(), ()):
                if x is None and b not in s:
                    s.add(b)
                    w.append(b)
        return frozenset(s)

    def step(d, s, ch):
        return close(d, {b for a in s for x, neg, b in d.get(a, ()) if x is not None and (ch in x) != neg})
    start = (close(d1, {0}), close(d2, {0}))
    seen, work = {start}, [(start, "")]
    while work:
        (s, t), w = work.pop(0)
        if f1 in s and f2 not in t:
            return w
        for ch in alpha:
            n = (step(d1, s, ch), step(d2, t, ch))
            if n[0] and n not in seen:
                seen.add(n)
                work.append((n, w + ch))
    return None


def language(f, most):
    """The documented texts of a format as a regular expression, with at most `most` digits when given."""
    k, p, q, c = f
    lo = max(1, p)
    cls = "[0-9]" if k != "Hex" else {"Any": "[0-9a-fA-F]", "Lower": "[0-9a-f]", "Upper": "[0-9A-F]"}[c]
    return ("[-+]?" if k == "Signed" else "0x" if q else "") + cls + ("{%d,%d}" % (lo, max(most, lo)) if most else "{%d,}" % lo)


@rule("F17")
def f17(r):
    m = Texts(r.p).setup(r)
    mk = Make(r, m)
    precs = (0, 1, 2, 3, 5, 10, 20, 31, 32, 33, 38, 39, 40, 41, 255)
    formats = [(k, p, None, None) for k in ("Unsigned", "Signed") for p in precs] + [("Hex", p, q, c) for p in precs for q in (False, True) for c in ("Any", "Lower", "Upper")]

    def some_of(pats, what):
        for p in pats:
            n = [n for n, g in r.p.fns.items() if re.search(p, n) and not g.ext]
            if len(n) == 1:
                return r.fn("^" + re.escape(n[0]) + "$")
        r.need(False, what)

    # written
    show = some_of((r"<litcheck_filecheck::expr::num::Number as core::fmt::Display>::fmt$",), "how a number is written")
    for f in [None] + formats:
        st = mk.state()
        rn, rf = ("L", ("keep", "n"), 0), ("L", ("keep", "f"), 0)
        st.env[rn], st.env[rf] = mk.number(VALUE, f), text(())
        e, outs = analyse(r, show, m, [("ref", rn, ()), ("ref", rf, ())], st)
        good, why, n = bool(outs), "", 0
        for s, v in outs:
            k, _ = result_of(e, s, v)
            parts = parts_of(e, s, s.env[rf])
            negs = {x[1] for x in s.mon if x[0] == "negative"}
            t = e.truth(s, e.app("Lt", VALUE, ("int", 0)))
            if t is not None:
                negs.add(t)
            if len(negs) > 1:
                continue
            for x in PROBES:
                w = written(f, x)
                if w is None or negs and (x < 0) not in negs:
                    continue
                n += 1
                got = "".join(y if y is not None else "?" for y in (render(p, x) for p in parts))
                if got != w or k == "err":
                    good, why = False, "%d is written '%s', not '%s'" % (x, got, w)
        r.ob("write", "%s" % (f,), good and n > 10, "write|%s|%s" % (f and f[0], f and f[3]), "%s: with the format %s, %s" % (show.loc(), f, why or "a number is not written"))

    # matched
    for meth, named in (("pattern", True), ("pattern", False), ("pattern_nocapture", None)):
        fn = r.fn(r"NumberFormat::%s$" % meth)
        for f in formats:
            st = mk.state()
            rn = ("L", ("keep", "n"), 0)
            st.env[rn] = mk.bare(f)
            args = [("ref", rn, ())] + ([] if named is None else [some(("str", "NAME"))] if named else [NONE])
            e, outs = analyse(r, fn, m, args, st)
            what, n = None, 0
            for s, v in outs:
                v = e.deref_all(s, v)
                if v[0] == "adt" and v[1] == COW:
                    v = e.deref_all(s, v[3][0])
                parts = parts_of(e, s, v)
                if len(parts) != 1 or not isinstance(parts[0], str):
                    what = "has an unknown regular expression"
                    break
                src = parts[0]
                n += 1
                edges, end, groups, trouble = nfa(src)
                if trouble:
                    what = "has the regular expression %s (%s)" % (src, trouble[0])
                    break
                if named is None and groups or named is not None and (len(groups) != 1 or named and groups != ["NAME"]):
                    what = "has the regular expression %s with %d groups" % (src, len(groups))
                    break
                if groups and not re.match(r"^\(\?P<\w+>.*\)$", src):
                    what = "is not captured as a whole by %s" % src
                    break
                most = 32 if f[0] == "Hex" else 39
                lo, hi = nfa(language(f, most)), nfa(language(f, None))
                x = included((edges, end), hi[:2])
                if x is not None:
                    what = "matches '%s'" % x
                    break
                x = included(lo[:2], (edges, end))
                if x is not None:
                    what = "does not match '%s'" % x
                    break
            r.ob("match", "%s %s %s" % (meth, named, f), n > 0 and what is None, "match|%s|%s|%s" % (meth, f[0], named), "%s: the format %s %s" % (fn.loc(), f, what or "has no regular expression"))

    # read
    read = r.fn(r"Number::parse_with_format$")
    kinds = [("dec",), ("low",), ("up",), ("dec", "low"), ("dec", "up"), ("low", "up"), ("dec", "low", "up"), ("dec", "other")]
    for f in [x for x in formats if x[1] in (0, 1, 2, 5, 39, 255)]:
        k, p, q, c = f
        for sign, pre, ks in itertools.product(("", "-", "+"), (False, True), kinds):
            for n in sorted({0, 1, 2, 3, p - 1, p, p + 1, p + 7} - {-1}):
                if n < len(ks) and n:
                    continue
                d = ("digits", sign, pre, ks, n)
                st = mk.state()
                sp = tuple(("sym", d, ()) if x == "spanned" else S("where") for x in m.spanf)
                e, outs = analyse(r, read, m, [("adt", m.span, 0, sp), mk.bare(f)], st)
                got = set()
                for s, v in outs:
                    kk, x = result_of(e, s, v)
                    fits = {z[1] for z in s.mon if z[0] == "fits"}
                    if kk == "ok":
                        _, fl = mk.read(e, s, x, m.num)
                        got.add((True if fits == {True} else False, fl.get("value"), mk.format_of(e, s, fl.get("format", TOP))))
                    else:
                        got.add((fits == {False}, kk))
                radix = 16 if k == "Hex" else 10
                good = (n > 0 and n >= p and not (pre if k != "Hex" else False) and set(ks) <= ({"dec"} if radix == 10 else {"dec"} | ({"low"} if c != "Upper" else set()) | ({"up"} if c != "Lower" else set())))
                if k == "Unsigned" and sign or k == "Hex" and q and not pre:
                    good = False
                if k == "Hex" and (sign or pre and not q):
                    continue
                if good:
                    want = {(True, S("read", radix, "-" if sign == "-" else "", ks, n), f), (True, "err")}
                else:
                    want = None
                r.ob("read", "%s %s" % (f, d[1:]), got == want if good else bool(got) and all(g[-1] == "err" for g in got), "read|%s|%s" % (k, c),
                     "%s: with the format %s, a text of %s%s and %d %s characters %s" % (read.loc(), f, sign, "0x" if pre else "", n, "/".join(ks), "is not read as the number it is" if good else "is read as a number"))
    r.floor("write", 100)
    r.floor("match", 300)
    r.floor("read", 2000)
