"""F08: the variables of a test: what a name stands for after any sequence of definitions, blocks and abandoned attempts."""
import itertools
from kit import *
from rules import rule
from props.fc_window import S

NAMES = ("x", "y")
ENV = r"<litcheck_filecheck::env::%s as litcheck_filecheck::env::LexicalScope(Mut)?(<.*>)?>::%s$"


class Env(Vecs, Maps, Mon):
    watch = (r"OrdMap::",)
    force = (r"cursor::CursorGuard", r"cursor::Cursor::(protect|move_to|position)$", r"cursor::Cursor as core::clone", r"TypedVariable", r"Capture::", r"VariableName")
    stop = (r"^log::", r"diagnostics::", r"SourceSpan::", r"Cursor::set_bounds")
    max_states = 100000
    small = 60
    recurse = r"litcheck_filecheck::(env|expr)::"
    recursion = 6

    def setup(self, r):
        self.vn = adt(r, "VariableName", "litcheck_core")
        self.span = adt(r, "Span", "litcheck_core::diagnostics::span")
        self.cur = adt(r, "Cursor", "filecheck::cursor")
        self.val, self.expr, self.num, self.bop = (adt(r, n, "filecheck::expr") for n in ("Value", "Expr", "Number", "BinaryOp"))
        self.spanf = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.span]["v"][0]["f"]]
        self.it = fidx(r, self.span, "spanned")
        self.curf = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.cur]["v"][0]["f"]]
        return self

    def pinned(self, i):
        return True

    def key_of(self, e, st, k):
        k = e.norm(st, e.deref_all(st, k))
        if k[0] == "adt" and k[1] == self.vn:
            return (vname(e.p, self.vn, k[2]), self.key_of(e, st, k[3][0]))
        if k[0] == "adt" and k[1] == self.span:
            return self.key_of(e, st, k[3][self.it])
        return k

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm == "log::max_level" or last in ("log", "loc") and nm.startswith("log::"):
            return [(st, TOP)]
        if last == "le" and "PartialOrd" in nm + str(c.trait) and "log::" in repr(c.callee.get("a")):
            return [(st, FALSE)]
        if nm.endswith("boxed::Box::new"):
            n = sum(k[0] == "L" and isinstance(k[1], tuple) and k[1][0] == "keep" and isinstance(k[1][1], tuple) for k in st.env)
            s = st.copy()
            root = ("L", ("keep", ("box", n)), 0)
            s.env[root] = c.args[0]
            return [(s, ("ref", root, ()))]
        if re.search(r"cursor::Cursor::new$", nm):
            return [(st, ("adt", self.cur, 0, tuple(S("cursor", n) for n in self.curf)))]
        if re.search(r"CliVariable::(name|value)$", nm):
            x = e.norm(st, e.deref_all(st, c.args[0]))
            if x[0] == "adt" and x[1] == "cli":
                if last == "name":
                    return [(st, x[3][0])]
                return self.as_ref(st, c, x[3][1])
        if last in ("clone", "into_owned", "to_owned", "cloned") and c.args:
            x = e.norm(st, e.deref_all(st, c.args[0]))
            if x[0] == "sym" and x[1][0] == "val" or x[0] == "adt" and x[1] in (self.val, self.expr):
                return [(st, x)]
            if x[0] == "adt" and x[1] == self.cur:
                return [(st, x)]
        if re.search(r"span::Span::(new|unknown|at)$", nm) and c.args:
            n = self.spanf
            return [(st, ("adt", self.span, 0, tuple(c.args[-1] if f == "spanned" else S("where") for f in n)))]
        if last in ("inner", "into_inner", "deref", "as_ref", "borrow") and c.args:
            x = e.deref_all(st, c.args[0])
            if x[0] == "adt" and x[1] == self.span:
                return [(st, x[3][self.it])] if last == "into_inner" else self.as_ref(st, c, x[3][self.it])
        v = self.map_call(e, st, c, last)
        return v if v is not None else self.vec_call(e, st, c, last)

    def as_ref(self, st, c, x):
        root = ("L", ("asref", c.fr.id, c.blk), 0)
        s = st.copy()
        s.env[root] = x
        return [(s, ("ref", root, ()))]


class Run:
    """Calls made one after another on the same state."""

    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Env(r.p).setup(r)
        self.n = 0
        self.cfg, self.opt = adt(r, "Config", "filecheck"), None
        names = lambda a: [f["n"] if isinstance(f, dict) else f for f in r.p.adts[a]["v"][0]["f"]]  # noqa: E731
        self.fields = names
        self.fns = {}
        self.boxes = {}

    def fn(self, rx):
        if rx not in self.fns:
            self.fns[rx] = self.r.fn(rx)
        return self.fns[rx]

    def call(self, st, rx, *args):
        """One outcome (state, value) of a call that must have exactly one."""
        fn = self.fn(rx)
        e, outs = analyse(self.r, fn, self.m, list(args), st.copy())
        self.e = e
        seen = {}
        for s, v in outs:
            seen.setdefault((frozenset((k, x) for k, x in s.env.items() if k[1][0] in ("keep", "cfg")), e.deref_all(s, v)), (s, v))
        self.r.need(len(seen) == 1, "one outcome of %s (found %d)" % (fn.name, len(seen)))
        return next(iter(seen.values()))

    def span(self, name):
        n = self.fields(self.m.span)
        return ("adt", self.m.span, 0, tuple(name if f == "spanned" else S("where", name) for f in n))

    def name(self, kind, n):
        return ("adt", self.m.vn, vidx(self.r, self.m.vn, kind), (self.span(S("name", n)),))

    def keep(self, st, v):
        self.n += 1
        root = ("L", ("keep", self.n), 0)
        s = st.copy()
        s.env[root] = v
        return s, ("ref", root, ())

    def box(self, v):
        self.n += 1
        root = ("L", ("keep", self.n), 0)
        self.boxes[root] = v
        return ("ref", root, ())

    SCOPE = "litcheck_filecheck::env::LexicalScope"

    def scope(self, st, ref, meth, *args):
        """A method of the scope traits on what ref refers to."""
        v = self.e.deref_all(st, ref) if ref[0] == "ref" else ref
        self.r.need(v[0] == "adt", "the type of a scope")
        for t in (self.SCOPE, self.SCOPE + "Mut"):
            for who in (v[1], None):
                n = self.p.impl_method.get((t + "::" + meth, v[1])) if who else t + "::" + meth
                if n in self.p.fns:
                    return self.call(st, "^" + re.escape(n) + "$", ref, *args)
        self.r.need(False, "%s of %s" % (meth, v[1]))

    CTX = r"<litcheck_filecheck::context::%s as litcheck_filecheck::context::Context(<.*>)?>::%s$"

    def new(self, cli, vs):
        """A test whose command line defines cli [(name, value)]."""
        opts = self.p.adts[self.cfg]["v"][0]["f"][fidx(self.r, self.cfg, "options")]
        oadt = adt(self.r, "Options", "litcheck_filecheck")
        val = lambda v: v if v[0] == "adt" else ("adt", self.m.val, vidx(self.r, self.m.val, "Str"), (v,))  # noqa: E731
        vars_ = ("arr", tuple(("adt", "cli", 0, (self.name("User", n), val(v))) for n, v in cli))
        o = ("adt", oadt, 0, tuple(vars_ if n == "variables" else (TRUE if vs else FALSE) if n == "enable_var_scope" else S("opt", n) for n in self.fields(oadt)))
        c = ("adt", self.cfg, 0, tuple(o if n == "options" else S("cfg", n) for n in self.fields(self.cfg)))
        st = State(mon=())
        st.env.update(self.boxes)
        st, cref = self.keep(st, c)
        st, ctx = self.call(st, r"litcheck_filecheck::context::MatchContext::new$", cref, S("match_file"), S("input_file"), S("buffer"))
        return self.keep(st, ctx)

    def kind(self, st, ref):
        v = self.e.deref_all(st, ref)
        self.r.need(v[0] == "adt" and re.search(r"context::(MatchContext|ContextGuard)$", v[1]), "a context")
        return v[1].rsplit("::", 1)[-1]

    def env(self, st, ctx, mut=True):
        return self.call(st, self.CTX % (self.kind(st, ctx), "env_mut" if mut else "env"), ctx)

    def protect(self, st, ctx):
        st, g = self.call(st, self.CTX % (self.kind(st, ctx), "protect"), ctx)
        return self.keep(st, g)

    def save(self, st, g):
        return self.call(st, r"litcheck_filecheck::context::ContextGuard::save$", self.e.deref_all(st, g))[0]

    def insert(self, st, ctx, kind, n, v):
        st, env = self.env(st, ctx)
        return self.scope(st, env, "insert", self.name(kind, n), v)[0]

    def plain(self, st, x):
        if isinstance(x, tuple) and x[0] == "adt" and x[1] == self.m.val and vname(self.p, x[1], x[2]) == "Str":
            return self.e.norm(st, self.e.deref_all(st, x[3][0]))
        return x

    def look(self, st, ctx):
        """What every name stands for, looked up in every way."""
        out = {}
        for mut in (True, False):
            s, env = self.env(st, ctx, mut)
            for n in NAMES:
                for kind, direct in (("User", "get_local"), ("Global", "get_global")):
                    for meth, a in (("get", self.name(kind, n)), (direct, S("name", n))):
                        s2, ra = self.keep(s, a)
                        s3, v = self.scope(s2, env, meth, ra)
                        k, x = option_of(self.e, s3, v)
                        x = None if k == "none" else self.e.norm(s3, self.e.deref_all(s3, x)) if k == "some" else "?"
                        out[mut, kind, n, meth] = self.plain(s3, x)
        return out

    def cursor(self, st, ctx):
        st, c = self.call(st, self.CTX % (self.kind(st, ctx), "cursor_mut"), ctx)
        while True:
            v = self.e.get(st, (c[1], c[2]))
            if v[0] != "ref":
                break
            c = v
        self.r.need(v[0] == "adt" and v[1] == self.m.cur, "the cursor of a context")
        return st, c, v


class Names:
    """The reference: command line, global and local definitions."""

    def __init__(self, cli=(), glob=(), loc=()):
        self.cli, self.glob, self.loc = dict(cli), dict(glob), dict(loc)

    def copy(self):
        return Names(self.cli, self.glob, self.loc)

    def insert(self, kind, n, v):
        (self.glob if kind == "Global" else self.loc)[n] = v

    def get(self, kind, n):
        d = self.glob if kind == "Global" else self.loc
        return d.get(n, self.cli.get(n))


def numbers(r, run):
    """Numbers defined on the command line by expressions."""
    m = run.m
    made = lambda a, i, **kw: ("adt", a, i, tuple(kw.get(f["n"] if isinstance(f, dict) else f, S("where", "expr")) for f in r.p.adts[a]["v"][i]["f"]))  # noqa: E731
    num = lambda k: made(m.expr, vidx(r, m.expr, "Num"), **{"0": made(m.num, 0, value=S("value", k), format=S("format", k))})  # noqa: E731
    var = lambda n, kind="User": made(m.expr, vidx(r, m.expr, "Var"), **{"0": run.name(kind, n)})  # noqa: E731
    two = lambda op, a, b: made(m.expr, vidx(r, m.expr, "Binary"), op=("adt", m.bop, vidx(r, m.bop, op), ()), lhs=run.box(a), rhs=run.box(b))  # noqa: E731
    val = lambda x: ("adt", m.val, vidx(r, m.val, "Num"), (x,))  # noqa: E731
    fn = r.fn(r"litcheck_filecheck::env::Env::from_config$")

    def plain(st, x):
        x = run.e.norm(st, run.e.deref_all(st, x))
        if x[0] != "adt":
            return x
        name = vname(r.p, x[1], x[2])
        if x[1] == m.expr and name == "Num":
            n = run.e.deref_all(st, x[3][0])
            return ("num",) + tuple(run.e.norm(st, run.e.deref_all(st, n[3][fidx(r, m.num, f)])) for f in ("value", "format")) if n[0] == "adt" else "?"
        if x[1] == m.expr and name == "Binary":
            fs = {f["n"] if isinstance(f, dict) else f: y for f, y in zip(r.p.adts[m.expr]["v"][x[2]]["f"], x[3])}
            op = run.e.deref_all(st, fs["op"])
            return (vname(r.p, m.bop, op[2]) if op[0] == "adt" else "?", plain(st, fs["lhs"]), plain(st, fs["rhs"]))
        if x[1] == m.val:
            return (name,) + tuple(plain(st, y) for y in x[3])
        return "?"

    ref = lambda k: ("num", S("value", k), S("format", k))  # noqa: E731
    undef = ("Undef",)
    two1 = ("Add", ref(1), ref(2))
    cases = (
        ("a number", [("x", val(num(1)))], ("Num", ref(1))),
        ("an expression of numbers", [("x", val(two("Sub", num(1), num(2))))], ("Num", ("Sub", ref(1), ref(2)))),
        ("a variable", [("y", val(num(1))), ("x", val(var("y")))], ("Num", ref(1))),
        ("a global variable", [("y", val(num(1))), ("x", val(two("Mul", num(2), var("y", "Global"))))], ("Num", ("Mul", ref(2), ref(1)))),
        ("an expression of a variable", [("y", val(num(1))), ("x", val(two("Add", var("y"), num(2))))], ("Num", two1)),
        ("an expression of two variables", [("y", val(two("Add", num(1), num(2)))), ("x", val(two("Div", var("y"), two("Min", num(3), var("y")))))], ("Num", ("Div", two1, ("Min", ref(3), two1)))),
        ("a variable defined anew later", [("y", val(num(1))), ("x", val(var("y"))), ("y", val(num(2)))], ("Num", ref(1))),
        ("its former value", [("x", val(num(1))), ("x", val(two("Add", var("x"), num(2))))], ("Num", two1)),
        ("itself", [("x", val(two("Add", var("x"), num(1))))], undef),
        ("a variable defined later", [("x", val(two("Add", num(2), var("y")))), ("y", val(num(1)))], undef),
        ("a variable that has no value", [("y", val(var("x"))), ("x", val(var("y")))], undef),
    )
    for what, cli, want in cases:
        st, ctx = run.new(cli, False)
        for (mut, kind, n, meth), v in run.look(st, ctx).items():
            if n == "x" and meth == "get" and kind == "User":
                got = plain(st, v) if isinstance(v, tuple) else v
                r.ob("number", "defined by %s%s" % (what, "" if mut else ", read only"), got == want or want == undef and v is None, "number|%s" % what,
                     "%s: a number defined on the command line by %s has not the value of the expression with the definitions before it" % (fn.loc(), what))


@rule("F08")
def f08(r):
    run = Run(r)
    kinds = (("User", "x"), ("Global", "x"), ("User", "y"), ("Global", "y"))

    def check(what, key, st, ctx, ref, msg):
        for (mut, kind, n, meth), v in run.look(st, ctx).items():
            r.ob(key, "%s: %s %s (%s%s)" % (what, kind.lower(), n, meth, "" if mut else ", read only"), v == ref.get(kind, n), "%s|%s" % (key, meth),
                 "%s: a name stands for %s, not for %s" % (msg, show(v), show(ref.get(kind, n))))

    def show(v):
        return "nothing" if v is None else "the value %s" % "/".join(str(x) for x in v[1][1:]) if isinstance(v, tuple) and v[0] == "sym" else "something else"

    at = r.fn(r"litcheck_filecheck::env::Bindings::get$").file
    # every combination of definitions for two names
    for vs in (False, True):
        for bits in itertools.product((0, 1), repeat=6):
            cli = [(n, S("val", "cli", n)) for n, b in zip(NAMES, bits) if b]
            st, ctx = run.new(cli, vs)
            ref = Names(cli)
            for (kind, n), b in zip(kinds, bits[2:]):
                if b:
                    v = S("val", kind.lower(), n)
                    st = run.insert(st, ctx, kind, n, v)
                    ref.insert(kind, n, v)
            what = "".join(map(str, bits))
            if not vs:
                check(what, "lookup", st, ctx, ref, at + ": after these definitions")
            # one more definition changes that name and nothing else
            if not vs:
                for kind, n in kinds[:2]:
                    s, ref2 = run.insert(st, ctx, kind, n, S("val", "new")), ref.copy()
                    ref2.insert(kind, n, S("val", "new"))
                    check(what + "+" + kind, "define", s, ctx, ref2, at + ": after a definition")
            # blocks
            s = run.call(st, r"litcheck_filecheck::context::MatchContext::enter_block$", ctx, S("range"))[0]
            ref2 = ref.copy()
            if vs:
                ref2.loc = {}
            check(what, "block", s, ctx, ref2, "%s: after entering a block %s" % (r.fn(r"MatchContext::enter_block$").loc(), "with scoped variables" if vs else "without scoped variables"))
            # attempts
            for dst in ("User", "Global", None):
                s, g = run.protect(st, ctx)
                refg = ref.copy()
                check(what, "attempt", s, g, refg, at + ": at the start of an attempt to match")
                if dst:
                    s = run.insert(s, g, dst, "x", S("val", "attempt"))
                    refg.insert(dst, "x", S("val", "attempt"))
                    check(what + "+" + dst, "inside", s, g, refg, at + ": inside an attempt to match")
                check("%s+%s" % (what, dst), "abandoned", s, ctx, ref, at + ": after an abandoned attempt to match")
                s2 = run.save(s, g)
                check("%s+%s" % (what, dst), "kept", s2, ctx, refg, at + ": after a successful attempt to match")
                if vs or not dst:
                    continue
                # an attempt inside an attempt
                s, h = run.protect(s, g)
                refh = refg.copy()
                check("%s+%s" % (what, dst), "nested", s, h, refh, at + ": at the start of an attempt inside another")
                s = run.insert(s, h, dst, "y", S("val", "inner"))
                refh.insert(dst, "y", S("val", "inner"))
                check("%s+%s" % (what, dst), "nested-abandoned", s, g, refg, at + ": after an abandoned attempt inside another")
                s2 = run.save(s, h)
                check("%s+%s" % (what, dst), "nested-kept", s2, g, refh, at + ": after a successful attempt inside another")
                check("%s+%s" % (what, dst), "nested-outer", s2, ctx, ref, at + ": while an outer attempt is undecided")
                s2 = run.save(s2, g)
                check("%s+%s" % (what, dst), "nested-both", s2, ctx, refh, at + ": after two successful attempts")
                # the definitions of an attempt set aside for later
                s, env = run.env(s, h)
                s, b = run.scope(s, env, "take")
                check("%s+%s" % (what, dst), "set-aside", s, h, refg, at + ": after the definitions of an attempt were set aside")
                s = run.call(s, r"litcheck_filecheck::context::ContextGuard::save_bindings$", g, b)[0]
                check("%s+%s" % (what, dst), "resumed", s, g, refh, at + ": after definitions set aside were put back")
    # a variable defined twice on the command line has the later value
    st, ctx = run.new([("x", S("val", "first")), ("y", S("val", "y")), ("x", S("val", "second"))], False)
    check("twice", "cli", st, ctx, Names([("x", S("val", "second")), ("y", S("val", "y"))]), at + ": after defining a variable twice on the command line")
    numbers(r, run)
    r.floor("number", 20)
    st, ctx = run.new([("x", S("val", "second")), ("y", S("val", "y"))], False)
    # where the input is being read is part of an attempt
    st, g = run.protect(st, ctx)
    st, c0, v0 = run.cursor(st, ctx)
    st, c1, v1 = run.cursor(st, g)
    loc = r.fn(r"cursor::CursorGuard::new$").loc()
    r.ob("cursor", "start", v1 == v0, "cursor|start", "%s: an attempt does not start where the input is being read" % loc)
    cp = adt(r, "CursorPosition", "filecheck")
    where = lambda st, x: run.e.deref_all(st, run.call(st, r"cursor::Cursor::position$", run.cursor(st, x)[1])[1])  # noqa: E731
    to = ("adt", cp, 0, tuple(S("moved", n) for n in run.fields(cp)))
    first = where(st, ctx)
    r.ob("cursor", "start", where(st, g) == first, "cursor|start", "%s: an attempt does not start where the input is being read" % loc)
    st = run.call(st, r"cursor::Cursor::move_to$", c1, to)[0]
    r.ob("cursor", "moved", where(st, g) == to, "cursor|moved", "%s: an attempt does not move on in the input" % loc)
    r.ob("cursor", "abandoned", where(st, ctx) == first, "cursor|abandoned", "%s: an attempt that is abandoned moves on in the input" % loc)
    s2 = run.save(st, g)
    for n, x, y in zip(run.fields(cp), where(s2, ctx)[3], to[3]):
        r.ob("cursor", "kept %s" % n, x == y, "cursor|kept|%s" % n, "%s: a successful attempt does not move on in the input (%s)" % (loc, n))
    # captures
    res, inf, ci, cap, mty = adt(r, "MatchResult", "filecheck"), adt(r, "MatchInfo", "filecheck"), adt(r, "CaptureInfo", "filecheck"), adt(r, "Capture", "filecheck"), adt(r, "MatchType", "filecheck")
    tv = adt(r, "TypedVariable", "filecheck")
    struct = lambda a, i=0, **kw: ("adt", a, i, tuple(kw.get(n, S(a.rsplit("::", 1)[-1], n)) for n in [f["n"] if isinstance(f, dict) else f for f in r.p.adts[a]["v"][i]["f"]]))  # noqa: E731
    bind = r.fn(r"matcher::result::MatchResult::bind_captures_in$")

    def capture(var, kind, n, val):
        i = vidx(r, cap, var)
        fs = r.p.adts[cap]["v"][i]["f"]
        t = struct(tv, name=run.name(kind, n))
        c = ("adt", cap, i, tuple(t if "TypedVariable" in repr(f) or (f["n"] if isinstance(f, dict) else f) in ("with",) or var in ("Implicit", "Explicit") else S(var, k) for k, f in enumerate(fs)))
        return struct(ci, value=val, capture=c)

    named = ("Implicit", "Mapped", "Explicit")
    sets = [(a,) for a in itertools.product(("Ignore", "All") + named, ("User", "Global"), ("x",))]
    sets += [(("Explicit", "User", "x"), ("Mapped", "User", "y")), (("Mapped", "Global", "x"), ("All", "User", "y"), ("Explicit", "User", "x")), (("Explicit", "User", "x"), ("Explicit", "User", "x"))]
    for where in ("test", "attempt"):
        for ty in range(len(r.p.adts[mty]["v"])):
            for caps in sets:
                st, ctx = run.new([("x", S("val", "cli"))], False)
                st = run.insert(st, ctx, "User", "x", S("val", "before"))
                tgt = ctx
                if where == "attempt":
                    st, tgt = run.protect(st, ctx)
                ref = Names([("x", S("val", "cli"))], (), [("x", S("val", "before"))])
                els = []
                for k, (var, kind, n) in enumerate(caps):
                    els.append(capture(var, kind, n, S("val", "captured", k)))
                    if var in named and vname(r.p, mty, ty) == "MatchFoundAndExpected":
                        ref.insert(kind, n, S("val", "captured", k))
                info = struct(inf, captures=("arr", tuple(els)))
                nf = len(r.p.adts[mty]["v"][ty]["f"])
                mr = struct(res, ty=("adt", mty, ty, tuple(S("failure", k) for k in range(nf))), info=some(info))
                st, mref = run.keep(st, mr)
                s = run.call(st, r"matcher::result::MatchResult::bind_captures_in$", mref, tgt)[0]
                check("%s %s %s" % (where, vname(r.p, mty, ty), "+".join("%s(%s %s)" % x for x in caps)), "capture", s, tgt, ref, bind.loc() + ": after a match with captures")
    # references to a scope act as the scope, and names are told apart by their text alone
    st, ctx = run.new([("x", S("val", "cli"))], False)
    st = run.insert(st, ctx, "Global", "x", S("val", "global"))
    ref = Names([("x", S("val", "cli"))], [("x", S("val", "global"))])
    st, env = run.env(st, ctx)
    st, outer = run.keep(st, env)
    for w in ("&S", "&mut S"):
        for kind, direct in (("User", "get_local"), ("Global", "get_global")):
            for meth, a in (("get", run.name(kind, "x")), (direct, S("name", "x"))):
                s, ra = run.keep(st, a)
                s, v = run.call(s, r"^<%s as litcheck_filecheck::env::LexicalScope>::%s$" % (w, meth), outer, ra)
                k, x = option_of(run.e, s, v)
                got = run.plain(s, run.e.norm(s, run.e.deref_all(s, x))) if k == "some" else None
                r.ob("reference", "%s %s %s" % (w, kind, meth), got == ref.get(kind, "x"), "reference|%s|%s" % (w, meth), "%s: a name looked up through a reference to a scope stands for something else" % at)
    for t, meths in (("core::cmp::PartialEq", ("eq",)), ("core::cmp::Ord", ("cmp",)), ("core::cmp::PartialOrd", ("partial_cmp",))):
        for meth in meths:
            for kind in ("Pseudo", "Global", "User"):
                fn = r.fn(r"^<litcheck_core::variables::VariableName as %s(<litcheck_core::variables::VariableName>)?>::%s$" % (re.escape(t), meth))
                two = []
                st = State(mon=())
                for k in (1, 2):
                    v = run.name(kind, "x")
                    v = ("adt", v[1], v[2], (("adt", run.m.span, 0, tuple(x if i == run.m.it else S("where", k) for i, x in enumerate(v[3][0][3]))),))
                    st, x = run.keep(st, v)
                    two.append(x)
                e, outs = analyse(r, fn, Cmp(r.p), two, st)
                r.need(outs, "paths of %s" % fn.name)
                bad = [v for s, v in outs if not same(e, s, v)]
                r.ob("identity", "%s %s" % (meth, kind), not bad, "identity|%s" % meth, "%s: two mentions of the same name at different places of a test may be told apart" % fn.loc())


def same(e, s, v):
    v = e.deref_all(s, v)
    if v[0] == "adt" and v[1] == OPT:
        v = e.deref_all(s, v[3][0]) if v[3] else v
    if v[0] == "adt" and v[1].endswith("Ordering"):
        return v[2] == 1
    return e.truth(s, v) is True


class Cmp(Mon):
    small = 200

    def pinned(self, i):
        return True

    def inline(self, eng, fn):
        return True if not fn.ext else None

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if len(c.args) == 2 and last in ("eq", "cmp", "partial_cmp"):
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            if a == b and a[0] == "sym":
                o = ("adt", "core::cmp::Ordering", 1, ())
                return [(st, TRUE if last == "eq" else o if last == "cmp" else some(o))]
        return None
