"""Disjunctive (ESP-style) conditional-constant / variant propagation over MIR.

The analysis is an abstract interpretation with a finite domain:
  * values are constants, enum variants / aggregates of values, references to tracked places, or
    value-numbered opaque terms named by the program point that produced them;
  * a state also holds, for opaque terms, which enum variants (or which constant) are still possible;
  * a rule contributes a typestate component (`mon`), updated at the calls the rule watches.
States are propagated along the control-flow graph of a root function; calls to functions whose body is
available are analysed in the caller's context (bounded depth), everything else is opaque.  Equal states
are merged; loops are iterated to a fixpoint over the (finite) set of states, and any local that keeps
taking new constants at a loop head is widened to an opaque term.  No solver is involved.
"""
import re
from functools import lru_cache

TOP = ("top",)
UNIT = ("tup", ())
TRUE = ("int", 1)
FALSE = ("int", 0)


class Budget(Exception):
    pass


def sym(i, pr=()):
    return ("sym", i, pr)


@lru_cache(maxsize=None)
def ids_in(v):
    """Symbol ids occurring in a value or id (as nested tuples)."""
    out = set()
    if isinstance(v, tuple):
        if v and v[0] in ("sym", "symo", "D") and len(v) >= 2:
            out.add(v[1])
        for x in v:
            if isinstance(x, (tuple, frozenset)):
                out |= ids_in(x)
    elif isinstance(v, frozenset):
        for x in v:
            out |= ids_in(x)
    return frozenset(out)


def rename(v, old, new):
    if isinstance(v, tuple):
        if v and v[0] in ("sym", "symo", "D") and len(v) >= 2 and v[1] == old:
            v = (v[0], new) + v[2:]
        if old not in ids_in(v):
            return v
        return tuple(rename(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in v)
    if isinstance(v, frozenset):
        return frozenset(rename(x, old, new) for x in v)
    return v


class State:
    __slots__ = ("env", "facts", "mon")

    def __init__(self, env=None, facts=None, mon=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.mon = mon

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.mon)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.mon)


class Monitor:
    """Rule hooks. `mon` is any hashable value stored in the state."""
    init = None
    opaque = ()          # regexes of callee paths never inlined
    inline_ext = ()      # extra regexes of external bodies that may be inlined
    recurse = None       # regex of bodies which may be analysed inside themselves, up to `recursion` deep
    recursion = 3
    max_depth = 14
    max_states = 60000
    widen_ints = 4       # how many values of an integer are distinguished at the head of a loop

    def before_call(self, eng, st, c):
        """Return None (default handling) or a list of (state, value) replacing the call."""
        return None

    def after_call(self, eng, st, c, ret):
        """Update st.mon in place after a call that was handled; may return False to drop the path."""
        return None

    def on_drop(self, eng, st, fr, val, ty, line):
        return None

    def on_assign(self, eng, st, fr, loc, val, line):
        return None

    def dispatch(self, eng, st, c):
        """Candidates (fn names) for an unresolved trait call, or None."""
        return None

    def pinned(self, i):
        return False

    def elements(self, eng, st, c, src, ety, site):
        """Outcomes [(state, element | None)] of stepping an iterator over the opaque collection src, or None."""
        return None

    def inline(self, eng, fn):
        """True / False to force / forbid analysing the body of fn at a call, None for the default."""
        return None

    def on_var(self, eng, st, term, allowed, adt):
        """Called after the path has restricted an opaque enum value to the variants `allowed`."""
        return None

    def on_panic(self, eng, st, fr, line, name):
        return None


class Call:
    __slots__ = ("name", "trait", "args", "fr", "blk", "line", "dt", "callee", "aops", "site", "term")

    def loc(self):
        return "%s:%s in %s" % (self.fr.fn.file, self.line, self.fr.fn.name)


class Frame:
    __slots__ = ("fn", "ctx", "depth", "stack", "subst", "id")


EXT_INLINE = [re.compile(x) for x in (
    r"^core::option::Option::(map|map_or|map_or_else|and_then|and|or|or_else|unwrap_or|unwrap_or_else|unwrap_or_default|ok_or|ok_or_else|is_some|is_none|is_some_and|is_none_or|as_ref|as_mut|as_deref|as_deref_mut|filter|take|replace|insert|get_or_insert|get_or_insert_with|unwrap|expect|copied|cloned|transpose|zip|xor|flatten|inspect|then)$",
    r"^core::option::Option<.*$",
    r"^core::result::Result::(map|map_err|map_or|map_or_else|and_then|and|or|or_else|unwrap_or|unwrap_or_else|unwrap_or_default|ok|err|is_ok|is_err|is_ok_and|is_err_and|as_ref|as_mut|unwrap|expect|unwrap_err|expect_err|copied|cloned|transpose|inspect|inspect_err|flatten|into_ok)$",
    r"^core::ops::control_flow::ControlFlow::",
    r" as core::ops::try_trait::(Try|FromResidual)",
    r"^<core::(option::Option|result::Result|ops::control_flow::ControlFlow|cmp::Ordering) as core::(cmp|clone|default)",
    r"^core::bool::|^bool::(then|then_some|not)",
    r"^core::mem::(take|replace|swap)$",
    r"^<T as core::convert::(Into|From)",
    r"^<U as core::convert::",
    r"^core::cmp::Ordering::",
    r"^core::cmp::PartialEq::ne$",
    r"^<&(mut )?A as core::cmp::PartialEq",
    r"^<bool as core::clone::Clone>",
    r"^<[ui]\d+ as core::(clone|default)",
    r"^<\(\) as",
    r"^either::Either::(left|right|is_left|is_right|either|map_left|map_right)",
)]

PURE = [re.compile(x) for x in (
    r"::as_ref$", r"::as_mut$", r"::as_str$", r"::as_slice$", r"::as_bytes$", r"::deref$", r"::deref_mut$", r"::borrow$",
    r"::as_path$", r"::as_os_str$", r"::to_str$", r"::as_deref$", r"::len$", r"::is_empty$", r"::first$",
    r"::last$", r"::starts_with$", r"::ends_with$", r"::contains$", r"::contains_key$", r"::get$",
    r"ExitStatus::code$", r"ExitStatus::success$", r"::kind$", r"::into_inner$", r"::to_string$", r"::to_owned$",
    r"::into_owned$", r"::is_ascii", r"::parent$", r"::file_name$", r"::extension$", r"::file_stem$", r"::exists$",
    r"::is_dir$", r"::is_file$", r"::is_zero$", r"str::trim", r"::strip_prefix$", r"::strip_suffix$", r"::to_path_buf$",
    r"::join$", r"as core::convert::From<.*>>::from$", r"as core::cmp::", r"Ordering", r"::into$", r"::cmp$",
    r"::partial_cmp$", r"::is_absolute$", r"::index$", r"::iter$", r"::into_iter$", r"::keys$", r"::values$", r"::is_char_boundary$",
    r"::count_ones$", r"time::Duration::(from_|as_|subsec|is_zero)", r"::name$", r"::from$", r"::to_usize$", r"::as_usize$",
    r"::(saturating|wrapping|checked|overflowing)_(add|sub|mul)(_signed)?$",
)]


INT_BITS = {"bool": (1, False), "char": (32, False)}
for _n in (8, 16, 32, 64, 128):
    INT_BITS["u%d" % _n], INT_BITS["i%d" % _n] = (_n, False), (_n, True)
INT_BITS["usize"], INT_BITS["isize"] = INT_BITS["u64"], INT_BITS["i64"]


class Engine:
    def __init__(self, prog, mon=None):
        self.p = prog
        self.mon = mon or Monitor()
        self.casts = getattr(self.mon, "casts", False)
        self.opaque = [re.compile(x) for x in self.mon.opaque]
        self.ext_inline = EXT_INLINE + [re.compile(x) for x in self.mon.inline_ext]
        self.deriv = {}        # symbol id -> set of symbol ids it was computed from
        self.panics = []       # (State, Frame, line, name) diverging calls
        self.asserts = []      # (kind, Frame, line)
        self.nstates = 0
        self.visited_fns = set()
        self.opaque_calls = {}
        self.frames = {}
        self.paths = 0
        self.recursion = set()
        self.const_mode = False

    # ------------------------------------------------------------- values
    def proj(self, v, e):
        k = v[0]
        if k == "sym":
            return ("sym", v[1], v[2] + (e,))
        if k == "symo":
            rest = []
            for rp, val in v[3]:
                if rp[0] == e:
                    if len(rp) == 1:
                        return val
                    rest.append((rp[1:], val))
            if rest:
                return ("symo", v[1], v[2] + (e,), tuple(rest))
            return ("sym", v[1], v[2] + (e,))
        if k == "adt":
            if isinstance(e, int):
                fs = v[3]
                return fs[e] if e < len(fs) else TOP
            if isinstance(e, tuple) and e[0] == "d":
                return v
            return TOP
        if k == "tup":
            if isinstance(e, int) and e < len(v[1]):
                return v[1][e]
            return TOP
        if k == "clo":
            if isinstance(e, int) and e < len(v[2]):
                return v[2][e]
            return TOP
        if k == "arr":
            if isinstance(e, tuple) and e[0] == "ci" and not e[2] and e[1] < len(v[1]):
                return v[1][e[1]]
            if isinstance(e, tuple) and e[0] == "ci" and e[2] and 0 < e[1] <= len(v[1]):
                return v[1][len(v[1]) - e[1]]
            return TOP
        if k in ("ref", "str") and (e == 0 or (isinstance(e, tuple) and e[0] == "d")):
            return v      # Box / Unique / NonNull wrappers are transparent
        return TOP

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        k = v[0]
        if k == "adt":
            if isinstance(e, int) and e < len(v[3]):
                fs = list(v[3])
                fs[e] = self.upd(fs[e], path[1:], val)
                return ("adt", v[1], v[2], tuple(fs))
            if isinstance(e, tuple) and e[0] == "d":
                return self.upd(v, path[1:], val)
            return v
        if k == "tup" and isinstance(e, int) and e < len(v[1]):
            fs = list(v[1])
            fs[e] = self.upd(fs[e], path[1:], val)
            return ("tup", tuple(fs))
        if k == "clo" and isinstance(e, int) and e < len(v[2]):
            fs = list(v[2])
            fs[e] = self.upd(fs[e], path[1:], val)
            return ("clo", v[1], tuple(fs))
        if k == "arr":
            if isinstance(e, tuple) and e[0] == "ci":
                i = len(v[1]) - e[1] if e[2] else e[1]
                if 0 <= i < len(v[1]):
                    return ("arr", v[1][:i] + (self.upd(v[1][i], path[1:], val),) + v[1][i + 1:])
            return ("sym", ("arrw", v), ())
        if k == "sym" or k == "symo":
            ovr = v[3] if k == "symo" else ()
            out = []
            path = tuple(path)
            for rp, x in ovr:
                if rp == path or rp[:len(path)] == path:
                    continue
                if path[:len(rp)] == rp:
                    # write inside an overridden part
                    return ("symo", v[1], v[2], tuple((r, self.upd(y, path[len(r):], val) if r == rp else y)
                                                      for r, y in ovr))
                out.append((rp, x))
            out.append((path, val))
            out.sort(key=repr)
            return ("symo", v[1], v[2], tuple(out))
        if k == "top":
            return self.upd(("sym", ("uninit",), ()), path, val)
        return v

    def root_val(self, st, root):
        v = st.env.get(root)
        if v is not None:
            return v
        if root[0] == "D":
            return ("sym", root[1], root[2] + ("*",))
        if root[0] == "K":
            return root[1]
        return TOP

    def get(self, st, loc):
        v = self.root_val(st, loc[0])
        for e in loc[1]:
            v = self.proj(v, e)
        return v

    def set(self, st, loc, val):
        root, path = loc
        if root[0] in ("U", "K"):
            return
        if not path:
            st.env[root] = val
        else:
            st.env[root] = self.upd(self.root_val(st, root), path, val)

    def deref(self, v):
        k = v[0]
        if k == "ref":
            return (v[1], v[2])
        if k == "sym":
            return (("D", v[1], v[2]), ())
        if k == "symo":
            return (("D", v[1], v[2]), ())
        if k == "top":
            return (("U",), ())
        return (("K", v), ())

    def loc(self, st, fr, place):
        cur = (("L", fr.id, place[0]), ())
        for e in place[1]:
            if e == "*":
                cur = self.deref(self.get(st, cur))
            elif isinstance(e, tuple) and e[0] == "i":
                iv = self.get(st, (("L", fr.id, e[1]), ()))
                if iv[0] == "int":
                    cur = (cur[0], cur[1] + (("ci", iv[1], False),))
                else:
                    cur = (cur[0], cur[1] + (("idx", iv),))
            else:
                cur = (cur[0], cur[1] + (e,))
        return cur

    def deref_all(self, st, v, n=6):
        """The value behind references (for comparing / printing)."""
        while v[0] == "ref" and n:
            v = self.get(st, (v[1], v[2]))
            n -= 1
        return v

    # ------------------------------------------------------------- facts
    def term(self, v):
        if v[0] in ("sym", "symo"):
            return (v[1], v[2])
        return None

    def nvariants(self, adt):
        a = self.p.adts.get(adt)
        return len(a["v"]) if a else 0

    def variants(self, st, v, adt):
        """Set of possible variant indices of v (of enum type adt)."""
        if v[0] == "adt":
            return frozenset((v[2],))
        t = self.term(v)
        allv = frozenset(range(self.nvariants(adt)))
        if t is None:
            return allv
        f = st.facts.get(t)
        if f and f[0] == "var":
            return f[1] & allv
        return allv

    def assume_var(self, st, t, allowed, adt):
        f = st.facts.get(t)
        cur = f[1] if f and f[0] == "var" else frozenset(range(self.nvariants(adt)))
        new = cur & allowed
        if not new:
            return None
        st = st.copy()
        if len(new) == self.nvariants(adt):
            st.facts.pop(t, None)
        else:
            st.facts[t] = ("var", new)
        if new != cur:
            self.mon.on_var(self, st, t, new, adt)
        return st

    def truth(self, st, v):
        """True / False / None for a boolean value."""
        k = v[0]
        if k == "int":
            return v[1] != 0
        if k == "not":
            r = self.truth(st, v[1])
            return None if r is None else not r
        if k == "isvar":
            cur = st.facts.get(v[1])
            cur = cur[1] if cur and cur[0] == "var" else frozenset(range(self.nvariants(v[2])))
            if cur <= v[3]:
                return True
            if not (cur & v[3]):
                return False
            return None
        if k == "eqc":
            f = st.facts.get(v[1])
            if f:
                if f[0] == "eq":
                    return f[1] == v[2]
                if f[0] == "ne" and v[2] in f[1]:
                    return False
            return None
        t = self.term(v)
        if t:
            f = st.facts.get(t)
            if f and f[0] == "eq":
                return f[1] != 0
        return None

    def assume(self, st, v, want):
        """State in which boolean v == want, or None."""
        k = v[0]
        r = self.truth(st, v)
        if r is not None:
            return st if r == want else None
        if k == "not":
            return self.assume(st, v[1], not want)
        if k == "isvar":
            allv = frozenset(range(self.nvariants(v[2])))
            return self.assume_var(st, v[1], v[3] if want else allv - v[3], v[2])
        if k == "eqc":
            st = st.copy()
            f = st.facts.get(v[1])
            if want:
                st.facts[v[1]] = ("eq", v[2])
            else:
                ne = f[1] if f and f[0] == "ne" else frozenset()
                st.facts[v[1]] = ("ne", ne | {v[2]})
            return st
        t = self.term(v)
        if t:
            st = st.copy()
            st.facts[t] = ("eq", 1 if want else 0)
            if want and isinstance(t[0], tuple) and t[0][0] == "app" and t[0][1] == "streq" and t[1] == ():
                # the same string cannot equal two different constants
                for (i2, p2) in list(st.facts):
                    if i2 != t[0] and isinstance(i2, tuple) and i2[:2] == ("app", "streq") and i2[2] == t[0][2]:
                        if st.facts[(i2, p2)] == ("eq", 1):
                            return None
        return st

    def app(self, op, *args):
        i = ("app", op) + tuple(args)
        if self.depth_of(i) > 9:
            i = ("deep", op, hash(i))
        return ("sym", i, ())

    @staticmethod
    @lru_cache(maxsize=None)
    def depth_of(t):
        if isinstance(t, tuple):
            return 1 + max([Engine.depth_of(x) for x in t] or [0])
        return 0

    def norm(self, st, v, n=4):
        """Argument of a value-numbered term: references are replaced by what they point to."""
        while v[0] == "ref" and n:
            v = self.get(st, (v[1], v[2]))
            n -= 1
        if v[0] == "sym" and n:
            root = ("D", v[1], v[2])
            if root in st.env:
                return ("at", st.env[root])
        return v

    # ------------------------------------------------------------- fresh symbols
    def fresh(self, st, ident, deriv=()):
        """A symbol named by a program point. An older value of the same name is renamed."""
        d = self.deriv.setdefault(ident, set())
        for v in deriv:
            d |= ids_in(v)
        used = False
        for k, v in st.env.items():
            if ident in ids_in(v) or ident in ids_in(k):
                used = True
                break
        if not used:
            for (i, pr) in st.facts:
                if ident == i or ident in ids_in(i):
                    used = True
                    break
        if not used and st.mon is not None and ident in ids_in(st.mon):
            used = True
        if used:
            old = ("old", ident)
            self.deriv.setdefault(old, set()).add(ident)
            env = {}
            for k, v in st.env.items():
                if old in ids_in(k):
                    continue
                env[rename(k, ident, old) if ident in ids_in(k) else k] = \
                    rename(v, ident, old) if ident in ids_in(v) else v
            facts = {}
            live_old = any(old in ids_in(v) for v in st.env.values())
            for (i, pr), f in st.facts.items():
                if old == i or old in ids_in(i):
                    continue        # two generations collapse: forget what was known
                if ident == i or ident in ids_in(i):
                    if live_old:
                        continue
                    i2 = old if i == ident else rename(i, ident, old)
                    facts[(i2, pr)] = f
                else:
                    facts[(i, pr)] = f
            st.env = env
            st.facts = facts
            if st.mon is not None:
                st.mon = rename(st.mon, ident, old)
        return ("sym", ident, ())

    # ------------------------------------------------------------- operands
    def const_val(self, st, fr, c):
        if "fn" in c:
            return ("fn", c["fn"].get("r") or c["fn"]["p"], self._cfreeze(c["fn"]))
        if "str" in c:
            return ("str", c["str"])
        if "bytes" in c:
            return ("str", c["bytes"])
        t = c["t"]
        if "prom" in c:
            owner = fr.fn
            if "promof" in c:
                owner = self.p.fns.get(c["promof"])
            if owner is not None and "promoted" in owner.kind:
                owner = None
            if owner is not None and c["prom"] < len(owner.prom):
                v = self.eval_const_body(owner.prom[c["prom"]], fr)
                if v is not None:
                    return v
            return ("sym", ("prom", fr.fn.name, c["prom"]), ())
        if "v" in c:
            if t[0] == "adt":
                # fieldless enum constant / newtype scalar
                a = self.p.adts.get(t[2])
                if a and a["k"] == "enum":
                    for i, v in enumerate(a["v"]):
                        if v["d"] == c["v"] and not v["f"]:
                            return ("adt", t[2], i, ())
                return ("sym", ("kadt", t[1], c["v"]), ())
            return ("int", c["v"])
        if "const" in c:
            g = self.p.fns.get(c["const"])
            if g is not None:
                v = self.eval_const_body(g, fr)
                if v is not None:
                    return v
            return ("sym", ("const", c["const"]), ())
        if "static" in c:
            return ("sym", ("static", c["static"]), ())
        if c.get("zst"):
            if t[0] == "tuple":
                return UNIT
            if t[0] == "adt":
                a = self.p.adts.get(t[2])
                if a and len(a["v"]) == 1 and not a["v"][0]["f"]:
                    return ("adt", t[2], 0, ())
                if a and a["k"] == "struct":
                    return ("adt", t[2], 0, tuple(TOP for _ in a["v"][0]["f"]))
            if t[0] == "closure":
                return ("clo", t[2], ())
            if t[0] == "fndef":
                return ("fn", t[2], None)
            return UNIT
        return ("sym", ("konst", t[1], repr(sorted((k, v) for k, v in c.items() if k in ("ind",)))), ())

    def _cfreeze(self, c):
        return (c.get("p"), c.get("r"), c.get("trait"), c.get("a"), c.get("ra"))

    def eval_const_body(self, g, fr):
        cache = self.__dict__.setdefault("_constcache", {})
        if g.name in cache:
            return cache[g.name]
        cache[g.name] = None
        sub = Engine(self.p, Monitor())
        sub._constcache = cache
        sub.const_mode = True
        try:
            outs = sub.run(g, [], State())
        except Budget:
            outs = []
        v = None
        if len(outs) == 1:
            st, rv = outs[0]
            v = self._reify(sub, st, rv)
        cache[g.name] = v
        return v

    def _reify(self, eng, st, v, n=8):
        """Turn references into constants of the body's own locals into self-contained values."""
        if n == 0:
            return TOP
        k = v[0]
        if k == "ref":
            inner = self._reify(eng, st, eng.get(st, (v[1], v[2])), n - 1)
            if inner[0] == "str":
                return inner
            return ("ref", ("K", inner), ())
        if k == "adt":
            return ("adt", v[1], v[2], tuple(self._reify(eng, st, x, n - 1) for x in v[3]))
        if k == "tup":
            return ("tup", tuple(self._reify(eng, st, x, n - 1) for x in v[1]))
        if k == "arr":
            return ("arr", tuple(self._reify(eng, st, x, n - 1) for x in v[1]))
        return v

    def operand(self, st, fr, o):
        if o[0] == "k":
            return self.const_val(st, fr, o[1])
        if o[0] in ("c", "m"):
            return self.get(st, self.loc(st, fr, o[1]))
        return TOP

    def discr_of(self, st, v, ty):
        adt = ty[2] if ty[0] == "adt" else None
        if v[0] == "adt":
            a = self.p.adts.get(v[1])
            if a and v[2] < len(a["v"]):
                return ("int", a["v"][v[2]]["d"])
            return TOP
        t = self.term(v)
        if t is not None and adt and adt in self.p.adts:
            cur = self.variants(st, v, adt)
            if len(cur) == 1:
                return ("int", self.p.adts[adt]["v"][next(iter(cur))]["d"])
            return ("discr", t, adt)
        return TOP

    def binop(self, st, op, a, b):
        over = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if a[0] == "int" and b[0] == "int":
            x, y = a[1], b[1]
            r = None
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y,
                     "Div": lambda: int(x / y) if abs(x) < 1 << 50 else x // y, "Rem": lambda: x % y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                     "Shl": lambda: x << y if y < 200 else 0, "Shr": lambda: x >> y,
                     "Eq": lambda: int(x == y), "Ne": lambda: int(x != y), "Lt": lambda: int(x < y),
                     "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y),
                     "Cmp": lambda: (x > y) - (x < y)}[base]()
            except (KeyError, ZeroDivisionError):
                r = None
            if r is not None:
                if over:
                    return ("tup", (("int", r), FALSE))
                if base == "Cmp":
                    return ("adt", "core::cmp::Ordering", r + 1, ())
                return ("int", r)
        if base in ("Eq", "Ne"):
            r = self.eq_values(st, a, b)
            return self.neg(r) if base == "Ne" else r
        if base in ("Lt", "Le", "Gt", "Ge"):
            na, nb = self.norm(st, a), self.norm(st, b)
            # canonical form: Lt / Le
            if base == "Gt":
                return self.app("Lt", nb, na)
            if base == "Ge":
                return self.neg(self.app("Lt", na, nb))
            if base == "Le":
                return self.neg(self.app("Lt", nb, na))
            return self.app("Lt", na, nb)
        if base in ("BitAnd", "BitOr"):
            for x, y in ((a, b), (b, a)):
                t = self.truth(st, x) if x[0] in ("int", "not", "isvar", "eqc") else None
                if x[0] == "int" and x[1] in (0, 1):
                    if base == "BitAnd":
                        return FALSE if x[1] == 0 else y
                    return y if x[1] == 0 else (TRUE if self.is_boolish(y) else self.app(base, a, b))
        r = self.app(base, self.norm(st, a), self.norm(st, b))
        if over:
            return ("tup", (r, self.app("ovf", base, self.norm(st, a), self.norm(st, b))))
        return r

    def is_boolish(self, v):
        return v[0] in ("not", "isvar", "eqc")

    def neg(self, v):
        if v[0] == "int":
            return FALSE if v[1] else TRUE
        if v[0] == "not":
            return v[1]
        return ("not", v)

    def eq_values(self, st, a, b):
        """Boolean value of structural equality (used for == on scalars, strings, fieldless enums)."""
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b and a != TOP:
            return TRUE
        if a[0] == "int" and b[0] == "int" or a[0] == "str" and b[0] == "str":
            return TRUE if a == b else FALSE
        for x, y in ((a, b), (b, a)):
            if x[0] == "discr" and y[0] == "int":
                vs = frozenset(i for i, v in enumerate(self.p.adts[x[2]]["v"]) if v["d"] == y[1])
                return ("isvar", x[1], x[2], vs)
            if x[0] == "adt" and y[0] == "adt":
                if x[1] == y[1] and x[2] != y[2] and self.p.adts.get(x[1], {}).get("k") == "enum":
                    return FALSE
            if y[0] == "adt" and not y[3] and x[0] in ("sym", "symo"):
                if self.p.adts.get(y[1], {}).get("k") == "enum":
                    return ("isvar", self.term(x), y[1], frozenset((y[2],)))
            if y[0] == "int" and x[0] in ("sym",):
                return ("eqc", self.term(x), y[1])
            if y[0] == "int" and x[0] in ("not", "isvar", "eqc"):
                return x if y[1] else self.neg(x)
            if y[0] == "str" and x[0] in ("sym", "symo"):
                return self.app("streq", x, y)
        if repr(b) < repr(a):
            a, b = b, a
        return self.app("eq", a, b)

    def int_cast(self, v, to, frm):
        """A cast between integer types that keeps the width of the value in mind."""
        b, f = INT_BITS.get(to[1]), INT_BITS.get(frm[1])
        if b is None or f is None:
            return v
        if v[0] == "int":
            x = v[1] % (1 << b[0])
            return ("int", x - (1 << b[0]) if b[1] and x >> (b[0] - 1) else x)
        wider = b[0] > f[0] and (b[1] or not f[1]) or b == f
        return v if wider or v[0] not in ("sym", "symo") else ("sym", ("cast", frm[1], to[1], v), ())

    def rvalue(self, st, fr, rv, line):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            l = self.loc(st, fr, rv[1])
            if l[0][0] == "D" and not l[1]:
                # &*p is p
                return ("sym", l[0][1], l[0][2])
            if l[0][0] == "K" and not l[1] and l[0][1][0] in ("str",):
                return l[0][1]
            if l[0][0] == "U":
                return TOP
            return ("ref", l[0], l[1])
        if k == "cast":
            v = self.operand(st, fr, rv[1])
            if "PointerCoercion" in rv[3] or "Transmute" in rv[3] or "PtrToPtr" in rv[3] or "Subtype" in rv[3]:
                return v
            if self.casts and "IntToInt" in rv[3]:
                v = self.int_cast(v, rv[2], rv[4])
            if v[0] == "int":
                return v
            if v[0] in ("not", "isvar", "eqc"):
                return v
            if v[0] == "discr":
                return v
            if v[0] in ("sym",) and "IntToInt" in rv[3]:
                return v
            if v[0] == "adt" and "IntToInt" in rv[3]:
                a = self.p.adts.get(v[1])
                if a and a["k"] == "enum":
                    return ("int", a["v"][v[2]]["d"])
            return v if v[0] in ("sym", "symo", "ref", "str", "fn", "clo") else TOP
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
        if k == "un":
            v = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if v[0] == "int" and v[1] in (0, 1):
                    return self.neg(v)
                if v[0] in ("not", "isvar", "eqc", "sym"):
                    return self.neg(v)
                return self.app("Not", self.norm(st, v))
            if rv[1] == "Neg" and v[0] == "int":
                return ("int", -v[1])
            if rv[1] == "PtrMetadata" and v[0] == "ref":
                x = self.deref_all(st, v)
                if x[0] == "arr":
                    return ("int", len(x[1]))
            return self.app(rv[1], self.norm(st, v))
        if k == "discr":
            return self.discr_of(st, self.get(st, self.loc(st, fr, rv[1])), rv[2])
        if k == "agg":
            ops = tuple(self.operand(st, fr, o) for o in rv[2])
            a = rv[1]
            if a[0] == "adt":
                if len(a) > 3:     # union
                    return ops[0] if ops else TOP
                return ("adt", a[1], a[2], ops)
            if a[0] == "tuple":
                return ("tup", ops)
            if a[0] == "array":
                return ("arr", ops)
            if a[0] == "closure":
                return ("clo", a[1], ops)
            return TOP
        if k == "rep":
            return ("sym", ("rep", fr.fn.name, line), ())
        if k == "tls":
            return ("sym", ("static", rv[1]), ())
        return TOP

    # ------------------------------------------------------------- function-level CFG info
    def prep(self, fn):
        if fn.preds is not None:
            return
        n = len(fn.blocks)
        preds = [0] * n
        succ = []
        for sts, t, u in fn.blocks:
            s = self.succs(t)
            succ.append(s)
            for x in s:
                preds[x] += 1
        # borrowed locals
        borrowed = set()
        use, deff = [], []
        for sts, t, u in fn.blocks:
            us, df = set(), set()

            def rd_place(p, us=us, df=df):
                if p[0] not in df:
                    us.add(p[0])
                for e in p[1]:
                    if isinstance(e, tuple) and e[0] == "i" and e[1] not in df:
                        us.add(e[1])

            def rd_op(o):
                if o[0] in ("c", "m"):
                    rd_place(o[1])

            def rd_rv(rv):
                k = rv[0]
                if k in ("use", "rep", "cast"):
                    rd_op(rv[1])
                elif k == "ref":
                    rd_place(rv[1])
                    if "*" not in rv[1][1]:
                        borrowed.add(rv[1][0])
                elif k == "bin":
                    rd_op(rv[2])
                    rd_op(rv[3])
                elif k == "un":
                    rd_op(rv[2])
                elif k == "discr":
                    rd_place(rv[1])
                elif k == "agg":
                    for o in rv[2]:
                        rd_op(o)
            for st in sts:
                if st[0] == "=":
                    rd_rv(st[2])
                    if st[1][1]:
                        rd_place(st[1])
                    else:
                        df.add(st[1][0])
                elif st[0] == "sd":
                    rd_place(st[1])
            k = t["k"]
            if k == "switch":
                rd_op(t["d"])
            elif k == "call":
                if "fp" in t:
                    rd_op(t["fp"])
                for o in t["a"]:
                    rd_op(o)
                if t["d"][1]:
                    rd_place(t["d"])
                else:
                    df.add(t["d"][0])
            elif k == "assert":
                rd_op(t["c"])
            elif k == "drop":
                rd_place(t["p"])
            elif k == "ret":
                us.add(0)
            use.append(us)
            deff.append(df)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                out = set()
                for x in succ[b]:
                    out |= live[x]
                new = use[b] | (out - deff[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        # loop heads: targets of back edges in a depth-first search
        heads, color = set(), {}
        stack = [(0, iter(succ[0]))] if n else []
        color[0] = 1
        while stack:
            x, it = stack[-1]
            for y in it:
                cy = color.get(y, 0)
                if cy == 1:
                    heads.add(y)
                elif cy == 0:
                    color[y] = 1
                    stack.append((y, iter(succ[y])))
                    break
            else:
                color[x] = 2
                stack.pop()
        fn.loopheads = heads
        fn.live = live
        fn.borrowed = borrowed
        fn.preds = preds

    @staticmethod
    def succs(t):
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "switch":
            return [b for v, b in t["c"]] + [t["o"]]
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    # ------------------------------------------------------------- running
    def frame(self, fn, ctx, stack, subst):
        fr = Frame()
        fr.fn = fn
        fr.ctx = ctx
        fr.stack = stack
        fr.depth = len(stack)
        fr.subst = subst or {}
        key = (fn.name, ctx)
        fr.id = self.frames.setdefault(key, len(self.frames))
        return fr

    def run(self, fn, args, st, ctx=(), stack=(), subst=None):
        """All outcomes of calling fn: list of (state, return value)."""
        self.prep(fn)
        self.visited_fns.add(fn.name)
        fr = self.frame(fn, ctx, stack, subst)
        st = st.copy()
        for i, a in enumerate(args):
            st.env[("L", fr.id, i + 1)] = a
        work = [(0, st)]
        seen = {}
        hist = {}
        outs = {}
        while work:
            b, st = work.pop()
            self.nstates += 1
            if self.nstates > self.mon.max_states:
                raise Budget("state budget exceeded in %s" % fn.name)
            if fn.preds[b] > 1 or b == 0 or b in fn.loopheads:
                self.gc(st, fr, b)
                st = self.widen(st, fr, b, hist)
                k = st.key()
                ss = seen.setdefault(b, set())
                if k in ss:
                    continue
                ss.add(k)
            for nb, nst in self.exec_block(fr, b, st):
                if nb == "ret":
                    rv = nst.env.get(("L", fr.id, 0), UNIT)
                    for kk in [kk for kk in nst.env if kk[0] == "L" and kk[1] == fr.id and not self.const_mode]:
                        # keep nothing of the callee frame
                        del nst.env[kk]
                    self.gc_facts(nst, rv)
                    k = (nst.key(), rv)
                    outs[k] = (nst, rv)
                else:
                    work.append((nb, nst))
        return list(outs.values())

    def widen(self, st, fr, b, hist):
        """At loop heads, integers and arithmetic / application terms that keep changing become opaque."""
        if b not in fr.fn.loopheads:
            return st
        h = hist.setdefault(b, {})
        for k in [k for k in st.env if k[0] == "L" and k[1] == fr.id]:
            nv = self.widen_val(st, fr, b, h, k, (), st.env[k])
            if nv is not st.env[k] and nv != st.env[k]:
                st.env[k] = nv
        return st

    def widen_val(self, st, fr, b, h, k, path, v, depth=0):
        t = v[0]
        if depth > 5:
            return v
        if t == "int" or (t == "sym" and isinstance(v[1], tuple) and v[1][0] in ("app", "deep")):
            s = h.setdefault((k, path), set())
            if "W" in s:
                if v[0] == "int" and v[1] in (0, 1) and v in s:
                    return v
            elif v in s or len(s) < (self.mon.widen_ints if t == "int" else 6):
                s.add(v)
                return v
            s.add("W")
            ident = ("widen", fr.fn.name, b, k[2], path, fr.id)
            self.fresh(st, ident, [v])
            return ("sym", ident, ())
        if t == "adt" and v[3]:
            if v[1].startswith("core::ops::range::Range") and len(v[3]) > 1 and v[3][0][0] == v[3][1][0] == "int" and v[3][1][1] <= 24:
                return v      # takes each value once
            fs = tuple(self.widen_val(st, fr, b, h, k, path + (i,), x, depth + 1) for i, x in enumerate(v[3]))
            return v if fs == v[3] else ("adt", v[1], v[2], fs)
        if t in ("tup", "arr") and v[1]:
            fs = tuple(self.widen_val(st, fr, b, h, k, path + (i,), x, depth + 1) for i, x in enumerate(v[1]))
            return v if fs == v[1] else (t, fs)
        if t == "symo":
            ov = tuple((rp, self.widen_val(st, fr, b, h, k, path + rp, x, depth + 1)) for rp, x in v[3])
            return v if ov == v[3] else ("symo", v[1], v[2], ov)
        return v

    def gc(self, st, fr, b):
        live = fr.fn.live[b]
        bor = fr.fn.borrowed
        for k in [k for k in st.env if k[0] == "L" and k[1] == fr.id]:
            l = k[2]
            if l not in live and l not in bor:
                del st.env[k]
        self.gc_facts(st)

    def gc_facts(self, st, extra=None):
        alive = set()
        for k, v in st.env.items():
            if k[0] == "D":
                continue
            alive |= ids_in(v)
        if extra is not None:
            alive |= ids_in(extra)
        if st.mon is not None:
            alive |= ids_in(st.mon)
        # memory cells reachable from live pointers
        changed = True
        dcells = [k for k in st.env if k[0] == "D"]
        keep = set()
        while changed:
            changed = False
            for k in dcells:
                if k not in keep and (k[1] in alive or self.is_stable(k[1]) or self.mon.pinned(k[1])):
                    keep.add(k)
                    n = ids_in(st.env[k]) - alive
                    if n:
                        alive |= n
                    changed = True
        for k in dcells:
            if k not in keep:
                del st.env[k]
        for key in list(st.facts):
            i = key[0]
            if i in alive or self.is_stable(i) or self.mon.pinned(i):
                continue
            if isinstance(i, tuple) and i and i[0] == "app":
                sub = ids_in(i)
                if sub and all(x in alive or self.is_stable(x) or self.mon.pinned(x) for x in sub):
                    continue
            del st.facts[key]

    @staticmethod
    def is_stable(i):
        return isinstance(i, tuple) and len(i) > 0 and i[0] in ("arg", "static")

    def exec_block(self, fr, b, st):
        """Yields (next block | 'ret', state)."""
        fn = fr.fn
        st = st.copy()
        sts, t, u = fn.blocks[b]
        for s in sts:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], s[3])
                loc = self.loc(st, fr, s[1])
                self.set(st, loc, v)
                self.mon.on_assign(self, st, fr, loc, v, s[3])
            elif s[0] == "sd":
                loc = self.loc(st, fr, s[1])
                v = self.get(st, loc)
                if v[0] == "adt":
                    self.set(st, loc, ("adt", v[1], s[2], v[3]))
                else:
                    self.set(st, loc, ("sym", ("sd", fn.name, b), ()))
            elif s[0] == "dead":
                st.env.pop(("L", fr.id, s[1]), None)
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            v = self.operand(st, fr, t["c"])
            self.asserts.append((t["m"], fr, t["l"]))
            st2 = self.assume(st, v, t["e"])
            return [(t["to"], st2)] if st2 is not None else []
        if k == "drop":
            loc = self.loc(st, fr, t["p"])
            r = self.mon.on_drop(self, st, fr, self.get(st, loc), t["t"], t["l"])
            return [(t["to"], st)]
        if k == "call":
            return self.call(fr, b, t, st)
        return []

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t["d"])
        cases, other = t["c"], t["o"]
        if v[0] == "int":
            for c, bb in cases:
                if c == v[1]:
                    return [(bb, st)]
            return [(other, st)]
        out = []
        if v[0] == "discr":
            key, adt = v[1], v[2]
            vs = self.p.adts[adt]["v"]
            d2i = {x["d"]: i for i, x in enumerate(vs)}
            rest = frozenset(range(len(vs)))
            for c, bb in cases:
                if c in d2i:
                    s2 = self.assume_var(st, key, frozenset((d2i[c],)), adt)
                    rest = rest - {d2i[c]}
                    if s2 is not None:
                        out.append((bb, s2))
            if rest and fr.fn.blocks[other][1]["k"] != "unreachable":
                s2 = self.assume_var(st, key, rest, adt)
                if s2 is not None:
                    out.append((other, s2))
            return out
        isbool = t["t"][0] == "bool"
        if isbool or v[0] in ("not", "isvar", "eqc"):
            for c, bb in cases:
                s2 = self.assume(st, v, c != 0)
                if s2 is not None:
                    out.append((bb, s2))
            vals = {c for c, bb in cases}
            if len(vals) == 1:
                s2 = self.assume(st, v, not next(iter(vals)))
                if s2 is not None:
                    out.append((other, s2))
            return out
        term = self.term(v)
        if term is not None:
            f = st.facts.get(term)
            if f and f[0] == "eq":
                for c, bb in cases:
                    if c == f[1]:
                        return [(bb, st)]
                return [(other, st)]
            ne = f[1] if f and f[0] == "ne" else frozenset()
            for c, bb in cases:
                if c in ne:
                    continue
                s2 = st.copy()
                s2.facts[term] = ("eq", c)
                out.append((bb, s2))
            s2 = st.copy()
            s2.facts[term] = ("ne", ne | frozenset(c for c, bb in cases))
            out.append((other, s2))
            return out
        seen = set()
        for bb in [b for c, b in cases] + [other]:
            if bb not in seen and fr.fn.blocks[bb][1]["k"] != "unreachable":
                seen.add(bb)
                out.append((bb, st.copy()))
        return out

    # ------------------------------------------------------------- calls
    def subst_ty(self, ty, subst, n=6):
        if ty is None or n == 0:
            return ty
        if ty[0] == "param":
            return subst.get(ty[2], ty)
        if ty[3]:
            na = tuple(self.subst_ty(a, subst, n - 1) for a in ty[3])
            if na != ty[3]:
                return (ty[0], ty[1], ty[2], na)
        return ty

    def type_self(self, ty):
        """Impl self name of a type (ADT path or printed type)."""
        if ty is None:
            return None
        if ty[0] == "adt":
            return ty[2]
        return ty[1]

    def resolve(self, st, fr, c, args):
        """Name of the body to analyse for callee c (resolving trait methods by abstract value / substitution)."""
        if "r" in c and c["r"]:
            return c["r"], c.get("ra")
        p = c["p"]
        if c.get("trait"):
            cands = []
            if c.get("a"):
                t = self.subst_ty(c["a"][0], fr.subst)
                cands.append(self.type_self(t))
                # peel references: impls for &T forward to T in this code base
            if args:
                v = args[0]
                for _ in range(4):
                    if v[0] == "adt":
                        cands.append(v[1])
                        break
                    if v[0] == "clo":
                        cands.append("clo")
                        break
                    if v[0] == "ref":
                        v = self.get(st, (v[1], v[2]))
                        continue
                    break
            for s in cands:
                fn = self.p.impl_method.get((p, s))
                if fn and fn in self.p.fns:
                    return fn, None
            # default body of the trait
            if p in self.p.fns and cands and not self.p.fns[p].ext:
                if any(s for s in cands if s and any(s == sn for sn, _ in self.p.trait_impls.get(p, ())) is False and s in self.p.adts):
                    return p, None
        return None, None

    def call(self, fr, b, t, st):
        args = [self.operand(st, fr, o) for o in t["a"]]
        line = t["l"]
        c = outs = None
        if "f" in t:
            c = t["f"]
        else:
            fv = self.operand(st, fr, t["fp"])
            if fv[0] in ("clo", "ref"):
                outs = self.call_value(fr, (b,), line, fv, args, st, t["dt"])
            if fv[0] == "fn" and fv[2]:
                c = {"p": fv[2][0], "r": fv[2][1], "trait": fv[2][2], "a": fv[2][3] or (), "ra": fv[2][4]}
            else:
                c = {"p": "<indirect>", "a": ()}
        if outs is None:
            outs = self.invoke(fr, (b,), line, c, args, st, t["dt"], t)
        res = []
        for s2, rv in outs:
            if t["to"] is None:
                continue
            s2 = s2.copy() if s2 is st else s2
            loc = self.loc(s2, fr, t["d"])
            self.set(s2, loc, rv)
            self.mon.on_assign(self, s2, fr, loc, rv, line)
            res.append((t["to"], s2))
        if t["to"] is None:
            for s2, rv in outs:
                self.panics.append((s2, fr, line, c.get("r") or c["p"]))
                self.mon.on_panic(self, s2, fr, line, c.get("r") or c["p"])
        return res

    def mkcall(self, fr, site, line, c, args, dt, term):
        k = Call()
        k.callee = c
        k.name = c.get("r") or c["p"]
        k.trait = c.get("p") if c.get("trait") else None
        k.args = args
        k.fr = fr
        k.blk = site
        k.site = (fr.fn.name, site, fr.ctx)
        k.line = line
        k.dt = dt
        k.aops = term["a"] if term else None
        k.term = term
        return k

    def invoke(self, fr, site, line, c, args, st, dt=None, term=None):
        """Outcomes [(state, value)] of calling callee c with args."""
        name, ra = self.resolve(st, fr, c, args)
        call = self.mkcall(fr, site, line, c, args, dt, term)
        if name:
            call.name = name
        r = self.mon.before_call(self, st, call)
        if r is not None:
            return r
        outs = self.invoke_inner(fr, site, line, c, args, st, dt, term, call, name, ra)
        res = []
        for s2, rv in outs:
            if s2 is st:
                s2 = st.copy()
            x = self.mon.after_call(self, s2, call, rv)
            if x is False:
                continue
            res.append((s2, rv))
        return res

    def may_inline(self, fr, name):
        fn = self.p.fns.get(name)
        if fn is None or fn.kind == "const":
            return None
        pol = self.mon.inline(self, fn)
        if pol is False or any(r.search(name) for r in self.opaque):
            return None
        if fn.ext and not pol and not any(r.search(name) for r in self.ext_inline):
            return None
        again = (name == fr.fn.name) + sum(1 for s, _ in fr.stack if s == name)
        if again and not (again <= self.mon.recursion and self.mon.recurse and re.search(self.mon.recurse, name)):
            self.recursion.add(name)
            return None
        if fr.depth >= self.mon.max_depth:
            return None
        return fn

    def invoke_inner(self, fr, site, line, c, args, st, dt, term, call, name, ra):
        from models import MODELS
        # closures and fn values: Fn*/call*
        if c["p"] in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut",
                      "core::ops::function::Fn::call"):
            r = self.call_value(fr, site, line, args[0], list(self.untuple(st, args[1])), st, dt)
            if r is not None:
                return r
        for pat, fnc in MODELS:
            if pat.search(call.name) or (call.trait and pat.search(call.trait)):
                r = fnc(self, st, call)
                if r is not None:
                    return r
        if name:
            fn = self.may_inline(fr, name)
            if fn is not None:
                subst = {}
                tys = ra if ra is not None else (c.get("ra") if c.get("ra") is not None else c.get("a"))
                if tys and len(tys) == len(fn.generics):
                    subst = {g: self.subst_ty(t, fr.subst) for g, t in zip(fn.generics, tys)}
                return self.run(fn, args, st, fr.ctx + ((fr.fn.name, site),), fr.stack + ((fr.fn.name, site),), subst)
        if name is None and c.get("trait"):
            cands = self.mon.dispatch(self, st, call)
            if cands:
                outs = []
                for n in cands:
                    fn = self.may_inline(fr, n)
                    if fn is not None:
                        outs += self.run(fn, args, st, fr.ctx + ((fr.fn.name, site, n),), fr.stack + ((fr.fn.name, site),))
                    else:
                        outs += self.opaque_call(fr, site, line, c, args, st, dt, call)
                return outs
        return self.opaque_call(fr, site, line, c, args, st, dt, call)

    def untuple(self, st, v):
        if v[0] == "tup":
            return v[1]
        if v[0] in ("sym", "symo", "top"):
            return tuple(self.proj(v, i) for i in range(4))
        return (v,)

    def call_value(self, fr, site, line, fv, args, st, dt=None):
        """Call a closure / fn item value."""
        v = fv
        n = 0
        while v[0] == "ref" and n < 5:
            v = self.get(st, (v[1], v[2]))
            n += 1
        if v[0] == "clo":
            fn = self.p.fns.get(v[1])
            if fn is None or v[1] == fr.fn.name or fr.depth >= self.mon.max_depth:
                return None
            # self argument: by value, or by reference according to the body's signature
            selfarg = v
            s2 = st
            if fn.locals[1][0] == "ref":
                if fv[0] == "ref":
                    selfarg = fv
                    if fv[0] == "ref" and self.get(st, (fv[1], fv[2]))[0] == "ref":
                        selfarg = self.get(st, (fv[1], fv[2]))
                else:
                    root = ("L", ("clo", fr.id, site), 0)
                    s2 = st.copy()
                    s2.env[root] = v
                    selfarg = ("ref", root, ())
            nargs = fn.argc - 1
            return self.run(fn, [selfarg] + args[:nargs], s2, fr.ctx + ((fr.fn.name, site, v[1]),),
                            fr.stack + ((fr.fn.name, site),), fr.subst)
        if v[0] == "fn":
            f = v[2]
            c = {"p": f[0], "r": f[1], "trait": f[2], "a": f[3] or (), "ra": f[4]} if f else {"p": v[1], "r": v[1], "a": ()}
            # tuple-struct / variant constructor
            adt = self.ctor_of(c["p"])
            if adt is not None:
                return [(st, ("adt", adt[0], adt[1], tuple(args)))]
            return self.invoke(fr, site + ("v",), line, c, args, st, dt)
        return None

    def ctor_of(self, path):
        cache = self.__dict__.setdefault("_ctors", None)
        if cache is None:
            cache = {}
            for a, d in self.p.adts.items():
                if d is None:
                    continue
                if d["k"] == "enum":
                    for i, v in enumerate(d["v"]):
                        cache[a + "::" + v["n"]] = (a, i)
                elif d["k"] == "struct":
                    cache[a] = (a, 0)
            self._ctors = cache
        return cache.get(path)

    def opaque_call(self, fr, site, line, c, args, st, dt, call):
        """Unknown callee: result opaque, &mut arguments havocked, closures may run any number of times."""
        self.opaque_calls[call.name] = self.opaque_calls.get(call.name, 0) + 1
        adt = self.ctor_of(c["p"])
        if adt is not None and not c.get("trait"):
            return [(st, ("adt", adt[0], adt[1], tuple(args)))]
        states = [st.copy()]
        for i, a in enumerate(args):
            v = self.deref_all(st, a)
            if v[0] == "clo" and v[1] in self.p.fns:
                states = self.run_closure_many(fr, site + ("c", i), line, a, states)
        outs = []
        for s in states:
            outs.append((s, self.opaque_result(fr, site, c, args, s, call)))
        return outs

    def opaque_result(self, fr, site, c, args, s, call):
        pure = any(r.search(call.name) for r in PURE) or (call.trait and any(r.search(call.trait) for r in PURE))
        muts = False
        if call.term is not None:
            for i, o in enumerate(call.term["a"]):
                t = self.op_type(fr, o)
                if t is not None and t[0] == "ref" and t[2]:
                    muts = True
        if pure and not muts:
            return self.app(call.name, *[self.norm(s, a) for a in args])
        src = self.behind(s, args)
        self.havoc_args(fr, site, args, s, call)
        return self.fresh(s, ("call", fr.fn.name, site, fr.ctx_id if hasattr(fr, "ctx_id") else self.ctxid(fr)), src)

    def sources(self, v):
        """Every term v was computed from (transitively through opaque calls)."""
        seen, work = set(), set(ids_in(v))
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            work |= self.deriv.get(i, set())
            if isinstance(i, tuple):
                work |= ids_in(i)
        return seen

    def behind(self, st, vals, n=8):
        """vals and everything reachable from them through references held anywhere inside them."""
        out, seen = list(vals), set()

        def walk(v, n):
            if not isinstance(v, tuple) or not n:
                return
            if v and v[0] == "ref" and len(v) == 3:
                if v not in seen:
                    seen.add(v)
                    x = self.get(st, (v[1], v[2]))
                    out.append(x)
                    walk(x, n - 1)
                return
            if v and v[0] in ("sym", "symo") and len(v) >= 3:
                root = ("D", v[1], v[2])
                if root in st.env and root not in seen:
                    seen.add(root)
                    out.append(st.env[root])
                    walk(st.env[root], n - 1)
            for x in v:
                walk(x, n)
        for v in vals:
            walk(v, n)
        return out

    def ctxid(self, fr):
        return fr.id

    def havoc_args(self, fr, site, args, s, call):
        if call.term is None:
            return
        src = self.behind(s, args)
        for i, o in enumerate(call.term["a"]):
            t = self.op_type(fr, o)
            if t is not None and t[0] == "ref" and t[2] and i < len(args):
                a = args[i]
                tgt = None
                if a[0] == "ref":
                    tgt = (a[1], a[2])
                elif a[0] in ("sym", "symo"):
                    tgt = self.deref(a)
                if tgt is not None and tgt[0][0] not in ("K", "U"):
                    old = self.get(s, tgt)
                    if old[0] == "ref":       # &mut &mut T
                        tgt = (old[1], old[2])
                        old = self.get(s, tgt)
                    if old[0] in ("clo", "fn"):
                        continue
                    nv = self.fresh(s, ("mut", fr.fn.name, site, i, self.ctxid(fr)), [old] + src)
                    self.set(s, tgt, nv)

    def op_type(self, fr, o):
        if o[0] in ("c", "m"):
            p = o[1]
            if not p[1]:
                return self.subst_ty(fr.fn.locals[p[0]], fr.subst)
            return None
        if o[0] == "k":
            return o[1]["t"]
        return None

    def run_closure_many(self, fr, site, line, clo, states, mkargs=None, maxit=60):
        """States after calling the closure 0..n times with opaque arguments."""
        allst = {s.key(): s for s in states}
        frontier = list(states)
        it = 0
        while frontier and it < maxit:
            it += 1
            nxt = []
            for s in frontier:
                v = self.deref_all(s, clo)
                fn = self.p.fns[v[1]]
                s = s.copy()
                nargs = fn.argc - 1
                args = [self.fresh(s, ("elem", fr.fn.name, site, j, self.ctxid(fr)), [v]) for j in range(nargs)]
                r = self.call_value(fr, site + ("b",), line, clo, args, s)
                if r is None:
                    continue
                for s2, rv in r:
                    self.gc_facts(s2)
                    k = s2.key()
                    if k not in allst:
                        allst[k] = s2
                        nxt.append(s2)
            frontier = nxt
        if frontier:
            raise Budget("closure iteration in %s did not converge" % fr.fn.name)
        return list(allst.values())

    # ------------------------------------------------------------- entry
    def analyse(self, fn, args=None, st=None):
        """Analyse fn as a root with opaque arguments (or the given ones)."""
        if isinstance(fn, str):
            fn = self.p.fns[fn]
        st = st or State(mon=self.mon.init)
        if args is None:
            args = self.default_args(fn)
        self.root = fn
        outs = self.run(fn, args, st)
        self.paths += len(outs)
        return outs

    def default_args(self, fn):
        a = []
        for i in range(fn.argc):
            a.append(("sym", ("arg", i + 1), ()))
        return a
