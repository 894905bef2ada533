"""F07: a pattern made of several parts, from its source to the part of the input it matches and the names it defines."""
import copy
import itertools
from kit import *
from rules import rule
from strs import text, text_call, parts_of
from props.fc_window import S
from props.fc_report import get, put
from props.fc_env import Env, Run, Names

COW = "alloc::borrow::Cow"
START, END, ID = S("input", "start"), S("input", "end"), S("input", "id")

TEXTS = ("src", "text", "name", "text of", "esc", "shown", "numpat")


def rng(lo, hi):
    return ("adt", "core::ops::range::Range", 0, (lo, hi))


def sspan(lo, hi):
    return ("adt", "sspan", 0, (lo, hi))


class Smart(Env):
    """mon: 'ev' the searches made: (what, start, end, anchored, outcome)."""
    watch = Env.watch + (r"SmartMatcherBuilder", r"SmartSearcher", r"regex_automata::meta::Regex::(find|search_captures)$", r"SubstringMatcher as .*::try_match$")
    force = Env.force + (r"CheckPattern(Part)?::", r"filecheck::pattern::", r"filecheck::ast::", r"SmartMatcher", r"MatchOp", r"Operand", r"filecheck::input::Input::", r"Number", r"smart::", r"litcheck_core::range::range_from_bounds", r"context::", r"filecheck::env::")
    stop = (r"^log::", r"SourceSpan::", r"Cursor::set_bounds", r"CheckFailedError::", r"errors::", r"build_error_to_diagnostic", r"fmt::Debug", r"Input::next_newline", r"Input::prev_newline", r"NumberFormat::describe", r"core::hint::must_use")
    max_states = 400000
    recurse = r"::evaluate_expr$"
    small = 60
    attempts = 2
    fails = None

    def setup(self, r):
        Env.setup(self, r)
        self.r = r
        self.mres, self.mty, self.info = adt(r, "MatchResult", "filecheck"), adt(r, "MatchType", "filecheck"), adt(r, "MatchInfo", "filecheck")
        self.inp, self.num = adt(r, "Input", "filecheck::input"), adt(r, "Number", "filecheck::expr")
        self.libspan = "libspan"
        self.cinfo, self.val = adt(r, "CaptureInfo", "filecheck"), adt(r, "Value", "filecheck::expr")
        self.numf, n = ([f["n"] if isinstance(f, dict) else f for f in r.p.adts[a]["v"][0]["f"]] for a in (self.num, self.inp))
        rg = adt(r, "Range", "litcheck_core::range")
        d = lambda lo, hi, anch: ("adt", self.inp, 0, tuple({"source_id": ID, "buffer": S("buffer"), "span": ("adt", rg, 0, (lo, hi)), "anchored": anch}.get(x, S("input", x)) for x in n))  # noqa: E731
        self.whole = d(S("whole", "start"), S("whole", "end"), FALSE)
        self.mkin = d
        return self

    limit = 4

    # traits of the test's surroundings: the type of the receiver decides
    def dispatch(self, e, st, c):
        if not re.search(r"context::Context|env::LexicalScope|search::Input|RangeBounds", c.trait or "") or not c.args:
            return None
        v = e.deref_all(st, c.args[0])
        if v[0] != "adt" or not isinstance(v[1], str):
            return None
        n = e.p.impl_method.get((c.trait, v[1]), c.trait)
        return [n] if n in e.p.fns else None

    def uncow(self, e, st, x):
        v = e.deref_all(st, x)
        for _ in range(6):
            if v[0] == "adt" and v[1] == COW:
                v = e.deref_all(st, v[3][0])
            elif v[0] == "adt" and v[1] == self.span:
                v = e.deref_all(st, v[3][self.it])
            else:
                break
        return v

    def new_root(self, st, key, x):
        s = st.copy()
        root = ("L", key, 0)
        s.env[root] = x
        return s, ("ref", root, ())

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        v = self.spans(e, st, c, nm, last)
        if v is None:
            v = self.strings(e, st, c, nm, last)
        if v is None:
            v = self.regexes(e, st, c, nm, last)
        if v is None:
            v = Env.before_call(self, e, st, c)
        return v

    # places in the check file do not matter; places in the input are pairs of offsets
    def spans(self, e, st, c, nm, last):
        if re.search(r"SourceSpan::(new|at|from_range_unchecked|try_from_range)$", nm):
            v = e.deref_all(st, c.args[1])
            if v[0] == "adt" and len(v[3]) == 2:
                return [(st, sspan(e.norm(st, v[3][0]), e.norm(st, v[3][1])))]
            return [(st, S("where"))]
        if last in ("start_bound", "end_bound") and c.args:
            x = e.deref_all(st, c.args[0])
            if x[0] == "adt" and isinstance(x[1], str):
                B = "core::ops::range::Bound"
                k = x[1].rsplit("::", 1)[-1]
                B = "core::ops::range::Bound"
                if k in ("Range", "RangeFrom", "RangeTo", "RangeFull"):
                    v = (x[3][0] if k in ("Range", "RangeFrom") else None) if last == "start_bound" else x[3][1] if k == "Range" else x[3][0] if k == "RangeTo" else None
                    n = "Unbounded" if v is None else "Included" if last == "start_bound" else "Excluded"
                    if v is None:
                        return [(st, ("adt", B, vidx(self.r, B, n), ()))]
                    st, v = self.new_root(st, ("bound", c.fr.id, c.blk), v)
                    return [(st, ("adt", B, vidx(self.r, B, n), (v,)))]
        if re.search(r"core::range::Range as core::convert::From<.*>::from$", nm):
            v = e.deref_all(st, c.args[0])
            if v[0] == "adt" and len(v[3]) == 2:
                return [(st, rng(*v[3]))]
        if re.search(r"core::range::Range::new$", nm):
            return [(st, rng(c.args[0], c.args[1]))]
        if not c.args:
            return None
        x = e.deref_all(st, c.args[0])
        if re.search(r"span::Span::new$", nm):
            return [(st, ("adt", self.span, 0, tuple(c.args[-1] if f == "spanned" else x if x[0] == "adt" and x[1] == "sspan" else S("where") for f in self.spanf)))]
        if x[0] == "adt" and x[1] == self.span and last == "span":
            return [(st, [e.deref_all(st, y) for f, y in zip(self.spanf, x[3]) if f != "spanned"][0])]
        if x[0] == "adt" and x[1] == "sspan":
            if last in ("start", "end"):
                return [(st, x[3][0 if last == "start" else 1])]
            if last in ("into_slice_index", "into_range", "into", "from"):
                return [(st, rng(*x[3]))]
            if last in ("clone", "span"):
                return [(st, x)]
            return [(st, S("where"))] if "SourceSpan" in nm else None
        if last in ("span", "start", "end", "source_id", "into_slice_index", "shift", "extend") and (x[0] == "sym" and x[1][0] == "where" or "SourceSpan" in nm):
            return [(st, S("where"))]
        if last == "span" and "Spanned" in nm + str(c.trait):
            return [(st, S("where"))]
        if last in ("to_usize", "to_u32") and "ByteIndex" in nm:
            return [(st, x)]
        return None

    def strings(self, e, st, c, nm, last):
        if re.search(r"vec::Vec(<.*>)?::(new|with_capacity)$", nm):
            return None
        if not c.args:
            return text_call(e, st, c)
        x0 = e.deref_all(st, c.args[0])
        if re.search(r"fmt::rt::Argument(<.*>)?::new_", nm) and x0[0] in ("adt", "sym") and (x0[1] == self.num or x0[0] == "sym" and x0[1][0] in ("parsed", "num")):
            i, j = fidx(self.r, self.num, "value"), fidx(self.r, self.num, "format")
            return [(st, ("sym", ("fmtarg", last, (S("shown", e.norm(st, e.proj(x0, i)), e.norm(st, e.proj(x0, j))),)), ()))]
        if re.search(r"regex_syntax::(escape_into|escape)$|regex::escape$", nm):
            out = tuple(("esc", p) if isinstance(p, tuple) else re.escape(p) for p in parts_of(e, st, self.uncow(e, st, c.args[0])))
            out = tuple(("sym", p, ()) if isinstance(p, tuple) else p for p in out)
            if len(c.args) == 1:
                return [(st, text(out))]
            s = st.copy()
            x = c.args[1]
            while e.get(s, (x[1], x[2]))[0] == "ref":
                x = e.get(s, (x[1], x[2]))
            e.set(s, (x[1], x[2]), text(parts_of(e, st, c.args[1]) + out))
            return [(s, UNIT)]
        if re.search(r"Symbol::as_str$", nm):
            return [(st, e.norm(st, e.deref_all(st, c.args[0])))]
        if re.search(r"Symbol::intern$", nm):
            p = parts_of(e, st, c.args[0])
            return [(st, p[0] if len(p) == 1 and not isinstance(p[0], str) else text(p))]
        if last in ("is_empty", "len", "chars", "map", "sum", "trim", "clear") or re.search(r"mem::(take|replace)$", nm):
            v = self.uncow(e, st, c.args[0])
            if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] in TEXTS:
                p = parts_of(e, st, v)
                if last == "is_empty":
                    return [(st, FALSE if p else TRUE)]
                if last == "clear":
                    return [(self.store(e, st, c.args[0], text(())), UNIT)]
                if last in ("take", "replace"):
                    s = st.copy()
                    x = c.args[0]
                    while e.get(s, (x[1], x[2]))[0] == "ref":
                        x = e.get(s, (x[1], x[2]))
                    e.set(s, (x[1], x[2]), text(()) if last == "take" else c.args[1])
                    return [(s, v)]
                if last == "trim":
                    return [(st, v)]
                if last in ("len", "chars"):
                    return [(st, S("length"))]
            if v == S("length"):
                return [(st, v)]
        c2 = copy.copy(c)
        c2.args = [y if (y[0] == "ref" and i == 0 and last in ("push", "push_str", "write_str", "write_fmt", "write_char", "add_assign")) else self.unwrap(e, st, y) for i, y in enumerate(c.args)]
        x = self.uncow(e, st, c.args[0])
        if last in ("as_ref", "deref", "borrow", "clone", "into_owned", "to_string", "inner", "into", "from", "to_owned") and len(c.args) == 1:
            if x[0] == "sym" and isinstance(x[1], tuple) and x[1][0] in TEXTS or x[0] == "str":
                y = e.deref_all(st, c.args[0])
                if last == "clone" and y[0] == "adt":
                    return [(st, y)]
                if y[0] == "adt" and y[1] == self.span:
                    return None if last not in ("as_ref",) else self.as_ref(st, c, y[3][self.it])
                return [(st, x)]
        return text_call(e, st, c2)

    def unwrap(self, e, st, y):
        v = e.deref_all(st, y)
        return self.uncow(e, st, y) if v[0] == "adt" and v[1] == COW else y

    def parse(self, e, st, t, fmt):
        """A number read from text t, the same every time."""
        t = parts_of(e, st, t)
        t = t[0] if len(t) == 1 else text(t)
        n = ("adt", self.num, 0, tuple({"format": some(fmt), "value": S("parsed", t, fmt)}.get(x, S("where")) for x in self.numf))
        y, no = (e.assume(st, ("sym", ("app", "parses", t, fmt), ()), w) for w in (True, False))
        return [(s, v) for s, v in ((y, ok(n)), (no, err(S("not a number")))) if s is not None]

    # the libraries: what is built from which text, and what each search was asked
    def place(self, e, st, x):
        while x[0] == "ref":
            v = e.get(st, (x[1], x[2]))
            if v[0] != "ref":
                return (x[1], x[2]), v
            x = v
        return None, x

    def store(self, e, st, x, v):
        s = st.copy()
        e.set(s, self.place(e, st, x)[0], v)
        return s

    @staticmethod
    def groups_of(parts):
        """The groups of a regular expression, each expression of the user's having one without a name."""
        out, wait = [NONE], False
        for p in parts:
            if isinstance(p, str):
                for g in re.finditer(r"\(\?P<(\w*)(>?)|\((?!\?)", p):
                    if g.group(1) is None:
                        out.append(NONE)
                    elif g.group(2):
                        out.append(some(S("name", g.group(1))))
                    else:
                        wait = True
            elif wait:
                out.append(some(p))
                wait = False
            elif p[0] == "sym" and p[1][0] == "src" and p[1][1] != "lit":
                out.append(NONE)
            elif p[0] == "sym" and p[1][0] == "numpat" and p[1][2] is not None:
                out.append(some(p[1][2]))
        return tuple(out)

    def pid(self, e, st, x):
        v = e.norm(st, e.deref_all(st, x))
        return v[1] if v[0] == "int" else 0 if v[0] == "sym" else None

    @staticmethod
    def slot(ginfo, pid, gid):
        n = 0
        for i, g in enumerate(ginfo[1]):
            if i == pid:
                return n + 2 * gid if gid < len(g[1]) else None
            n += 2 * len(g[1])
        return None

    def input_of(self, e, st, x):
        """(start, end, anchored) of an input of ours or of a library's."""
        v = e.deref_all(st, x)
        if v[0] == "adt" and v[1] == "libin":
            return v[3][1:4]
        if v[0] == "adt" and v[1] == self.inp:
            rg = e.deref_all(st, v[3][fidx(self.r, self.inp, "span")])
            return tuple(e.norm(st, y) for y in (e.proj(rg, 0), e.proj(rg, 1), v[3][fidx(self.r, self.inp, "anchored")]))
        return None

    def searched(self, e, st, what, inp, how):
        """The outcomes of a search: no match, or one at unknown places."""
        ev = get(st.mon, "ev", ())
        lo, hi, anch = inp
        n = len(ev)
        outs = []
        s = st.copy()
        s.mon = put(s.mon, ev=ev + ((what, lo, hi, anch, None, how),))
        outs.append((s, None))
        if n < self.limit:
            for t in ((TRUE,) if anch == TRUE else (FALSE,) if anch == FALSE else (TRUE, FALSE)):
                s = st.copy()
                if anch not in (TRUE, FALSE):
                    s = e.assume(s, anch, t == TRUE)
                    if s is None:
                        continue
                m = (lo if t == TRUE else S("at", n), S("to", n))
                s.mon = put(s.mon, ev=ev + ((what, lo, hi, anch, m, how),))
                outs.append((s, m))
        return outs

    def regexes(self, e, st, c, nm, last):
        a0 = e.deref_all(st, c.args[0]) if c.args else None
        kind = a0[1] if a0 and a0[0] == "adt" and isinstance(a0[1], str) else None
        # numbers
        if re.search(r"NumberFormat::pattern(_nocapture)?$", nm):
            name = None
            if len(c.args) > 1:
                k, x = option_of(e, st, c.args[1])
                name = e.norm(st, e.deref_all(st, x)) if k == "some" else None
            return [(st, text((S("numpat", e.norm(st, a0), name),)))]
        if re.search(r"Number::parse_with_format$", nm):
            return self.parse(e, st, self.uncow(e, st, c.args[0]), e.norm(st, e.deref_all(st, c.args[1])))
        if re.search(r"Operand::as_numeric$", nm):
            x = e.deref_all(st, e.proj(e.proj(a0, 0), fidx(self.r, self.cinfo, "value")))
            if x[0] == "adt" and vname(e.p, x[1], x[2]) == "Str":
                k, f = option_of(e, st, c.args[2])
                return self.parse(e, st, self.uncow(e, st, x[3][0]), e.norm(st, e.deref_all(st, f)) if k == "some" else S("default format"))
        if re.search(r"NumberFormat as core::default::Default>::default$", nm) or last == "unwrap_or_default" and "NumberFormat" in repr(c.callee.get("a")):
            k, f = option_of(e, st, c.args[0]) if c.args else (None, None)
            return [(st, f if k == "some" else S("default format"))]
        # building
        if re.search(r"regex_automata::.*syntax::Config::new$", nm):
            return [(st, ("adt", "syn", 0, (FALSE, FALSE, ())))]
        if kind == "syn":
            x = a0[3]
            b = e.norm(st, e.deref_all(st, c.args[1])) if len(c.args) > 1 else None
            x = (b, x[1], x[2]) if last == "multi_line" else (x[0], b, x[2]) if last == "case_insensitive" else (x[0], x[1], x[2] + ((last, b),))
            return [(st, ("adt", "syn", 0, x))]
        if re.search(r"regex_automata::meta::regex::Config::new$", nm):
            return [(st, ("adt", "meta", 0, ((),)))]
        if kind == "meta":
            return [(st, ("adt", "meta", 0, (a0[3][0] + ((last, e.norm(st, e.deref_all(st, c.args[1]))),),)))]
        if re.search(r"meta::regex::Regex::builder$|meta::regex::Builder::new$", nm):
            return [(st, ("adt", "rxb", 0, (("adt", "syn", 0, (FALSE, FALSE, ())), ("adt", "meta", 0, ((),)))))]
        if kind == "rxb" and last in ("syntax", "configure"):
            x = (c.args[1], a0[3][1]) if last == "syntax" else (a0[3][0], c.args[1])
            return [(self.store(e, st, c.args[0], ("adt", "rxb", 0, x)), c.args[0])]
        if kind == "rxb" and last == "build" or re.search(r"meta::regex::Regex::new$", nm):
            t = parts_of(e, st, self.uncow(e, st, c.args[-1]))
            syn = a0[3][0][3] if kind == "rxb" else (FALSE, FALSE, ())
            meta = a0[3][1][3] if kind == "rxb" else ((),)
            outs = [(st, ok(("adt", "rx", 0, (t, syn, meta))))]
            if kind == "rxb":
                s = st.copy()
                s.mon = put(s.mon, bad=True)
                outs.append((s, err(S("bad regex"))))
            return outs
        if re.search(r"AhoCorasickBuilder::new$|AhoCorasick::builder$", nm):
            return [(st, ("adt", "acb", 0, ((),)))]
        if kind == "acb":
            if last == "build":
                els = self.list_of(e, st, c.args[1])
                if els is None:
                    return None
                t = tuple(parts_of(e, st, self.uncow(e, st, x)) for x in els)
                s = st.copy()
                s.mon = put(s.mon, bad=True)
                return [(st, ok(("adt", "ac", 0, (t,) + a0[3]))), (s, err(S("bad literal")))]
            s = self.store(e, st, c.args[0], ("adt", "acb", 0, (a0[3][0] + ((last, e.norm(st, e.deref_all(st, c.args[1]))),),)))
            return [(s, c.args[0])]
        # groups
        if kind == "rx":
            if last == "group_info":
                return self.as_ref(st, c, ("adt", "ginfo", 0, (("arr", (("arr", self.groups_of(a0[3][0])),)),)))
            if last == "create_captures":
                g = ("arr", (("arr", self.groups_of(a0[3][0])),))
                return [(st, self.caps(g))]
        if re.search(r"GroupInfo::new$", nm):
            els = self.list_of(e, st, c.args[0])
            if els is None:
                return None
            gs = []
            for x in els:
                y = self.list_of(e, st, x)
                if y is None:
                    return None
                gs.append(("arr", tuple(e.norm(st, z) for z in y)))
            return [(st, ok(("adt", "ginfo", 0, (("arr", tuple(gs)),))))]
        if kind == "ginfo":
            gs = a0[3][0]
            if last == "clone":
                return [(st, a0)]
            if last == "pattern_len":
                return [(st, ("int", len(gs[1])))]
            if last in ("group_len", "pattern_names", "to_index", "slot", "slots", "to_name"):
                pid = self.pid(e, st, c.args[1])
                if pid is None or pid >= len(gs[1]):
                    return [(st, ("int", 0) if last == "group_len" else NONE)]
                g = gs[1][pid][1]
                if last == "group_len":
                    return [(st, ("int", len(g)))]
                if last == "pattern_names":
                    return [(st, ("iter", "arr", ("arr", g), ("int", 0)))]
                if last == "to_index":
                    n = parts_of(e, st, c.args[2])
                    hit = [i for i, x in enumerate(g) if x != NONE and parts_of(e, st, x[3][0]) == n]
                    return [(st, some(("int", hit[0])) if hit else NONE)]
                gid = e.norm(st, e.deref_all(st, c.args[2]))
                if gid[0] != "int":
                    return None
                if last == "to_name":
                    return [(st, g[gid[1]] if gid[1] < len(g) else NONE)]
                k = self.slot(gs, pid, gid[1])
                return [(st, NONE if k is None else some(("int", k)) if last == "slot" else some(("tup", (("int", k), ("int", k + 1)))))]
        if re.search(r"Captures::all$", nm) and kind == "ginfo":
            return [(st, self.caps(a0[3][0]))]
        if kind == "caps":
            gs, pid, slots = a0[3]
            if last == "set_pattern":
                k, x = option_of(e, st, c.args[1])
                v = some(("int", self.pid(e, st, x))) if k == "some" else NONE
                return [(self.store(e, st, c.args[0], ("adt", "caps", 0, (gs, v, slots))), UNIT)]
            if last == "group_info":
                return self.as_ref(st, c, ("adt", "ginfo", 0, (gs,)))
            if last == "group_len":
                return [(st, ("int", len(gs[1][0][1])))]
            if last in ("slots", "slots_mut"):
                loc = self.place(e, st, c.args[0])[0]
                return [(st, ("ref", loc[0], loc[1] + (2,)))]
            if last == "pattern":
                return [(st, pid)]
            if last == "is_match":
                return [(st, FALSE if pid == NONE else TRUE)]
            if last in ("get_match", "get_group", "iter"):
                k, x = option_of(e, st, pid)
                if k != "some":
                    return [(st, NONE)] if last != "iter" else None
                p = self.pid(e, st, x)

                def group(i):
                    j = self.slot(gs, p, i)
                    if j is None or slots[1][j] == NONE or slots[1][j + 1] == NONE:
                        return None
                    return slots[1][j][3][0], slots[1][j + 1][3][0]
                if last == "iter":
                    out = tuple(NONE if group(i) is None else some(("adt", self.libspan, 0, group(i))) for i in range(len(gs[1][p][1])))
                    return [(st, ("iter", "arr", ("arr", out), ("int", 0)))]
                gid = 0 if last == "get_match" else e.norm(st, e.deref_all(st, c.args[1]))[1]
                if not isinstance(gid, int):
                    return None
                g = group(gid)
                if g is None:
                    return [(st, NONE)]
                return [(st, some(("adt", "libm", 0, (("int", p),) + g) if last == "get_match" else ("adt", self.libspan, 0, g)))]
        if re.search(r"NonMaxUsize::new$", nm):
            return [(st, some(c.args[0]))]
        if re.search(r"NonMaxUsize::get$|(PatternID|SmallIndex)::(new_unchecked|as_usize|as_u32|must)$", nm):
            return [(st, ("int", self.pid(e, st, c.args[0])) if "NonMax" not in nm else e.norm(st, a0))]
        if re.search(r"(PatternID|SmallIndex)::one_more$", nm):
            return [(st, ("int", self.pid(e, st, c.args[0]) + 1))]
        # searching
        if re.search(r"(regex_automata|aho_corasick)::util::search::Input::new$", nm):
            return [(st, ("adt", "libin", 0, (e.norm(st, a0), S("first byte"), S("last byte"), FALSE)))]
        if kind == "libin":
            x = list(a0[3])
            if last in ("range", "span"):
                rg = e.deref_all(st, c.args[1])
                if rg[0] == "adt" and rg[1] == "sspan" or len(rg[3] if rg[0] == "adt" else ()) == 2:
                    x[1], x[2] = (e.norm(st, y) for y in rg[3])
                    return [(st, ("adt", "libin", 0, tuple(x)))]
                return None
            if last == "anchored":
                v = e.norm(st, e.deref_all(st, c.args[1]))
                n = vname(e.p, v[1], v[2]) if v[0] == "adt" else None
                x[3] = TRUE if n == "Yes" else FALSE if n == "No" else S("anchored?")
                return [(st, ("adt", "libin", 0, tuple(x)))]
            if last in ("source_id",):
                return [(st, ID)]
            if last in ("into", "from", "clone"):
                return [(st, a0)]
            if last in ("get_anchored", "get_span", "start", "end"):
                return None
        if kind == self.inp and last in ("into", "from") and len(c.args) == 1:
            x = self.input_of(e, st, a0)
            return [(st, ("adt", "libin", 0, (e.norm(st, a0[3][fidx(self.r, self.inp, "buffer")]),) + x))]
        if kind in ("rx", "ac") and last in ("find", "search", "try_find", "is_match", "search_captures", "captures"):
            inp = self.input_of(e, st, c.args[1])
            if inp is None:
                return None
            outs = []
            for s, m in self.searched(e, st, a0, inp, kind):
                if last == "is_match":
                    outs.append((s, FALSE if m is None else TRUE))
                elif last in ("find", "search", "try_find"):
                    v = NONE if m is None else some(("adt", "libm", 0, (("int", 0),) + m))
                    outs.append((s, ok(v) if last == "try_find" else v))
                elif last == "search_captures":
                    caps = e.deref_all(s, c.args[2])
                    gs = caps[3][0]
                    if m is None:
                        new = self.caps(gs)
                    else:
                        n = len(get(s.mon, "ev")) - 1
                        sl = [some(m[0]), some(m[1])]
                        for i in range(1, len(gs[1][0][1])):
                            sl += [some(S("from", n, i)), some(S("till", n, i))]
                        new = ("adt", "caps", 0, (gs, some(("int", 0)), ("arr", tuple(sl))))
                    outs.append((self.store(e, s, c.args[2], new), UNIT))
                else:
                    return None
            return outs
        if kind == "libm":
            p, lo, hi = a0[3]
            return {"range": [(st, rng(lo, hi))], "span": [(st, ("adt", self.libspan, 0, (lo, hi)))], "start": [(st, lo)], "end": [(st, hi)],
                    "len": [(st, S("length"))], "pattern": [(st, p)], "is_empty": None}.get(last)
        if kind == self.libspan and last == "range":
            return [(st, rng(*a0[3]))]
        # our input
        if re.search(r"context::Context::search$|context::(MatchContext|ContextGuard) as .*Context(<.*>)?>::search$", nm):
            return [(st, self.whole)]
        if kind == self.inp and last == "as_str":
            rg = e.deref_all(st, c.args[1])
            if rg[0] == "adt" and len(rg[3]) == 2:
                return [(st, S("text of", e.norm(st, rg[3][0]), e.norm(st, rg[3][1])))]
        if last == "min" and len(c.args) == 2 and "cmp" in nm and any(e.deref_all(st, x) == S("buffer", "len") for x in c.args):
            return [(st, [x for x in c.args if e.deref_all(st, x) != S("buffer", "len")][0])]
        if last == "len" and a0 == S("buffer"):
            return [(st, S("buffer", "len"))]
        if kind == self.inp and last == "as_slice":
            return [(st, S("bytes"))]
        if last == "is_empty" and a0 == S("bytes"):
            return [(st, FALSE)]     # a number is never empty, so that searching is as good as giving up
        if last == "canonicalize_horizontal_whitespace":
            return [(st, c.args[0])]
        if last == "describe" or last == "must_use":
            return [(st, S("some text") if last == "describe" else c.args[0])]
        if last in ("source_file", "input_file", "match_file") and "ontext" in nm:
            return [(st, some(S("file")) if last == "source_file" else S("file"))]
        return None

    def caps(self, gs):
        n = sum(2 * len(g[1]) for g in gs[1])
        return ("adt", "caps", 0, (gs, NONE, ("arr", (NONE,) * n)))

    def list_of(self, e, st, x):
        v = e.deref_all(st, x)
        if v[0] == "arr":
            return v[1]
        w, _ = self.vec_of(e, st, x)
        return None if w is None else w[1]


class Pat(Run):
    def __init__(self, r):
        Run.__init__(self, r)
        self.m = Smart(r.p).setup(r)
        self.part = adt(r, "CheckPatternPart", "filecheck")
        self.rp = adt(r, "RegexPattern", "filecheck")
        self.match = adt(r, "Match", "filecheck::ast")
        self.pat = adt(r, "CheckPattern", "filecheck")

    def struct(self, a, i=0, **kw):
        return ("adt", a, i, tuple(kw.get(n, S("where")) for n in [f["n"] if isinstance(f, dict) else f for f in self.p.adts[a]["v"][i]["f"]]))

    def cow(self, v):
        return ("adt", COW, 0, (v,))

    def sp(self, v):
        n = self.fields(self.m.span)
        return ("adt", self.m.span, 0, tuple(v if f == "spanned" else S("where") for f in n))

    def item(self, k, i):
        """Part i of a pattern, of kind k."""
        w = lambda n, *x: ("adt", self.part, vidx(self.r, self.part, n), x)  # noqa: E731
        mt = lambda n, **kw: w("Match", self.struct(self.match, vidx(self.r, self.match, n), **kw))  # noqa: E731
        src = S("src", k, i)
        if k == "lit":
            return w("Literal", self.sp(self.cow(src)))
        if k == "re":
            return w("Regex", self.struct(self.rp, pattern=self.sp(self.cow(src)), captures=("arr", ())))
        eq = ("adt", adt(self.r, "Constraint", "filecheck::ast"), 0, ())
        nm = lambda s: self.name("User", s)  # noqa: E731
        if k in ("cap", "recap"):
            return mt("Substitution", name=nm("x" if k == "recap" else "d%d" % i), pattern=some(self.sp(self.cow(src))))
        if k == "sub":
            return mt("Substitution", name=nm("x"), pattern=NONE)
        fmt = some(S("fmt", i))
        if k == "num":
            return mt("Numeric", format=fmt, capture=NONE, constraint=eq, expr=NONE)
        if k == "ncap":
            return mt("Numeric", format=fmt, capture=some(nm("d%d" % i)), constraint=eq, expr=NONE)
        if k in ("own", "ownx"):
            who = nm("d%d" % [j for j in range(i) if self.kinds[j] in ("cap", "ncap", "cons")][-1])
            if k == "own":
                return mt("Substitution", name=who, pattern=NONE)
            return mt("Numeric", format=fmt, capture=NONE, constraint=eq, expr=some(self.var(who)))
        ex = self.var(nm("x"))
        if k == "expr":
            return mt("Numeric", format=fmt, capture=NONE, constraint=eq, expr=some(ex))
        if k == "cons":
            return mt("Numeric", format=fmt, capture=some(nm("d%d" % i)), constraint=eq, expr=some(ex))
        raise KeyError(k)

    def var(self, name):
        ex = adt(self.r, "Expr", "filecheck::expr")
        return ("adt", ex, vidx(self.r, ex, "Var"), (name,))

    def pattern(self, kinds):
        self.kinds = kinds
        return ("adt", self.pat, vidx(self.r, self.pat, "Match"), (self.sp(("arr", tuple(self.item(k, i) for i, k in enumerate(kinds)))),))


    def context(self, vs):
        """A test in which the variables vs have values."""
        st, ctx = self.new([], False)
        for n, v in vs.items():
            st = self.insert(st, ctx, "User", n, v)
        cfg = [("ref", k, ()) for k, v in st.env.items() if v[0] == "adt" and v[1] == self.cfg and k[1][0] == "keep"][0]
        return st, cfg, ctx

    def val(self, k):
        """A value of a variable."""
        if k in ("undef", "str"):
            return self.value("Undef" if k == "undef" else "Str", S("src", "value", 0))
        return self.value("Num", S("number", "value"), NONE if k == "bare" else some(S("fmt", "value")))

    def value(self, k, x, fmt=None):
        a, ex = self.m.val, adt(self.r, "Expr", "filecheck::expr")
        f = () if k == "Undef" else (self.cow(x),) if k == "Str" else (("adt", ex, vidx(self.r, ex, "Num"), (self.struct(self.m.num, format=fmt, value=x),)),)
        return ("adt", a, vidx(self.r, a, k), f)

    def envref(self, st, ctx):
        """A reference to the variables of a test."""
        mc = self.e.deref_all(st, ctx)
        return ("ref", ctx[1], ctx[2] + (fidx(self.r, mc[1], "env"),))

    def compile(self, st, cfg, kinds):
        """The matchers a pattern is compiled to (without those of failures)."""
        e, outs = analyse(self.r, self.fn(r"filecheck::pattern::Pattern::compile$"), self.m, [self.pattern(kinds), cfg], st.copy())
        self.e = e
        res = []
        for s, v in outs:
            k, x = result_of(e, s, v)
            if k == "ok":
                res.append((s, x))
        return res

    def attempt(self, st, ctx, m, anch, lo=START, hi=END):
        st, ref = self.keep(st, m)
        e, outs = analyse(self.r, self.fn(r"<litcheck_filecheck::pattern::Pattern as .*MatcherMut>::try_match_mut$"), self.m, [ref, self.m.mkin(lo, hi, anch), ctx], st.copy())
        self.e = e
        return outs


KINDS = ("lit", "re", "cap", "sub", "num", "ncap", "expr", "cons")
ALL = ([(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2))
       + [("lit", "re", "sub"), ("sub", "lit", "re"), ("lit", "cap", "own"), ("cap", "lit", "own"), ("ncap", "lit", "own"), ("ncap", "lit", "ownx"), ("sub", "ncap", "ownx"),
          ("recap", "sub"), ("sub", "recap", "sub"), ("sub", "cap", "ncap"), ("cap", "ncap", "sub"), ("cons", "lit", "own"), ("cap", "re", "cap", "sub"), ("sub", "ncap", "cons")])
VALS = ("none", "undef", "str", "num", "bare")


class Tell:
    """What a pattern has to do on a path, given what its searches found on it."""

    def __init__(self, r, run):
        self.r, self.run, self.m = r, run, run.m
        self.alias = {}
        self.fn = run.fn(r"<litcheck_filecheck::pattern::Pattern as .*MatcherMut>::try_match_mut$")

    def check(self, kinds, val):
        r, run = self.r, self.run
        env = {} if val == "none" else {"x": run.val(val)}
        st, cfg, ctx = run.context(env)
        site = "%s, x %s" % (" ".join(kinds), val)
        ms = run.compile(st, cfg, kinds)
        r.need(ms, "a way to compile a pattern of %s" % site)
        n = 0
        for s, m in ms:
            for anch in (TRUE, FALSE):
                for s2, v in run.attempt(s, ctx, m, anch):
                    n += 1
                    msg = self.path(kinds, env.get("x"), anch == TRUE, s2, v, ctx, s)
                    r.ob("pattern", "%s, %s" % (site, "anchored" if anch == TRUE else "searching"), msg is None, "%s|%s" % (self.sort(kinds), (msg or "")[:60]),
                         "%s: a pattern made of %s: %s" % (self.fn.loc(), site, msg))
        return n

    def sort(self, kinds):
        return "+".join(kinds[:1])

    # values
    def value_parts(self, s, v, fmt):
        """What is searched for a variable's value; None if it has none."""
        if v is None:
            return None
        k = vname(self.r.p, v[1], v[2])
        if k == "Undef":
            return None
        e = self.run.e
        if k == "Str":
            return (("sym", ("esc", *self.text_of(s, v)), ()),)
        val, f = self.number(s, v)
        return (S("shown", val, some(fmt) if fmt is not None else f),)

    def text_of(self, s, v):
        return parts_of(self.run.e, s, self.m.uncow(self.run.e, s, v[3][0]))

    def number(self, s, v):
        e = self.run.e
        n = e.deref_all(s, v[3][0])
        if n[0] == "adt" and n[1] != self.m.num:
            n = e.deref_all(s, n[3][0])
        return e.norm(s, e.proj(n, fidx(self.r, self.m.num, "value"))), e.norm(s, e.proj(n, fidx(self.r, self.m.num, "format")))

    def canon(self, parts):
        out = []
        for p in parts:
            p = self.same(p)
            if isinstance(p, str):
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(("sym", p[1], ()) if p[0] == "sym" else p)
        return tuple(x for x in out if x != "")

    def spec(self, s, kinds, i, env, plain):
        """The text searched for part i alone: None without a value."""
        k = kinds[i]
        src, fmt = S("src", k, i), S("fmt", i)
        d = S("name", "d%d" % i)
        if k == "lit":
            return (src,) if plain else (("sym", ("esc", src), ()),)
        if k == "re":
            return ("(?:", src, ")")
        if k in ("cap", "recap"):
            return ("(?P<", S("name", "x") if k == "recap" else d, ">", src, ")")
        if k == "num":
            return (S("numpat", fmt, None),)
        if k in ("ncap", "cons"):
            return (S("numpat", fmt, d),)
        who = "x" if k in ("sub", "expr") else [j for j in range(i) if kinds[j] in ("cap", "ncap", "cons")][-1]
        return self.value_parts(s, env.get(who), fmt if k in ("expr", "ownx") else None)

    def path(self, kinds, x, anch, s, v, ctx, s0):
        """What is wrong on a path, or None."""
        r, e = self.r, self.run.e
        k, w = result_of(e, s, v)
        if k == "err" and get(s.mon, "bad"):
            return None
        ev = get(s.mon, "ev", ())
        want, got = self.walk(kinds, x, anch, s, ev), None
        if isinstance(want, str):
            return want
        if k == "err":
            got = ("error",)
        else:
            w = e.deref_all(s, w)
            k2, info = option_of(e, s, e.proj(w, fidx(r, self.m.mres, "info")))
            if k2 != "some":
                got = ("fail",)
            else:
                info = e.deref_all(s, info)
                sp = e.deref_all(s, info[3][fidx(r, self.m.info, "span")])
                caps = e.deref_all(s, info[3][fidx(r, self.m.info, "captures")])
                ci = self.m.cinfo
                cs = []
                if caps[0] != "arr":
                    return "it reports captures which are not a list"
                for c in caps[1]:
                    c = e.deref_all(s, c)
                    val = e.deref_all(s, c[3][fidx(r, ci, "value")])
                    cap = e.deref_all(s, c[3][fidx(r, ci, "capture")])
                    tv = e.deref_all(s, cap[3][0])
                    nm = self.m.key_of(e, s, tv[3][0]) if tv[0] == "adt" and tv[3] else None
                    if nm is not None:
                        cs.append((nm, self.show(s, val), self.pos(s, c[3][fidx(r, ci, "span")])))
                got = ("ok", self.pos(s, sp), tuple(cs))
            ty = vname(r.p, self.m.mty, e.deref_all(s, e.proj(w, fidx(r, self.m.mres, "ty")))[2])
            if (ty == "MatchFoundAndExpected") != (got[0] == "ok"):
                return "its result says %s although it %s" % (ty, "matched" if got[0] == "ok" else "did not match")
        if want[0] == "any":
            if got[0] == "ok":
                return "it matches although a number it captures cannot be read"
            return self.bindings(s, ctx, kinds, x, {}, False)
        if want[0] != got[0]:
            return "it %s where it %s" % ({"ok": "matches", "fail": "does not match", "error": "reports an error"}[got[0]], want[-1] if want[0] != "ok" else "has found all its parts one after the other")
        if got[0] == "ok":
            if got[1] != want[1]:
                return "it reports a match at %s instead of %s" % (got[1], want[1])
            if [c[:2] for c in got[2]] != [c[:2] for c in want[2]]:
                return "it reports the captures %s instead of %s" % (got[2], want[2])
            if [c[2] for c in got[2]] != [c[2] for c in want[2]]:
                return "it reports captures at other places than theirs: %s" % (got[2],)
        smart = not (set(kinds) <= {"lit", "re", "cap", "num", "ncap", "recap"})
        return self.bindings(s, ctx, kinds, x, want[3] if got[0] == "ok" else {}, got[0] == "ok" and not smart)

    def pos(self, s, sp):
        e = self.run.e
        sp = e.deref_all(s, sp)
        return tuple(self.same(self.strip(e.norm(s, z))) for z in sp[3]) if sp[0] == "adt" else sp

    def show(self, s, v):
        k = vname(self.r.p, v[1], v[2]) if v[0] == "adt" else None
        return ("str",) + tuple(self.same(self.strip(y)) for y in self.text_of(s, v)) if k == "Str" else ("num",) + tuple(self.same(self.strip(y)) for y in self.number(s, v)) if k == "Num" else (k,)

    def same(self, y):
        """Ends of a group which is all of what was searched are those of the match."""
        if not isinstance(y, tuple):
            return y
        y = self.alias.get(y, y)
        return tuple(self.same(z) for z in y)

    def strip(self, y):
        return ("sym", y[1], ()) if y[0] == "sym" else y

    def bindings(self, s, ctx, kinds, x, new, later):
        """The names a search leaves behind (later: they may be bound by the caller instead)."""
        run, e = self.run, self.run.e
        names = ["x"] + ["d%d" % i for i, k in enumerate(kinds) if k in ("cap", "ncap", "cons")]
        for n in names:
            s2, key = run.keep(s, run.name("User", n))
            s3, g = run.scope(s2, run.envref(s2, ctx), "get", key)
            k, v = option_of(run.e, s3, g)
            have = None if k != "some" else self.show(s3, run.e.deref_all(s3, v))
            old = self.show(s, x) if n == "x" and x is not None else None
            i = n if n == "x" else int(n[1:])
            want = self.show(s, new[i]) if i in new else old
            if have != want and not (later and have == old):
                return "it leaves %s as %s instead of %s" % (n, have, want)
        return None

    def walk(self, kinds, x, anch, s, ev):
        e, run, m = self.run.e, self.run, self.m
        pos, i, self.alias = START, 0, {}
        while True:
            searches = 0
            env, caps, done, first, at, ok_ = {"x": x}, [], 0, True, None, True
            while done < len(kinds):
                if self.spec(s, kinds, done, env, False) is None:
                    return self.end(ev, i, ("error", "needs the value of a variable which has none"))
                if i == len(ev):
                    return "its part %d is not searched although all before it were found" % done
                what, lo, hi, an, found, _ = ev[i]
                lo, hi = self.strip(lo), self.strip(hi)
                n = i
                i += 1
                searches += 1
                if lo != self.strip(pos):
                    return "part %d is searched from %s instead of %s" % (done, lo, pos)
                if hi != END:
                    return "part %d is searched up to %s instead of the end of what it was given" % (done, hi)
                if an != (TRUE if anch or not first else FALSE):
                    return "part %d is searched %s" % (done, "anywhere" if an == FALSE else "only at the start")
                k, msg = self.covers(s, kinds, done, env, what, an)
                if msg:
                    return msg
                if found is None:
                    if first:
                        return self.end(ev, i, ("fail", "has a first part which is nowhere"))
                    ok_ = False
                    break
                f0, f1 = found
                if first:
                    at = f0
                pos = f1
                first = False
                for j in range(done, done + k):
                    if kinds[j] not in ("cap", "recap", "ncap", "cons"):
                        continue
                    d = S("name", "x" if kinds[j] == "recap" else "d%d" % j)
                    where = (self.strip(f0), self.strip(f1))
                    texts = [S("text of", *where), S("text of", f0, f1)]
                    if what[1] == "rx":
                        gs = m.groups_of(what[3][0])
                        hit = [g for g, y in enumerate(gs) if y != NONE and parts_of(e, s, y[3][0]) == parts_of(e, s, d)]
                        if hit:
                            at2 = (S("from", n, hit[0]), S("till", n, hit[0]))
                            if k == 1:      # the group is all there is to match
                                self.alias.update(zip(at2, where))
                                texts.append(S("text of", *at2))
                            else:
                                where, texts = at2, [S("text of", *at2)]
                    t = S("text of", *where)
                    if kinds[j] in ("cap", "recap"):
                        v = run.value("Str", t)
                    else:
                        fmt = S("fmt", j)
                        tr = None
                        for t2 in texts:
                            tr = e.truth(s, ("sym", ("app", "parses", t2, fmt), ())) if tr is None else tr
                        if tr is False and (searches == 1 or i == len(ev)):
                            return ("any",)
                        if tr is False:
                            ok_ = False
                            break
                        if tr is None:
                            return "the number captured by part %d is not read" % j
                        v = run.value("Num", S("parsed", t, fmt), some(fmt))
                        if kinds[j] == "cons":
                            xs = env["x"]
                            if xs is None or vname(self.r.p, xs[1], xs[2]) == "Undef":
                                return self.end(ev, i, ("error", "needs the value of a variable which has none"))
                            if vname(self.r.p, xs[1], xs[2]) == "Str":
                                ok_ = False
                                break
                            a, b = S("parsed", t, fmt), self.number(s, xs)[0]
                            eq = self.equal(s, a, b)
                            if eq is None:
                                return "it goes on without comparing the number it captured"
                            if not eq:
                                ok_ = False
                                break
                    env["x" if kinds[j] == "recap" else j] = v
                    caps.append((("User", d), self.show(s, v), tuple(self.strip(y) for y in where)))
                if not ok_:
                    break
                done += k
            if ok_ and done == len(kinds):
                return self.end(ev, i, ("ok", (self.strip(at), self.strip(pos)), tuple(caps), {k: v for k, v in env.items() if k != "x" or "recap" in kinds}))
            if anch:
                return self.end(ev, i, ("fail", "may only match at the start and does not"))
            t = self.ge(s, at, END)
            if t is None:
                return "after an attempt which failed it stops or goes on without regard to the end of the input"
            if t:
                return self.end(ev, i, ("fail", "has an attempt which failed at the end of the input"))
            pos = ("sym", ("app", "Add", self.strip(at), ("int", 1)), ())

    def equal(self, s, a, b):
        e = self.run.e
        for op, neg in (("eq", False), ("Eq", False), ("Ne", True), ("ne", True)):
            for p, q in ((a, b), (b, a)):
                t = e.truth(s, ("sym", ("app", op, p, q), ()))
                if t is not None:
                    return t != neg
        return None

    def ge(self, s, a, b):
        e, a = self.run.e, self.strip(a)
        for op, p, q, neg in (("Ge", a, b, False), ("Lt", a, b, True), ("Le", b, a, False), ("Gt", b, a, True)):
            t = e.truth(s, ("sym", ("app", op, p, q), ()))
            if t is not None:
                return t != neg
        return None

    def end(self, ev, i, res):
        return res if i == len(ev) else "it goes on searching where it %s" % (res[1] if res[0] != "ok" else "has found all its parts")

    def covers(self, s, kinds, done, env, what, anch):
        """(how many parts a search looks for, what is wrong)."""
        if what[1] == "ac":
            pats, cfg = what[3][0], dict(what[3][1])
            if cfg.get("ascii_case_insensitive", FALSE) != S("opt", "ignore_case"):
                return None, "it searches a literal without regard to --ignore-case"
            sk = cfg.get("start_kind")
            sk = vname(self.r.p, sk[1], sk[2]) if sk else "Unanchored"
            if sk not in ("Both", "Anchored" if anch == TRUE else "Unanchored"):
                return None, "it searches a literal in a way its searcher was not built for"
            got, plain = self.canon(pats[0]) if len(pats) == 1 else None, True
        else:
            got, plain = self.canon(what[3][0]), False
            if not (len(got) == 1 and got[0][1][0] == "numpat"):
                if what[3][1][0] != TRUE or what[3][1][1] != S("opt", "ignore_case"):
                    return None, "it searches a regular expression which is %s" % ("not multi-line" if what[3][1][0] != TRUE else "built without regard to --ignore-case")
                if what[3][1][2] or any(o not in ("match_kind", "nfa_size_limit", "onepass_size_limit", "dfa_size_limit") for o, _ in what[3][2][0]):
                    return None, "it builds a regular expression with options which change what it matches"
        acc = ()
        for j in range(done, len(kinds)):
            sp = self.spec(s, kinds, j, env, plain)
            if sp is None or plain and kinds[j] != "lit":
                break
            acc += sp
            if got == self.canon(acc) or j == done and kinds[j] == "re" and got == self.canon(acc[1:2]):
                return j - done + 1, None
        return None, "from part %d it searches for %s" % (done, got)


@rule("F07")
def f07(r):
    run = Pat(r)
    t = Tell(r, run)
    for f in [x for n, x in sorted(r.p.fns.items()) if re.search(r"<(regex_automata|aho_corasick)::util::search::Input as core::convert::From<litcheck_filecheck::input::Input>>::from$", n)]:
        for anch in (TRUE, FALSE):
            e, outs = analyse(r, f, run.m, [run.m.mkin(START, END, anch)], run.context({})[0])
            for s, v in outs:
                v = e.deref_all(s, v)
                good = v[0] == "adt" and v[1] == "libin" and tuple(v[3]) == (S("buffer"), START, END, anch)
                r.ob("input", "%s, %s" % (f.name, anch), good, "input", "%s: what the search library is given is not the same part of the same text" % f.loc())
    for kinds in ALL:
        for v in VALS if set(kinds) & {"sub", "expr", "cons"} else ("none",):
            t.check(kinds, v)
    r.floor("input", 4)
    r.floor("pattern", 2000)
    r.assumptions += ["the regex and aho-corasick libraries find what they are asked to find",
                      "both ways to read a number from a text accept the same texts", "a number is written with at least one digit",
                      "white space in literals is left as it is (its normal form is not followed)"]
