"""F16: the text of a check line is cut into tokens."""
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, vname, fidx, result_of, some, ok, err, NONE, analyse, Vecs, collection
from chars import Chars, white
from rules import rule
from props.fc_report import get, put

UNIT = ("tup", ())
BEGIN, EOL = 100, 1000
SIGNS = ("[[#", "[[", "]]", "{{", "}}")
NAMES = {"NumericMatchStart": "[[#", "MatchStart": "[[", "MatchEnd": "]]", "RegexStart": "{{", "RegexEnd": "}}"}


def S(*k):
    return ("sym", k, ())


class Cutting(Vecs, Mon):
    """The line starts at BEGIN and ends at EOL. mon: 'signs' the delimiters found so far (sign, start, end), 'inner' whether a `[`
    follows one, 'false' those `]]` which end nothing, 'trail' what is after the last one, 'start' of the input, 'pos' of the search."""
    watch = (r"parse::lexer::Lexer\b", r"delimiter::Delimiter")
    force = (r"parse::lexer::", r"diagnostics::span", r"litcheck_core::range")
    init = ()
    max_states = 3000000
    max_depth = 40
    widen_ints = 10 ** 6
    lead, most = "", 0

    def rng(self, e, st, v):
        v = e.deref_all(st, v)
        if v[0] == "adt" and len(v[3]) >= 2:
            a, b = (e.norm(st, e.deref_all(st, x)) for x in v[3][:2])
            if a[0] == b[0] == "int":
                return a[1], b[1]
        return None

    def text(self, e, st, v):
        """The part of the line a value is, (start, end)."""
        v = e.deref_all(st, collection(e.deref_all(st, v)))
        return v[1][1:] if v[0] == "sym" and v[1][0] == "txt" else None

    def blank(self, st, a, b):
        """[(state, whether the line from a to b is blank)]."""
        lead = BEGIN + len(self.lead)
        if b <= max(a, lead):
            return [(st, True)]
        signs = get(st.mon, "signs") or ()
        if any(x < b and a < y for _, x, y in signs):
            return [(st, False)]
        last = max([y for _, x, y in signs] or [lead])
        if a >= last or b == EOL and a <= lead and not signs:
            t = get(st.mon, "trail")
            if t is None:
                y, n = st.copy(), st.copy()
                y.mon, n.mon = put(y.mon, trail="blank"), put(n.mon, trail="text")
                return [(y, True), (n, False)]
            return [(st, t == "blank")]
        before = [s for s in signs if s[1] >= b]
        return [(st, bool(before) and before[0] in (get(st.mon, "blank") or ()))]

    def find(self, e, st):
        """The next delimiter from 'pos' on."""
        signs, pos = get(st.mon, "signs") or (), get(st.mon, "pos")
        outs = []

        def out(sign, a, blank=False):
            s = st.copy()
            new = (sign, a, a + len(sign))
            s.mon = put(s.mon, signs=signs + (new,), pos=a + len(sign))
            if blank:
                s.mon = put(s.mon, blank=(get(s.mon, "blank") or ()) + (new,))
            outs.append((s, sign, a))
        none = st.copy()
        if pos is None or get(st.mon, "limit") != EOL:
            none.mon = put(none.mon, wrong="the search for delimiters does not end with the line")
            return [(none, None, None)]
        if signs and pos == signs[-1][1] + 1:      # once more, inside of the last one
            sign, a, b = signs[-1]
            if sign == "[[" and signs[-1] in (get(st.mon, "inner") or ()):
                if len(signs) < self.most:
                    for x in ("[[", "[[#"):
                        out(x, pos)
                return outs
            if sign == "]]" and len(signs) < self.most and b < EOL:
                out("]]", pos)
        last = max([b for _, a, b in signs] or [BEGIN + len(self.lead)])
        if signs and pos not in (last, signs[-1][1] + 1) or pos > last:
            none.mon = put(none.mon, wrong="the search for delimiters does not go on where it was")
            return [(none, None, None)]
        if last < EOL and len(signs) < self.most:
            for x in SIGNS:
                out(x, last)
                out(x, last + 4)
                if signs:
                    out(x, last + 4, True)
                out(x, EOL - len(x))
                if len(signs) + 1 == self.most:
                    out(x, EOL - len(x) - 1)
        return outs + [(none, None, None)]

    def set_mon(self, st, **k):
        s = st.copy()
        s.mon = put(s.mon, **k)
        return s

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm):
            if last in ("from_range_unchecked", "new", "from_range") and len(c.args) == 2:
                x = self.rng(e, st, c.args[1])
                return [(st, S("span", *x) if x else S("where"))]
            x = e.deref_all(st, c.args[0]) if c.args else None
            if x and x[0] == "sym" and x[1][0] == "span" and last in ("start", "end"):
                return [(st, ("int", x[1][1 if last == "start" else 2]))]
            if last == "to_usize":
                return [(st, x)]
            if last in ("len", "source_id") or not c.args:
                return [(st, S("where"))]
            return [(st, x)]
        if re.search(r"filecheck::input::Input::", nm):
            if last == "start":
                return [(st, ("int", get(st.mon, "start")))]
            if last == "end":
                return [(st, ("int", EOL + 50 if get(st.mon, "more") else EOL))]
            if last in ("next_newline", "next_newline_from"):
                y, n = self.set_mon(st, more=True), self.set_mon(st, more=False)
                return [(y, some(("int", EOL)))] if get(st.mon, "more") else [(y, some(("int", EOL))), (n, NONE)] if get(st.mon, "more") is None else [(n, NONE)]
            if last == "set_start":
                x = e.norm(st, e.deref_all(st, c.args[1]))
                return [(self.set_mon(st, start=x[1] if x[0] == "int" else -1), UNIT)]
            if last == "as_str":
                x = self.rng(e, st, c.args[1])
                return [(st, S("txt", *x) if x else S("unknown text"))]
            if last == "buffer":
                return [(st, S("buffer"))]
            return [(st, S("where"))]
        if last in ("set_range", "set_last_match_end", "advance") and "earch" in nm:
            which = e.deref_all(st, c.args[0])
            mine = which == S("delimiters")
            if last == "set_range":
                x = self.rng(e, st, c.args[1])
                if mine and x:
                    st = self.set_mon(st, again=(get(st.mon, "again") or ()) + (x[0],))
                if mine:
                    return [(self.set_mon(st, pos=x[0] if x else None, limit=x[1] if x else None), UNIT)]
                return [(st, UNIT)]
            if last == "set_last_match_end":
                x = e.norm(st, e.deref_all(st, c.args[1]))
                return [(self.set_mon(st, pos=x[1] if x[0] == "int" else None), UNIT)] if mine else [(st, UNIT)]
            if mine:
                return [(s, NONE if x is None else some(S("found", x, a))) for s, x, a in self.find(e, st)]
            return None
        a = e.deref_all(st, c.args[0]) if c.args else None
        if a and a[0] == "sym" and a[1][0] == "found":
            if last == "pattern":
                return [(st, S("pid", a[1][1]))]
            if last in ("range", "start", "end", "span"):
                x, y = a[1][2], a[1][2] + len(a[1][1])
                if last in ("start", "end"):
                    return [(st, ("int", x if last == "start" else y))]
                return [(st, ("adt", "core::ops::range::Range", 0, (("int", x), ("int", y))))]
        if a and a[0] == "sym" and a[1][0] == "pid":
            return [(st, ("int", self.all.index(a[1][1])))]
        if last == "from_pid" and a and a[0] == "int":
            return [(st, ("adt", self.delim, self.kinds.index(self.all[a[1]]), ()))]
        if nm in self.p.fns and not self.p.fns[nm].ext:
            return None
        if last == "from" and "Range" in nm and len(c.args) == 1 and self.rng(e, st, c.args[0]):
            return [(st, a)]
        if last == "is_match":
            x = self.text(e, st, c.args[1])
            if x:
                y, n = (self.set_mon(st, asked=(get(st.mon, "asked") or ()) + ((x, v),)) for v in (True, False))
                return [(y, TRUE), (n, FALSE)]
        if a == S("buffer") or a and a[0] == "sym" and a[1][0] == "txt":
            t = self.text(e, st, a)
            if last in ("index", "get", "get_unchecked") and len(c.args) == 2:
                x = self.rng(e, st, c.args[1])
                if x and a == S("buffer"):
                    v = S("txt", *x)
                    return [(st, v if last == "index" else some(v))]
                i = e.norm(st, e.deref_all(st, c.args[1]))
                if i[0] == "int" and a == S("buffer"):
                    return [(s, some(("int", v)) if last == "get" else ("int", v)) for s, v in self.byte(st, i[1])]
            if t:
                lo, hi = t
                lead = BEGIN + len(self.lead)
                if last in ("trim_start", "trim_ascii_start"):
                    if BEGIN <= lo <= lead:
                        return [(st, S("txt", min(lead, hi), hi))]
                    return [(s, S("txt", hi if y else lo, hi)) for s, y in self.blank(st, lo, hi)]
                if last == "strip_prefix" and e.norm(st, e.deref_all(st, c.args[1])) in (("int", 32), ("str", " ")):
                    if lo < lead:
                        return [(st, some(S("txt", lo + 1, hi)) if self.lead[lo - BEGIN] == " " and lo < hi else NONE)]
                    if lo == lead and not [x for x in get(st.mon, "signs") or () if x[1] < lo]:
                        return [(st, NONE)]
                    # the text after a delimiter may start with a space
                    return [(st, some(S("txt", lo + 1, hi))), (st, NONE)]
                if last in ("trim", "trim_ascii"):
                    return [(s, S("blank" if y else "not blank", lo, hi)) for s, y in self.blank(st, lo, hi)]
                if last == "is_empty":
                    return [(st, TRUE if lo >= hi else FALSE)]
                if last == "len":
                    return [(st, ("int", hi - lo))]
                if last == "as_bytes" or last == "iter" or last == "bytes" or last == "as_str":
                    return [(st, a)]
                if last == "all":
                    return [(s, TRUE if y else FALSE) for s, y in self.blank(st, lo, hi)]
                if last == "any":
                    return [(s, FALSE if y else TRUE) for s, y in self.blank(st, lo, hi)]
                if last == "starts_with":
                    k = e.norm(st, e.deref_all(st, c.args[1]))
                    if k in (("int", 91), ("str", "[")):
                        return [(s, TRUE if v == 91 else FALSE) for s, v in self.byte(st, lo)]
                    if k in (("int", 32), ("str", " ")) and lo <= lead:
                        return [(st, TRUE if lo < lead and self.lead[lo - BEGIN] == " " else FALSE)]
                if last == "chars":
                    return [(st, S("chars", lo, hi, 0))]
        if a and a[0] == "sym" and a[1][0] in ("blank", "not blank") and last == "is_empty":
            return [(st, TRUE if a[1][0] == "blank" else FALSE)]
        if last == "all" and a and self.text(e, st, a):
            return [(s, TRUE if y else FALSE) for s, y in self.blank(st, *self.text(e, st, a))]
        if a and a[0] == "sym" and a[1][0] == "chars":
            if last in ("peekable", "by_ref", "clone"):
                return [(st, a)]
            if last == "next":
                lo = a[1][1]
                done = lo in (get(st.mon, "block") or ())
                if done:
                    return [(st, NONE)]
                return [(self.set_mon(st, block=(get(st.mon, "block") or ()) + (lo,)), some(("int", 58)))]
            if last == "peek":
                return [(st, NONE)]
        if last == "len_utf8":
            return [(st, ("int", 1))]
        if last == "abs_diff":
            x, y = (e.norm(st, e.deref_all(st, v)) for v in c.args)
            return [(st, ("int", abs(x[1] - y[1])) if x[0] == y[0] == "int" else S("distance"))]
        return self.vec_call(e, st, c, last)

    def byte(self, st, i):
        """[(state, the i-th byte of the input)], which matters after a `[[`."""
        signs = get(st.mon, "signs") or ()
        if i >= EOL:
            return [(st, 10)]
        if signs and signs[-1][2] == i and signs[-1][0] == "[[":
            y, n = st.copy(), st.copy()
            y.mon = put(y.mon, inner=(get(y.mon, "inner") or ()) + (signs[-1],))
            n.mon = put(n.mon, outer=(get(n.mon, "outer") or ()) + (signs[-1],))
            return [(y, 91), (n, 120)]
        return [(st, 120)]


def cut(mon, lead, strict, literal):
    """The tokens of the line, or a string: what is wrong."""
    g = lambda k: get(mon, k) or ()  # noqa: E731
    full = BEGIN + len(lead)
    start = BEGIN + (1 if lead[:1] == " " else 0) if strict else full
    if literal:
        return [("Raw", (start, EOL), start, EOL)] if get(mon, "start") == EOL else "the rest of the line is read again"
    out, at, first, inside = [], start, True, None

    def chunk(b):
        # what is blank before the first block separates nothing
        blank = at >= b or b <= full or any(s[1] == b for s in g("blank")) and not between(at, b)
        if at < b and not (first and blank):
            out.append(("Raw", (at, b), at, b))

    def between(a, b):
        return any(x < b and a < y for _, x, y in g("signs"))
    asked = dict(g("asked"))
    for n, (sign, a, b) in enumerate(g("signs")):
        if inside is None:
            if sign == "[[":
                if (sign, a, b) in g("inner"):
                    if g("signs")[n + 1:] and g("signs")[n + 1][1] != a + 1:
                        return "a block that starts with the second bracket of three is missed"
                    continue
                if (sign, a, b) not in g("outer") and b < EOL:
                    return "three brackets are not told from two"
            if sign in ("[[", "[[#", "{{"):
                chunk(a)
                out.append(("RegexStart" if sign == "{{" else "MatchStart", None, a, a + 2))
                if sign == "[[#":
                    out.append(("Hash", None, a + 2, b))
                first, inside = False, (sign, a, b)
        elif sign == "}}" and inside[0] == "{{":
            out += [("Raw", (inside[2], a), inside[2], a), ("RegexEnd", None, a, b)]
            inside, at = None, b
        elif sign == "]]" and inside[0] != "{{":
            if (inside[2], b) not in asked:
                return "it is not decided whether a ]] belongs to a character class"
            if asked[inside[2], b]:
                if b < EOL and a + 1 not in g("again"):
                    return "a ]] that overlaps one which ends nothing is missed"
                continue
            x = inside[2]
            out.append(("Colon", None, x, x + 1))
            if inside[0] == "[[":
                out.append(("Raw", (x + 1, a), x + 1, a))
            out.append(("MatchEnd", None, a, b))
            inside, at = None, b
    if inside:
        return out + [("Unclosed" + ("Regex" if inside[0] == "{{" else "Substitution"), inside[1:], None, None)]
    if at < EOL and (between(at, EOL) or get(mon, "trail") != "blank"):
        out.append(("Raw", (at, EOL), at, EOL))
    return out if get(mon, "start") == EOL else "the rest of the line is read again"


class CutRun:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = m = Cutting(r.p)
        self.lexer = adt(r, "Lexer", "parse::lexer::Lexer")
        self.tok = adt(r, "Token", "parse::lexer::token")
        m.delim = adt(r, "Delimiter", "lexer::delimiter")
        m.kinds = [NAMES.get(v["n"], "?") for v in r.p.adts[m.delim]["v"]]
        m.all = list(m.kinds)
        self.fn = r.fn(r"lexer::Lexer::tokenize_check_pattern$")

    def value(self, strict, lines):
        fs = []
        for f in self.p.adts[self.lexer]["v"][0]["f"]:
            n = f["n"]
            fs.append({"strict_whitespace": TRUE if strict else FALSE, "match_full_lines": TRUE if lines else FALSE, "delimiter_searcher": S("delimiters"),
                       "input": S("input"), "buffer": ("arr", ()), "searcher": S("checks")}.get(n, S("field", n)))
        return ("adt", self.lexer, 0, tuple(fs))

    def token(self, e, s, v):
        k, x = result_of(e, s, v)
        x = e.deref_all(s, x)
        if k == "err" and x[0] == "adt":
            sp = e.deref_all(s, x[3][0]) if x[3] else S("?")
            return (vname(self.p, x[1], x[2]), sp[1][1:] if sp[0] == "sym" and sp[1][0] == "span" else None, None, None)
        if k != "ok" or x[0] != "tup" or len(x[1]) != 3:
            return ("?", None, None, None)
        a, t, b = (e.norm(s, e.deref_all(s, y)) for y in x[1])
        if t[0] != "adt" or t[1] != self.tok:
            return ("?", None, None, None)
        n = vname(self.p, t[1], t[2])
        f = self.m.text(e, s, t[3][0]) if t[3] else None
        return (n, f, a[1] if a[0] == "int" else None, b[1] if b[0] == "int" else None)

    def line(self, lead, strict, lines, literal, most):
        r, m = self.r, self.m
        m.lead, m.most = lead, most
        root = ("L", ("keep", 0), 0)
        st = State(env={root: self.value(strict, lines)}, mon=put((), start=BEGIN))
        e, outs = analyse(r, self.fn, m, [("ref", root, ()), TRUE if literal else FALSE], st)
        at = self.fn.loc()
        i = fidx(r, self.lexer, "buffer")
        for s, _ in outs:
            v = e.deref_all(s, e.get(s, (root, (i,))))
            have = [self.token(e, s, x) for x in v[1]] if v[0] == "arr" else [("?", None, None, None)]
            want = get(s.mon, "wrong") or cut(s.mon, lead, strict or lines, literal)
            signs = get(s.mon, "signs") or ()
            show = "".join(("..." if a > b0 else "") + x for (x, a, _), b0 in zip(signs, [BEGIN] + [y for _, _, y in signs]))
            what = want if isinstance(want, str) else "becomes '%s', not '%s'" % (" ".join(t[0] for t in have), " ".join(t[0] for t in want)) if [t[0] for t in have] != [t[0] for t in want] else "is cut at other places"
            r.ob("lines", "%d delimiters" % len(signs), have == want, "lines|" + what[:80],
                 "%s: a %sline that starts with %r and goes on with '%s'%s: %s" % (at, "literal " if literal else "", lead, show, " with --strict-whitespace" if strict else " with --match-full-lines" if lines else "", what))


# ---- what is inside a block
class Block(Chars, Vecs, Mon):
    """The block starts at BEGIN and ends at EOL."""
    watch, force, init, max_states, max_depth, widen_ints = Cutting.watch, Cutting.force, (), 3000000, 40, 10 ** 6

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm):
            return [(st, S("where"))]
        if re.search(r"filecheck::input::Input::", nm):
            x = Cutting.rng(self, e, st, c.args[1]) if last == "as_str" else None
            if x:
                b = (get(st.mon, "text") or "").encode()
                if BEGIN <= x[0] <= x[1] <= BEGIN + len(b):
                    return [(st, ("str", b[x[0] - BEGIN:x[1] - BEGIN].decode(errors="replace")))]
                return [(st, S("txt", *x))]
            return [(st, S("where"))]
        if nm in self.p.fns and not self.p.fns[nm].ext:
            return None
        a = e.deref_all(st, c.args[0]) if c.args else None
        if last in ("chars", "peekable", "by_ref") and a in (S("txt", BEGIN, EOL), S("chars")):
            return [(st, S("chars"))]
        v = self.char_call(e, st, c, nm, last, a)
        if v is not None:
            return v
        if last == "from_str_radix":
            x, n = e.norm(st, a), e.norm(st, e.deref_all(st, c.args[1]))
            v = S("num", x[1] if x[0] == "str" else "?", n[1] if n[0] == "int" else 0)
            return ([(st, ok(v))] if v[1][1] else []) + [(st, err(S("overflow")))]
        return self.vec_call(e, st, c, last)


PUNCT = {"#": "Hash", "%": "Percent", ".": "Dot", "@": "At", "$": "Dollar", ",": "Comma", "+": "Plus", "-": "Minus", "(": "LParen", ")": "RParen"}
WORDS = {"LITERAL": "Literal", "LINE": "Line", "add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "min": "Min", "max": "Max"}


def words(text, numeric):
    """The tokens of what is inside a block; the last is None where it is not decided how it goes on."""
    out, i = [], 0
    rest = lambda k: ("Raw", BEGIN + len(text[:k].encode()))  # noqa: E731
    isname = lambda c: c.isascii() and (c.isalnum() or c == "_")  # noqa: E731
    while i < len(text):
        c = text[i]
        if c in PUNCT:
            out.append((PUNCT[c], None))
            i += 1
            if c in "#%.@$" and text[i:i + 1] and white(text[i]):
                return out + [None]
            # what a comma does to white space depends on what is before it
            j = i
            while c == "," and j and text[j - 1] == ",":
                j -= 1
            if c == "," and j and text[j - 1] in "#%.@$" and text[i:i + 1] and white(text[i]):
                return out + [None]
        elif text[i:i + 2] == "==":
            out.append(("Equals", None))
            i += 2
        elif c == ":":
            out.append(("Colon", None))
            i += 1
            if not numeric:
                return out + [rest(i)]
        elif c in " \t\n\r\x0c":
            i += 1
        elif isname(c) and not c.isdigit():
            j = i
            while j < len(text) and isname(text[j]):
                j += 1
            out.append((WORDS[text[i:j]], None) if text[i:j] in WORDS else ("Ident", text[i:j]))
            i = j
        elif c in "0123456789":
            radix, digits = 10, "0123456789"
            if c == "0" and text[i + 1:i + 2] in ("x", "b"):
                radix, digits = (16, digits + "abcdefABCDEF") if text[i + 1] == "x" else (2, "01")
                i += 2
            j = i
            while j < len(text) and text[j] in digits:
                j += 1
            out.append(("Num", (text[i:j], radix)))
            i = j
        else:
            return out + [("Error", None), rest(i + 1)]
    return out


class BlockRun(CutRun):
    def __init__(self, r):
        CutRun.__init__(self, r)
        self.m = Block(r.p)
        self.fn = r.fn(r"lexer::Lexer::tokenize_capture_or_match$")
        self.range = adt(r, "Range", "litcheck_core::range")

    def word(self, e, s, v):
        k, x = result_of(e, s, v)
        x = e.deref_all(s, x)
        if k != "ok" or x[0] != "tup" or len(x[1]) != 3:
            return ("?", None)
        t = e.norm(s, e.deref_all(s, x[1][1]))
        if t[0] != "adt" or t[1] != self.tok:
            return ("?", None)
        n, f = vname(self.p, t[1], t[2]), e.deref_all(s, t[3][0]) if t[3] else None
        f = e.norm(s, f) if f else None
        if n == "Num":
            return (n, f[1][1:] if f[0] == "sym" and f[1][0] == "num" else "?")
        if n == "Raw":
            f = f[1][1:] if f[0] == "sym" and f[1][0] == "txt" else ("?", EOL)
            return (n, f[0] if f[1] == EOL else "?")
        return (n, f[1] if n == "Ident" and f[0] == "str" else None if n != "Ident" else "?")

    def block(self, numeric, chars):
        r, m = self.r, self.m
        m.chars = chars
        root = ("L", ("keep", 0), 0)
        st = State(env={root: self.value(False, False)}, mon=())
        e, outs = analyse(r, self.fn, m, [("ref", root, ()), ("adt", self.range, 0, (("int", BEGIN), ("int", EOL))), TRUE if numeric else FALSE], st)
        at, i = self.fn.loc(), fidx(r, self.lexer, "buffer")
        for s, _ in outs:
            v = e.deref_all(s, e.get(s, (root, (i,))))
            have = [self.word(e, s, x) for x in v[1]] if v[0] == "arr" else [("?", None)]
            text = get(s.mon, "text") or ""
            want = words(text, numeric)
            if want and want[-1] is None:
                want = want[:-1]
                have = have[:len(want)]
            good = len(have) == len(want) and all(h == w or h[0] == "Error" and w[0] == "Num" for h, w in zip(have, want))
            r.ob("blocks", "%d characters" % len(text), good, "blocks|%s%r" % (numeric, text),
                 "%s: the block '[[%s%s' has the tokens '%s'" % (at, "#" if numeric else "", text, " ".join("%s:%s" % h if h[1] is not None else h[0] for h in have)))


@rule("F16")
def f16(r):
    g = CutRun(r)
    for lead in ("", " ", "   ", " \t", "\t "):
        for strict, lines in ((False, False), (True, False), (False, True)):
            g.line(lead, strict, lines, True, 0)
            g.line(lead, strict, lines, False, 2)
    g.line(" ", False, False, False, 3 if r.tier == "quick" else 5)
    b = BlockRun(r)
    every = "".join(map(chr, range(1, 128))) + "\u00e9"
    few = "a_0x9b:=+, #"
    for numeric in (False, True):
        b.block(numeric, [every, "a 0"])
        b.block(numeric, ["a", every, "a"])
        b.block(numeric, ["0", "xb9", every, "0"])
        b.block(numeric, [few] * (3 if r.tier == "quick" else 5))
        for w in list(WORDS) + ["MAX", "line", "LINEX"]:
            b.block(numeric, list(w) + [" _"])
    r.floor("lines", 300)
    r.floor("blocks", 1000)
