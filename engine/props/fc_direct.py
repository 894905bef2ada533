"""F19: each directive is recognised for what it is."""
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, vname, fidx, result_of, option_of, some, ok, err, NONE, analyse, Vecs
from models import strip
from strs import text_call, parts_of, text
from rules import rule
from props.fc_lex import Cutting
from props.fc_num import nfa, included, AT
from props.fc_report import get, put

UNIT = ("tup", ())
START, MATCH, BODY, EOL, END = 100, 110, 120, 1000, 2000
GROUPS = {"prefix": (111, 112), "count": (113, 114), "modifiers": (115, 118), "comment": (BODY, EOL)}
MODS = {"LITERAL": 1, " LITERAL": 1, "LITERAL ": 1, "LITERAL,LITERAL": 2, " LITERAL , LITERAL ": 2, "LITERAL,LITERAL, LITERAL": 3}
SUFFIX = {"Plain": "", "Next": "-NEXT", "Same": "-SAME", "Not": "-NOT", "Dag": "-DAG", "Label": "-LABEL", "Empty": "-EMPTY", "Count": "-COUNT-(?<count>[0-9]+)"}
NEXT = "core::iter::traits::iterator::Iterator::next"


def S(*k):
    return ("sym", k, ())


class Directives(Vecs, Mon):
    """The input is searched from START; mon: 'which' pattern and prefix match, 'mods' the modifiers, 'byte' the first character,
    'pos' where the search is to start, 'start' of the input, 'pattern' how the pattern of the line was read."""
    watch = (r"lexer::patterns::", r"parse::lexer::Lexer\b")
    force = (r"lexer::patterns::", r"parse::lexer::Lexer", r"diagnostics::span", r"litcheck_core::range")
    init = ()
    max_depth = 60
    max_states = 3000000
    widen_ints = 10 ** 6
    kinds, prefixes = (), 1
    rng, set_mon = Cutting.rng, Cutting.set_mon

    def local(self, e, st, c, v):
        """[(state, elements)] of an iterator of this crate."""
        fn = self.p.fns.get(self.p.impl_method.get((NEXT, v[1])))
        if fn is None:
            return None
        root = ("L", ("drain", c.fr.id, c.blk), 0)
        s = st.copy()
        e.set(s, (root, ()), v)
        outs, work = [], [(s, ())]
        while work:
            s, got = work.pop()
            if len(got) > 40:
                return None
            for s2, x in e.run(fn, [("ref", root, ())], s, c.fr.ctx + ((c.fr.fn.name, c.blk, len(got)),), c.fr.stack + ((c.fr.fn.name, c.blk),)):
                k, y = option_of(e, s2, x)
                if k == "some":
                    work.append((s2, got + (e.deref_all(s2, y),)))
                elif k == "none":
                    outs.append((s2, got))
                else:
                    return None
        return outs

    def group(self, e, st, name):
        """[(state, range)] of a named group of the match."""
        k = self.kinds[get(st.mon, "which")[0]]
        if name not in GROUPS or name == "comment" and k != "comment" or name == "count" and k != "Count" or name == "modifiers" and k == "comment":
            return [(st, None)]
        if name == "modifiers":
            m = get(st.mon, "mods")
            if m is None:
                return [(self.set_mon(st, mods=x), GROUPS[name] if x else None) for x in ("",) + tuple(MODS)]
            return [(st, GROUPS[name] if m else None)]
        return [(st, GROUPS[name])]

    def span(self, x):
        return NONE if x is None else some(("adt", "regex_automata::util::search::Span", 0, (("int", x[0]), ("int", x[1]))))

    def text(self, st, x):
        if x == GROUPS["modifiers"] and get(st.mon, "mods"):
            return ("str", get(st.mon, "mods"))
        return S("txt", *x) if x else S("unknown text")

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm):
            return Cutting.before_call(self, e, st, c)
        if nm.endswith("Lexer::tokenize_check_pattern"):
            lit = e.truth(st, c.args[1])
            return [(self.set_mon(st, pattern=(get(st.mon, "start"), lit)), UNIT)]
        if re.search(r"filecheck::input::Input::", nm):
            if last == "peek_byte":
                at = get(st.mon, "start")
                b = get(st.mon, "byte")
                return [(self.set_mon(st, byte=x), ("tup", (("int", at), ("int", ord(x))))) for x in ("\0\n.") if b in (None, x)]
            if last == "start":
                return [(st, ("int", get(st.mon, "start")))]
            if last == "end":
                return [(st, ("int", END))]
            if last in ("next_newline", "next_newline_from"):
                return [(st, some(("int", EOL))), (st, NONE)]
            if last == "set_start":
                x = e.norm(st, e.deref_all(st, c.args[1]))
                return [(self.set_mon(st, start=x[1] if x[0] == "int" else -1), UNIT)]
            if last == "as_str":
                return [(st, self.text(st, self.rng(e, st, c.args[1])))]
            if last == "is_empty":
                return [(st, FALSE)]
            if last == "buffer":
                return [(st, S("buffer"))]
            if last == "new":
                return [(st, S("the input"))]
            return [(st, S("where"))]
        if "earch" in nm and last in ("set_range", "set_last_match_end", "advance", "input"):
            if last == "input":
                return [(st, S("search"))]
            if last == "set_last_match_end":
                x = e.norm(st, e.deref_all(st, c.args[1]))
                return [(self.set_mon(st, pos=x[1] if x[0] == "int" else -1), UNIT)]
            if last == "set_range":
                return [(self.set_mon(st, pos=-1), UNIT)]
            outs = []
            for s, v in e.call_value(c.fr, c.blk, c.line, c.args[1], [S("search")], st) or ():
                k, x = result_of(e, s, v)
                if k == "ok":
                    outs.append((s, x))
            return outs
        if last == "search_captures_with" or last == "search_captures":
            good = any(e.deref_all(st, a) == S("search") for a in c.args)
            return [(self.set_mon(st, found=good and get(st.mon, "pos") == get(st.mon, "start")), UNIT)]
        if last == "get_match":
            none = self.set_mon(st, which=(), wrong=None if get(st.mon, "found") else "the search does not start where the input does")
            if not get(st.mon, "found"):
                return [(none, NONE)]
            return [(none, NONE)] + [(self.set_mon(st, which=(i, j)), some(S("match"))) for i in range(len(self.kinds)) for j in range(self.prefixes)]
        if last == "get_group_by_name":
            n = e.deref_all(st, c.args[1])
            return [(s, self.span(x)) for s, x in self.group(e, st, n[1] if n[0] == "str" else "")]
        if re.search(r"regex_automata::.*search::", nm):
            if last == "start" and e.deref_all(st, c.args[0]) == S("search"):
                return [(st, ("int", 0))]
            if last in ("range", "start", "end", "len"):
                a = e.deref_all(st, c.args[0])
                x = (MATCH, BODY) if a == S("match") else self.rng(e, st, a)
                if x:
                    return [(st, ("adt", "core::ops::range::Range", 0, (("int", x[0]), ("int", x[1]))) if last == "range" else
                             ("int", {"start": x[0], "end": x[1], "len": x[1] - x[0]}[last]))]
            if last == "pattern":
                return [(st, S("pid"))]
        if last == "as_usize" and e.deref_all(st, c.args[0]) == S("pid"):
            return [(st, ("int", get(st.mon, "which")[0]))]
        if last == "set_pattern":
            return [(st, UNIT)]
        if re.search(r"regex_automata::.*Regex(Builder)?::(new_many|build_many)$", nm):
            v = self.vec_of(e, st, c.args[-1])[0]
            return [(self.set_mon(st, compiled=tuple(e.deref_all(st, x) for x in v[1]) if v else None), ok(S("regex")))]
        if re.search(r"symbol::Symbol(::as_str| as .*(AsRef|Deref|Display).*)", nm) and last in ("as_str", "as_ref", "deref"):
            return [(st, e.norm(st, e.deref_all(st, c.args[0])))]
        if last in ("collect", "extend") and c.args:
            v = e.deref_all(st, c.args[-1])
            if v[0] == "adt" and v[1].startswith("litcheck"):
                outs = []
                for s, els in self.local(e, st, c, v) or ():
                    if last == "collect":
                        outs.append((s, ("arr", els)))
                        continue
                    a, loc = self.vec_of(e, s, c.args[0])
                    if a is None or loc is None:
                        return None
                    s = s.copy()
                    e.set(s, loc, ("arr", a[1] + els))
                    outs.append((s, UNIT))
                return outs or None
        if last in ("try_into", "into", "try_from", "from") and len(c.args) == 1:
            v = e.deref_all(st, c.args[0])
            if v[0] == "adt" and v[1].endswith("patterns::Check"):
                for k, a in (("TryFrom::try_from", self.check), ("From::from", self.check)):
                    fn = self.p.fns.get(self.p.impl_method.get(("core::convert::" + k, a)))
                    if fn is not None and not nm == fn.name:
                        return e.run(fn, [v], st, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),))
        if nm in self.p.fns and not self.p.fns[nm].ext:
            return None
        a = e.norm(st, e.deref_all(st, c.args[0])) if c.args else None
        if last == "is_ascii_whitespace":
            n = get(st.mon, "blank")
            if n is not None:
                return [(st, FALSE)]
            return [(self.set_mon(st, blank=1), TRUE), (self.set_mon(st, blank=0), FALSE)]
        if last in ("eq", "ne") and len(c.args) == 2:
            x, y = a, e.norm(st, e.deref_all(st, c.args[1]))
            for x, y in ((x, y), (y, x)):
                if x[0] == y[0] == "str":
                    return [(st, TRUE if (x == y) == (last == "eq") else FALSE)]
                if x == S("txt", *GROUPS["prefix"]) and y[0] == "sym" and y[1][0] == "prefix":
                    return [(st, TRUE if (y[1][2] == get(st.mon, "which")[1]) == (last == "eq") else FALSE)]
        if last in ("index", "get") and a == S("buffer"):
            x = self.rng(e, st, c.args[1])
            return [(st, self.text(st, x) if last == "index" else some(self.text(st, x)))] if x else None
        if last in ("from_utf8", "from_utf8_unchecked") and a and (a[0] == "str" or a[1][0] == "txt"):
            return [(st, ok(a) if last == "from_utf8" else a)]
        if last == "parse" and a == S("txt", *GROUPS["count"]):
            return [(self.set_mon(st, count=True), ok(S("count"))), (self.set_mon(st, count=False), err(S("bad count")))]
        if a and a[0] == "str":
            if last == "split" and len(c.args) == 2:
                y = e.deref_all(st, c.args[1])
                y = chr(y[1]) if y[0] == "int" else y[1] if y[0] == "str" else None
                if y:
                    return [(st, ("iter", "arr", ("arr", tuple(("str", t) for t in a[1].split(y))), ("int", 0)))]
            f = {"trim": str.strip, "trim_start": str.lstrip, "trim_end": str.rstrip, "trim_ascii": str.strip, "trim_ascii_start": str.lstrip, "trim_ascii_end": str.rstrip}.get(last)
            if f:
                return [(st, ("str", f(a[1])))]
            if last == "len":
                return [(st, ("int", len(a[1].encode())))]
        if last in ("join", "concat") and c.args:
            v, sep = self.vec_of(e, st, c.args[0])[0], parts_of(e, st, c.args[1]) if len(c.args) > 1 else ()
            if v:
                out = ()
                for i, x in enumerate(v[1]):
                    out += (sep if i else ()) + tuple(parts_of(e, st, e.deref_all(st, x)))
                return [(st, text(out))]
        if last == "strip_prefix" and a and a[0] == "sym" and a[1][0] == "txt":
            return [(st, some(S("txt", a[1][1] + 1, a[1][2]))), (st, NONE)]
        v = self.vec_call(e, st, c, last)
        return v if v is not None else text_call(e, st, c)

    def on_panic(self, e, st, *a):
        return None


# ---- what the patterns are
def marked(src):
    """A regular expression with markers around its groups, in the notation of `nfa`; None if it is not known."""
    out, i, depth, names = "", 0, [], []
    many = src.startswith("(?m)")
    src = src.replace("(?m)", "").replace("(?-m)", "").replace("(?u:", "(?:")
    if not many and re.search(r"(?<!\[)\^|\$", src):
        return None
    while i < len(src):
        c = src[i]
        if c == "\\":
            out, i = out + src[i:i + 2], i + 2
            continue
        if c == "[":
            j = src.index("]", i + 2)
            out, i = out + src[i:j + 1], j + 1
            continue
        m = re.match(r"\(\?P?<(\w+)>", src[i:])
        if m:
            n = sorted(GROUPS).index(m[1]) if m[1] in GROUPS else 9
            out, i = out + "(?:" + chr(0x10 + n), i + len(m[0])
            depth.append(chr(0x10 + n))
            continue
        if c == "(":
            depth.append("")
            if src[i + 1:i + 2] != "?":
                out, i = out + "(?:", i + 1
                continue
        if c == ")":
            m = depth.pop()
            if m:       # also around each alternative
                out = out[:out.rindex("(?:" + m)] + "(?:" + m + "(?:" + out[out.rindex("(?:" + m) + 3 + len(m):] + ")" + chr(ord(m) + 0x100)
        out, i = out + c, i + 1
    return out


def lang(src):
    """The automaton of a regular expression and its alphabet."""
    try:
        x = marked(src)
        edges, end, groups, trouble = nfa(x) if x is not None else (None, None, [], ["?"])
    except (ValueError, IndexError):
        return None
    if edges is None or trouble:
        return None
    return edges, end


def same(a, b):
    alpha = {" ", "\n", "\t", "~"} | set(AT.values())
    for x in (a, b):
        for _, s, neg, _ in x[0]:
            alpha |= s or set()
    return included(a, b, alpha) is None and included(b, a, alpha) is None


class Lines:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Directives(r.p)
        self.new = r.fn(r"parse::lexer::Lexer(<.*>)?::new$")
        self.next = r.fn(r"parse::lexer::Lexer(<.*>)? as .*Iterator>::next$")
        self.unused = r.fn(r"parse::lexer::Lexer(<.*>)?::unused_prefixes$")
        self.lexer, self.tok = adt(r, "Lexer", "parse::lexer"), adt(r, "Token", "parse::lexer")
        self.check = self.m.check = adt(r, "Check", "ast::directive")

    def source(self, e, s, v):
        """The regular expression of a pattern, with a private character for each prefix."""
        v = e.deref_all(s, v)
        if v[0] == "adt":
            v = e.deref_all(s, v[3][fidx(self.r, v[1], "raw")])
        out, parts = "", list(parts_of(e, s, v))
        while parts:
            x = parts.pop(0)
            if isinstance(x, str):
                out += x
            elif x[0] in ("adt", "ref"):
                x = e.deref_all(s, x)
                if not x[1].endswith("Cow"):
                    return None
                parts = list(parts_of(e, s, e.deref_all(s, x[3][0]))) + parts
            elif x[0] == "sym" and x[1][0] == "prefix":
                out += chr(0xE000 + x[1][2] + (16 if x[1][1].startswith("comment") else 0))
            else:
                return None
        return out

    def wanted(self, nchecks, ncomments):
        pre = "|".join(chr(0xE000 + i) for i in range(nchecks)) or "CHECK"
        com = "|".join(chr(0xE010 + i) for i in range(ncomments)) or "COM|RUN"
        w = {k: r"(?m)(?:^|\s)(?<prefix>%s)%s([{](?<modifiers>\s*LITERAL\s*(,\s*LITERAL\s*)*)[}])?:" % (pre, x) for k, x in SUFFIX.items()}
        w["comment"] = r"(?m)(?:^|\s)(?<prefix>%s):(?<comment>.*)$" % com
        return {k: lang(x) for k, x in w.items()}

    def built(self, nchecks, ncomments):
        r, m = self.r, self.m
        opts, cfg = adt(r, "Options", "filecheck"), adt(r, "Config", "filecheck")
        many = {"check_prefixes": nchecks, "comment_prefixes": ncomments}
        ov = ("adt", opts, 0, tuple(("arr", tuple(S("prefix", f["n"], i) for i in range(many[f["n"]]))) if f["n"] in many else S("option", f["n"]) for f in self.p.adts[opts]["v"][0]["f"]))
        cv = ("adt", cfg, 0, tuple(ov if f["n"] == "options" else S("config", f["n"]) for f in self.p.adts[cfg]["v"][0]["f"]))
        root = ("L", ("keep", 0), 0)
        e, outs = analyse(r, self.new, m, [S("id"), S("source"), ("ref", root, ())], State(env={root: cv}, mon=put((), start=START)))
        want, at = self.wanted(nchecks, ncomments), self.new.loc()
        for s, v in outs:
            v = e.deref_all(s, v)
            compiled = get(s.mon, "compiled")
            kept = e.deref_all(s, v[3][fidx(r, self.lexer, "patterns")]) if v[0] == "adt" else ("?",)
            good = compiled and kept[0] == "arr" and tuple(e.deref_all(s, x) for x in kept[1]) == compiled
            r.ob("patterns", "%d and %d prefixes" % (nchecks, ncomments), bool(good), "patterns|kept", "%s: the patterns that are searched for are not those the matches are looked up in" % at)
            if not good:
                continue
            kinds = []
            for x in compiled:
                src = self.source(e, s, x)
                a = lang(src) if src is not None else None
                k = [k for k, b in want.items() if a and same(a, b)]
                kinds.append(k[0] if k else None)
                show = (src or "?").translate({0xE000 + i: "<prefix>" for i in range(32)})
                r.ob("patterns", k[0] if k else "none", bool(k), "patterns|" + show[:100], "%s: '%s' is not the pattern of a directive" % (at, show))
            for k in want:
                r.ob("kinds", k, kinds.count(k) == 1, "kinds|" + k, "%s: %s check lines of the kind %s, with %d prefixes" % (at, "there is no pattern for" if k not in kinds else "there are several patterns for", k, ncomments if k == "comment" else nchecks))
            if None not in kinds and nchecks and ncomments:
                yield s, v, kinds

    def token(self, e, s, v):
        k, x = result_of(e, s, v)
        x = e.deref_all(s, x)
        if k != "ok" or x[0] != "tup":
            return "error"
        t = e.deref_all(s, x[1][1])
        if t[0] != "adt" or t[1] != self.tok:
            return "?"
        n = vname(self.p, t[1], t[2])
        if n == "Check":
            y = e.deref_all(s, t[3][0])
            n = vname(self.p, y[1], y[2]) if y[0] == "adt" else "?"
            if y[0] == "adt" and y[3]:
                z = strip(e.norm(s, e.deref_all(s, y[3][0])))
                n += "" if z == S("count") else "(another count)"
            return "CHECK:" + n
        return n

    def lines(self, nchecks):
        r, m = self.r, self.m
        ib, isn, ie = (fidx(r, self.lexer, x) for x in ("buffer", "seen_prefixes", "eof"))
        root, at = ("L", ("keep", 1), 0), self.next.loc()
        for s0, v0, kinds in list(self.built(nchecks, 2)):
            m.kinds, m.prefixes = kinds, nchecks
            st = s0.copy()
            st.mon = put((), start=START)
            v0 = ("adt", v0[1], v0[2], tuple(("arr", ()) if i == ib else FALSE if i == ie else x for i, x in enumerate(v0[3])))
            st.env[root] = v0
            e, outs = analyse(r, self.next, m, [("ref", root, ())], st)
            for s, v in outs:
                k, x = option_of(e, s, v)
                lx = e.deref_all(s, e.get(s, (root, ())))
                buf = e.deref_all(s, lx[3][ib])
                have = ([self.token(e, s, x)] if k == "some" else []) + ([self.token(e, s, y) for y in buf[1]] if buf[0] == "arr" else ["?"])
                want, line = self.tokens(s.mon, kinds)
                have = have[1:] if have[:1] == ["Lf"] and get(s.mon, "byte") == "\n" else have
                msg = get(s.mon, "wrong") or (None if have == want else "becomes '%s', not '%s'" % (" ".join(have), " ".join(want)))
                ends = get(s.mon, "start")
                w = get(s.mon, "which")
                if not msg and w and kinds[w[0]] == "comment":
                    msg = None if ends == EOL else "is not read to its end"
                elif not msg and w and get(s.mon, "count") is False:
                    msg = None if ends in (EOL, END) else "is read again as something else"
                elif not msg and w:
                    p = get(s.mon, "pattern")
                    msg = None if p == (BODY, bool(get(s.mon, "mods"))) else "has no pattern" if p is None else "has another pattern than what follows its colon" if p[0] != BODY else "is literal although it is not" if p[1] else "is not literal"
                r.ob("lines", kinds[w[0]] if w else "none", msg is None, "lines|" + (msg or "")[:100], "%s: %s %s" % (at, line, msg))
                if w and kinds[w[0]] != "comment":
                    self.used(e, s, root, w[1], nchecks)

    def tokens(self, mon, kinds):
        b, w, m = get(mon, "byte"), get(mon, "which"), get(mon, "mods")
        if b == "\0" or not w:
            return [], "the end of the file"
        k = kinds[w[0]]
        if k == "comment":
            return ["Comment"], "a comment"
        line = "a line 'CHECK%s%s:'" % (re.sub(r"\(.*", "n", SUFFIX[k]), "{%s}" % m if m else "")
        if k == "Count" and get(mon, "count") is False:
            return ["Error"], line + " with an invalid count"
        return ["CHECK:" + k] + ["Modifier"] * MODS.get(m, 0) + ["Colon"], line

    def used(self, e, s, root, j, n):
        """Which prefixes are reported not to be used, after one line."""
        r, at = self.r, self.unused.loc()
        e2, outs = analyse(r, self.unused, self.m, [("ref", root, ())], s)
        for s2, v in outs:
            v = e2.deref_all(s2, v)
            have = [e2.norm(s2, e2.deref_all(s2, x)) for x in v[1]] if v[0] == "arr" else None
            want = [S("prefix", "check_prefixes", i) for i in range(n) if i != j]
            r.ob("prefixes", "%d of %d" % (j, n), have == want, "prefixes|%d|%d" % (j, n), "%s: after a line with prefix %d of %d, %s are said not to be used" % (at, j + 1, n, "other prefixes" if have is not None else "unknown prefixes"))


@rule("F19")
def f19(r):
    x = Lines(r)
    for n, k in ((0, 0), (1, 0), (0, 1)) + (((3, 3),) if r.tier != "quick" else ()):
        for _ in x.built(n, k):
            pass
    for n in (1, 2) if r.tier == "quick" else (1, 2, 3):
        x.lines(n)
    r.floor("kinds", 40)
    r.floor("lines", 100)
    r.floor("prefixes", 100)
