"""F18: a check file is read completely."""
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, vname, vidx, fidx, result_of, some, ok, err, NONE, analyse, Vecs
from rules import rule
from props.fc_report import get, put

UNIT = ("tup", ())
KINDS = ("Plain", "Next", "Same", "Not", "Dag", "Label", "Empty", "Count:0", "Count:2")
SIGNS = {"[[": "MatchStart", "]]": "MatchEnd", "{{": "RegexStart", "}}": "RegexEnd", "lf": "Lf", ":": "Colon", "#": "Hash"}
LAST = ("end", "bad")


def S(*k):
    return ("sym", k, ())


class Reading(Vecs, Mon):
    """The tokens of the file are decided as they are read; mon: 'toks' those decided, 'at' how many were taken, 'blocks' what the
    grammar of blocks was asked, 'unused' whether there are prefixes without a check."""
    watch = (r"parse::parser::CheckFileParser\b", r"parse::lexer::Lexer\b")
    force = (r"parse::parser::", r"diagnostics::span", r"ast::(file|directive|modifier)::", r"CheckModifier|bitflags|InternalBitFlags")
    recurse = r"CheckFileParser"
    recursion = 12
    init = ()
    max_depth = 90
    max_states = 20000000
    widen_ints = 10 ** 6
    most, kinds, after = 0, (), lambda self, toks: ()

    def setup(self, r):
        self.r, self.p = r, r.p
        self.tok = adt(r, "Token", "parse::lexer")
        self.check = adt(r, "Check", "ast::directive")
        self.mod, self.inner = adt(r, "CheckModifier", "ast::modifier"), adt(r, "InternalBitFlags", "ast::modifier")
        return self

    def literal(self):
        return ("adt", self.mod, 0, (("adt", self.inner, 0, (("int", 1),)),))

    def token(self, k, i):
        if k[:2] == "c:":
            n, _, count = k[2:].partition(":")
            x = ("adt", self.check, vidx(self.r, self.check, n), (("int", int(count)),) if count else ())
            return ("adt", self.tok, vidx(self.r, self.tok, "Check"), (x,))
        if k == "lit":
            return ("adt", self.tok, vidx(self.r, self.tok, "Modifier"), (self.literal(),))
        if k in ("raw", "com", "err"):
            return ("adt", self.tok, vidx(self.r, self.tok, {"raw": "Raw", "com": "Comment", "err": "Error"}[k]), (S("tok", i),))
        return ("adt", self.tok, vidx(self.r, self.tok, SIGNS[k]), ())

    def ahead(self, st):
        """[(state, kind of the next token)]"""
        toks, n = get(st.mon, "toks") or (), get(st.mon, "at") or 0
        if n < len(toks):
            return [(st, toks[n])]
        if toks and toks[-1] in LAST:
            return [(st, "end")]
        outs = []
        more = self.after(toks) if n < self.most else ()
        if toks[-1:] == ("raw",) and toks[-3:-1] == ("lit", ":"):      # the text of a literal line is all of it
            more = tuple(k for k in more if k == "lf")
        for k in more + LAST:
            s = st.copy()
            s.mon = put(s.mon, toks=toks + (k,))
            outs.append((s, k))
        return outs

    def lexed(self, k, n):
        return err(S("bad token")) if k == "bad" else ok(("tup", (("int", 2 * n), self.token(k, n), ("int", 2 * n + 1))))

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm) or re.search(r"Spanned>?::span$", nm):
            return [(st, S("where"))]
        if re.search(r"parse::lexer::Lexer", nm):
            if last in ("next", "peek"):
                outs = []
                for s, k in self.ahead(st):
                    n = get(s.mon, "at") or 0
                    if last == "next":
                        s = s.copy()
                        s.mon = put(s.mon, at=n + 1)
                        outs.append((s, NONE if k == "end" else some(self.lexed(k, n))))
                    else:
                        root = ("L", ("ahead", n), 0)
                        if k not in LAST:
                            s = s.copy()
                            s.env[root] = self.token(k, n)
                        outs.append((s, NONE if k in LAST else some(("ref", root, ()))))
                return outs
            if last == "unused_prefixes":
                outs = []
                for n in (0, 1):
                    s = st.copy()
                    s.mon = put(s.mon, unused=n)
                    outs.append((s, ("arr", (S("prefix"),) * n)))
                return outs
            if last == "new":
                return [(st, S("lexer"))]
            if last in ("source_id", "current_offset"):
                return [(st, S("where"))]
        if re.search(r"grammar::.*MatchParser::new$", nm):
            return [(st, S("grammar"))]
        if re.search(r"grammar::.*MatchParser::parse$", nm):
            outs = []
            for s, els in self.inside(e, st, c, c.args[-1]) or [(st, (S("?"),))]:
                b = s.copy()
                b.mon = put(b.mon, refused=True)
                outs += [(s, ok(S("block", tuple(self.ident(e, s, x) for x in els)))), (b, err(S("grammar error")))]
            return outs
        if re.search(r"parse::parser::handle_parse_error$", nm) or last in ("to_string", "fmt"):
            return [(st, S("message"))]
        if nm in self.p.fns and not self.p.fns[nm].ext:
            if "CheckModifier" in nm:        # of which LITERAL is a constant
                args = [self.flags(e, st, x) for x in c.args]
                if args != list(c.args):
                    return e.run(self.p.fns[nm], args, st, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),))
            return None
        if last in ("eq", "ne") and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            if a[0] == b[0] == "int":
                return [(st, TRUE if (a == b) == (last == "eq") else FALSE)]
        return self.vec_call(e, st, c, last)

    def flags(self, e, st, x):
        v = e.norm(st, e.deref_all(st, x))
        if v[0] == "sym" and v[1][:2] == ("kadt", self.mod):
            return ("adt", self.mod, 0, (("adt", self.inner, 0, (("int", v[1][2]),)),))
        return x

    def ident(self, e, st, x):
        """The number of the token that was read."""
        k, x = result_of(e, st, e.deref_all(st, x))
        x = e.deref_all(st, x)
        if k != "ok" or x[0] != "tup" or len(x[1]) != 3:
            return "?"
        a, t, b = (e.norm(st, e.deref_all(st, y)) for y in x[1])
        if a[0] != "int" or a[1] % 2 or b != ("int", a[1] + 1):
            return "?"
        n, toks = a[1] // 2, get(st.mon, "toks")
        return n if n < len(toks) and toks[n] not in LAST and e.norm(st, t) == e.norm(st, self.token(toks[n], n)) else "?"

    def on_panic(self, e, st, *a):
        return None


# ---- what a file says
class Wrong(Exception):
    pass


def checks(toks, refused):
    """The checks of a file: (kind, literal, pattern). Wrong('more') if it is not known yet."""
    out, i = [], 0

    def at(i):
        return toks[i] if i < len(toks) else "more"
    while True:
        k = at(i)
        if k == "end":
            return out
        if k in ("lf", "com"):
            i += 1
            continue
        if k[:2] != "c:":
            raise Wrong(k if k == "more" else "what is not part of a check")
        kind, i, lit = k[2:], i + 1, False
        while at(i) == "lit":
            i, lit = i + 1, True
        if at(i) != ":":
            raise Wrong(at(i) if at(i) == "more" else "a check without a colon")
        i += 1
        if kind == "Count:0":
            raise Wrong("a count of zero")
        parts = []
        while True:
            k = at(i)
            if k == "more":
                raise Wrong("more")
            if k in ("lf", "end"):
                break
            if kind == "Empty":
                raise Wrong("a pattern of CHECK-EMPTY")
            if k == "raw":
                parts.append(("Literal", i))
                i += 1
                if lit:
                    break
            elif k == "{{" and not lit:
                for j, w in ((1, "raw"), (2, "}}")):
                    if at(i + j) != w:
                        raise Wrong(at(i + j) if at(i + j) == "more" else "an expression without its end")
                parts.append(("Regex", i + 1))
                i += 3
            elif k == "[[" and not lit:
                j = i + 1
                while at(j) not in ("]]", "lf", "end", "bad", "err", "more"):
                    j += 1
                if at(j) != "]]":
                    raise Wrong("more" if at(j) == "more" else "a block without its end")
                if j == i + 1:
                    raise Wrong("an empty block")
                parts.append(("Match", tuple(range(i, j + 1))))
                i = j + 1
            else:
                raise Wrong("a line that cannot go on like this")
        if not parts and kind != "Empty":
            raise Wrong("a check without a pattern")
        if not parts and lit and k == "end":
            raise Wrong("undecided")
        out.append((kind, lit, ("Empty",) if not parts else parts[0] if len(parts) == 1 and parts[0][0] != "Match" else ("Match", tuple(parts))))
        if k == "lf":
            i += 1
    return out


class FileRun:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Reading(r.p).setup(r)
        self.fn = r.fn(r"CheckFileParser(<.*>)?::parse$")
        self.line, self.ty = adt(r, "CheckLine", "ast::file"), adt(r, "CheckType", "ast::directive")
        self.pat, self.part, self.file = adt(r, "CheckPattern", "ast::pattern"), adt(r, "CheckPatternPart", "ast::pattern"), adt(r, "CheckFile", "ast::file")
        self.span = adt(r, "Span", "diagnostics::span")
        self.lit = self.m.literal()

    def field(self, e, s, v, a, name):
        v = e.deref_all(s, v)
        return e.deref_all(s, v[3][fidx(self.r, a, name)]) if v[0] == "adt" and v[1] == a else ("?",)

    def bare(self, e, s, v):
        """What a value with its place, a string that may be owned or a pattern is about."""
        v = e.deref_all(s, v)
        while v[0] == "adt":
            if v[1] == self.span:
                v = self.field(e, s, v, self.span, "spanned")
            elif v[1].endswith(("Cow", "RegexPattern")) and v[3]:
                v = e.deref_all(s, v[3][0])
            else:
                break
        return v

    def tokid(self, e, s, v):
        v = self.bare(e, s, v)
        return v[1][1] if v[0] == "sym" and v[1][0] == "tok" else "?"

    def one(self, e, s, v, a):
        v = e.deref_all(s, v)
        if v[0] != "adt" or v[1] != a:
            return ("?",)
        n = vname(self.p, a, v[2])
        if n == "Empty":
            return (n,)
        x = self.bare(e, s, v[3][0])
        if n == "Match" and a == self.pat:
            return (n, tuple(self.one(e, s, y, self.part) for y in x[1]) if x[0] == "arr" else "?")
        if n == "Match":
            return (n, x[1][1] if x[0] == "sym" and x[1][0] == "block" else "?")
        return (n, self.tokid(e, s, v[3][0]))

    def built(self, e, s, v):
        v = self.field(e, s, v, self.file, "lines")
        if v[0] != "arr":
            return None
        out = []
        for x in v[1]:
            ty = self.field(e, s, x, self.line, "ty")
            kind, mod = self.field(e, s, ty, self.ty, "kind"), self.bare(e, s, self.field(e, s, ty, self.ty, "modifiers"))
            k = vname(self.p, kind[1], kind[2]) if kind[0] == "adt" else "?"
            if k == "Count":
                k += ":%s" % e.norm(s, e.deref_all(s, kind[3][0]))[1]
            mod = e.norm(s, mod)
            lit = mod == self.lit if mod[0] == "adt" else "?"
            out.append((k, lit, self.one(e, s, self.field(e, s, x, self.line, "pattern"), self.pat)))
        return out

    def read(self, most, after, allow=False):
        r, m = self.r, self.m
        m.most, m.after = most, after
        opts, cfg = adt(r, "Options", "filecheck"), adt(r, "Config", "filecheck")
        ov = ("adt", opts, 0, tuple((TRUE if allow else FALSE) if f["n"] == "allow_unused_prefixes" else S("option", f["n"]) for f in self.p.adts[opts]["v"][0]["f"]))
        cv = ("adt", cfg, 0, tuple(ov if f["n"] == "options" else S("config", f["n"]) for f in self.p.adts[cfg]["v"][0]["f"]))
        par = adt(r, "CheckFileParser", "parse::parser")
        croot, proot = ("L", ("keep", 0), 0), ("L", ("keep", 1), 0)
        st = State(env={croot: cv, proot: ("adt", par, 0, (("ref", croot, ()),))}, mon=())
        e, outs = analyse(r, self.fn, m, [("ref", proot, ()), S("source"), S("input")], st)
        at = self.fn.loc()
        for s, v in outs:
            toks = get(s.mon, "toks") or ()
            k, x = result_of(e, s, v)
            refused, unused = get(s.mon, "refused"), get(s.mon, "unused")
            text = " ".join({"raw": "text", "lit": "{LITERAL}", "com": "(comment)", "err": "(error)", "bad": "(error)", "lf": "(newline)", "end": "(end)"}.get(t, t[2:] if t[:2] == "c:" else t) for t in toks)
            try:
                want, why = checks(toks, refused), None
            except Wrong as w:
                want, why = None, str(w)
            if why == "undecided":
                continue
            if k == "ok":
                have = self.built(e, s, e.deref_all(s, x))
                msg = "is accepted in spite of " + why if why else "is accepted although a block of it is invalid" if refused else \
                    "is accepted although a prefix is not used" if unused and not allow else "has other checks than it says" if have != want else None
                if msg == "has other checks than it says" and have:
                    msg += ": " + " ".join("%s%s=%s" % (a, "{LITERAL}" if b else "", p[0]) for a, b, p in have)
                r.ob("accepted", "%d tokens" % len(toks), msg is None, "accepted|" + (msg or "")[:80], "%s: the check file '%s' %s" % (at, text, msg))
            else:
                good = k == "err" and (why not in (None, "more") or refused or why is None and unused and not allow)
                r.ob("rejected", "%d tokens" % len(toks), bool(good), "rejected|" + text[:60], "%s: the check file that starts with '%s' is rejected%s" % (at, text, "" if k == "err" else ", or not decided"))


@rule("F18")
def f18(r):
    g = FileRun(r)
    every = tuple("c:" + k for k in KINDS) + ("lit", "raw", "com", "err") + tuple(SIGNS)
    quick = r.tier == "quick"
    # whole files of any tokens
    g.read(4 if quick else 5, lambda t: every)
    g.read(3, lambda t: every, allow=True)
    # lines of one check
    body = ("raw", "[[", "]]", "{{", "}}", "lf", "#", "com", "c:Next", "err")
    for kind in ("Plain", "Empty", "Count:2"):
        for lit in ((), ("lit",)):
            head = ("c:" + kind,) + lit + (":",)
            n = len(head)
            g.read(n + (7 if not quick else 5 if kind == "Plain" else 4), lambda t: (head[len(t)],) if len(t) < n else body)
    # several checks, with what is in between
    some_ = ("c:Plain", "c:Empty", "lit", ":", "raw", "lf", "com")
    g.read(8 if quick else 10, lambda t: some_)
    r.floor("accepted", 200)
    r.floor("rejected", 1000)
