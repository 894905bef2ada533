"""L22: feature expressions are parsed as their grammar says."""
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, vname, vidx, result_of, option_of, some, NONE, ok, err, analyse, Vecs, Maps
from strs import text_call, parts_of
from chars import Chars, white
from rules import rule
from props.fc_report import get, put

KINDS = {"id": "Ident", "true": "Ident", "false": "Ident", "pat": "Pattern", "&&": "And", "||": "Or", "!": "Not", "(": "Lparen", ")": "Rparen", "end": "Eof"}


def S(*k):
    return ("sym", k, ())


class Parsing(Vecs, Maps, Mon):
    """mon: 'toks' the kinds of tokens read, 'bad' a regular expression was found to be invalid."""
    watch = (r"BooleanExprParser|BooleanExpr\b",)
    force = (r"expr::boolean::", r"diagnostics::span")
    recurse = r"BooleanExprParser"
    recursion = 12
    max_depth = 90
    init = ()
    max_states = 20000000
    kinds, most = (), 0

    def setup(self, r):
        self.r, self.p = r, r.p
        self.tok = adt(r, "Token", "expr::boolean")
        self.span = adt(r, "Span", "diagnostics::span")
        self.at = [f["n"] for f in r.p.adts[self.span]["v"][0]["f"]].index("spanned")
        return self

    def token(self, k, i):
        v = vidx(self.r, self.tok, KINDS[k])
        f = () if k not in ("id", "true", "false", "pat") else (S("tok", i) if k in ("id", "pat") else ("str", k),)
        return ("adt", self.tok, v, f)

    def spanned(self, v):
        return ("adt", self.span, 0, tuple(v if i == self.at else S("where") for i in range(2)))

    def plain(self, e, st, v):
        v = e.deref_all(st, v)
        if v[0] == "sym" and v[1] and v[1][0] == "text":
            ps = parts_of(e, st, v)
            if len(ps) == 1 and not isinstance(ps[0], str):
                return ps[0]
        return e.norm(st, v)

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        here = nm in e.p.fns and not e.p.fns[nm].ext
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm):
            return [(st, S("where"))]
        if nm.endswith("Tokenizer::new"):
            return [(st, S("tokenizer"))]
        if re.search(r"Tokenizer( as .*Iterator>)?::(next|lex)$", nm):
            toks = get(st.mon, "toks") or ()
            n = len(toks)
            if toks and toks[-1] in ("end", "none", "bad"):
                return [(st, NONE)]
            outs = []
            for k in (self.kinds if n < self.most else ()) + ("end", "none", "bad"):
                s = st.copy()
                s.mon = put(s.mon, toks=toks + (k,))
                outs.append((s, NONE if k == "none" else some(err(S("bad token"))) if k == "bad" else some(ok(self.spanned(self.token(k, n))))))
            return outs
        if re.search(r"regex::.*Regex::new$", nm):
            b = st.copy()
            b.mon = put(b.mon, bad=True)
            return [(st, ok(("adt", "re", 0, tuple(parts_of(e, st, c.args[0]))))), (b, err(S("regex error")))]
        if re.search(r"regex_syntax::escape_into$", nm):
            v, x = c.args[1], self.plain(e, st, c.args[0])
            while v[0] == "ref":
                loc = (v[1], v[2])
                v = e.get(st, loc)
            s = st.copy()
            e.set(s, loc, ("sym", ("text", tuple(parts_of(e, st, v)) + (S("esc", x),)), ()))
            return [(s, ("tup", ()))]
        if re.search(r"regex(_syntax)?::escape$", nm):
            return [(st, ("sym", ("text", (S("esc", self.plain(e, st, c.args[0])),)), ()))]
        if re.search(r"Box(<.*>)?::new$", nm):
            return [(st, ("adt", "boxed", 0, (e.deref_all(st, c.args[0]),)))]
        if last in ("eq", "ne") and len(c.args) == 2 and not here:
            a, b = (self.plain(e, st, y) for y in c.args)
            if {a[0], b[0]} <= {"str", "sym"}:
                return [(st, TRUE if (a == b) == (last == "eq") else FALSE)]
        if nm == "core::cmp::PartialEq::ne":     # of spans, whose operands are of different types
            fn = self.p.fns.get(self.p.impl_method.get(("core::cmp::PartialEq::eq", self.tok)))
            a, b = (e.deref_all(st, y) for y in c.args)
            a, b = (e.deref_all(st, y[3][self.at]) if y[0] == "adt" and y[1] == self.span else y for y in (a, b))
            if fn and a[0] == b[0] == "adt" and a[1] == b[1] == self.tok:
                return [(s2, ("not", v)) for s2, v in e.run(fn, [a, b], st, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),))]
        if not here and last in ("to_string", "to_owned", "into", "from", "clone", "into_string") and len(c.args) == 1:
            x = self.plain(e, st, c.args[0])
            if x[0] == "str" or x[0] == "sym" and x[1][0] == "tok":
                return [(st, x)]
        if last == "len" and not here and re.search(r"\bstr\b", nm):
            return [(st, S("len"))]
        v = text_call(e, st, c) if "::fmt::" in nm else None
        for h in (self.map_call, self.vec_call):
            if v is None:
                v = h(e, st, c, last)
        return v if v is not None else text_call(e, st, c)

    def on_panic(self, e, st, *a):
        return None


# ---- the grammar
class Wrong(Exception):
    pass


def sentence(toks):
    """What a list of tokens means; Wrong(i) if token i cannot be there."""
    pos = [0]
    kind = lambda: toks[pos[0]] if pos[0] < len(toks) else "more"  # noqa: E731

    def either():
        x = both()
        while kind() == "||":
            pos[0] += 1
            x = ("Or", x, both())
        return x

    def both():
        x = one()
        while kind() == "&&":
            pos[0] += 1
            x = ("And", x, one())
        return x

    def one():
        k = kind()
        if k == "!":
            pos[0] += 1
            return ("Not", one())
        if k == "(":
            pos[0] += 1
            x = either()
            if kind() != ")":
                raise Wrong(kind())
            pos[0] += 1
            return x
        run = []
        while kind() in ("id", "true", "false", "pat"):
            run.append((kind(), pos[0]))
            pos[0] += 1
        if not run:
            raise Wrong(kind())
        if all(k != "pat" for k, _ in run):
            if len(run) > 1:
                if kind() == "more":
                    raise Wrong("more")
                raise Wrong("names")
            k, i = run[0]
            return ("Lit", k == "true") if k in ("true", "false") else ("Var", i)
        return ("Pattern", tuple(run))
    x = either()
    if kind() != "end":
        raise Wrong(kind())
    return x


class ParseRun:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Parsing(r.p).setup(r)
        self.ex = adt(r, "BooleanExpr", "expr::boolean")
        self.fn = r.fn(r"BooleanExpr as core::str::(traits::)?FromStr>::from_str$")

    def built(self, v):
        """The expression that was made, in the form of `sentence`."""
        if v[0] == "adt" and v[1] == "boxed":
            v = v[3][0]
        if v[0] != "adt" or v[1] != self.ex:
            return ("?",)
        n = vname(self.p, v[1], v[2])
        if n in ("Not", "And", "Or"):
            return (n,) + tuple(self.built(x) for x in v[3])
        x = v[3][0]
        if n == "Lit":
            return (n, x == TRUE)
        if n == "Var":
            x = x[1] if x[0] == "sym" else None
            if isinstance(x, tuple) and x[0] == "text" and len(x[1]) == 1 and x[1][0][0] == "sym":
                x = x[1][0][1]
            return (n, x[1] if isinstance(x, tuple) and x[0] == "tok" else "?")
        return (n, self.pattern(x[3]) if x[0] == "adt" and x[1] == "re" else "?")

    def pattern(self, ps):
        """The names and patterns a regular expression was put together from."""
        toks = []
        for p in ps:
            toks += re.findall(r"\(\?:|.", p) if isinstance(p, str) else [p]
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if isinstance(t, tuple) and t[0] == "sym" and t[1][0] == "esc":
                x = t[1][1]
                out.append(("id", x[1][1]) if x[0] == "sym" and x[1][0] == "tok" else (x[1], None))
                i += 1
            elif t in ("(", "(?:") and i + 2 < len(toks) and toks[i + 2] == ")" and isinstance(toks[i + 1], tuple) and toks[i + 1][0] == "sym" and toks[i + 1][1][0] == "tok":
                out.append(("pat", toks[i + 1][1][1]))
                i += 3
            elif isinstance(t, str) and "".join(x for x in toks[i:i + 5] if isinstance(x, str)).startswith(("true", "false")):
                w = "true" if t == "t" else "false"
                out.append((w, None))
                i += len(w)
            elif isinstance(t, tuple) and len(toks) == 1 and t[0] == "sym" and t[1][0] == "tok":
                out.append(("pat", t[1][1]))
                i += 1
            else:
                return "?"
        return tuple(out)


def same(a, b):
    """Whether an expression is the wanted one."""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "Pattern":
        return a[1] != "?" and [(k, i if k in ("id", "pat") else None) for k, i in a[1]] == [(k, i if k in ("id", "pat") else None) for k, i in b[1]]
    return all(same(x, y) if isinstance(x, tuple) and isinstance(y, tuple) else x == y for x, y in zip(a[1:], b[1:]))


def parsed(r, g, kinds, most):
    g.m.kinds, g.m.most = kinds, most
    e, outs = analyse(r, g.fn, g.m, [S("input")], State(mon=()))
    at = g.fn.loc()
    for s, v in outs:
        toks = [("end" if k == "none" else k) for k in get(s.mon, "toks") or ()]
        k, x = result_of(e, s, v)
        text = " ".join({"id": "name", "pat": "{{pattern}}", "end": "(end)", "bad": "(no token)"}.get(t, t) for t in toks)
        try:
            want, why = sentence(toks), None
        except Wrong as w:
            want, why = None, str(w)
        bad = get(s.mon, "bad")
        if k == "ok":
            good = why is None and not bad and same(g.built(x), want)
            msg = "is accepted" if why or bad else "is not understood as it is written"
            r.ob("accepted", "%d tokens" % len(toks), good, "accepted|" + (msg if why else " ".join(toks)[:40]), "%s: the expression '%s' %s" % (at, text, msg))
        else:
            # rejected: rightly, unless it could still have become an expression
            good = k == "err" and (bad or why not in (None, "more"))
            r.ob("rejected", "%d tokens" % len(toks), good, "rejected|" + " ".join(toks)[:30], "%s: the expression that starts with '%s' is rejected%s" % (at, text, "" if k == "err" else ", or not at all decided"))


# ---- tokens
class Lexing(Chars, Parsing):
    """The characters of the expression are decided as they are read; mon: 'text' those read, 'end' there are no more, 'at' what was taken."""
    recurse = None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"diagnostics::(span::SourceSpan|source_file::ByteIndex)\b", nm):
            return [(st, S("where"))]
        if nm in self.p.fns and not self.p.fns[nm].ext:
            return None
        if last in ("chars", "peekable", "by_ref") and c.args:
            return [(st, S("chars"))]
        a = e.deref_all(st, c.args[0]) if c.args else None
        v = self.char_call(e, st, c, nm, last, a)
        if v is not None:
            return v
        if last in ("as_bytes", "from_utf8_unchecked", "as_str") and c.args:
            return [(st, e.norm(st, a))]
        if last in ("index", "get", "get_unchecked") and len(c.args) == 2 and a == S("input"):
            x = e.deref_all(st, c.args[1])
            if x[0] == "adt" and len(x[3]) == 2:
                lo, hi = (e.norm(st, y) for y in x[3])
                if lo[0] == hi[0] == "int":
                    b = (get(st.mon, "text") or "").encode()
                    if lo[1] <= hi[1] <= len(b):
                        v = ("str", b[lo[1]:hi[1]].decode(errors="replace"))
                        return [(st, v if last == "index" else some(v))]
            return [(st, S("unknown text"))]
        if last == "is_empty" and a and a[0] == "str":
            return [(st, TRUE if not a[1] else FALSE)]
        if last == "len" and a == S("input"):
            return [(st, S("len"))]
        return None


NAME = frozenset("-+=._" + "".join(chr(x) for x in range(128) if chr(x).isalnum()))
OPS = {"&&": "And", "||": "Or", "!": "Not", "(": "Lparen", ")": "Rparen"}


def lexemes(text):
    """The tokens at the start of a text; an 'error' ends them."""
    out, i = [], 0
    while i < len(text):
        c = text[i]
        if white(c):
            i += 1
        elif text[i:i + 2] in OPS or c in OPS:
            k = text[i:i + 2] if text[i:i + 2] in OPS else c
            out.append((OPS[k], None))
            i += len(k)
        elif c in NAME:
            j = i
            while j < len(text) and text[j] in NAME:
                j += 1
            out.append(("Ident", text[i:j]))
            i = j
        elif text.startswith("{{", i):
            j = text.find("}", i)
            if j < 0 or text[j:j + 2] != "}}" or j == i + 2:
                return out + [("error", None)]
            out.append(("Pattern", text[i + 2:j]))
            i = j + 2
        elif c == "{":      # an error, or a pattern which is no regular expression
            return out + [("error", "{")]
        else:
            return out + [("error", None)]
    return out


class LexRun:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Lexing(r.p).setup(r)
        self.new = r.fn(r"expr::boolean::Tokenizer::new$")
        self.next = r.fn(r"Tokenizer as .*Iterator>::next$")

    def token(self, e, st, v):
        v = e.deref_all(st, v)
        v = e.deref_all(st, v[3][self.m.at]) if v[0] == "adt" and v[1] == self.m.span else v
        if v[0] != "adt" or v[1] != self.m.tok:
            return ("?", None)
        n = vname(self.p, v[1], v[2])
        x = e.deref_all(st, v[3][0]) if v[3] else ("str", None)
        return (n, x[1] if x[0] == "str" else "?")

    def lexed(self, chars):
        """All token sequences of texts whose i-th character is one of chars[i]."""
        r, m = self.r, self.m
        m.chars = chars
        root = ("L", ("keep", 0), 0)
        e, outs = analyse(r, self.new, m, [S("source"), S("input")], State(mon=()))
        todo, at = [], self.next.loc()
        for s, v in outs:
            e.set(s, (root, ()), v)
            todo.append((s, ()))
        while todo:
            st, got = todo.pop()
            e, outs = analyse(r, self.next, m, [("ref", root, ())], st)
            for s, v in outs:
                k, x = option_of(e, s, v)
                if k == "some":
                    k, x = result_of(e, s, x)
                    t = self.token(e, s, x) if k == "ok" else ("error", None)
                else:
                    t = ("end", None)
                have = got + (t,)
                if t[0] not in ("error", "end", "?") and len(have) <= len(chars):
                    todo.append((s, have))
                    continue
                text = get(s.mon, "text") or ""
                want = lexemes(text)
                if want and want[-1] == ("error", "{") and len(have) >= len(want) and have[len(want) - 1][0] == "Pattern" and have[len(want) - 1][1][:1] == "{":
                    have = have[:len(want) - 1] + (("error", "{"),)
                want = [w if w[0] != "error" else ("error", None) for w in want] + ([] if want and want[-1][0] == "error" else [("end", None)])
                have = [w if w[0] != "error" else ("error", None) for w in have]
                good = list(have) == want
                show = " ".join(n if t is None else "%s:%s" % (n, t) for n, t in have)
                r.ob("tokens", "%d characters" % len(text), good, "tokens|" + repr(text), "%s: the text %r is cut into the tokens '%s'" % (at, text, show))


@rule("L22")
def l22(r):
    x = LexRun(r)
    every = "".join(map(chr, range(1, 128))) + "\u00a0\u00e9\u2003\u4e00"
    few = "a-&|!({} "
    x.lexed([every, "a} "])
    x.lexed(["a", every, "a"])
    x.lexed(["{", "{", "a", every, "}", "}", "a"])
    x.lexed([few] * (3 if r.tier == "quick" else 5))
    x.lexed(["{", "{ }", "a{} ", "a}{ ", "}a ", "}a "])
    r.floor("tokens", 1000)
    g = ParseRun(r)
    parsed(r, g, ("id", "true", "false", "pat", "&&", "||", "!", "(", ")"), 3)
    parsed(r, g, ("id", "&&", "||", "!", "(", ")"), 6 if r.tier == "quick" else 9)
    parsed(r, g, ("id", "pat", "true", "&&"), 5)
    r.floor("accepted", 300)
    r.floor("rejected", 600)
