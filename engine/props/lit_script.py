"""L09, L10, L15, L17: test scripts - directives, line numbers, substitutions, conditions."""
from kit import *
from rules import rule, Anchor
from props.lit_exec import get, put
from props.lit_fmt import path_of, contains, roots, refloc


class Script(Mon):
    """One pass over the lines of a test script."""
    small = 60
    max_states = 700000
    init = ()

    def setup(self, r):
        self.r = r
        self.bad = {}
        self.seen = set()
        self.lines = []
        self.parser = adt(r, "TestScriptParser")
        self.script = adt(r, "TestScript", "litcheck_lit")
        self.kind = adt(r, "DirectiveKind")
        self.raw = adt(r, "RawDirective")
        self.span = adt(r, "Span", "litcheck_core")
        self.cmd = adt(r, "ScriptCommand")
        self.run_ = adt(r, "Run", "directives")
        self.sub = adt(r, "Substitution", "directives")
        self.linesadt = adt(r, "Lines", "parser")
        self.err = adt(r, "TestScriptError")
        sc = fidx(r, self.parser, "script")
        self.fields = {(fidx(r, self.parser, "errors"),): "errors"}
        for n in ("commands", "xfails", "requires", "unsupported", "allowed_retries"):
            self.fields[(sc, fidx(r, self.script, n))] = n
        self.cur = fidx(r, self.linesadt, "current_line")
        self.kinds = [v["n"] for v in r.p.adts[self.kind]["v"]]
        return self

    def coll(self, e, st, a):
        """Which of the parser's collections a reference points to."""
        if a[0] == "ref":
            loc = (a[1], a[2])
            n = 6
            while n:
                v = e.get(st, loc)
                if v[0] != "ref":
                    break
                loc = (v[1], v[2])
                n -= 1
            v = e.get(st, loc)
            p = path_of(v)
            pth = tuple(x for x in loc[1] if x != "*")
            if pth in self.fields:
                return self.fields[pth]
        else:
            p = path_of(a)
        if p and p[0] in (("arg", 1), ("self",)):
            return self.fields.get(p[1])
        return None

    def violation(self, key, msg):
        self.bad.setdefault(key, msg)

    def where(self, c):
        return c.loc()

    def done_pending(self, st, loc):
        """The pending directive must be accounted for now."""
        k, org, rec, ex = get(st.mon, "pend", (None, None, True, True))
        if k and not rec:
            self.violation("dropped|" + k, "%s: a %s directive is neither recorded in the script nor reported as an error" % (loc, k))
        if k and not ex:
            self.violation("condition-dropped|" + k, "%s: one of the conditions of a %s directive is neither recorded nor reported" % (loc, k))

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        p = self.r.p
        if nm in p.fns and not p.fns[nm].ext and last == "next" and p.fns[nm].self_name == self.linesadt:
            outs = [(st.copy(), NONE)]
            s = st.copy()
            k, org, rec, ex = get(st.mon, "pend", (None, None, True, True))
            n = 1 if (k is None or rec) else min(get(st.mon, "line", 1) + 1, 3)
            s.mon = put(s.mon, line=n, more=False, sign=None)
            self.unreported(st, c.loc())
            loc = refloc(e, s, c.args[0]) if c.args[0][0] == "ref" else e.deref(c.args[0])
            e.set(s, (loc[0], loc[1] + (self.cur,)), ("int", n))
            fs = [TOP] * len(p.adts[self.span]["v"][0]["f"])
            fs[fidx(self.r, self.span, "span")] = ("sym", ("linespan",), ())
            fs[fidx(self.r, self.span, "spanned")] = ("sym", ("linetext", n), ())
            outs.append((s, some(("adt", self.span, 0, tuple(fs)))))
            return outs
        if nm.endswith("RawDirective::parse"):
            org = c.fr.fn.name
            k, org0, rec, ex = get(st.mon, "pend", (None, None, True, True))
            outs = []
            if k and org != org0:
                # continuation line of the pending directive
                for i, kn in enumerate(self.kinds):
                    if kn not in (k, "End", "Xfail" if k != "Xfail" else "Run"):
                        continue
                    s = st.copy()
                    s.mon = put(s.mon, cont="same" if kn == k else "other")
                    outs.append((s, some(self.directive(i))))
                s = st.copy()
                s.mon = put(s.mon, cont="missing")
                outs.append((s, NONE))
                return outs
            self.done_pending(st, c.loc())
            self.unreported(st, c.loc())
            if get(st.mon, "ended"):
                self.violation("after-end", "%s: lines after a terminating END. are still interpreted" % c.loc())
            s = st.copy()
            s.mon = put(s.mon, pend=(None, None, True, True))
            outs.append((s, NONE))
            for i, kn in enumerate(self.kinds):
                if kn != self.only and kn != "Run" or kn == "Run" and self.only != "Run" and get(st.mon, "runs"):
                    continue
                s = st.copy()
                self.seen.add(kn)
                s.mon = put(s.mon, pend=(kn, org, kn == "End", True), cont=None, parts=0)
                outs.append((s, some(self.directive(i))))
            return outs
        if last in ("eq", "ne") and len(c.args) == 2:
            vs = [e.deref_all(st, x) for x in c.args]
            for x in vs:
                if x in (("str", "-"), ("str", "+")) and not all(y[0] == "str" for y in vs):
                    outs = []
                    for t in (True, False):
                        s = st.copy()
                        s.mon = put(s.mon, sign=x[1] if t else {"-": "+", "+": "-"}[x[1]])
                        outs.append((s, TRUE if t == (last == "eq") else FALSE))
                    return outs
        if last in ("strip_suffix", "ends_with") and len(c.args) == 2 and e.deref_all(st, c.args[1]) in (("int", 92), ("str", "\\")) \
                and get(st.mon, "pend", (None,))[0]:
            outs = []
            for t in (True, False):
                s = st.copy()
                s.mon = put(s.mon, more=t)
                if last == "ends_with":
                    v = TRUE if t else FALSE
                else:
                    v = some(e.app("stripped", e.norm(st, c.args[0]))) if t else NONE
                outs.append((s, v))
            return outs
        if nm.endswith("Substitution::new"):
            k = get(st.mon, "pend")[0]
            a, b = st.copy(), st.copy()
            fs = [TOP] * len(p.adts[self.sub]["v"][0]["f"])
            names = [f["n"] if isinstance(f, dict) else f for f in p.adts[self.sub]["v"][0]["f"]]
            params = [n for pl, n in sorted(p.fns[nm].names.items()) if not pl[1] and 1 <= pl[0] <= p.fns[nm].argc]
            for i, n in enumerate(names):
                if n in params:
                    fs[i] = c.args[params.index(n)]
            return [(a, ok(("adt", self.sub, 0, tuple(fs)))), (b, err(("sym", ("suberr",), ())))]
        if re.search(r"str>?::(split|split_terminator)$", nm) and c.args:
            s = st.copy()
            s.mon = put(s.mon, parts=0)
            return [(s, ("sym", ("conditions",), ()))]
        if last in ("push", "push_back", "insert", "extend", "append", "replace", "get_or_insert") and c.args:
            w = self.coll(e, st, c.args[0])
            if w == "errors":
                s = st.copy()
                k, org, rec, ex = get(s.mon, "pend", (None, None, True, True))
                s.mon = put(s.mon, errs=True, more=False)
                if get(s.mon, "cont") in ("other", "missing"):
                    s.mon = put(s.mon, cont="same")     # the fault of the continuation line is reported
                elif k:
                    s.mon = put(s.mon, pend=(k, org, True, True))
                return [(s, UNIT)]
            if w:
                s = st.copy()
                self.record(e, s, w, c.args[1], c)
                return [(s, UNIT)]
        if last in ("is_empty", "len") and c.args:
            w = self.coll(e, st, c.args[0])
            if w == "errors":
                return [(st, (FALSE if get(st.mon, "errs") else TRUE) if last == "is_empty" else ("int", 1 if get(st.mon, "errs") else 0))]
            pth = path_of(e.norm(st, c.args[0]))
            if last == "is_empty" and contains(e.norm(st, c.args[0]), lambda x: x[0] == "sym" and x[1] == ("content",)) and get(st.mon, "pend", (None,))[0] == "End":
                a, b = st.copy(), st.copy()
                a.mon = put(a.mon, ended=True)
                return [(a, TRUE), (b, FALSE)]
        if "Argument" in nm and re.search(r"rt::Argument(<.*>)?::new_", nm) and c.args:
            v = e.norm(st, c.args[0])
            t = c.callee.get("a") or ()
            if any(x[1] == "usize" for x in t) and get(st.mon, "pend", (None,))[0]:
                n, op = self.lineno(v)
                sg = get(st.mon, "sign")
                st.mon = put(st.mon, sign=None)
                self.lines.append((c.loc(), n, op, sg, get(st.mon, "line", 1)))
        return None

    def lineno(self, v):
        """The line a printed number is computed from, and the operation applied to it."""
        if v[0] == "int":
            return v[1], "="
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "app":
            for i, x in enumerate(v[1][2:]):
                if isinstance(x, tuple) and x[0] == "int":
                    return x[1], v[1][1] if i == 0 else "reversed " + v[1][1]
        return None, None

    def directive(self, i):
        fs = [TOP] * len(self.r.p.adts[self.raw]["v"][0]["f"])
        fs[fidx(self.r, self.raw, "kind")] = ("adt", self.kind, i, ())
        fs[fidx(self.r, self.raw, "content")] = ("sym", ("content",), ())
        gs = [TOP] * len(self.r.p.adts[self.span]["v"][0]["f"])
        gs[fidx(self.r, self.span, "span")] = ("sym", ("dirspan",), ())
        gs[fidx(self.r, self.span, "spanned")] = ("adt", self.raw, 0, tuple(fs))
        return ("adt", self.span, 0, tuple(gs))

    def elements(self, e, st, c, src, ety, site):
        if contains(src, lambda x: x[0] == "sym" and x[1] == ("conditions",)):
            k, org, rec, ex = get(st.mon, "pend")
            if not ex:
                self.violation("condition-dropped|" + k, "%s: one of the conditions of a %s directive is neither recorded nor reported" % (c.loc(), k))
            outs = []
            if get(st.mon, "parts", 0):
                a = st.copy()
                outs.append((a, None))
            b = st.copy()
            b.mon = put(b.mon, parts=1, pend=(k, org, rec, False))
            outs.append((b, ("sym", ("condition",), ())))
            return outs
        w = self.coll(e, st, src) if src[0] in ("sym", "symo", "ref") else None
        if w is None:
            p = path_of(src)
            w = self.fields.get(p[1]) if p and p[0] == ("arg", 1) else None
        if w == "commands":
            ri, si = vidx(self.r, self.cmd, "Run"), vidx(self.r, self.cmd, "Substitution")
            outs = [(st.copy(), ("adt", self.cmd, si, (TOP,)))] if get(st.mon, "subs") else []
            if get(st.mon, "runs"):
                outs.append((st.copy(), ("adt", self.cmd, ri, (TOP,))))
            else:
                outs.append((st.copy(), None))
            return outs
        return None

    def record(self, e, s, w, v, c):
        r = self.r
        k, org, rec, ex = get(s.mon, "pend", (None, None, True, True))
        if get(s.mon, "more"):
            self.violation("cut|%s" % k, "%s: a %s directive is recorded although its last line asks for a continuation that was not read" % (c.loc(), k))
        want = {"Run": "commands", "Define": "commands", "Redefine": "commands", "Requires": "requires", "Unsupported": "unsupported",
                "Xfail": "xfails", "AllowedRetries": "allowed_retries"}.get(k)
        if want != w:
            self.violation("misfiled|%s|%s" % (k, w), "%s: a %s directive is recorded among the script's %s" % (c.loc(), k, w))
            return
        v = e.deref_all(s, v)
        if w == "commands":
            got = v[2] if v[0] == "adt" and v[1] == self.cmd else None
            name = vname(r.p, self.cmd, got) if got is not None else "?"
            if (k == "Run") != (name == "Run"):
                self.violation("misfiled|%s|%s" % (k, name), "%s: a %s directive is recorded as a %s command" % (c.loc(), k, name))
            if name == "Run":
                x = e.deref_all(s, v[3][0])
                ln = e.proj(x, fidx(r, self.run_, "line"))
                self.seen.add(("runline", get(s.mon, "line")))
                if ln != ("int", 1):
                    self.violation("run-line", "%s: a RUN command spanning several lines is labelled with line %s of the directive instead of its first"
                                   % (c.loc(), ln[1] if ln[0] == "int" else "?"))
                s.mon = put(s.mon, runs=True)
            elif name == "Substitution":
                x = e.deref_all(s, v[3][0])
                rep = e.proj(x, fidx(r, self.sub, "replace"))
                t = e.truth(s, rep) if rep != TOP else None
                if t is not (k == "Redefine"):
                    self.violation("redefine", "%s: a %s directive is recorded as %s" % (c.loc(), k, "a REDEFINE" if t else "a DEFINE" if t is False else "one of unknown kind"))
                s.mon = put(s.mon, subs=True)
        s.mon = put(s.mon, pend=(k, org, True, True))

    def on_assign(self, e, st, fr, loc, val, line):
        pth = tuple(x for x in loc[1] if x != "*")
        if self.fields.get(pth) == "allowed_retries" and get(st.mon, "pend", (None,))[0]:
            k, org, rec, ex = get(st.mon, "pend")
            if k != "AllowedRetries":
                self.violation("misfiled|%s|allowed_retries" % k, "%s:%s: a %s directive sets the number of retries" % (fr.fn.file, line, k))
            st.mon = put(st.mon, pend=(k, org, True, True))

    def unreported(self, st, loc):
        c = get(st.mon, "cont")
        if c in ("other", "missing"):
            self.violation("continuation|" + c, "%s: a continuation line %s is not reported as an error" %
                           (loc, "with another keyword" if c == "other" else "without a keyword"))


def line_counter(r):
    """Lines are numbered by the position they are read from: one per line handed out, none otherwise."""
    la = adt(r, "Lines", "parser")
    cur = fidx(r, la, "current_line")
    fn = [f for f in r.p.fns.values() if not f.ext and f.self_name == la and f.name.endswith("::next")]
    r.need(len(fn) == 1, "the iterator over the lines of a script")
    root = ("L", ("heap", "lines", ()), 0)
    fs = [("sym", ("linesfield", i), ()) for i in range(len(r.p.adts[la]["v"][0]["f"]))]
    fs[cur] = ("int", 7)
    e, outs = analyse(r, fn[0], Mon(r.p), [("ref", root, ())], State({root: ("adt", la, 0, tuple(fs))}))
    kinds = set()
    for s, v in outs:
        k, _ = option_of(e, s, v)
        if k == "?":
            continue
        kinds.add(k)
        n = e.get(s, (root, (cur,)))
        want = ("int", 8 if k == "some" else 7)
        r.ob("line-counter", k, n == want, "line-counter|" + k,
             "%s: %s leaves the line counter at %s, counting from 7" % (fn[0].loc(), "a line handed out" if k == "some" else "the end of the script", n[1] if n[0] == "int" else "an unknown value"))
    r.need(kinds == {"some", "none"}, "paths of the line iterator that yield a line and that end")


@rule("L10")
def l10(r):
    """Every directive of a script is recorded or reported; the parse fails iff something was reported."""
    line_counter(r)
    fn = r.fn(r"TestScriptParser(<.*>)?::parse$")
    kind = adt(r, "DirectiveKind")
    accepted = False
    ops = set()
    for kv in r.p.adts[kind]["v"]:
        k0 = kv["n"]
        m = Script(r.p, watch=(r"RawDirective(<.*>)?::parse$", r"Lines as .*Iterator>::next$"), force=(r"^litcheck_lit::formats::sh::script::parser::(?!tests)",),
                   stop=(r"StringRewriter", r"SourceSpan::", r"BooleanExpr", r"RawDirective(<.*>)?::parse$") + (() if k0 == "Run" else (r"line_numbers",)), only=k0).setup(r)
        try:
            e, outs = analyse(r, fn, m)
        except Budget:
            if not m.bad:
                raise
            outs = []           # violations were found before the analysis was given up
        for s, v in outs:
            k, pay = result_of(e, s, v)
            if k == "ok":
                accepted = True
                m.done_pending(s, fn.loc())
                m.unreported(s, fn.loc())
            good = (k == "ok") != bool(get(s.mon, "errs"))
            r.ob("verdict", "%s: %s errors=%s" % (k0, k, bool(get(s.mon, "errs"))), good or (k == "err"), "verdict|ok-with-errors",
                 "%s: a test script is accepted although problems were found in it" % fn.loc())
            if k == "ok":
                r.ob("verdict", "accepted script has commands", bool(get(s.mon, "runs")), "verdict|no-run", "%s: a test script without any RUN command is accepted" % fn.loc())
        r.need(k0 in m.seen, "a path that reads a %s directive" % k0)
        mine = {key: msg for key, msg in m.bad.items()}
        if not mine:
            r.ob("directive", k0, True)
        for key, msg in mine.items():
            r.ob("directive", key, False, key, msg)
        for loc, n, op, sign, cur in sorted(set(m.lines), key=repr):
            fnm = loc.split(" in ")[-1]
            r.ob("line-number", "%s line %s%s" % (fnm, cur, op), n == cur and not str(op).startswith("reversed"), "line-number|base|" + fnm,
                 "%s: a %%(line) on line %s of a directive expands to a number computed from %s" % (loc, cur, n if n is not None else "something else"))
            o = "=" if op == "=" else "+" if re.search("(^Add|_add$)", str(op)) else "-" if re.search("(^Sub|_sub$)", str(op)) else op
            if o != "=":
                r.ob("line-offset", "%s %s" % (fnm, o), sign is None or o == sign, "line-number|sign|" + fnm,
                     "%s: an offset written with '%s' is applied with '%s'" % (loc, sign, o))
            ops.add(o)
    for o in ("=", "+", "-"):
        r.ob("line-forms", o, o in ops, "line-number|form|" + o, "no path expands %%(line) with %s" % {"=": "no offset", "+": "a positive offset", "-": "a negative offset"}[o])
    r.ob("accepts", "some script is accepted", accepted, "verdict|never", "%s: no test script is ever accepted" % fn.loc())
    r.floor("verdict", 4)
    r.floor("directive", 8)
