"""L15: the substitutions of a test are applied to its commands, in order."""
import itertools
import re
from absint import State
from kit import Mon, TRUE, FALSE, UNIT, NONE, adt, vname, vidx, fidx, result_of, option_of, some, ok, err, analyse, Vecs, Maps
from strs import text_call, parts_of
from rules import rule, Anchor
from props.fc_report import get, put

COW = "alloc::borrow::Cow"
SPECIAL = set("\\.+*?()|[]{}^$#&-~ ")


def S(*k):
    return ("sym", k, ())


def literal(p):
    """The only text a regular expression matches, or None."""
    out, i = "", 0
    while i < len(p):
        if p[i] == "\\":
            i += 1
            if i >= len(p) or p[i].isalnum():
                return None
        elif p[i] in ".+*?()|[]{}^$\\":
            return None
        out += p[i]
        i += 1
    return out


class Substs(Vecs, Maps, Mon):
    """mon: 'text' what was done to the command so far, 'bad' a pattern was found to be invalid."""
    watch = (r"ScopedSubstitutionSet|SubstitutionSet|SubstitutionsIter|directives::Substitution|TestScript::apply_substitutions",)
    force = (r"substitutions::", r"directives::Substitution", r"script::", r"span::")
    init = ()
    max_states = 60000
    outcomes = (True, False)

    def setup(self, r):
        self.r, self.p = r, r.p
        return self

    def put_entry(self, e, st, ents, k, v):
        """In order of insertion."""
        kk, old, out = self.key_of(e, st, k), None, []
        for a, b in ents:
            if self.key_of(e, st, a) == kk:
                old = b
                out.append((a, v))
            else:
                out.append((a, b))
        if old is None:
            out.append((k, v))
        return out, old

    def uncow(self, e, st, v):
        for _ in range(6):
            v = e.deref_all(st, v)
            if v[0] == "adt" and v[1] == COW:
                v = v[3][0]
        return v

    def key_of(self, e, st, k):
        return e.norm(st, self.uncow(e, st, k))

    def plain(self, e, st, v):
        v = self.uncow(e, st, v)
        if v[0] == "sym" and v[1] and v[1][0] == "text":
            ps = parts_of(e, st, v)
            if len(ps) == 1 and not isinstance(ps[0], str):
                return ps[0]
            if all(isinstance(x, str) for x in ps):
                return ("str", "".join(ps))
        return e.norm(st, v)

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"Regex::new$", nm):
            p = self.plain(e, st, c.args[0])
            v = ("adt", "re", 0, (p,))
            if p[0] == "str" and (literal(p[1]) is not None):
                return [(st, ok(v))]
            b = st.copy()
            b.mon = put(b.mon, bad=True)
            return [(st, ok(v)), (b, err(S("regex error")))]
        if re.search(r"Regex::(replace_all|replace|replacen)$", nm):
            rx = e.deref_all(st, c.args[0])
            x = self.plain(e, st, c.args[1])
            to = e.deref_all(st, c.args[-1])
            mode = "template"
            if to[0] == "adt" and to[1].endswith("NoExpand"):
                mode, to = "text", to[3][0]
            to = self.plain(e, st, to)
            op = (last, rx[3][0] if rx[0] == "adt" else rx, mode, to)
            outs = []
            for changed in self.outcomes:
                s = st.copy()
                y = S("replaced", x, op) if changed else x
                s.mon = put(s.mon, ops=(get(s.mon, "ops") or ()) + ((op, changed, x, y),))
                outs.append((s, ("adt", COW, 1 if changed else 0, (y if changed else c.args[1],))))
            return outs
        if last == "replace" and re.search(r"\bstr\b", nm) and len(c.args) == 3:
            x, a, b = (self.plain(e, st, y) for y in c.args)
            ch = lambda v: chr(v[1]) if v[0] in ("int", "char") and isinstance(v[1], int) else v[1] if v[0] == "str" or v[0] == "char" else None  # noqa: E731
            if x[0] == "str" and ch(a) is not None and b[0] == "str":
                return [(st, ("str", x[1].replace(ch(a), b[1])))]
            return [(st, S("str::replace", x, ch(a), b))]
        if nm.endswith("regex::escape") or nm.endswith("regex_syntax::escape"):
            x = self.plain(e, st, c.args[0])
            if x[0] == "str":
                return [(st, ("str", "".join("\\" + y if y in SPECIAL else y for y in x[1])))]
        if last in ("contains", "starts_with", "ends_with", "find") and re.search(r"\bstr\b", nm) and len(c.args) == 2:
            a, b = (self.plain(e, st, y) for y in c.args)
            if a[0] == b[0] == "str":
                return [(st, TRUE if {"contains": b[1] in a[1], "starts_with": a[1].startswith(b[1]), "ends_with": a[1].endswith(b[1]), "find": b[1] in a[1]}[last] else FALSE)]
        here = nm in e.p.fns and not e.p.fns[nm].ext
        if last in ("eq", "ne") and len(c.args) == 2 and not here:
            a, b = (self.plain(e, st, y) for y in c.args)
            if a[0] == b[0] == "str":
                return [(st, TRUE if (a == b) == (last == "eq") else FALSE)]
        if not here:
            if last in ("clone", "into_owned", "to_owned", "to_string", "as_str", "as_ref", "deref", "borrow", "from", "into") and len(c.args) == 1:
                x = self.plain(e, st, c.args[0])
                if x[0] in ("str", "sym"):
                    return [(st, x)]
        if last == "into_iter" and len(c.args) == 1:
            x = e.deref_all(st, c.args[0])
            if x[0] == "adt" and ("core::iter::traits::iterator::Iterator::next", x[1]) in e.p.impl_method:
                return [(st, x)]
        if "Iterator" in str(c.trait) and last in ("any", "all") and len(c.args) == 2:
            x, loc = c.args[0], None
            while x[0] == "ref":
                loc = (x[1], x[2])
                x = e.get(st, loc)
            n = e.p.impl_method.get(("core::iter::traits::iterator::Iterator::next", x[1])) if x[0] == "adt" else None
            if n in e.p.fns and loc:
                return self.search(e, st, c, last, e.p.fns[n], loc)
        v = self.map_call(e, st, c, last)
        if v is None:
            v = self.vec_call(e, st, c, last)
        if v is None:
            v = text_call(e, st, c)
        return v

    def search(self, e, st, c, last, fn, loc):
        """Whether any, or all, of what an iterator of the repository gives has a property."""
        outs, work = [], [st]
        while work:
            s0 = work.pop()
            for s, v in e.run(fn, [("ref",) + loc], s0, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),)):
                k, x = option_of(e, s, v)
                if k != "some":
                    outs.append((s, FALSE if last == "any" else TRUE))
                    continue
                for s2, b in e.call_value(c.fr, (c.blk,), c.line, c.args[1], [x], s):
                    b = e.norm(s2, b)
                    for s3 in [s2] if b in (TRUE, FALSE) else []:
                        if b == (TRUE if last == "any" else FALSE):
                            outs.append((s3, b))
                        else:
                            work.append(s3)
                    if b not in (TRUE, FALSE):
                        raise Anchor("%s: a condition on patterns that is not understood" % c.loc())
        return outs


class SubstRun:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Substs(r.p).setup(r)
        self.scoped = adt(r, "ScopedSubstitutionSet", "config::substitutions")
        self.set_ = adt(r, "SubstitutionSet", "config::substitutions")
        self.script = adt(r, "TestScript", "sh::script")
        self.cmd = adt(r, "ScriptCommand", "sh::script")
        self.sub = adt(r, "Substitution", "directives")
        self.run = adt(r, "Run", "directives")
        self.fn = r.fn(r"TestScript::apply_substitutions$")

    def struct(self, a, v=0, **kw):
        return ("adt", a, v, tuple(kw.get(f["n"] if isinstance(f, dict) else f, S("field", f["n"] if isinstance(f, dict) else f)) for f in self.p.adts[a]["v"][v]["f"]))

    def sset(self, prs):
        return ("adt", self.set_, 0, (self.m.new_map([(("adt", COW, 0, (("str", k),)), ("adt", COW, 0, (v,))) for k, v in prs]),))

    def go(self, parent, own, cmds):
        """The outcomes of applying the substitutions of a test, configured and its own, to commands: ('run', n) or (key, n, replace)."""
        st = State(mon=())
        root = lambda k, v: (st.env.__setitem__(("L", ("keep", k), 0), v), ("ref", ("L", ("keep", k), 0), ()))[1]  # noqa: E731
        par = root("parent", self.sset(parent))
        ss = root("scoped", self.struct(self.scoped, parent=par, set=self.sset(own)))
        xs = []
        for c in cmds:
            if c[0] == "run":
                xs.append(("adt", self.cmd, vidx(self.r, self.cmd, "Run"), (self.struct(self.run, command=S("command", c[1])),)))
            else:
                xs.append(("adt", self.cmd, vidx(self.r, self.cmd, "Substitution"), (self.struct(self.sub, key=("str", c[0]), value=S("raw", c[1]), replace=TRUE if c[2] else FALSE),)))
        scr = root("script", self.struct(self.script, commands=("arr", tuple(xs))))
        e, outs = analyse(self.r, self.fn, self.m, [scr, ss], st)
        res = []
        for s, v in outs:
            k, _ = result_of(e, s, v)
            w = e.get(s, (("L", ("keep", "script"), 0), ()))
            f = dict(zip([y["n"] if isinstance(y, dict) else y for y in self.p.adts[self.script]["v"][0]["f"]], w[3]))
            got = []
            for x in f["commands"][1] if f["commands"][0] == "arr" else ():
                if vname(self.p, self.cmd, x[2]) == "Run":
                    y = x[3][0]
                    y = self.m.plain(e, s, y[3][fidx(self.r, self.run, "command")])
                    got.append(y)
            res.append((k, s.mon, got))
        return res


def expected(parent, own, cmds):
    """What should happen: a list of substitutions for each command, or None for an error there."""
    parent, own = list(parent), list(own)
    out = []
    for c in cmds:
        if c[0] == "run":
            names = {k: v for k, v in own}
            out.append([(k, names.get(k, v)) for k, v in parent] + [(k, v) for k, v in own if k not in dict(parent)])
            continue
        defined = [k for k, _ in parent + own if literal(k) == c[0]]
        other = [k for k, _ in parent + own if literal(k) != c[0] and c[0] in (literal(k) or "")]
        if bool(defined) != c[2]:
            out.append(None)
            return out
        if defined and other:
            out.append("either")        # which one is meant is not said
            return out
        key = defined[0] if defined else ("=", c[0])
        key = key if isinstance(key, str) else "".join("\\" + y if y in "{}" else y for y in c[0])
        v = ("raw", c[1])
        own = [(k, v if k == key else w) for k, w in own] if key in dict(own) else own + [(key, v)]
    return out


def same_value(op, v):
    """Whether a replacement is by v."""
    _, _, mode, to = op
    if isinstance(v, tuple) and v[0] == "raw":      # taken literally
        return mode == "text" and to == S("raw", v[1]) or mode == "template" and to == S("str::replace", S("raw", v[1]), "$", ("str", "$$"))
    return mode == "template" and to == v


def judge(n, want, ops, final):
    """Why the n-th command is not what the wanted substitutions make of it, or None."""
    text, fresh, marker, marked = S("command", n), False, None, False
    todo, done, closed = list(want), [], False
    for op, changed, x, y in ops:
        if x != text:
            return "a replacement is made in something other than what the last one left"
        pat = op[1][1] if op[1][0] == "str" else None
        if op[0] != "replace_all":
            return "only some of what a pattern matches is replaced"
        if closed:
            return "something is replaced after the percent signs were restored"
        if pat == "%%" and op[2] == "text" and op[3][0] == "str" and op[3][1] != "%":
            if marker not in (None, op[3][1]) or "%" in op[3][1]:
                return "doubled percent signs are marked in two ways"
            marker, fresh = op[3][1], True
            marked = marked or changed
        elif marker is not None and pat is not None and literal(pat) == marker.replace("\\", "") or pat == marker and pat is not None:
            if op[2:] != ("text", ("str", "%")):
                return "doubled percent signs become something else"
            closed = True
        else:
            if not fresh:
                return "a pattern is looked for in text with doubled percent signs"
            if todo and pat == todo[0][0]:
                if not same_value(op, todo[0][1]):
                    return "%s is replaced by another value" % pat
                done.append(todo.pop(0))
            elif not any(pat == k and same_value(op, v) for k, v in done):
                return "%s is looked for out of order, or with another value" % pat
            fresh = fresh and not changed
        text = y
    if todo:
        return "%s is not looked for" % todo[0][0]
    if marked and not closed:
        return "doubled percent signs are not restored"
    if final != text:
        return "the command is not what the replacements made of it"
    return None


def check(r, g, parent, own, cmds):
    """All combinations of patterns being found for one command; all or none found in a script."""
    for o in ((True, False),) if len(cmds) == 1 else ((True,), (False,)):
        g.m.outcomes = o
        check_(r, g, parent, own, cmds)


def check_(r, g, parent, own, cmds):
    want = expected(parent, own, cmds)
    at = g.fn.loc()
    what = "configured {%s}, own {%s}; %s" % (", ".join(k for k, _ in parent), ", ".join(k for k, _ in own), "; ".join("RUN" if c[0] == "run" else "%s %s" % ("REDEFINE" if c[2] else "DEFINE", c[0]) for c in cmds))
    runs = [c[1] for c in cmds if c[0] == "run"]
    outs = g.go(parent, own, cmds)
    r.ob("applied", "outcome", bool(outs), "applied|never", "%s: with %s no outcome is reached" % (at, what))
    for k, mon, got in outs:
        bad = get(mon, "bad")
        if want and want[-1] is None:
            r.ob("script", "directive", k == "err", "script|accepted", "%s: with %s the last directive is not an error although it should be" % (at, what))
            continue
        if k == "err":
            r.ob("invalid", "pattern", bad or want[-1] == "either", "invalid|rejected", "%s: with %s the test is rejected although everything in it is valid" % (at, what))
            continue
        if bad:
            r.ob("invalid", "pattern", k == "err", "invalid|accepted", "%s: with %s an invalid pattern is not an error" % (at, what))
            continue
        if want and want[-1] == "either":
            continue
        r.ob("script", "directive", k == "ok" and len(got) == len(runs), "script|outcome", "%s: with %s the test is neither accepted nor rejected" % (at, what))
        if len(got) != len(runs):
            continue
        ops = list(get(mon, "ops") or ())
        for n, w, y in zip(runs, want, got):
            mine = []
            while ops and (ops[0][2] == S("command", n) or mine and ops[0][2] == mine[-1][3]):
                mine.append(ops.pop(0))
            msg = judge(n, w, mine, y)
            r.ob("applied", "command", msg is None, "applied|" + re.sub(r"%\S+ ", "", str(msg))[:60], "%s: with %s, command %d: %s" % (at, what, n + 1, msg))
        r.ob("applied", "nothing else", not ops, "applied|other", "%s: with %s something other than a command is changed" % (at, what))


V = [S("value", i) for i in range(8)]


@rule("L15")
def l15(r):
    g = SubstRun(r)
    R = lambda i: ("run", i)  # noqa: E731
    base = [("%s", V[0])]
    cases = [([], base, [R(0)]), (base, [], [R(0)]), (base, [("%t", V[1])], [R(0)]), (base, [("%s", V[1])], [R(0)]),
             ([("%s", V[0]), ("%x", V[1])], [("%x", V[2]), ("%t", V[3])], [R(0)]), (base, [("%t", V[1])], [R(0), R(1)]),
             ([("[a-z]+", V[0])], [("%t", V[1])], [R(0)]), ([], [("(%x|%y)", V[0]), ("%%", ("str", "%"))], [R(0)]), (base, [("%%", ("str", "%"))], [R(0)])]
    for parent, own, cmds in cases:
        check(r, g, parent, own, cmds)
    names = ("%{x}", "%x", "%xy", "%{xy}", "%s", "%t")
    sets = [([("%s", V[0])], [("%t", V[1])]), ([("%s", V[0]), (r"%\{x\}", V[2])], [("%t", V[1])]), ([("%s", V[0])], [("%xy", V[1])])]
    for parent, own in sets:
        for k in names:
            for rep in (False, True):
                check(r, g, parent, own, [(k, 0, rep), R(0)])
    for a, b in itertools.product(((k, p) for k in ("%{x}", "%y") for p in (False, True)), repeat=2):
        check(r, g, [], [("%t", V[1])], [(a[0], 0, a[1]), (b[0], 1, b[1]), R(0)])
    for p in (False, True):
        check(r, g, [], [("%t", V[1])], [R(0), ("%{x}", 0, p), R(1)])
        check(r, g, [], [("%t", V[1])], [("%{x}", 0, False), R(0), ("%{x}", 1, p), R(1)])
        check(r, g, [("%t", V[1])], [], [R(0), ("%t", 0, p), R(1)])
    r.floor("applied", 300)
    r.floor("script", 100)
    r.floor("invalid", 3)
