"""L17: what a boolean feature expression evaluates to."""
import itertools
from kit import *
from rules import rule
from props.fc_report import get, put

ENV, NAME, PAT = ("sym", ("arg", 2), ()), "name", "pattern"


def fork(st, key, **kw):
    outs = []
    for b in (True, False):
        s = st.copy()
        s.mon = put(s.mon, **dict(kw, **{key: b}))
        outs.append((s, TRUE if b else FALSE))
    return outs


class Eval(Mon):
    init = ()

    def setup(self, fn):
        self.fn = fn
        self.bad = {}
        return self

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("BooleanExpr::evaluate") and c.fr.fn.name == self.fn.name:
            v = e.deref_all(st, c.args[0])
            k = v[1] if v[0] == "sym" else None
            if not (isinstance(k, tuple) and k[0] == "operand"):
                self.bad["operand"] = "%s: something other than an operand of the expression is evaluated" % c.loc()
                return None
            if strip(e.norm(st, c.args[1])) != ENV:
                self.bad["env"] = "%s: an operand is evaluated in a different environment" % c.loc()
            kk = "op%d" % k[1]
            old = get(st.mon, kk)
            if old is not None:
                return [(st, TRUE if old else FALSE)]
            return fork(st, kk)
        if last in ("is_defined", "has_matching_definition") and (c.trait or "Environment" in nm):
            if strip(e.norm(st, c.args[0])) != ENV:
                self.bad["env"] = "%s: a name is looked up in a different environment" % c.loc()
            x = strip(e.norm(st, e.deref_all(st, c.args[1])))
            if x != ("sym", ("operand", 0), ()):
                self.bad["name"] = "%s: something other than the name or pattern of the expression is looked up" % c.loc()
            return fork(st, "def" if last == "is_defined" else "match")
        return None


class Lookup(Mon):
    """A collection of names is searched."""
    init = ()

    def setup(self):
        self.bad = {}
        return self

    def whole(self, e, st, v):
        v = collection(e.deref_all(st, v))
        return v[0] == "sym" and v[1] == ("arg", 1)

    def elements(self, e, st, c, src, ety, site):
        if not self.whole(e, st, src):
            return None
        s0, s1 = st.copy(), st.copy()
        if get(st.mon, "elem") == "open":
            s0.mon = s1.mon = put(st.mon, elem="unjudged")
        s0.mon = put(s0.mon, done=True)
        s1.mon = put(s1.mon, elem="open")
        return [(s0, None), (s1, ("sym", ("element",), ()))]

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if len(c.args) < 2:
            return None
        a, b = (strip(e.norm(st, e.deref_all(st, x))) for x in c.args[:2])
        el, q = ("sym", ("element",), ()), ("sym", ("arg", 2), ())
        if last in ("eq", "ne") and {a, b} == {el, q}:
            outs = fork(st, "hit", elem="judged", how="eq")
            return outs if last == "eq" else [(s, FALSE if v == TRUE else TRUE) for s, v in outs]
        if last == "is_match" and a == q and b == el:
            return fork(st, "hit", elem="judged", how="match")
        if last in ("contains", "contains_key", "get") and self.whole(e, st, c.args[0]) and b == q:
            outs = fork(st, "hit", elem="judged", how="eq", done=True)
            return outs if last != "get" else [(s, some(("sym", ("element",), ())) if v == TRUE else NONE) for s, v in outs]
        return None


@rule("L17")
def l17(r):
    fn = r.fn(r"litcheck_lit::config::expr::boolean::BooleanExpr::evaluate$")
    a = adt(r, "BooleanExpr", "boolean")
    kinds = {"Lit": 1, "Var": 1, "Pattern": 1, "Not": 1, "And": 2, "Or": 2}
    r.need(set(v["n"] for v in r.p.adts[a]["v"]) == set(kinds), "the kinds of boolean expressions")
    for i, v in enumerate(r.p.adts[a]["v"]):
        n = v["n"]
        for lit in ((True, False) if n == "Lit" else (None,)):
            fs = tuple(("sym", ("operand", j), ()) for j in range(len(v["f"])))
            if lit is not None:
                fs = (TRUE if lit else FALSE,)
            m = Eval(r.p, watch=(r"Environment",), stop=(r"Environment",)).setup(fn)
            e, outs = analyse(r, fn, m, [("adt", a, i, fs), ENV], State(mon=()))
            r.need(outs, "paths of evaluating %s" % n)
            for k, msg in m.bad.items():
                r.ob("evaluate", "%s %s" % (n, k), False, "evaluate|%s|%s" % (n, k), msg)
            for s, x in outs:
                got = e.truth(s, x)
                free = {"Lit": [], "Var": ["def"], "Pattern": ["match"], "Not": ["op0"]}.get(n, ["op0", "op1"])
                given = {k: get(s.mon, k) for k in free}
                want = set()
                for vals in itertools.product(*[(given[k],) if given[k] is not None else (True, False) for k in free]):
                    d = dict(zip(free, vals))
                    want.add(lit if n == "Lit" else not d["op0"] if n == "Not" else (d["op0"] and d["op1"]) if n == "And" else (d["op0"] or d["op1"]) if n == "Or" else d[free[0]])
                d = ", ".join("%s=%s" % kv for kv in given.items())
                r.ob("evaluate", "%s(%s) is %s" % (n, d if lit is None else lit, got), want == {got}, "evaluate|%s|%s" % (n, d),
                     "%s: an expression of kind %s (%s) evaluates to %s" % (fn.loc(), n, d if lit is None else lit, got))
    impls = [f for f in r.p.fns.values() if not f.ext and re.search(r" as litcheck_lit::config::expr::boolean::Environment>::(is_defined|has_matching_definition)$", f.name)]
    r.need(len(impls) >= 4, "implementations of the environment of boolean expressions")
    for f in impls:
        how = "eq" if f.name.endswith("is_defined") else "match"
        m = Lookup(r.p, force=(r"FeatureSet::",)).setup()
        e, outs = analyse(r, f, m, None, State(mon=()))
        seen = set()
        for s, x in outs:
            g = lambda k: get(s.mon, k)  # noqa: E731
            got = e.truth(s, x)
            seen.add(got)
            good = got is not None and (got is True and g("hit") is True and g("how") == how or
                                        got is False and g("hit") is not True and g("done") and g("elem") in (None, "judged") and (g("how") in (None, how)))
            r.ob("lookup", "%s: %s" % (f.name, got), good, "lookup|%s|%s" % (f.name, got),
                 "%s: a %s is reported as %s although %s" % (f.loc(), "name" if how == "eq" else "pattern", "defined" if got else "not defined",
                                                          "no name was found to be equal to it" if got and how == "eq" else "no name was found to match it" if got else "it was found, or not every name was looked at"))
        r.ob("lookup", "%s: both answers" % f.name, seen == {True, False}, "lookup|%s|both" % f.name, "%s: the answer does not depend on the names that are defined" % f.loc())
    r.floor("evaluate", 12)
    r.floor("lookup", 12)
