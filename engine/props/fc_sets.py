"""F06: looking for several patterns at once finds the matches each of them would have had alone, in the order in which they start."""
from kit import *
from rules import rule
from props.fc_window import S
from props.fc_report import get, put
from props.fc_smart import rng, sspan
from props.fc_visit import Visit, Group, RANGE

LO, HI, EOF = 10, 40, 100


class Sets(Visit):
    """mon: 'finds' the searches made for a single pattern, and what they found."""
    watch = Visit.watch + (r"pattern_set", r"regex_set", r"matchers::any::")
    force = Visit.force + (r"Input::", r"matchers::any::", r"pattern_set", r"regex_set")
    stop = ()
    widen_ints = 200
    options = rest = ()
    only = None
    total = 3

    def found(self, e, st, c, who):
        x = self.input_of(e, st, c.args[1])
        if x is None:
            return None
        lo, hi, anch = x
        done = get(st.mon, "finds") or ()
        outs = []
        if lo[0] != "int" or hi[0] != "int":
            s = st.copy()
            s.mon = put(s.mon, finds=done + ((who, None, None, anch, "lost", None, None),))
            return [(s, err(S("report")))]
        if any(f[4] == "err" for f in done):
            return [(st, err(S("report")))]
        if self.only is None:
            options = self.options if who[0] == "pat" else self.rest
        else:
            options = self.only.get(who[1], (("none", 0, 0),)) if len(done) < self.total * len(self.only) + 70 else (("none", 0, 0),)
        for kind, d, n in options:
            a, b = lo[1] + d, lo[1] + d + n
            v = None
            if kind in ("ok", "bad"):
                if b > hi[1] or anch == TRUE and d or sum(f[4] in ("ok", "bad") for f in done if f[0][0] == who[0]) >= self.total:
                    continue
                info = some(self.info_of(0, ("int", a), ("int", b), (S("capture", who, a, b),)))
                v = ok(self.result(True, info) if kind == "ok" else self.result(False, info, self.failure("MatchFoundConstraintFailed")))
            elif kind == "none":
                v = ok(self.result(False, NONE, self.failure("MatchNoneButExpected")))
            elif kind == "fatal":
                v = ok(self.result(False, NONE, self.failure("MatchFoundConstraintFailed")))
            else:
                v = err(S("report"))
            s = st.copy()
            s.mon = put(s.mon, finds=done + ((who, lo[1], hi[1], anch, kind, a, b),))
            outs.append((s, v))
        return outs

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        x = e.norm(st, e.deref_all(st, c.args[0])) if c.args else None
        if x == S("buffer") and last == "len":
            return [(st, ("int", EOF))]
        if last in ("try_match_mut", "try_match") and x is not None and x[0] == "sym" and x[1][0] in ("pat", "rest"):
            return self.found(e, st, c, x[1])
        if last == "span" and x is not None and x[0] == "sym" and x[1][0] in ("pat", "rest"):
            return [(st, sspan(("int", 0), ("int", 1)))]
        if nm.endswith("CheckFailedError::match_none"):
            return [(st, self.failure("MatchNoneButExpected"))]
        if last in ("usize", "from") and x is not None and x[0] == "int" and "usize as core::convert::From<bool>" in nm + str(c.trait):
            return [(st, x)]
        if last in ("min_by_key", "max_by_key") and len(c.args) == 2:
            v = self.extreme(e, st, c, last)
            if v is not None:
                return v
        if last in ("min_by", "max_by") and len(c.args) == 2:
            v = self.extreme_by(e, st, c, last)
            if v is not None:
                return v
        if last in ("cmp", "partial_cmp") and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, y)) for y in c.args)
            if a[0] == b[0] == "int":
                v = ("adt", "core::cmp::Ordering", (a[1] > b[1]) - (a[1] < b[1]) + 1, ())
                return [(st, v if last == "cmp" else some(v))]
        if last in ("saturating_add", "saturating_sub", "checked_add", "checked_sub", "wrapping_add") and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, y)) for y in c.args)
            if a[0] == b[0] == "int":
                n = a[1] + b[1] if last.endswith("add") else a[1] - b[1]
                v = ("int", max(n, 0))
                return [(st, (some(v) if n >= 0 else NONE) if last.startswith("checked") else v)]
        if last == "range" and x is not None and x[0] == "adt" and x[1] == "sspan":
            return [(st, rng(*x[3]))]
        if last in ("len", "is_empty") and x is not None and x[0] == "adt" and x[1] == "sspan":
            a, b = x[3]
            if a[0] == b[0] == "int":
                return [(st, ("int", b[1] - a[1]) if last == "len" else TRUE if a == b else FALSE)]
        return Visit.before_call(self, e, st, c)

    def key(self, e, st, v):
        v = e.norm(st, e.deref_all(st, v))
        if v[0] == "int":
            return v[1]
        if v[0] == "tup":
            ks = tuple(self.key(e, st, y) for y in v[1])
            return None if None in ks else ks
        if v[0] == "adt" and v[1].endswith("cmp::Reverse"):
            k = self.key(e, st, v[3][0])
            return -k if isinstance(k, int) else None
        if v[0] == "adt" and len(v[3]) == 1:
            return self.key(e, st, v[3][0])
        return None

    def extreme(self, e, st, c, last):
        from models import exact
        it = e.deref_all(st, c.args[0])
        if not (it[0] == "iter" and exact(it)):
            return None
        outs = []
        for s, xs in self.drain(e, st, c, it):
            work = [(s, ())]
            for k, x in enumerate(xs):
                nxt = []
                for s2, ks in work:
                    s2, ref = self.new_root(s2, ("by", c.fr.id, c.blk, k), x)
                    for s3, y in e.call_value(c.fr, c.blk + ("by", k), c.line, c.args[1], [ref], s2) or ():
                        q = self.key(e, s3, y)
                        if q is None:
                            return None
                        nxt.append((s3, ks + (q,)))
                work = nxt
            for s2, ks in work:
                if not xs:
                    outs.append((s2, NONE))
                    continue
                best = 0
                for k in range(1, len(xs)):
                    if ks[k] < ks[best] if last.startswith("min") else ks[k] >= ks[best]:
                        best = k
                outs.append((s2, some(xs[best])))
        return outs


class SetRun(Group):
    def __init__(self, r):
        Group.__init__(self, r)
        self.m = Sets(r.p).setup(r)
        self.m.name = self.name
        self.m.capture = self.capture

    def input(self, st, anch=FALSE):
        inp = self.m.whole
        names = [f["n"] if isinstance(f, dict) else f for f in self.r.p.adts[inp[1]]["v"][0]["f"]]
        at = {"span": ("adt", "litcheck_core::range::Range", 0, (("int", LO), ("int", HI))), "anchored": anch}
        old = inp[3][names.index("span")]
        at["span"] = ("adt", old[1], old[2], (("int", LO), ("int", HI)))
        return ("adt", inp[1], 0, tuple(at.get(n, x) for n, x in zip(names, inp[3])))

    def outcome(self, s, ret):
        """What a search returns: ("ok"|"bad", pattern, start, end, captures) | ("none",) | ("fatal",) | ("err",)"""
        e, r = self.e, self.r
        k, x = result_of(e, s, ret)
        if k == "err":
            return ("err",)
        x = e.deref_all(s, x) if x is not None else None
        if k != "ok" or x[0] != "adt":
            return ("?",)
        ty = e.deref_all(s, e.proj(x, fidx(r, self.m.mres, "ty")))
        k, info = option_of(e, s, e.deref_all(s, e.proj(x, fidx(r, self.m.mres, "info"))))
        if ty[0] != "adt":
            return ("?",)
        good = vname(r.p, ty[1], ty[2]) == "MatchFoundAndExpected"
        if k == "none":
            if good:
                return ("?",)
            w = e.deref_all(s, ty[3][0])
            return ("?",) if w[0] != "adt" else ("none",) if vname(r.p, w[1], w[2]) == "MatchNoneButExpected" else ("fatal",)
        info = e.deref_all(s, info)
        sp = e.deref_all(s, e.proj(info, fidx(r, self.m.info, "span")))
        a = [e.norm(s, e.deref_all(s, y)) for y in sp[3]] if sp[0] == "adt" else [None]
        a = [y[3][0] if y is not None and y[0] == "adt" and len(y[3]) == 1 else y for y in a]
        i = e.norm(s, e.deref_all(s, e.proj(info, fidx(r, self.m.info, "pattern_id"))))
        if any(y is None or y[0] != "int" for y in a + [i]):
            return ("?",)
        caps = e.deref_all(s, e.proj(info, fidx(r, self.m.info, "captures")))
        return ("ok" if good else "bad", i[1], a[0][1], a[1][1], tuple(e.norm(s, y) for y in caps[1]) if caps[0] == "arr" else None)


def searcher(r, g, name, n, options, steps, total):
    m = g.m
    m.options, m.total = options, total
    st, ctx, _ = g.start()
    st, pats = g.keep(st, ("arr", tuple(S("pat", i) for i in range(n))))
    fn = g.fn(r"litcheck_filecheck::.*%s::new$" % name)
    g.e, outs = analyse(r, fn, m, [g.input(st), pats], st.copy())
    s, v = outs[0]
    if v[0] == "adt" and v[1].endswith("result::Result"):
        k, v = result_of(g.e, s, v)
    r.need(len(outs) == 1 and v is not None, "one way to make a %s" % name)
    s, sref = g.keep(s, v)
    trait = "litcheck_filecheck::pattern::search::PatternSearcher::"
    nxt, last = (r.fn(r"<.*%s as .*PatternSearcher.*>::%s$" % (name, x)) for x in ("try_match_next", "last_match_end"))
    work = [(s, (), {"from": (LO,) * n, "pending": (), "seen": 0})]
    count = 0
    for step in range(steps):
        todo = []
        for s, hist, model in work:
            g.e, outs = analyse(r, nxt, m, [sref, ctx], s.copy())
            for s2, ret in outs:
                o = g.outcome(s2, ret)
                msg, model2 = follow(n, model, (get(s2.mon, "finds") or ())[model["seen"]:], o)
                if msg is None and o[0] == "ok":
                    e2, ends = analyse(r, last, m, [sref], s2.copy())
                    for s3, x in ends:
                        k, y = option_of(e2, s3, x)
                        if k != "some" or e2.norm(s3, e2.deref_all(s3, y)) != ("int", o[3]):
                            msg = "the end of the match is not where the search is said to be"
                count += 1
                r.ob("search", "%s, %d patterns" % (name, n), msg is None, "search|%s" % (msg or "")[:70], "%s: after %s%s: %s" % (nxt.loc(), "; ".join(map(say, get(s2.mon, "finds") or ())), ", having returned %s" % ", ".join(hist) if hist else "", msg))
                if msg is None and o[0] in ("ok", "bad"):
                    todo.append((s2, hist + ("pattern %d" % (o[1] + 1),), model2))
        work = todo
    return count


def say(f):
    w, lo, hi, anch, kind, a, b = f
    what = {"ok": "found at %s..%s" % (a, b), "bad": "found with a bad value at %s..%s" % (a, b), "none": "not found", "err": "failing", "fatal": "failing for good", "lost": "searched in an unknown place"}[kind]
    return "%s %s from %s" % ("pattern %d" % (w[1] + 1) if w[0] == "pat" else "rest %s of pattern %d" % (w[2] + 1, w[1] + 1), what, lo)


def follow(n, model, news, o):
    """(what is wrong, how the search stands) after some more searches for single patterns and the outcome they lead to."""
    starts, pending = list(model["from"]), dict(model["pending"])
    err_ = bad = fatal = False
    for w, lo, hi, anch, kind, a, b in news:
        i = w[1]
        if kind == "lost":
            return "a pattern is looked for in an unknown place", model
        if i in pending:
            return "a pattern is looked for again while its last match has not been returned", model
        if starts[i] is None:
            return "a pattern without more matches is looked for again", model
        if lo != starts[i] or hi != HI or anch != FALSE:
            return "a pattern is not looked for from where its last match ends to the end of the region", model
        if kind in ("ok", "bad"):
            pending[i] = (a, -b, kind, S("capture", w, a, b))
            starts[i] = b if b > a else b + 1
            bad |= kind == "bad"
        else:
            starts[i] = None
            err_ |= kind == "err"
            fatal |= kind == "fatal"
    new = {"from": tuple(starts), "seen": model["seen"] + len(news)}
    bad |= any(p[2] == "bad" for p in pending.values())
    if err_ or o[0] == "err":
        return (None if err_ and o[0] == "err" else "an error is lost" if err_ else "it fails though nothing went wrong"), model
    if o[0] == "?":
        return "what it returns cannot be determined", model
    if o[0] == "fatal":
        return (None if fatal else "it fails though nothing went wrong"), model
    if not bad:
        if any(starts[i] is not None and starts[i] <= HI and i not in pending for i in range(n)):
            return "a pattern which may have more matches is not looked for", model
    if o[0] == "none":
        return (None if not pending else "it claims that there are no more matches when there are"), model
    i = o[1]
    if i not in pending:
        return "it returns a match that was not found", model
    p = pending.pop(i)
    if (o[2], o[3]) != (p[0], -p[1]) or o[0] != p[2] or o[4] != (p[3],):
        return "the match it returns is not the one found", model
    if bad and o[0] != "bad" or not bad and any(q[:2] < p[:2] for q in pending.values()):
        return "it does not return the first of the matches, or not the longest of those", model
    new["pending"] = tuple(pending.items())
    return None, new


def any_of(r, g, variant, shape, options, rest, total, quiet=False):
    """Looking for any of several patterns, each of them a first part followed by one of several others."""
    m = g.m
    m.options, m.rest, m.total = options, rest, total
    a = adt(r, "MatchAny", "filecheck")
    st, ctx, _ = g.start()
    pats = ("arr", tuple(S("pat", i) for i in range(len(shape))))
    sfx = ("arr", tuple(("arr", tuple(S("rest", i, j) for j in range(k))) for i, k in enumerate(shape)))
    if variant.startswith("Regex"):
        pats = ("adt", adt(r, "RegexSetMatcher", "filecheck"), 0, (pats,))
    i = vidx(r, a, variant)
    st, me = g.keep(st, ("adt", a, i, (pats, sfx) if variant.endswith("Prefix") else (pats,)))
    fn = r.fn(r"<.*MatchAny as .*MatcherMut>::try_match_mut$")
    g.e, outs = analyse(r, fn, m, [me, g.input(st), ctx], st.copy())
    for s, ret in outs:
        o = g.outcome(s, ret)
        finds = get(s.mon, "finds") or ()
        msg = anything(shape, finds, o, variant.endswith("Prefix"))
        r.ob("any", "%s %s" % (variant, "+".join(map(str, shape))), msg is None, "any|%s" % (msg or "")[:70], "%s: after %s: %s" % (fn.loc(), "; ".join(map(say, finds)), msg))


def anything(shape, finds, o, more):
    n = len(shape)
    model = {"from": (LO,) * n, "pending": (), "seen": 0}
    k = 0
    if any(f[4] == "err" for f in finds) or o[0] == "err":
        return None if o[0] == "err" and finds and finds[-1][4] == "err" else "an error is lost" if o[0] != "err" else "it fails though nothing went wrong"
    if o[0] == "?":
        return "what it returns cannot be determined"
    while True:
        first = []
        while k < len(finds) and finds[k][0][0] == "pat":
            first.append(finds[k])
            k += 1
        rest = []
        while k < len(finds) and finds[k][0][0] == "rest":
            rest.append(finds[k])
            k += 1
        pend = dict(model["pending"])
        for w, lo, hi, anch, kind, a, b in first:
            if kind == "ok":
                pend[w[1]] = (a, -b, kind, S("capture", w, a, b))
        best = min((p[:2] for p in pend.values()), default=None)
        if best is None:
            msg, _ = follow(n, model, first, ("none",))
            if msg:
                return msg
            return None if o[0] == "none" else "it finds something though no pattern has a match"
        # of equal ones any may be taken
        pick = [i for i, p in pend.items() if p[:2] == best]
        i = rest[0][0][1] if rest and rest[0][0][1] in pick else o[1] if not more and o[0] == "ok" and o[1] in pick else pick[0]
        msg, model = follow(n, model, first, ("ok", i) + (best[0], -best[1], (pend[i][3],)))
        if msg:
            return msg
        if not more:
            return None if o[0] == "ok" and o[2:4] == (best[0], -best[1]) and o[4] == (pend[i][3],) else "it does not return the first match"
        if any(f[0][1] != i for f in rest):
            return "what follows one pattern is looked for after another"
        if [f[0][2] for f in rest] != list(range(len(rest))):
            return "not every pattern with the same first part is tried"
        for f in rest:
            if f[1] != -best[1] or f[2] != HI or f[3] != TRUE:
                return "the rest of a pattern is not looked for right after its first part"
        good = [f for f in rest if f[4] == "ok"]
        if not good:
            if len(rest) != shape[i]:
                return "not every pattern with the same first part is tried"
            continue
        if rest[-1] != good[0]:
            return "a pattern is looked for though one has been found"
        f = good[0]
        if k != len(finds):
            return "the search goes on though a pattern has been found"
        if o[0] != "ok":
            return "a pattern that is there is not found"
        if o[2:4] != (best[0], f[6]):
            return "what it says to have found is not from the start of the first part to the end of the rest"
        if o[4] is None or set(o[4]) != {pend[i][3], S("capture", f[0], f[5], f[6])}:
            return "what was captured by a part of the pattern is lost"
        return None


@rule("F06")
def f06(r):
    g = SetRun(r)
    full = (("ok", 0, 2), ("ok", 0, 4), ("ok", 3, 2), ("ok", 3, 0), ("none", 0, 0))
    few = (("ok", 0, 2), ("ok", 2, 4), ("none", 0, 0))
    edge = (("ok", 0, 0), ("ok", 30, 0), ("ok", 29, 1), ("none", 0, 0))
    deep = r.tier == "thorough"
    for name in ("PatternSetSearcher", "RegexSetSearcher"):
        searcher(r, g, name, 2, full, 4 if deep else 3, 3 if deep else 2)
        searcher(r, g, name, 3, few, 3 if deep else 2, 2 if deep else 1)
        searcher(r, g, name, 1, edge, 4, 4)
        searcher(r, g, name, 2, edge, 3, 3)
        searcher(r, g, name, 2, (("ok", 1, 2), ("none", 0, 0), ("err", 0, 0)), 3, 2)
    searcher(r, g, "PatternSetSearcher", 2, (("ok", 1, 2), ("bad", 2, 2), ("none", 0, 0)), 3, 2)
    # more patterns than fit in one word of a set of bits, most of which are not found
    g.m.only = {0: (("ok", 3, 1),), 1: (("none", 0, 0),), 33: (("ok", 1, 1),), 64: (("ok", 2, 1),), 65: (("ok", 0, 1),)}
    for name in ("PatternSetSearcher", "RegexSetSearcher"):
        searcher(r, g, name, 66, (), 6, 100)
    g.m.only = None
    searcher(r, g, "RegexSetSearcher", 2, (("ok", 1, 2), ("fatal", 0, 0), ("none", 0, 0)), 2, 2)
    m = (("ok", 0, 2), ("ok", 2, 4), ("none", 0, 0))
    yes_no = (("ok", 0, 3), ("none", 0, 0))
    for variant in ("AnyPrefix", "RegexPrefix"):
        for shape in ((1,), (2,), (2, 1)):
            any_of(r, g, variant, shape, m, yes_no, 2 if len(shape) == 1 else 1)
    any_of(r, g, "AnyPrefix", (1, 1), (("ok", 1, 2), ("err", 0, 0), ("none", 0, 0)), yes_no + (("err", 0, 0),), 1)
    any_of(r, g, "Regex", (0, 0), m, (), 1)
    r.floor("search", 300)
    r.floor("any", 100)
