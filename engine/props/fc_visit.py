"""F10: a group of CHECK-DAG directives matches each of its patterns once, at places of their own, and defines what those matches capture."""
import itertools
from kit import *
from rules import rule
from props.fc_window import S
from props.fc_report import get, put
from props.fc_smart import Smart, Pat, rng, sspan

END = S("input", "end")
SEARCHER = S("searcher")
RANGE = "core::ops::range::Range"
CAPS = ("Explicit", "Implicit", "Mapped")


class Visit(Smart):
    """mon: 'items' what the search for the patterns (or their first parts) found, in order; 'tries' the rest of a pattern being matched after one of these."""
    watch = Smart.watch + (r"PatternSearcher::", r"MatcherMut::try_match_mut$", r"Pattern as .*try_match_mut$")
    force = Smart.force + (r"MatchResult", r"Matches::", r"Bindings::", r"PatternIdentifier", r"core::range::Range::")
    stop = Smart.stop + (r"Searcher as .*::try_match_next$",)
    max_states = 600000
    most = 3            # things found before there are no more
    kinds = ("ok", "bad", "fatal", "err")
    caps = False

    # places: an increasing list of positions, each known to be before the next
    def at(self, e, st, q):
        """Position q, with everything there is to know about the positions used so far."""
        used = get(st.mon, "used") or ()
        s = st
        v = S("at", q)
        if q not in used:
            s = e.assume(s, e.app("Lt", v, v), False) or s
            for u in used + ("start", "end"):
                w = S("input", u) if isinstance(u, str) else S("at", u)
                less = u == "start" or u != "end" and u < q
                for a, b, t in ((w, v, less), (v, w, not less)):
                    s = e.assume(s, e.app("Lt", a, b), t)
                for a, b in ((v, w), (w, v)):
                    s2 = e.assume(s, e.app("Eq", a, b), False)
                    s = s2 if s2 is not None else s
            s = s.copy()
            s.mon = put(s.mon, used=used + (q,))
        return s, v

    def length(self, e, st, lo, hi):
        return e.app("Sub", hi, lo)

    def known_lengths(self, e, s):
        """Matches from the same place are as long as they end late."""
        used = sorted(get(s.mon, "used") or ())
        for lo in used:
            for a, b in itertools.combinations([u for u in used if u > lo], 2):
                x, y = (self.length(e, s, S("at", lo), S("at", u)) for u in (a, b))
                for p, q, t in ((x, y, True), (y, x, False)):
                    n = e.assume(s, e.app("Lt", p, q), t)
                    s = n if n is not None else s
        return s

    def info_of(self, i, lo, hi, caps):
        names = [f["n"] if isinstance(f, dict) else f for f in self.p.adts[self.info]["v"][0]["f"]]
        return ("adt", self.info, 0, tuple({"span": sspan(lo, hi), "pattern_id": ("int", i), "captures": ("arr", caps)}.get(n, S("where")) for n in names))

    def result(self, ok_, info, why=None):
        n = "MatchFoundAndExpected" if ok_ else "Failed"
        i = vidx(self.r, self.mty, n)
        ty = ("adt", self.mty, i, () if ok_ else (why,))
        names = [f["n"] if isinstance(f, dict) else f for f in self.p.adts[self.mres]["v"][0]["f"]]
        return ("adt", self.mres, 0, tuple({"ty": ty, "info": info}[n] for n in names))

    def failure(self, name):
        a = adt(self.r, "CheckFailedError", "filecheck")
        i = vidx(self.r, a, name)
        return ("adt", a, i, tuple(S("failure", name, k) for k in range(len(self.p.adts[a]["v"][i]["f"]))))

    def next_item(self, e, st, c):
        items = get(st.mon, "items") or ()
        outs = []

        def add(s, rec, v):
            s = s.copy()
            s.mon = put(s.mon, items=(get(s.mon, "items") or ()) + (rec,), last=rec[3] if rec[0] == "ok" else get(s.mon, "last"))
            outs.append((s, v))
        over = bool(items) and items[-1][0] in ("none", "fatal", "err")
        if len(items) < self.most and not over:
            prev = [x for x in items if x[0] == "ok"][-1:]
            starts = self.starts(prev[0][2:4]) if prev else (10,)
            for i in range(self.n):
                for q in starts:
                    s, lo = self.at(e, st, q)
                    s, hi = self.at(e, s, q + 4)
                    s = self.known_lengths(e, s)
                    k = len(items)
                    add(s, ("ok", i, q, q + 4, k), ok(self.result(True, some(self.info_of(i, lo, hi, self.captures(k))))))
                if "bad" in self.kinds and not any(x[0] == "bad" for x in items):
                    add(st, ("bad", i, None, None, len(items)), ok(self.result(False, some(self.info_of(i, S("bad", "start"), S("bad", "end"), ())), self.failure("MatchFoundConstraintFailed"))))
            for kind in ("fatal", "err"):
                if kind in self.kinds:
                    rec = (kind, None, None, None, len(items))
                    add(st, rec, ok(self.result(False, NONE, self.failure("MatchFoundConstraintFailed"))) if kind == "fatal" else err(S("report")))
        add(st, ("none", None, None, None, len(items)), ok(self.result(False, NONE, self.failure("MatchNoneButExpected"))))
        return outs

    steps = (0, 2, 4, 6)

    def starts(self, prev):
        """Where the next match starts: at, inside, at the end of and after the one before it."""
        return tuple(prev[0] + x for x in self.steps)

    def captures(self, k):
        return tuple(self.capture(x, "User", n, S("val", "found", k, n)) for x, n in (self.caps or (("Explicit", "x"),)))

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        x = e.norm(st, e.deref_all(st, c.args[0])) if c.args else None
        if x == SEARCHER and last in ("span",):
            return [(st, S("where"))]
        if x == SEARCHER:
            if last == "try_match_next":
                return self.next_item(e, st, c)
            if last == "patterns_len":
                return [(st, ("int", self.n))]
            if last == "last_match_end":
                q = get(st.mon, "last")
                return [(st, NONE if q is None else some(S("at", q)))]
            if last == "input":
                return [(st, S("rest"))]
            if last == "searched":
                return [(st, S("searched"))]
            if last in ("pattern_span", "span"):
                return [(st, S("where"))]
            if last == "set_last_match_end":
                s = st.copy()
                s.mon = put(s.mon, skipped=True)
                return [(s, UNIT)]
        if x == S("rest") and last in ("range", "start", "bounds", "end", "buffer", "source_id", "anchored"):
            lo = S("input", "start")
            return [(st, rng(lo, END) if last in ("range", "bounds") else {"start": lo, "end": END}.get(last, S("rest", last)))]
        if x is not None and x[0] == "adt" and x[1] == "sspan":
            if last == "len":
                return [(st, self.length(e, st, *x[3]))]
            if last == "is_empty":
                return [(st, FALSE)]
        if last in ("cmp", "partial_cmp") and "Ord" in nm + str(c.trait) and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, y)) for y in c.args)
            if a[0] == b[0] == "sym" and all(y[1][0] in ("at", "input", "app") for y in (a, b)):
                return [(s, v if last == "cmp" else some(v)) for s, v in self.order(e, st, a, b)]
        if last in ("eq", "ne") and "PartialEq" in nm + str(c.trait) and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, y)) for y in c.args)
            if all(y[0] == "adt" and y[1] == "core::cmp::Ordering" for y in (a, b)):
                return [(st, TRUE if (a[2] == b[2]) == (last == "eq") else FALSE)]
            if "int" in (a[0], b[0]) and "adt" in (a[0], b[0]):
                # a value with a span compared with a plain one
                a, b = (e.norm(st, e.deref_all(st, y[3][-1])) if y[0] == "adt" and y[1].endswith("::Span") and len(y[3]) == 2 else y for y in (a, b))
            if a[0] in ("int", "sym") and b[0] in ("int", "sym") and (a[0] == b[0] == "int" or a == b):
                return [(st, TRUE if (a == b) == (last == "eq") else FALSE)]
        if last in ("lt", "le", "gt", "ge") and "Ord" in nm + str(c.trait) and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, y)) for y in c.args)
            if a[0] == b[0] == "sym" and all(y[1][0] in ("at", "input", "app") for y in (a, b)):
                if last in ("gt", "le"):
                    a, b = b, a
                return [(s, TRUE if t != (last in ("le", "ge")) else FALSE) for s, t in self.fork_lt(e, st, a, b)]
        if last == "try_match_mut" and "atcher" in nm + str(c.trait) and x is not None and x[0] == "sym" and x[1][0] == "pat":
            return self.rest_of(e, st, c, x[1][1:])
        if last in ("max_by", "min_by") and len(c.args) == 2:
            v = self.extreme_by(e, st, c, last)
            if v is not None:
                return v
        if last == "bounds" and x is not None and x[0] == "adt" and x[1] == self.inp:
            return [(st, rng(*self.input_of(e, st, c.args[0])[:2]))]
        if last == "range_from_bounds" and x is not None and x[0] == "adt" and x[1] == RANGE:
            return [(st, ok(x))]
        if last in ("search_range", "search_to_eof", "search_block") and "ontext" in nm:
            return [(st, self.whole)]
        return Smart.before_call(self, e, st, c)

    def order(self, e, st, a, b):
        outs = []
        for i, (p, q) in enumerate(((True, False), (False, False), (False, True))):
            if a == b:
                if i == 1:
                    outs.append((st, ("adt", "core::cmp::Ordering", 1, ())))
                continue
            s = e.assume(st, e.app("Lt", a, b), p)
            s = s and e.assume(s, e.app("Lt", b, a), q)
            if s:
                outs.append((s, ("adt", "core::cmp::Ordering", i, ())))
        return outs

    def extreme_by(self, e, st, c, last):
        from models import exact
        it = e.deref_all(st, c.args[0])
        if not (it[0] == "iter" and exact(it)):
            return None
        outs = []
        for s, xs in self.drain(e, st, c, it):
            if not xs:
                outs.append((s, NONE))
                continue
            best = [(s, xs[0])]
            for k, y in enumerate(xs[1:]):
                nxt = []
                for s1, b in best:
                    refs = []
                    for j, z in enumerate((b, y)):
                        s1, ref = self.new_root(s1, ("by", c.fr.id, c.blk, k, j), z)
                        refs.append(ref)
                    for s2, o in e.call_value(c.fr, c.blk + ("by",), c.line, c.args[1], refs, s1) or ():
                        for i in e.variants(s2, o, "core::cmp::Ordering"):
                            s3 = s2 if o[0] == "adt" else e.assume_var(s2, e.term(o), frozenset((i,)), "core::cmp::Ordering")
                            if s3 is not None:
                                later = i != 2 if last == "max_by" else i == 2
                                nxt.append((s3, y if later else b))
                best = nxt
            outs += [(s1, some(b)) for s1, b in best]
        return outs

    ends = (1, 3)
    tries = ("ok", "no", "err")

    def rest_of(self, e, st, c, who):
        """Matching what follows the first part of a pattern."""
        lo, hi, anch = self.input_of(e, st, c.args[1])
        item = [x for x in get(st.mon, "items") or () if x[0] == "ok"][-1]
        outs = []
        for kind in self.tries:
            if kind == "err" and get(st.mon, "tries"):
                continue
            for d in self.ends if kind == "ok" else (0,):
                s, v = st, err(S("report"))
                q = item[3] + d
                name = "y" if len(who) < 2 or who[1] == 0 else "z"
                val = S("val", "rest", item[4], who)
                if kind == "ok":
                    s, end = self.at(e, s, q)
                    s = self.known_lengths(e, s)
                    v = ok(self.result(True, some(self.info_of(0, S("at", item[3]), end, ()))))
                    s = self.define(e, s, c, name, val)
                elif kind == "no":
                    # a match that fails late may already have defined something
                    v = ok(self.result(False, NONE, self.failure("MatchNoneButExpected")))
                    s = self.define(e, s, c, name, S("val", "wrong"))
                s = s.copy()
                s.mon = put(s.mon, tries=(get(s.mon, "tries") or ()) + ((item[4], who, (lo, hi), anch == TRUE, kind, q, name, val),))
                outs.append((s, v))
        return outs

    def define(self, e, st, c, name, val):
        """Define a variable in the context a pattern is given."""
        ctx = e.deref_all(st, c.args[2])
        n = self.p.impl_method.get(("litcheck_filecheck::context::Context::env_mut", ctx[1]))
        self.r.need(n in self.p.fns, "the variables of a context")
        (s, env), = e.run(self.p.fns[n], [c.args[2]], st, ("def", c.blk))
        v = e.deref_all(s, env)
        n = self.p.impl_method.get(("litcheck_filecheck::env::LexicalScopeMut::insert", v[1]), "litcheck_filecheck::env::LexicalScopeMut::insert")
        self.r.need(n in self.p.fns, "a way to define a variable")
        (s, _), = e.run(self.p.fns[n], [env, self.name("User", name), val], s, ("def2", c.blk))
        return s


class Group(Pat):
    def __init__(self, r):
        Pat.__init__(self, r)
        self.m = Visit(r.p).setup(r)
        self.m.name = self.name
        self.m.capture = self.capture
        self.mlist = adt(r, "Matches", "filecheck")

    def capture(self, var, kind, n, val):
        r = self.r
        cap, ci, tv = adt(r, "Capture", "filecheck"), adt(r, "CaptureInfo", "filecheck"), adt(r, "TypedVariable", "filecheck")
        i = vidx(r, cap, var)
        t = self.struct(tv, name=self.name(kind, n))
        fs = r.p.adts[cap]["v"][i]["f"]
        if var in ("Ignore", "All"):
            f = tuple(S("where") for _ in fs)
        else:
            f = tuple(t if (x["n"] if isinstance(x, dict) else x) != "group" or len(fs) == 1 else S("group") for x in fs)
        return self.struct(ci, value=val, capture=("adt", cap, i, f), span=sspan(S("cap"), S("cap")))

    def start(self):
        """A test in which x and y have values."""
        st, ctx = self.new([], False)
        for n in ("x", "y"):
            st = self.insert(st, ctx, "User", n, S("val", "before", n))
        st, g = self.protect(st, ctx)
        st, sref = self.keep(st, SEARCHER)
        return st, g, sref

    def value(self, st, ctx, n):
        s, env = self.env(st, ctx, False)
        s, ra = self.keep(s, self.name("User", n))
        s, v = self.scope(s, env, "get", ra)
        k, x = option_of(self.e, s, v)
        return None if k == "none" else self.e.norm(s, self.e.deref_all(s, x)) if k == "some" else "?"

    def values(self, st, ctx):
        def freeze(v, seen):
            v = self.e.deref_all(st, v)
            return v
        key = tuple(sorted(((k, v) for k, v in st.env.items() if k[1][0] == "keep"), key=lambda x: repr(x[0])))
        c = self.cache.get(key)
        if c is None:
            c = self.cache[key] = {n: self.value(st, ctx, n) for n in ("x", "y", "z")}
        return c

    cache = {}

    def visitor(self, st, which, *args):
        fn = self.fn(r"litcheck_filecheck::pattern::visitors::.*::%s::new$" % which)
        e, outs = analyse(self.r, fn, self.m, list(args), st.copy())
        self.r.need(len(outs) == 1, "one way to make a %s (found %d)" % (which, len(outs)))
        s, v = outs[0]
        return self.keep(s, v)

    def go(self, st, which, v, ctx):
        fn = self.fn(r"litcheck_filecheck::pattern::visitors::.*::%s::try_match_all$" % which)
        e, outs = analyse(self.r, fn, self.m, [v, ctx], st.copy())
        self.e = e
        return fn, outs

    def results(self, s, v):
        """[(good, pattern, start, end)] of a list of matches, or None."""
        e, r = self.e, self.r
        v = e.deref_all(s, v)
        for _ in range(4):
            if v[0] == "adt" and len(v[3]) == 1:
                v = e.deref_all(s, v[3][0])
        if v[0] != "arr":
            return None
        out = []
        for x in v[1]:
            x = e.deref_all(s, x)
            if x[0] != "adt" or x[1] != self.m.mres:
                return None
            ty = e.deref_all(s, x[3][fidx(r, x[1], "ty")])
            if ty[0] != "adt":
                return None
            k, info = option_of(e, s, e.deref_all(s, x[3][fidx(r, x[1], "info")]))
            good = vname(r.p, ty[1], ty[2]) == "MatchFoundAndExpected"
            i = lo = hi = None
            if k == "some":
                info = e.deref_all(s, info)
                sp = e.deref_all(s, e.proj(info, fidx(r, self.m.info, "span")))
                lo, hi = (self.spot(e.norm(s, y)) for y in sp[3]) if sp[0] == "adt" else (None, None)
                i = e.norm(s, e.proj(info, fidx(r, self.m.info, "pattern_id")))
                i = i[1] if i[0] == "int" else None
            out.append((good, i, lo, hi))
        return out

    @staticmethod
    def spot(v):
        return v[1][1] if v[0] == "sym" and v[1][0] == "at" else "?"


def clash(a, b):
    return a[0] < b[1] and b[0] < a[1]


def static(r, g, n, most, kinds, steps, caps=False):
    m = g.m
    m.n, m.most, m.kinds, m.caps, m.steps = n, most, kinds, caps, steps
    st, ctx, sref = g.start()
    st, v = g.visitor(st, "StaticPatternSetVisitor", sref)
    fn, outs = g.go(st, "StaticPatternSetVisitor", v, ctx)
    r.need(outs, "paths of %s" % fn.name)
    site = "%d patterns, %s" % (n, "+".join(x for x, _ in caps) if caps else "up to %d matches" % most)
    for s, ret in outs:
        e = g.e
        items = get(s.mon, "items") or ()
        k, x = result_of(e, s, ret)
        msg = None
        taken = []
        stop = None
        for it in items:
            if it[0] == "ok":
                if len(taken) < n and it[1] not in [t[1] for t in taken] and not any(clash(it[2:4], t[2:4]) for t in taken):
                    taken.append(it)
            elif it[0] != "bad":
                stop = it[0]
        if k == "err":
            msg = None if stop == "err" else "gives up with an error though nothing went wrong"
        elif k != "ok":
            msg = "its outcome cannot be determined"
        elif stop == "err":
            msg = "an error is lost"
        else:
            res = g.results(s, x)
            if res is None:
                msg = "its matches cannot be determined"
            else:
                msg = verdict(n, res, [t[2:4] for t in taken], [t[1] for t in taken], stop, False) or bound(g, s, ctx, {nm: S("val", "found", t[4], nm) for t in taken for _, nm in (caps or (("Explicit", "x"),))
                                                                                                                  if _ in CAPS})
        r.ob("set", site, msg is None, "set|%s" % (msg or "")[:70], "%s: when a group of patterns finds %s: %s" % (fn.loc(), story(items), msg))
    return len(outs)


def verdict(n, res, spans, ids, stop, once):
    good = [x for x in res if x[0]]
    bad = [x for x in res if not x[0]]
    if len(ids) == n:
        if bad:
            return "a group of which every pattern matches fails"
    else:
        if stop is None:
            return "it stops looking before all patterns have matched"
        if not bad:
            return "a group of which a pattern does not match succeeds"
        if stop == "none" and (len(bad) < n - len(ids) or once and len(bad) > n - len(ids)):
            return "not every pattern without a match is reported%s" % (" once" if once else "")
    if sorted(x[2:4] for x in good) != sorted(spans):
        return "the matches it reports are not those found"
    return None


def bound(g, s, ctx, want):
    vals = g.values(s, ctx)
    for nm in ("x", "y", "z"):
        w = want.get(nm, S("val", "before", nm) if nm != "z" else None)
        if vals[nm] != w:
            return "a variable has %s" % ("a value from a match that does not count" if nm not in want else "not the value captured by its match")
    return None


def story(items):
    words = {"none": "nothing more", "fatal": "a failure", "err": "an error"}
    out = []
    last = None
    for it in items:
        if it[0] == "ok":
            rel = "" if last is None else {0: " at the same place", 2: " overlapping", 4: " right after", 6: " later"}.get(it[2] - last, "")
            out.append("pattern %d%s" % (it[1] + 1, rel))
            last = it[2]
        elif it[0] == "bad":
            out.append("a bad match of pattern %d" % (it[1] + 1))
        else:
            out.append(words[it[0]])
    return ", ".join(out) or "nothing"


def dynamic(r, g, shape, most, kinds, tries, steps=(0, 2, 4, 6), ends=(2, 3)):
    m = g.m
    m.n, m.most, m.kinds, m.tries, m.caps, m.steps, m.ends = len(shape), most, kinds, tries, False, steps, ends
    st, ctx, sref = g.start()
    sfx = ("arr", tuple(("arr", tuple(S("pat", i, j) for j in range(k))) for i, k in enumerate(shape)))
    st, sfx = g.keep(st, sfx)
    st, v = g.visitor(st, "DynamicPatternSetVisitor", sref, sfx)
    fn, outs = g.go(st, "DynamicPatternSetVisitor", v, ctx)
    r.need(outs, "paths of %s" % fn.name)
    total = sum(shape)
    site = "patterns by first part: %s, up to %d matches" % ("+".join(map(str, shape)), most)
    for s, ret in outs:
        e = g.e
        items, tr = get(s.mon, "items") or (), get(s.mon, "tries") or ()
        k, x = result_of(e, s, ret)
        res = g.results(s, x) if k == "ok" else None
        msg = told(g, s, ctx, shape, items, tr, k, res)
        r.ob("parts", site, msg is None, "parts|%s" % (msg or "")[:70], "%s: when a group of patterns finds %s: %s" % (fn.loc(), story(items), msg))
    return len(outs)


def told(g, s, ctx, shape, items, tr, k, res, picks={}):
    total = sum(shape)
    done, spans, want = set(), [], {}
    stop = None
    failed = False
    for it in items:
        if it[0] == "bad":
            continue
        if it[0] != "ok":
            stop = it[0]
            continue
        mine = [t for t in tr if t[0] == it[4]]
        left = [j for j in range(shape[it[1]]) if (it[1], j) not in done]
        if len(done) == total:
            continue
        if any(clash(it[2:4], sp) for sp in spans) or not left:
            if mine:
                return "a pattern is matched where another one has matched"
            continue
        if any(t[1][0] != it[1] for t in mine):
            return "what follows the first part of one pattern is looked for after that of another"
        js = [t[1][1] for t in mine]
        if any(t[4] == "err" for t in mine):
            failed = True
            break
        if sorted(js) != left:
            return "not every pattern left is tried once where its first part is found"
        for t in mine:
            if t[2] != (S("at", it[3]), END):
                return "the rest of a pattern is not looked for from the end of its first part to the end of the input"
            if not t[3]:
                return "the rest of a pattern is looked for anywhere after its first part"
        good = [t for t in mine if t[4] == "ok"]
        if not good:
            continue
        far = max(t[5] for t in good)
        best = [t for t in good if t[5] == far]
        if len(best) > 1 and it[4] not in picks:
            # either may be taken
            errs = [told(g, s, ctx, shape, items, tr, k, res, {**picks, it[4]: t}) for t in best]
            return None if None in errs else errs[0]
        t = picks.get(it[4], best[0])
        done.add(t[1])
        spans.append((it[2], t[5]))
        want["x"] = S("val", "found", it[4], "x")
        want[t[6]] = t[7]
    if k == "err":
        return None if stop == "err" or failed else "it gives up with an error though nothing went wrong"
    if k != "ok":
        return "its outcome cannot be determined"
    if stop == "err" or failed:
        return "an error is lost"
    if res is None:
        return "its matches cannot be determined"
    return verdict(total, res, spans, done, stop, True) or bound(g, s, ctx, want)


BOTH = ("ok", "no")
PARTS = (
    (((1,), 2, ("ok", "bad", "fatal", "err"), ("ok", "no", "err")), ((1, 1), 2, ("ok",), BOTH), ((2,), 3, ("ok",), BOTH, (0, 2, 6)), ((2, 1), 3, ("ok",), BOTH, (2, 6), (3,)), ((1, 1), 3, ("ok", "bad", "err"), ("ok", "no", "err"), (6,), (2,)), ((3,), 3, ("ok",), BOTH, (6,), (2,))),
    (((1,), 3, ("ok", "bad", "fatal", "err"), ("ok", "no", "err")), ((1, 1), 3, ("ok", "bad"), BOTH), ((2,), 3, ("ok", "bad"), BOTH), ((2, 1), 3, ("ok",), BOTH, (0, 4), (1, 3)), ((2, 2), 3, ("ok",), BOTH, (2, 6), (3,)), ((3,), 3, ("ok",), BOTH, (6,), (2, 3))),
)


@rule("F10")
def f10(r):
    g = Group(r)
    n = 0
    n += static(r, g, 2, 3, ("ok",), (0, 2, 4, 6))
    n += static(r, g, 2, 3, ("ok", "bad", "fatal", "err"), (2, 6))
    n += static(r, g, 3, 4, ("ok",), (4,))
    for cs in ((("Ignore", "x"),), (("All", "y"),), (("Implicit", "y"),), (("Mapped", "x"),), (("Explicit", "x"), ("Mapped", "y")), (("Ignore", "x"), ("Explicit", "y"))):
        n += static(r, g, 1, 2, ("ok", "bad"), (4,), cs)
    r.floor("set", 350)
    for x in PARTS[r.tier == "thorough"]:
        dynamic(r, g, *x)
    r.floor("parts", 1000)
