"""F01: the verdict of a FileCheck run (every check is evaluated, every failure is recorded, nothing else is)."""
from kit import *
from rules import rule, Anchor
from models import RANGE, clo_like


def get(m, k, d=None):
    for a, b in m:
        if a == k:
            return b
    return d


def put(m, **kw):
    d = dict(m)
    d.update(kw)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


def tok(kind, ne, bad=False):
    """A collection: kind 'M' (results of one rule), 'V' (results of several rules) or 'X' (anything else); whether it
    is non-empty (None: unknown) and whether it contains a failed match."""
    return ("tok", kind, ne, bad)


def elem_kind(t):
    """'V' / 'M' for collections of Matches / MatchResult, 'X' for other vectors, None for other types."""
    if t is None or t[0] != "adt" or not t[2]:
        return None
    if t[2].endswith("pattern::matches::Matches"):
        return "M"
    if re.search(r"(::Vec|::SmallVec|::VecDeque)$", t[2]):
        a = t[3][0] if t[3] else None
        if a is not None and a[0] in ("slice", "array") and a[3]:
            a = a[3][0]
        if a is not None and a[0] == "adt" and a[2]:
            if a[2].endswith("pattern::matches::Matches"):
                return "V"
            if a[2].endswith("matcher::result::MatchResult"):
                return "M"
        return "X"
    return None


GROUPFN = re.compile(r"^litcheck_filecheck::check::check_(group|tree)$")
APPLY = re.compile(r"rules::Rule(>)?::apply$|rules::DynRule(>)?::apply_dyn$")


class Verdict(Mon):
    """occ: a check failed; rec: a failure was recorded; ev: the parts of the argument that were evaluated."""
    init = ()
    max_states = 600000
    arg = ("arg", 1)         # the root value whose parts have to be evaluated
    toplist = False          # the root value is itself a list of parts

    # ------------------------------------------------------------------ tokens
    def base(self, e, st, a):
        loc = None
        n = 0
        while a[0] == "ref" and n < 6:
            loc = (a[1], a[2])
            a = e.get(st, loc)
            n += 1
        return (a, loc) if a[0] in ("tok", "tokit") else (None, None)

    def result(self, bad, where):
        if bad:
            ty = ("adt", self.mtype, self.bad, (("sym", ("matcherr",) + where, ()),))
            o = ("sym", ("badinfo",) + where, ())
        else:
            ty = ("adt", self.mtype, self.found, ())
            o = some(("sym", ("info",) + where, ()))
        return ("adt", self.mres, 0, (ty, o) if self.tyi == 0 else (o, ty))

    def badness(self, v):
        """True / False for match results, match types and tokens; None when unknown."""
        if v[0] == "tok":
            return v[3]
        if v[0] == "adt" and v[1] == self.mres:
            v = v[3][self.tyi]
        if v[0] == "adt" and v[1] == self.mtype:
            return v[2] == self.bad
        return None

    def iterate(self, t, mode, loc):
        """tokit: kind, mode, location of the collection, has (None: empty), must yield, must yield a failed one."""
        return ("tokit", t[1], mode, loc, None if t[2] is False else t[3], t[2] is True, t[3])

    def steps(self, e, st, v, where):
        """[(state, iterator afterwards, element or None)]"""
        _, kind, mode, src, has, ne, mb = v
        outs = []
        if not ne and not mb:
            outs.append((st, v, None))
        if has is None:
            return outs
        for b in ((False, True) if has else (False,)):
            s = st.copy()
            if kind == "V":
                x = tok("M", True, b)
            elif kind == "M":
                x = self.result(b, where)
            else:
                x = e.fresh(s, ("telem",) + where, ())
            nv = ("tokit", kind, mode, src, has, False, mb and not b)
            if mode != "own":
                root = ("L", ("melem", src if mode == "mut" else None, b, where), 0)
                s.env[root] = x
                x = ("ref", root, ())
            outs.append((s, nv, x))
        return outs

    def consume(self, e, st, c, v, body):
        """Fixpoint of a loop over a token iterator; body(state, x) -> [(state, stop value | None)]."""
        done, stops, seen = {}, {}, set()
        work = [(st, v)]
        while work:
            s, i = work.pop()
            k = (s.key(), i)
            if k in seen:
                continue
            seen.add(k)
            for s2, ni, x in self.steps(e, s, i, (c.fr.fn.name, c.blk)):
                if x is None:
                    done[s2.key()] = s2
                    continue
                for s3, stop in body(s2, x):
                    if stop is not None:
                        stops[(s3.key(), stop)] = (s3, stop)
                    else:
                        e.gc_facts(s3)
                        work.append((s3, ni))
        return list(done.values()), list(stops.values())

    def put_tok(self, e, st, loc, t):
        st = st.copy()
        e.set(st, loc, t)
        return st

    # ------------------------------------------------------------------ which part of the argument a value is
    def path(self, e, v):
        found = []

        def walk(x, n):
            if not isinstance(x, tuple) or n > 40:
                return
            if x and x[0] in ("sym", "symo") and len(x) >= 3 and x[1] == self.arg:
                found.append(x[2])
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y, n + 1)
        walk(v, 0)
        if len(set(found)) < 1:
            return None
        p = min(found, key=len)
        for i, x in enumerate(p):
            if isinstance(x, tuple) and x[0] == "d" and i + 1 < len(p) and isinstance(p[i + 1], int):
                return (x[1], p[i + 1])
        return ()

    def evaluated(self, e, st, v):
        p = self.path(e, e.norm(st, v))
        if p is not None:
            st.mon = put(st.mon, ev=get(st.mon, "ev", frozenset()) | {p}, pend=None)

    def elements(self, e, st, c, src, ety, site):
        if src[0] == "tokit":
            return [(s, x) for s, ni, x in self.steps(e, st, src[:5] + (False, False), (c.fr.fn.name, c.blk) + tuple(site))]
        if src[0] == "adt" and src[1] == RANGE and self.path(e, src[3][1]) is not None:
            p = ("range", self.path(e, src[3][1]))
            return self.walk_all(e, st, p, src[3][0] == ("int", 0), lambda s: e.fresh(s, ("rangeidx", c.fr.fn.name, c.blk), ()))
        p = self.path(e, src)
        if p is not None and (p != () or self.toplist):
            pp = ("list", p)
            return self.walk_all(e, st, pp, True, lambda s: ("sym", ("partof", ("sym", self.arg, (("d", p[0]), p[1]) if p else ("elem",))), ()))
        return None

    def walk_all(self, e, st, p, from_start, mk):
        """Step over a part of the program that has at least one element."""
        if get(st.mon, "occ"):
            s = st.copy()
            return [(st, None), (s, mk(s))]
        n = get(st.mon, "seen") or frozenset()
        outs = []
        if p in n:
            s = st.copy()
            if get(s.mon, "pend") == p:
                s.mon = put(s.mon, skipped=True)
            s.mon = put(s.mon, ev=get(s.mon, "ev", frozenset()) | {p + ("all",)}, pend=None)
            outs.append((s, None))
        s = st.copy()
        if get(s.mon, "pend") == p or (p not in n and not from_start):
            s.mon = put(s.mon, skipped=True)
        s.mon = put(s.mon, seen=n | {p}, pend=p)
        outs.append((s, mk(s)))
        return outs

    # ------------------------------------------------------------------ events
    def fail(self, st):
        st = st.copy()
        st.mon = put(st.mon, occ=True)
        return st

    def outcomes(self, e, st, c, what):
        """Contract of evaluating a nested group or tree."""
        outs = []
        for inner in (0, 1):
            for ne, bad, rec in ((False, False, False), (False, False, True), (True, False, False), (True, False, True),
                                 (True, True, False)):
                if inner == 1 and not (bad or rec):
                    continue
                s = self.fail(st) if bad or rec else st.copy()
                self.evaluated(e, s, what)
                if rec:
                    s.mon = put(s.mon, rec=True)
                outs.append((s, ok(("adt", RES, inner, (tok("V", ne, bad),)))))
        s = self.fail(st)
        self.evaluated(e, s, what)
        outs.append((s, err(("sym", ("grouperr", c.fr.fn.name, c.blk), ()))))
        return outs

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if GROUPFN.search(nm):
            return self.outcomes(e, st, c, c.args[0])
        if APPLY.search(nm) or (c.trait and APPLY.search(c.trait)):
            a, b, x = st.copy(), self.fail(st), self.fail(st)
            for s in (a, b, x):
                self.evaluated(e, s, c.args[0])
            return [(a, ok(tok("M", True, False))), (b, ok(tok("M", True, True))),
                    (x, err(("sym", ("applyerr", c.fr.fn.name, c.blk), ())))]
        if last == "try_match_mut" and "MatchAny" in nm + str(c.trait):
            outs = []
            where = (c.fr.fn.name, c.blk)
            for k in ("err", "found", "failed", "none"):
                s = st.copy() if k in ("failed", "none") else self.fail(st)
                self.evaluated(e, s, c.args[0])
                if k == "err":
                    outs.append((s, err(("sym", ("materr",) + where, ()))))
                else:
                    v = self.result(k != "found", where)
                    if k != "found":
                        o = NONE if k == "none" else some(("sym", ("finfo",) + where, ()))
                        fs = list(v[3])
                        fs[1 - self.tyi] = o
                        v = v[:3] + (tuple(fs),)
                    outs.append((s, ok(v)))
            return outs
        if "TestResult::" in nm:
            if last == "failed":
                s = st.copy()
                s.mon = put(s.mon, rec=True)
                return [(s, UNIT)]
            if last == "append":
                t, _ = self.base(e, st, c.args[1])
                s = st.copy()
                b = self.badness(t) if t is not None else None
                s.mon = put(s.mon, **({"rec": True} if b else {"unk": True} if b is None else {}))
                return [(s, UNIT)]
            if last in ("passed", "matched"):
                return [(st, UNIT)]
        if last == "related_labels_for":
            return [(st, tok("X", True))]
        if last == "new_uninit" and "Box" in nm:
            root = ("L", ("heap", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = ("sym", ("uninit", c.fr.fn.name, c.blk), ())
            return [(s, ("ref", root, ()))]
        if last in ("box_assume_init_into_vec_unsafe", "into_vec"):
            k = elem_kind(c.dt)
            els = self.find_array(e, st, c.args[0])
            if els is not None and k:
                return [(st, tok(k, bool(els), any(self.badness(x) for x in els)))]
            return [(st, tok(k or "X", None if els is None else bool(els)))]
        return self.collection(e, st, c, nm, last)

    def find_array(self, e, st, a):
        v = e.deref_all(st, a)

        def walk(x, n):
            if not isinstance(x, tuple) or n > 8:
                return None
            if x and x[0] == "arr":
                return x[1]
            for y in x:
                r = walk(y, n + 1)
                if r is not None:
                    return r
            return None
        return walk(v, 0)

    def collection(self, e, st, c, nm, last):
        k = elem_kind(c.dt)
        if not c.args:
            if k and last in ("new", "default"):
                return [(st, tok(k, False))]
            return None
        if k and last == "with_capacity":
            return [(st, tok(k, False))]
        where = (c.fr.fn.name, c.blk)
        t, loc = self.base(e, st, c.args[0])
        if t is None:
            a = c.args[0]
            # construction from match results
            if k in ("M", "V") and (last in ("from_iter", "from", "into", "collect", "from_vec", "from_elem", "into_iter") or "From<" in nm):
                x = e.deref_all(st, a)
                if x[0] == "arr":
                    return [(st, tok(k, bool(x[1]), any(self.badness(y) for y in x[1])))]
                if x[0] == "iter" and x[1] == "arr":
                    return [(st, tok(k, bool(x[2][1]), any(self.badness(y) for y in x[2][1])))]
                b = self.badness(x)
                if b is not None:
                    return [(st, tok(k, True, b))]
            return None
        if t[0] == "tok":
            _, kind, ne, bad = t
            if last in ("is_empty", "len", "is_some"):
                if last == "len":
                    return [(st, ("int", 0) if ne is False else e.fresh(st.copy(), ("len",) + where, ()))]
                if ne is None:
                    a, b = (self.put_tok(e, st, loc, tok(kind, True, bad)) if loc else st.copy(),
                            self.put_tok(e, st, loc, tok(kind, False, False)) if loc else st.copy())
                    return [(a, FALSE), (b, TRUE)]
                return [(st, FALSE if ne else TRUE)]
            if kind == "M" and last == "is_ok":
                return [(st, FALSE if bad else TRUE)]
            if kind == "M" and last == "has_errors":
                return [(st, TRUE if bad else FALSE)]
            if kind == "M" and last == "range":
                r = some(("sym", ("mrange",) + where, ()))
                return [(st, r)] if not bad and ne else ([(st, NONE)] if ne is False else [(st, r), (st.copy(), NONE)])
            if last in ("push", "push_back", "push_front", "insert", "append", "extend", "extend_from_slice") and loc:
                s = st.copy()
                x, xl = self.base(e, st, c.args[-1])
                if last in ("push", "push_back", "push_front", "insert"):
                    b = self.badness(x) if x is not None else self.badness(e.deref_all(st, c.args[-1]))
                    nt = tok(kind, True, bad or bool(b)) if kind != "X" else tok("X", True)
                    if kind != "X" and b is None:
                        s.mon = put(s.mon, unk=True)
                elif x is not None:
                    if x[0] == "tok":
                        xe, xb = x[2], x[3]
                    else:
                        xe, xb = (False if x[4] is None else x[5] or None), x[6]
                    nt = tok(kind, True if ne or xe else None if (ne is None or xe is None) else False, bad or xb)
                else:
                    y = e.deref_all(st, c.args[-1])
                    if y[0] == "arr" or (y[0] == "iter" and y[1] == "arr"):
                        els = y[1] if y[0] == "arr" else y[2][1]
                        nt = tok(kind, ne or bool(els), bad or any(self.badness(z) for z in els))
                    else:
                        nt = tok(kind, ne or None, bad)
                        if kind != "X":
                            s.mon = put(s.mon, unk=True)
                e.set(s, loc, nt)
                if x is not None and last == "append" and xl:
                    e.set(s, xl, tok(x[1], False))
                return [(s, UNIT)]
            if last == "iter_mut" or (last == "into_iter" and c.args[0][0] == "ref" and self.mutref(e, c)):
                return [(st, self.iterate(t, "mut", loc))]
            if last == "iter" or (last == "into_iter" and c.args[0][0] == "ref"):
                return [(st, self.iterate(t, "ref", loc))]
            if last in ("into_iter", "drain"):
                s = self.put_tok(e, st, loc, tok(kind, False)) if last == "drain" else st
                return [(s, self.iterate(t, "own", None))]
            if last in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow"):
                return [(st, c.args[0])]
            if last in ("into_results", "into_boxed_slice", "from", "into", "from_iter", "clone", "take", "from_vec", "into_vec"):
                if last == "take" and loc:
                    return [(self.put_tok(e, st, loc, tok(kind, False)), t)]
                return [(st, t)]
            if last in ("sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "reverse", "reserve", "shrink_to_fit"):
                return [(st, UNIT)]
            if last in ("index", "index_mut", "first", "last", "get"):
                if last in ("index", "index_mut") and ne is False:
                    return []
                outs = []
                if last in ("first", "last", "get") and ne is not True:
                    outs.append((st.copy(), NONE))
                if ne is not False:
                    for s, _, x in self.steps(e, st, ("tokit", kind, "ref", loc, bad, True, False), where):
                        if x is not None:
                            outs.append((s, x if last.startswith("index") else some(x)))
                return outs
            return None
        # iterators over tokens
        if last in ("by_ref", "into_iter", "copied", "cloned", "rev", "fuse", "peekable") and c.args[0][0] != "ref":
            return [(st, t)]
        if last == "next" and loc:
            outs = []
            for s, ni, x in self.steps(e, st, t, where):
                s = s.copy()
                e.set(s, loc, ni)
                outs.append((s, NONE if x is None else some(x)))
            return outs
        if last == "collect" and k in ("M", "V", "X"):
            return [(st, tok(k, False if t[4] is None else t[5] or None, t[6]))]
        if last in ("any", "all", "for_each", "try_for_each") and len(c.args) > 1 and clo_like(e, st, c.args[1]):
            def body(s, x):
                r = e.call_value(c.fr, c.blk + ("p",), c.line, c.args[1], [x], s)
                out = []
                for s2, b in r or ():
                    if last == "for_each":
                        out.append((s2, None))
                        continue
                    if last == "try_for_each":
                        kind, _ = result_of(e, s2, b)
                        out.append((s2, None if kind == "ok" else b))
                        continue
                    for w in (True, False):
                        s3 = e.assume(s2, b, w)
                        if s3 is not None:
                            out.append((s3, (TRUE if w else FALSE) if w == (last == "any") else None))
                return out
            done, stops = self.consume(e, st, c, t, body)
            end = {"any": FALSE, "all": TRUE, "for_each": UNIT, "try_for_each": ok(UNIT)}[last]
            return [(s, end) for s in done] + stops
        return None

    def mutref(self, e, c):
        t = e.op_type(c.fr, c.term["a"][0]) if c.term else None
        return bool(t is not None and t[0] == "ref" and t[2])

    def on_assign(self, e, st, fr, loc, val, line):
        r = loc[0]
        if r[0] == "L" and isinstance(r[1], tuple) and r[1] and r[1][0] == "melem" and r[1][1] is not None:
            b = self.badness(val)
            if b is None or (loc[1] and loc[1][-1] != self.tyi):
                return
            if b and not r[1][2]:
                st.mon = put(st.mon, occ=True)
                t = e.get(st, r[1][1])
                if t[0] == "tok":
                    e.set(st, r[1][1], tok(t[1], True, True))
            if not b and r[1][2]:
                st.mon = put(st.mon, healed=True)


def verdict(r, **kw):
    m = Verdict(r.p, **kw)
    m.mres = adt(r, "MatchResult", "filecheck")
    m.mtype = adt(r, "MatchType", "filecheck")
    m.tyi = fidx(r, m.mres, "ty")
    m.bad, m.found = vidx(r, m.mtype, "Failed"), vidx(r, m.mtype, "MatchFoundAndExpected")
    return m


WATCH = (r"TestResult::(failed|append|passed|matched)$", r"check::check_(group|tree)$", r"MatchAny.*try_match_mut$", r"rules::Rule", r"pattern::matches::Matches")
STOP = (r"::span$", r"first_pattern_span$", r"pattern_len$", r"diagnostics::", r"errors::", r"context::", r"cursor::", r"::kind$", r"remarks_enabled$",
        r"program::CheckTree::(first|last)$")


@rule("F01")
def f01(r):
    group = adt(r, "CheckGroup")
    tree = adt(r, "CheckTree")
    for fname, a in (("check_group", group), ("check_tree", tree)):
        fn = r.fn(r"litcheck_filecheck::check::%s$" % fname)
        m = verdict(r, watch=WATCH, stop=STOP)
        e, outs = analyse(r, fn, m)
        nv = len(r.p.adts[a]["v"])
        seen = set()
        for s, v in outs:
            f = s.facts.get((("arg", 1), ("*",)))
            vs = f[1] if f and f[0] == "var" else frozenset(range(nv))
            r.need(len(vs) == 1, "the kind of group evaluated on each path of %s" % fname)
            i = next(iter(vs))
            name = r.p.adts[a]["v"][i]["n"]
            seen.add(i)
            returned(r, fn, e, s, v, name)
            if not get(s.mon, "occ"):
                parts(r, fn, s, a, i, name)
        for i in range(nv):
            r.need(i in seen, "paths of %s for %s" % (fname, r.p.adts[a]["v"][i]["n"]))
    sections(r)
    blocks(r)
    discover(r)
    r.floor("recorded", 40)
    r.floor("evaluated", 9)


def returned(r, fn, e, s, v, name):
    g = lambda k: get(s.mon, k)  # noqa: E731
    k, pay = result_of(e, s, v)
    bag, inner = None, None
    if k == "ok":
        inner, bag = result_of(e, s, pay)
        known = bag[0] == "tok" and inner in ("ok", "err")
        if not known or g("unk"):
            r.ob("recorded", "%s: results returned" % name, False, "%s|unknown" % name,
                 "%s: for %s groups, the match results that are returned cannot be followed" % (fn.loc(), name))
            return
    fails = k == "err" or g("rec") or (bag is not None and bag[3])
    what = "%s: failed=%s recorded=%s returned=%s" % (name, bool(g("occ")), bool(g("rec")),
                                                     "error" if k == "err" else "%s/%s" % (inner, "failed match" if bag[3] else "no failed match"))
    if g("healed"):
        r.ob("recorded", what, False, "%s|healed" % name, "%s: for %s groups, a failed match is overwritten by a successful one" % (fn.loc(), name))
    if g("occ"):
        r.ob("recorded", what, fails, "%s|lost" % name, "%s: for %s groups, a check fails on a path that neither records the failure nor "
             "returns a failed match" % (fn.loc(), name))
    else:
        r.ob("recorded", what, not fails, "%s|spurious" % name, "%s: for %s groups, a failure is reported on a path where no check failed" % (fn.loc(), name))
    if inner == "err":
        r.ob("recorded", what, g("rec") or bag[3], "%s|err-without-failure" % name,
             "%s: for %s groups, the results are returned as failed although nothing failed, so surrounding CHECK-NOT patterns are not tried" % (fn.loc(), name))


def parts(r, fn, s, a, i, name):
    ev = get(s.mon, "ev", frozenset())
    for j, f in enumerate(r.p.adts[a]["v"][i]["f"]):
        ty = f["t"]
        if not re.search(r"CheckTree|CheckGroup|MatchAny|CheckDag|DynRule|usize", str(ty)):
            continue
        fn_ = f["n"]
        if "usize" in str(ty):
            good = ("range", (i, j), "all") in ev
        elif re.search(r"Vec<", str(ty)):
            good = ("list", (i, j), "all") in ev
        else:
            good = (i, j) in ev
        r.ob("evaluated", "%s.%s" % (name, fn_), good and not get(s.mon, "skipped"), "%s.%s|skipped" % (name, fn_),
             "%s: a %s group passes on a path that has not evaluated all of `%s`" % (fn.loc(), name, fn_))


# ---------------------------------------------------------------------- sections, blocks, the whole run
def sections(r):
    """A list of groups: every one is evaluated and every result is recorded in the test result."""
    for fname in ("check_block_section", "check_group_sections"):
        fn = r.fn(r"litcheck_filecheck::check::%s$" % fname)
        m = verdict(r, watch=WATCH, stop=STOP)
        m.toplist = True
        e, outs = analyse(r, fn, m)
        for s, v in outs:
            g = lambda k: get(s.mon, k)  # noqa: E731
            what = "%s: failed=%s recorded=%s" % (fname, bool(g("occ")), bool(g("rec")))
            r.ob("sections", what, bool(g("occ")) == bool(g("rec")) and not g("unk"), "%s|verdict|%s" % (fname, bool(g("occ"))),
                 "%s: %s" % (fn.loc(), "a failed group is not recorded in the test result" if g("occ") else
                             "a failure is recorded although no group failed"))
            if not g("occ"):
                r.ob("sections", "%s: all groups evaluated" % fname, ("list", (), "all") in (g("ev") or ()) and not g("skipped"),
                     "%s|skipped" % fname, "%s: a path returns before every group was evaluated" % fn.loc())


class Blocks(Verdict):
    """The blocks found in the input; flags of the current block."""
    arg = ("arg", 2)
    toplist = True
    BLK = ("block",)

    def pinned(self, i):
        return i == self.BLK or (isinstance(i, tuple) and i[:1] == ("app",) and self.BLK in ids_in(i) and ("Range" in repr(i) or "Sub" in repr(i)))

    def elements(self, e, st, c, src, ety, site):
        t = ety
        if (t is not None and t[0] == "adt" and t[2].endswith("BlockInfo")) or (src[0] in ("sym", "symo") and ("arg", 1) in ids_in(src) and
                                                                            self.arg not in ids_in(src)):
            outs = []
            s = st.copy()
            self.close(e, s)
            s.mon = put(s.mon, blocks_done=True)
            outs.append((s, None))
            s = st.copy()
            self.close(e, s)
            for k in [k for k in s.facts if k[0] == self.BLK or self.BLK in ids_in(k[0])]:
                del s.facts[k]
            s.mon = put(s.mon, open=True, ran=frozenset(), entered=None, seen=frozenset(), pend=None)
            outs.append((s, ("sym", self.BLK, ())))
            return outs
        if get(st.mon, "open"):
            p = self.path(e, src)
            if p is not None:
                sub = self.subrange(e, src)
                part = ("single", True) if sub == "other:[]" and self.single(e.norm(st, src)) else ("range", sub)
                outs = []
                s = st.copy()
                if get(s.mon, "pend"):
                    s.mon = put(s.mon, skipped=True)
                s.mon = put(s.mon, ran=get(s.mon, "ran") | {part}, pend=None)
                outs.append((s, None))
                s = st.copy()
                if get(s.mon, "pend"):
                    s.mon = put(s.mon, skipped=True)
                s.mon = put(s.mon, pend=("x",))
                outs.append((s, ("sym", ("partof", ("sym", self.arg, ("sections", "slice"))), ())))
                return outs
        return Verdict.elements(self, e, st, c, src, ety, site)

    def subrange(self, e, v):
        """How a slice of the program's sections is bounded: 'sections' when by the block's own range."""
        names = set()

        def field(x):
            return x[2][-1] if x[0] == "sym" and x[1] == self.BLK and x[2] else None

        def walk(x, n):
            if not isinstance(x, tuple) or n > 40:
                return
            if x and x[0] == "adt" and len(x) == 4 and isinstance(x[1], str) and re.search(r"::Range(Inclusive)?$", x[1]):
                names.add((x[1].endswith("Inclusive"), field(x[3][0]), field(x[3][1])))
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y, n + 1)
        walk(v, 0)
        if names == {(False, self.start, self.end)}:
            return "block"
        return "other:%s" % sorted(map(str, names))

    def close(self, e, st):
        """The current block is left: it must have been evaluated unless it has nothing to evaluate."""
        if not get(st.mon, "open"):
            return
        none = lambda f: (lambda x: x is not None and x[0] == "var" and x[1] == frozenset((0,)))(st.facts.get((self.BLK, (f,))))  # noqa: E731
        empty = one = False
        for (i, pr), f in st.facts.items():
            if isinstance(i, tuple) and i[0] == "app" and self.BLK in ids_in(i):
                if str(i[1]).endswith("Range::is_empty") and f == ("eq", 1):
                    empty = True
                ln = lambda x: isinstance(x, tuple) and ("Range::len" in repr(x)[:80] or self.diff(x))  # noqa: E731
                if self.diff(("sym", i, pr)) and f in (("eq", 0), ("eq", 1)):
                    one, empty = one or f[1] == 1, empty or f[1] == 0
                if i[1] == "Lt" and i[2] == ("int", 1) and ln(i[3]) and f == ("eq", 0):
                    one = True
                if i[1] == "Lt" and i[3] == ("int", 2) and ln(i[2]) and f == ("eq", 1):
                    one = True
                if str(i[1]).endswith("Range::len") and f == ("eq", 1):
                    one = True
                if str(i[1]).endswith("Range::len") and f == ("eq", 0):
                    empty = True
        skip = none(self.fstart) or none(self.fsections) or empty
        ran = get(st.mon, "ran", frozenset())
        good = skip or ("range", "block") in ran or (("single", True) in ran and one)
        if not good and not get(st.mon, "occ"):
            st.mon = put(st.mon, bad="a block is left without evaluating all of its checks (%s)" % (
                "nothing evaluated" if not ran else ", ".join(str(x[1]) for x in sorted(ran, key=str))))
        if ran and get(st.mon, "entered") != "block":
            st.mon = put(st.mon, bad="checks are evaluated without restricting the search to their block")
        st.mon = put(st.mon, open=None, ran=None, entered=None, seen=None, pend=None)

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if GROUPFN.search(c.name) and get(st.mon, "pend") is None and get(st.mon, "open"):
            # a single section evaluated without a loop
            v = e.norm(st, c.args[0])
            s = st.copy()
            s.mon = put(s.mon, ran=get(s.mon, "ran") | {("single", self.single(v))})
            st = s
        if last == "enter_block":
            s = st.copy()
            s.mon = put(s.mon, entered="block" if self.whole(e, st, e.norm(st, c.args[1])) else "other")
            return [(s, UNIT)]
        if c.name.endswith("TestResult::new"):
            return [(st, ("sym", ("testresult",), ()))]
        if last == "unwrap_unchecked":
            return [(st, e.proj(e.proj(c.args[0], ("d", 1)), 0))]
        if last == "from_ref" and "slice" in c.name:
            return [(st, ("arr", (c.args[0],)))]
        return Verdict.before_call(self, e, st, c)

    def diff(self, x):
        """Whether x is the difference of the ends of the block's range of sections."""
        if x[0] in ("sym", "symo") and isinstance(x[1], tuple):
            x = x[1]
        fld = lambda y: y[0] == "sym" and y[1] == self.BLK and y[2] and y[2][0] == self.fsections and y[2][-1]  # noqa: E731
        return x[0] == "app" and str(x[1]).startswith("Sub") and len(x) == 4 and fld(x[2]) == self.end and \
            fld(x[3]) is not False and fld(x[3]) == self.start

    def single(self, v):
        """Whether v is (part of) the section at the start of the block's range."""
        ok_ = False

        def walk(x, n):
            nonlocal ok_
            if not isinstance(x, tuple) or n > 40:
                return
            if x and x[0] == "app" and str(x[1]).endswith("::index") and len(x) == 4:
                k = x[3]
                if k[0] == "sym" and k[1] == self.BLK and k[2] and k[2][-1] == self.start:
                    ok_ = True
            for y in x:
                if isinstance(y, tuple):
                    walk(y, n + 1)
        walk(v, 0)
        return ok_

    def whole(self, e, st, v):
        """Whether v is the range from the block's start to its end (the end of the input when it has none)."""
        if v[0] != "adt" or len(v[3]) != 2:
            return False
        f = lambda x: x[2][0] if x[0] == "sym" and x[1] == self.BLK and x[2] else None  # noqa: E731
        a, b = (f(e.norm(st, x)) for x in v[3])
        end = st.facts.get((self.BLK, (self.fend,)))
        i = next(iter(end[1])) if end and end[0] == "var" and len(end[1]) == 1 else None
        return a == self.fstart and (b == self.fend and i == 1 or b == self.feof and i == 0)


def blocks(r):
    """check_blocks: on every path, each block is entered and everything in its range of sections is evaluated, unless
    it has no start, no sections or an empty range; failures are recorded in the result that is returned."""
    fn = r.fn(r"litcheck_filecheck::check::check_blocks$")
    bi = adt(r, "BlockInfo")
    rng = adt(r, "Range", "litcheck_core")
    m = verdict(r, watch=WATCH, stop=STOP + (r"range::Range(<.*>)?::(len|is_empty)$",))
    m.__class__ = Blocks
    m.fstart, m.fsections, m.fend, m.feof = (fidx(r, bi, x) for x in ("start", "sections", "end", "eof"))
    m.start, m.end = fidx(r, rng, "start"), fidx(r, rng, "end")
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of check_blocks")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        m.close(e, s)
        what = "check_blocks: failed=%s recorded=%s" % (bool(g("occ")), bool(g("rec")))
        r.ob("blocks", what + " evaluated", not g("bad") and not (g("skipped") and not g("occ")), "block|%s" % (g("bad") or "skipped"),
             "%s: %s" % (fn.loc(), g("bad") or "a path skips some of a block's checks"))
        r.ob("blocks", what + " all blocks", bool(g("blocks_done")), "block|early", "%s: a path returns before every block was visited" % fn.loc())
        r.ob("blocks", what, bool(g("occ")) == bool(g("rec")) and not g("unk"), "block|verdict",
             "%s: a failed group is not recorded, or a failure is recorded although nothing failed" % fn.loc())
        r.ob("blocks", what + " returned", v == ("sym", ("testresult",), ()), "block|result",
             "%s: the result that is returned is not the one the failures were recorded in" % fn.loc())


class Discover(Verdict):
    """discover_blocks: SEC is the section the loop is at."""
    SEC = ("section",)
    arg = SEC

    def pinned(self, i):
        return i == self.SEC

    def elements(self, e, st, c, src, ety, site):
        if src[0] != "tokit" and ("arg", 1) in ids_in(e.norm(st, src)) and not get(st.mon, "other"):
            outs = []
            for more in (False, True):
                s = st.copy()
                self.leave(e, s)
                if not more:
                    s.mon = put(s.mon, all=True)
                    outs.append((s, None))
                    continue
                for k in [k for k in s.facts if k[0] == self.SEC or self.SEC in ids_in(k[0])]:
                    del s.facts[k]
                s.mon = put(s.mon, at=True, tried=None, pushed=())
                outs.append((s, ("sym", self.SEC, ())))
            return outs
        return Verdict.elements(self, e, st, c, src, ety, site)

    def oops(self, st, what):
        st.mon = put(st.mon, wrong=(get(st.mon, "wrong") or frozenset()) | {what})

    def leave(self, e, st):
        if not get(st.mon, "at"):
            return
        f = [st.facts.get((self.SEC, p)) for p in ((), ("*",))]
        vs = next((x[1] for x in f if x and x[0] == "var"), None)
        tried, pushed = get(st.mon, "tried"), get(st.mon, "pushed")
        if vs is None or self.block in vs:
            if tried is None:
                self.oops(st, "a CHECK-LABEL section is skipped without searching for its label")
            starts = [p for p in pushed if p[0]]
            if tried == "hit":
                if len(starts) != 1:
                    self.oops(st, "a label that was found does not start exactly one block")
                elif not starts[0][1]:
                    self.oops(st, "the block started by a label does not consist of that label's section")
        st.mon = put(st.mon, at=None, tried=None, pushed=())

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        both = c.name + str(c.trait)
        if last in ("try_match", "try_match_mut") and "Matcher" in both:
            outs = []
            for k in ("err", "none", "hit"):
                s = self.fail(st) if k != "hit" else st.copy()
                s.mon = put(s.mon, tried=k if get(s.mon, "tried") is None else "again")
                ty = ("sym", ("lty", c.blk), ())
                o = NONE if k == "none" else some(("sym", ("linfo", c.blk), ()))
                outs.append((s, err(("sym", ("lerr", c.blk), ())) if k == "err" else
                             ok(("adt", self.mres, 0, (ty, o) if self.tyi == 0 else (o, ty)))))
            return outs
        if last == "first" and c.args and ("arg", 1) in ids_in(e.norm(st, c.args[0])):
            outs = []
            for k in (None, self.block, 1 - self.block):
                s = st.copy()
                s.mon = put(s.mon, first="none" if k is None else "block" if k == self.block else "group")
                if k is None:
                    outs.append((s, NONE))
                    continue
                root = ("L", ("firstsec", k), 0)
                s.env[root] = ("sym", ("first", k), ())
                s.facts[(("first", k), ())] = ("var", frozenset((k,)))
                outs.append((s, some(("ref", root, ()))))
            return outs
        if last in ("count", "position") and c.args and c.args[0][0] in ("iter", "ref"):
            it = e.deref_all(st, c.args[0])
            clo = it[3] if it[0] == "iter" and it[1] == "take_while" and last == "count" else c.args[1] if last == "position" and len(c.args) > 1 else None
            good = clo is not None
            for k in (0, 1) if clo is not None else ():
                s = st.copy()
                root = ("L", ("lead", k), 0)
                s.env[root] = ("sym", ("lead", k), ())
                s.facts[(("lead", k), ())] = ("var", frozenset((k,)))
                a = ("ref", root, ())
                if last == "count":
                    r2 = ("L", ("leadr", k), 0)
                    s.env[r2] = a
                    a = ("ref", r2, ())
                for s2, b in e.call_value(c.fr, c.blk + ("lead", k), c.line, clo, [a], s) or ():
                    w = (k != self.block) == (last == "count")
                    if e.assume(s2, b, not w) is not None:
                        good = False
            s = st.copy()
            if clo is not None and not good:
                self.oops(s, "the groups before the first CHECK-LABEL are delimited by something else than that label")
            n = ("sym", ("nlead",), ())
            return [(s, n if last == "count" else some(n))]
        if last in ("push", "push_back") and c.args[-1][0] == "adt" and c.args[-1][1] == self.bi:
            s = st.copy()
            fs = c.args[-1][3]
            k, start = option_of(e, s, fs[self.fstart])
            k2, secs = option_of(e, s, fs[self.fsections])
            if get(s.mon, "at"):
                idx = e.app("index", ("sym", self.SEC, ()))
                own = k2 == "some" and secs[0] == "adt" and len(secs[3]) == 2 and e.norm(s, secs[3][self.start]) == idx and \
                    e.norm(s, secs[3][self.end]) == e.norm(s, e.binop(s, "Add", idx, ("int", 1)))
                s.mon = put(s.mon, pushed=get(s.mon, "pushed") + ((k == "some", own),))
            else:
                if not (k == "some" and e.norm(s, start) == ("int", 0)):
                    self.oops(s, "the block before the first CHECK-LABEL does not start at the start of the input")
                if not (k2 == "some" and secs[0] == "adt" and e.norm(s, secs[3][self.start]) == ("int", 0)):
                    self.oops(s, "the block before the first CHECK-LABEL does not start with the first section")
                n = e.norm(s, secs[3][self.end]) if k2 == "some" and secs[0] == "adt" else None
                if n is not None and n[0] == "int":
                    self.oops(s, "the block before the first CHECK-LABEL covers a fixed number of sections")
                s.mon = put(s.mon, implicit=True)
            t, loc = self.base(e, s, c.args[0])
            if t is not None and loc:
                e.set(s, loc, tok("X", True))
            return [(s, UNIT)]
        if c.name.endswith("TestFailed::new"):
            t, _ = self.base(e, st, c.args[0])
            s = st.copy()
            s.mon = put(s.mon, failed=t[2] if t is not None else None)
            return [(s, ("sym", ("testfailed",), ()))]
        return Verdict.before_call(self, e, st, c)


def discover(r):
    """discover_blocks: every label is searched for, a label that is not found fails the run, and every group of checks
    belongs to a block."""
    fn = r.fn(r"litcheck_filecheck::check::discover_blocks$")
    m = verdict(r, watch=WATCH + (r"Matcher.*try_match$",), stop=STOP)
    m.__class__ = Discover
    m.block = vidx(r, adt(r, "CheckSection"), "Block")
    m.bi = adt(r, "BlockInfo")
    rng = adt(r, "Range", "litcheck_core")
    m.start, m.end = fidx(r, rng, "start"), fidx(r, rng, "end")
    m.fstart, m.fsections = fidx(r, m.bi, "start"), fidx(r, m.bi, "sections")
    e, outs = analyse(r, fn, m)
    r.need(outs, "paths of discover_blocks")
    for s, v in outs:
        g = lambda k: get(s.mon, k)  # noqa: E731
        k, pay = result_of(e, s, v)
        what = "discover_blocks: missing label=%s returned=%s" % (bool(g("occ")), k)
        r.ob("labels", what, k in ("ok", "err") and (k == "err") == bool(g("occ")), "label|verdict|%s" % bool(g("occ")),
             "%s: %s" % (fn.loc(), "a label that is not found does not fail the run" if g("occ") else "the run fails although every label was found"))
        if k == "err":
            r.ob("labels", what + " errors", g("failed") is True, "label|empty-failure",
                 "%s: the failure that is returned for a missing label contains no error, so that it counts as a success" % fn.loc())
        if k == "ok":
            r.ob("labels", what + " all sections", bool(g("all")), "label|early", "%s: a path returns before every section was visited" % fn.loc())
            r.ob("labels", what + " leading checks", g("first") != "group" or bool(g("implicit")), "label|leading",
                 "%s: checks before the first CHECK-LABEL do not belong to any block" % fn.loc())
            for w in sorted(g("wrong") or ()):
                r.ob("labels", what + " " + w, False, "label|" + w, "%s: %s" % (fn.loc(), w))
