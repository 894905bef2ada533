"""Helpers shared by the rules: focused inlining, event monitors, outcome inspection."""
import re
from absint import Engine, Monitor, State, TRUE, FALSE, TOP, UNIT, sym, ids_in, Budget  # noqa: F401
from models import OPT, RES, some, NONE, ok, err, strip  # noqa: F401


class Mon(Monitor):
    """Monitor with focused inlining: a local function is analysed in context when it can reach one of the
    watched calls (through the resolved call graph), when it is named in `force`, or when it and everything
    it calls is small; all others are opaque."""
    watch = ()           # regexes of callee names the rule watches
    force = ()
    stop = ()
    small = 45

    def __init__(self, p, **kw):
        self.p = p
        for k, v in kw.items():
            setattr(self, k, v)
        self._w = [re.compile(x) for x in self.watch]
        self._f = [re.compile(x) for x in self.force]
        self._s = [re.compile(x) for x in self.stop]
        self._dec = {}
        self._reach = None

    def relevant(self):
        if self._reach is None:
            p = self.p
            p.call_graph()
            seeds = set()
            for n, f in p.fns.items():
                if f.ext:
                    continue
                if any(r.search(n) for r in self._w):
                    seeds.add(n)
                for bi, ln, c in p.fn_refs(f):
                    nm = c.get("r") or c["p"]
                    if any(r.search(nm) or r.search(c["p"]) for r in self._w):
                        seeds.add(n)
            work = list(seeds)
            while work:
                x = work.pop()
                for y in p.callers(x):
                    if y not in seeds and not p.fns[y].ext:
                        seeds.add(y)
                        work.append(y)
            self._reach = seeds
        return self._reach

    def size(self, n, lim, seen):
        """Blocks of n and everything local it can call, or > lim."""
        if n in seen:
            return 0
        seen.add(n)
        f = self.p.fns[n]
        t = len(f.blocks)
        if t > lim:
            return lim + 1
        for m in self.p.succ.get(n, ()):
            g = self.p.fns[m]
            if g.ext:
                continue
            t += self.size(m, lim, seen)
            if t > lim:
                return lim + 1
        return t

    def inline(self, eng, fn):
        if fn.ext:
            return None
        d = self._dec.get(fn.name)
        if d is None:
            n = fn.name
            if any(r.search(n) for r in self._s):
                d = False
            elif any(r.search(n) for r in self._f):
                d = True
            elif n in self.relevant():
                d = True
            else:
                d = self.size(n, self.small, set()) <= self.small
            self._dec[n] = d
        return d


def analyse(r, fn, mon, args=None, st=None):
    """Run and record coverage on report r; returns (engine, outcomes)."""
    e = Engine(r.p, mon)
    outs = e.analyse(fn, args, st)
    r.cover(e)
    return e, outs


def adt(r, last, prefer=None):
    c = r.p.adt_named(last)
    if prefer:
        c = [x for x in c if re.search(prefer, x)] or c
    if len(c) != 1:
        from rules import Anchor
        raise Anchor("expected one type named %s, found %s" % (last, c))
    return c[0]


def vname(p, a, i):
    return p.adts[a]["v"][i]["n"]


def vidx(r, a, name):
    for i, v in enumerate(r.p.adts[a]["v"]):
        if v["n"] == name:
            return i
    from rules import Anchor
    raise Anchor("no variant %s in %s" % (name, a))


def fidx(r, a, field, v=0):
    for i, f in enumerate(r.p.adts[a]["v"][v]["f"]):
        n = f["n"] if isinstance(f, dict) else f
        if n == field:
            return i
    from rules import Anchor
    raise Anchor("no field %s in %s" % (field, a))


def result_of(e, s, v):
    """('ok'|'err'|'?', payload) of a Result value in state s."""
    v0 = v
    if v[0] == "adt" and v[1] == RES:
        return ("ok" if v[2] == 0 else "err"), v[3][0]
    vs = e.variants(s, v, RES)
    if len(vs) == 1:
        i = next(iter(vs))
        return ("ok" if i == 0 else "err"), e.proj(e.proj(v, ("d", i)), 0)
    return "?", v0


def option_of(e, s, v):
    if v[0] == "adt" and v[1] == OPT:
        return ("some", v[3][0]) if v[2] == 1 else ("none", None)
    vs = e.variants(s, v, OPT)
    if len(vs) == 1:
        i = next(iter(vs))
        return ("some", e.proj(e.proj(v, ("d", 1)), 0)) if i else ("none", None)
    return "?", v


def collection(v):
    """The collection whose elements v (an iterator, slice or view of it) stands for, all of them in order."""
    from models import strip
    for _ in range(12):
        w = strip(v)
        if w[0] == "iter" and w[1] in ("iter", "into_iter", "same", "cloned", "copied", "fuse", "peekable", "by_ref"):
            w = w[2]
        elif w[0] == "sym" and not w[2] and isinstance(w[1], tuple) and w[1][0] == "app" and len(w[1]) == 3 and \
                re.search(r"(^|::)(iter|iter_mut|into_iter|cloned|copied|as_slice|as_mut_slice|deref_mut|as_mut|fuse|by_ref|to_vec|clone|into_boxed_slice|into_vec)$", str(w[1][1])):
            w = w[1][2]
        if w == v:
            return w
        v = w
    return v


class Vecs:
    """Vectors as explicit arrays of values, for monitors that make their own: vec_call is tried on calls nothing else handles."""

    def vec_of(self, e, st, v):
        loc = None
        while v[0] == "ref":
            loc = (v[1], v[2])
            v = e.get(st, loc)
        return (v, loc) if v[0] == "arr" else (None, None)

    def fork_lt(self, e, st, a, b):
        """[(state, whether a < b)]"""
        outs = []
        if a[0] == b[0] == "int":
            return [(st, a[1] < b[1])]
        if b == ("int", 0) or a == ("int", (1 << 64) - 1) or a == b:
            return [(st, False)]
        for t in (True, False):
            s = e.assume(st, e.app("Lt", a, b), t)
            for s2 in ([s] if isinstance(s, State) else s or []):
                outs.append((s2, t))
        return outs

    def drain(self, e, st, c, v):
        """[(state, [elements])] of an iterator over a known array."""
        from models import iter_step
        outs, work = [], [(st, v, ())]
        while work:
            s, it, got = work.pop()
            for s2, ni, x in iter_step(e, s, c, it, ("dr",)):
                if x is None:
                    outs.append((s2, got))
                else:
                    work.append((s2, ni, got + (x,)))
        return outs

    def inside(self, e, st, c, x):
        """[(state, elements)] of something that can be turned into an iterator: a known list, a known option, or another iterator."""
        from models import exact
        v = e.deref_all(st, x)
        if v[0] == "iter" and exact(v):
            return self.drain(e, st, c, v)
        if v[0] == "adt" and v[1] == OPT:
            els, path = len(v[3]), lambda i: (("d", 1), 0)
        else:
            a, loc = self.vec_of(e, st, x)
            if a is None:
                return None
            v, els, path = a, len(a[1]), lambda i: (("ci", i, False),)
        if x[0] != "ref":
            return [(st, v[3] if v[0] == "adt" else v[1])]
        loc = (x[1], x[2]) if v[0] == "adt" else loc
        if v[0] == "adt":
            while e.get(st, loc)[0] == "ref":
                y = e.get(st, loc)
                loc = (y[1], y[2])
        if loc is None:
            return None
        return [(st, tuple(("ref", loc[0], loc[1] + path(i)) for i in range(els)))]

    def boxed_array(self, e, st, a):
        def walk(x, n):
            if not isinstance(x, tuple) or n > 8:
                return None
            if x and x[0] == "arr":
                return x[1]
            for y in x:
                r = walk(y, n + 1)
                if r is not None:
                    return r
            return None
        return walk(e.deref_all(st, a), 0)

    def ordered(self, e, st, c, site, x, y, f, by_key):
        """[(state, x comes before y)] with f the order, or the key to be ordered by."""
        s = st.copy()
        refs = []
        for k, z in enumerate((x, y)):
            root = ("L", ("cmp", c.fr.id, c.blk, site, k), 0)
            s.env[root] = z
            refs.append(("ref", root, ()))
        outs = []
        if by_key:
            for s2, a in e.call_value(c.fr, c.blk + ("key", site, 0), c.line, f, [refs[0]], s) or ():
                for s3, b in e.call_value(c.fr, c.blk + ("key", site, 1), c.line, f, [refs[1]], s2) or ():
                    outs += self.fork_lt(e, s3, e.norm(s3, e.deref_all(s3, a)), e.norm(s3, e.deref_all(s3, b)))
            return outs
        for s2, o in e.call_value(c.fr, c.blk + ("cmp", site), c.line, f, refs, s) or ():
            for k in e.variants(s2, o, "core::cmp::Ordering"):
                s3 = s2 if o[0] == "adt" else e.assume_var(s2, e.term(o), frozenset((k,)), "core::cmp::Ordering")
                if s3 is not None:
                    outs.append((s3, k == 0))
        return outs

    def item(self, v, loc, i):
        if isinstance(loc[0][1], tuple) and loc[0][1][:1] == ("subslice",):
            return v[1][i]
        return ("ref", loc[0], loc[1] + (("ci", i, False),))

    def vec_call(self, e, st, c, last):
        from models import exact
        nm = c.name + " " + str(c.trait)
        if re.search(r"(Vec|SmallVec|VecDeque)(<.*>)?::(new|with_capacity|new_const)( |$)|Vec(<.*>)? as core::default::Default>::default", nm) and len(c.args) < 2:
            return [(st, ("arr", ()))]
        if last == "new_uninit" and "Box" in nm:
            root = ("L", ("heap", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = ("sym", ("uninit", c.fr.fn.name, c.blk), ())
            return [(s, ("ref", root, ()))]
        if last == "box_assume_init_into_vec_unsafe":
            els = self.boxed_array(e, st, c.args[0])
            return None if els is None else [(st, ("arr", els))]
        if not c.args:
            return None
        if last in ("max", "min") and "cmp" in nm and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            if a[0] == b[0] == "int":
                return [(st, (max if last == "max" else min)(a, b))]
            return [(s, (b if t else a) if last == "max" else (a if t else b)) for s, t in self.fork_lt(e, st, a, b)]
        it = e.deref_all(st, c.args[0])
        if it[0] == "iter" and exact(it) and last in ("max", "min", "max_by_key", "min_by_key", "fold", "last", "count", "reduce", "sum"):
            outs = []
            for s, xs in self.drain(e, st, c, it):
                if last == "count":
                    outs.append((s, ("int", len(xs))))
                elif last == "sum":
                    ns = [e.norm(s, e.deref_all(s, x)) for x in xs]
                    if any(x[0] != "int" for x in ns):
                        return None
                    outs.append((s, ("int", sum(x[1] for x in ns))))
                elif last == "last":
                    outs.append((s, some(xs[-1]) if xs else NONE))
                elif last in ("fold", "reduce"):
                    if last == "reduce" and not xs:
                        outs.append((s, NONE))
                        continue
                    accs = [(s, c.args[1] if last == "fold" else xs[0])]
                    for x in xs if last == "fold" else xs[1:]:
                        accs = [y for s2, acc in accs for y in e.call_value(c.fr, c.blk + ("fold",), c.line, c.args[-1], [acc, x], s2) or ()]
                    outs += [(s2, acc if last == "fold" else some(acc)) for s2, acc in accs]
                else:
                    big = last.startswith("max")
                    if not xs:
                        outs.append((s, NONE))
                        continue
                    keyed = [(s, None, None)]
                    for x in xs:
                        nxt = []
                        for s2, best, bk in keyed:
                            ks = [(s2, e.norm(s2, e.deref_all(s2, x)))]
                            if last.endswith("key"):
                                root = ("L", ("itm", c.fr.id, c.blk, "key"), 0)
                                s2 = s2.copy()
                                s2.env[root] = x
                                ks = [(s3, e.norm(s3, e.deref_all(s3, y))) for s3, y in e.call_value(c.fr, c.blk + ("key",), c.line, c.args[1], [("ref", root, ())], s2) or ()]
                            for s3, k in ks:
                                if best is None:
                                    nxt.append((s3, x, k))
                                else:
                                    # max keeps the later one of equals, min the earlier one
                                    for s4, t in self.fork_lt(e, s3, k, bk):
                                        take = not t if big else t
                                        nxt.append((s4, x if take else best, k if take else bk))
                        keyed = nxt
                    outs += [(s2, some(b)) for s2, b, k in keyed]
            return outs
        if last in ("flatten", "chain") and it[0] == "iter" and exact(it) and "Iterator" in nm:
            outs = []
            for s, xs in self.drain(e, st, c, it):
                rest = [(s, (c.args[1],))] if last == "chain" else [(s, xs)]
                got = xs if last == "chain" else ()
                work = [(s, got)]
                for x in rest[0][1]:
                    nxt = []
                    for s2, acc in work:
                        v = self.inside(e, s2, c, x)
                        if v is None:
                            return None
                        nxt += [(s3, acc + ys) for s3, ys in v]
                    work = nxt
                outs += [(s2, ("iter", "arr", ("arr", acc), ("int", 0))) for s2, acc in work]
            return outs
        if last == "is_multiple_of" and len(c.args) == 2:
            a, b = (e.norm(st, e.deref_all(st, x)) for x in c.args)
            return [(st, TRUE if b[1] and a[1] % b[1] == 0 or a[1] == b[1] == 0 else FALSE)] if a[0] == b[0] == "int" else None
        if last == "from_elem" and re.search("vec::from_elem|SmallVec(<.*>)?::from_elem", nm):
            n = e.norm(st, e.deref_all(st, c.args[1]))
            return [(st, ("arr", (c.args[0],) * n[1]))] if n[0] == "int" and n[1] < 100 else None
        if last == "zip" and len(c.args) == 2 and it[0] == "iter" and exact(it):
            other = e.deref_all(st, c.args[1])
            if not (other[0] == "iter" and exact(other)):
                w, wl = self.vec_of(e, st, c.args[1])
                if w is None:
                    return None
                other = ("iter", "arr", ("arr", tuple(("ref", wl[0], wl[1] + (("ci", i, False),)) for i in range(len(w[1])))) if wl and c.args[1][0] == "ref" else w, ("int", 0))
            return [(s2, ("iter", "arr", ("arr", tuple(("tup", (x, y)) for x, y in zip(xs, ys))), ("int", 0)))
                    for s, xs in self.drain(e, st, c, it) for s2, ys in self.drain(e, s, c, other)]
        v, loc = self.vec_of(e, st, c.args[0])
        if v is None:
            return None
        n = len(v[1])
        if last in ("is_empty", "len"):
            return [(st, ("int", n) if last == "len" else TRUE if not n else FALSE)]
        if loc and last in ("push", "push_back", "append", "extend", "clear", "pop", "pop_back", "pop_front", "push_front", "remove", "swap_remove", "insert", "reverse", "truncate"):
            s = st.copy()
            els, ret = v[1], UNIT
            if last in ("push", "push_back"):
                els += (c.args[1],)
            elif last == "append":
                w, wl = self.vec_of(e, st, c.args[1])
                if w is None:
                    return None
                els += w[1]
                if wl:
                    e.set(s, wl, ("arr", ()))
            elif last == "extend":
                w = e.deref_all(st, c.args[1])
                if w[0] == "arr":
                    els += w[1]
                elif w[0] == "adt" and w[1] == OPT:
                    els += w[3]
                elif w[0] == "iter" and exact(w):
                    outs = []
                    for s2, xs in self.drain(e, s, c, w):
                        s2 = s2.copy()
                        e.set(s2, loc, ("arr", els + xs))
                        outs.append((s2, UNIT))
                    return outs
                else:
                    return None
            elif last == "clear":
                els = ()
            elif last in ("pop", "pop_back"):
                els, ret = els[:-1], (some(els[-1]) if els else NONE)
            elif last == "pop_front":
                els, ret = els[1:], (some(els[0]) if els else NONE)
            elif last == "push_front":
                els = (c.args[1],) + els
            elif last in ("remove", "swap_remove"):
                i = e.norm(st, c.args[1])
                if i[0] != "int":
                    return None
                if i[1] >= n:
                    return [(st, NONE)] if "VecDeque" in nm else []
                ret = els[i[1]] if "VecDeque" not in nm else some(els[i[1]])
                els = els[:i[1]] + (els[i[1] + 1:] if last == "remove" else (els[-1:] + els[i[1] + 1:-1] if i[1] < n - 1 else ()))
            elif last == "insert":
                i = e.norm(st, c.args[1])
                if i[0] != "int":
                    return None
                els = els[:i[1]] + (c.args[2],) + els[i[1]:]
            elif last == "reverse":
                els = els[::-1]
            else:
                i = e.norm(st, c.args[1])
                if i[0] != "int":
                    return None
                els = els[:i[1]]
            e.set(s, loc, ("arr", els))
            return [(s, ret)]
        if loc and last in ("resize_with", "resize", "fill", "fill_with"):
            k = e.norm(st, e.deref_all(st, c.args[1])) if last.startswith("resize") else ("int", n)
            if k[0] != "int" or k[1] > 100:
                return None
            outs = [(st.copy(), v[1][:k[1]] if last.startswith("resize") else ())]
            for i in range(max(0, k[1] - len(outs[0][1]))):
                outs = [(s2, els + (x,)) for s, els in outs
                        for s2, x in (e.call_value(c.fr, c.blk + ("fill", i), c.line, c.args[-1], [], s) or () if last.endswith("with") else [(s, c.args[-1])])]
            done = []
            for s, els in outs:
                s = s.copy()
                e.set(s, loc, ("arr", els))
                done.append((s, UNIT))
            return done
        if loc and last in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key") and n < 8:
            outs = []
            # insertion: what is not before what is there already goes behind it
            work = [(st, ((v[1][0],) if n else ()), 1, None)]
            while work:
                s, done, i, j = work.pop()
                if i >= n:
                    s = s.copy()
                    e.set(s, loc, ("arr", done))
                    outs.append((s, UNIT))
                    continue
                j = len(done) if j is None else j
                if j == 0:
                    work.append((s, (v[1][i],) + done, i + 1, None))
                    continue
                for s2, less in self.ordered(e, s, c, (i, j), v[1][i], done[j - 1], c.args[-1], last.endswith("key")):
                    if less is None:
                        return None
                    work.append((s2, done, i, j - 1) if less else (s2, done[:j] + (v[1][i],) + done[j:], i + 1, None))
            return outs
        if loc and last in ("binary_search_by", "binary_search_by_key", "partition_point"):
            # in a sorted vector, the place of the first element that is not less
            outs, work = [], [(st, 0)]
            while work:
                s, i = work.pop()
                if i == n:
                    outs.append((s, ("int", n) if last == "partition_point" else ("adt", RES, 1, (("int", n),))))
                    continue
                if last == "binary_search_by_key":
                    return None
                for s2, o in e.call_value(c.fr, c.blk + ("bs", i), c.line, c.args[-1], [self.item(v, loc, i)], s) or ():
                    if last == "partition_point":
                        for t in (True, False):
                            s3 = e.assume(s2, o, t)
                            if s3 is not None:
                                (work if t else outs).append((s3, i + 1 if t else ("int", i)))
                        continue
                    for k in e.variants(s2, o, "core::cmp::Ordering"):
                        s3 = s2 if o[0] == "adt" else e.assume_var(s2, e.term(o), frozenset((k,)), "core::cmp::Ordering")
                        if s3 is None:
                            continue
                        if k == 0:
                            work.append((s3, i + 1))
                        else:
                            outs.append((s3, ("adt", RES, k - 1, (("int", i),))))
            return outs
        if loc and last == "make_contiguous":
            return [(st, ("ref", loc[0], loc[1]))]
        if last in ("first", "last", "first_mut", "last_mut") and loc:
            return [(st, some(self.item(v, loc, 0 if last.startswith("first") else n - 1)) if n else NONE)]
        if last in ("split_first", "split_last") and loc:
            if not n:
                return [(st, NONE)]
            root = ("L", ("subslice", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = ("arr", tuple(self.item(v, loc, k) for k in (range(1, n) if last == "split_first" else range(n - 1))))
            return [(s, some(("tup", (self.item(v, loc, 0 if last == "split_first" else n - 1), ("ref", root, ())))))]
        if last in ("get", "index", "get_mut", "index_mut") and loc and len(c.args) > 1:
            i = e.norm(st, c.args[1])
            if i[0] == "int":
                if i[1] < n:
                    x = self.item(v, loc, i[1])
                    return [(st, some(x) if last.startswith("get") else x)]
                return [(st, NONE)] if last.startswith("get") else []
            w = e.deref_all(st, c.args[1])
            lo, hi = 0, n
            if w[0] != "adt" or not re.search(r"Range(From|To|Full)?$", w[1]):
                return None
            bs = [e.norm(st, e.deref_all(st, x)) for x in w[3]]
            if any(b[0] != "int" for b in bs):
                return None
            if w[1].endswith("RangeFrom"):
                lo = bs[0][1]
            elif w[1].endswith("RangeTo"):
                hi = bs[0][1]
            elif not w[1].endswith("RangeFull"):
                lo, hi = bs[0][1], bs[1][1]
            if lo > hi or hi > n:
                return [(st, NONE)] if last.startswith("get") else []
            root = ("L", ("subslice", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = ("arr", tuple(self.item(v, loc, k) for k in range(lo, hi)))
            x = ("ref", root, ())
            return [(s, some(x) if last.startswith("get") else x)]
        if last in ("iter", "iter_mut", "drain") and loc:
            if last == "drain":
                s = st.copy()
                e.set(s, loc, ("arr", ()))
                return [(s, ("iter", "arr", v, ("int", 0)))]
            return [(st, ("iter", "arr", ("arr", tuple(self.item(v, loc, i) for i in range(n))), ("int", 0)))]
        if last == "into_iter" and loc and isinstance(loc[0][1], tuple) and loc[0][1][:1] == ("subslice",):
            return [(st, ("iter", "arr", v, ("int", 0)))]
        if last in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "as_mut", "borrow") and loc:
            return [(st, ("ref", loc[0], loc[1]))]
        if last in ("into_boxed_slice", "into_vec", "to_vec", "clone", "into", "from", "from_iter", "collect") and len(c.args) == 1:
            return [(st, v)]
        return None


class Maps:
    """Ordered maps as explicit lists of entries, for monitors that make their own: map_call is tried on calls nothing else handles.
    key_of gives the identity of a key."""
    MAP = r"(OrdMap|BTreeMap|HashMap|IndexMap|FxHashMap|FxIndexMap)\b"

    def new_map(self, pairs=()):
        return ("adt", "map", 0, (("arr", tuple(("tup", (k, v)) for k, v in pairs)),))

    def key_of(self, e, st, k):
        return e.norm(st, e.deref_all(st, k))

    def entries(self, m):
        return [x[1] for x in m[3][0][1]]

    def put_entry(self, e, st, ents, k, v):
        """The entries with k bound to v, and the value k had."""
        kk, old, out = self.key_of(e, st, k), None, []
        for a, b in ents:
            if self.key_of(e, st, a) == kk:
                old = b
                out.append((a, v))
            else:
                out.append((a, b))
        if old is None:
            out.append((k, v))
        # entries are kept in the order of their keys, so equal maps are equal values
        return sorted(out, key=lambda p: repr(self.key_of(e, st, p[0]))), old

    def map_call(self, e, st, c, last):
        from models import exact
        nm = c.name + " " + str(c.trait)
        if re.search(self.MAP, nm) and (last in ("new", "default", "new_in") and len(c.args) == 0):
            return [(st, self.new_map())]
        if re.search(self.MAP, nm) and last == "from_iter" or last == "collect" and c.dt is not None and re.search(self.MAP, repr(c.dt)):
            it = e.deref_all(st, c.args[0])
            if it[0] == "iter" and exact(it):
                outs = []
                for s, xs in self.drain(e, st, c, it):
                    ents = []
                    for x in xs:
                        x = e.deref_all(s, x)
                        if x[0] != "tup":
                            return None
                        ents, _ = self.put_entry(e, s, ents, x[1][0], x[1][1])
                    outs.append((s, self.new_map(ents)))
                return outs
            return None
        if not c.args:
            return None
        v, loc = c.args[0], None
        while v[0] == "ref":
            loc = (v[1], v[2])
            v = e.get(st, loc)
        if re.search(r"core::mem::(take|replace|swap)$", nm.split(" ")[0]) and loc:
            return self.mem_call(e, st, c, last, v, loc)
        if v[0] != "adt" or v[1] != "map":
            return None
        ents = self.entries(v)
        if last in ("len", "is_empty"):
            return [(st, ("int", len(ents)) if last == "len" else FALSE if ents else TRUE)]
        if last in ("get", "contains_key", "get_key_value", "index"):
            kk = self.key_of(e, st, c.args[1])
            hit = [b for a, b in ents if self.key_of(e, st, a) == kk]
            if last == "contains_key":
                return [(st, TRUE if hit else FALSE)]
            if not hit:
                return [(st, NONE)] if last == "get" else []
            root = ("L", ("mapval", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = hit[0]
            return [(s, some(("ref", root, ())) if last == "get" else ("ref", root, ()))]
        if last == "clone":
            return [(st, v)]
        if last in ("union", "union_with_key") and len(c.args) == 2:
            w = e.deref_all(st, c.args[1])
            if w[0] != "adt" or w[1] != "map":
                return None
            out = list(self.entries(w))
            for a, b in ents:
                out, _ = self.put_entry(e, st, out, a, b)
            return [(st, self.new_map(out))]
        if last in ("update", "without") and loc is None or last in ("update", "without"):
            if last == "update":
                out, _ = self.put_entry(e, st, ents, c.args[1], c.args[2])
            else:
                kk = self.key_of(e, st, c.args[1])
                out = [(a, b) for a, b in ents if self.key_of(e, st, a) != kk]
            return [(st, self.new_map(out))]
        if last in ("iter", "into_iter", "keys", "values", "drain"):
            s = st
            if last == "into_iter" and loc is None or last == "drain":
                xs = [("tup", (a, b)) for a, b in ents]
                if last == "drain":
                    s = st.copy()
                    e.set(s, loc, self.new_map())
            else:
                s = st.copy()
                xs = []
                for i, (a, b) in enumerate(ents):
                    ra, rb = (("L", ("mapit", w, c.fr.id, c.blk, i), 0) for w in "kv")
                    s.env[ra], s.env[rb] = a, b
                    ra, rb = ("ref", ra, ()), ("ref", rb, ())
                    xs.append(("tup", (ra, rb)) if last in ("iter", "into_iter") else ra if last == "keys" else rb)
            return [(s, ("iter", "arr", ("arr", tuple(xs)), ("int", 0)))]
        if loc is None:
            return None
        s = st.copy()
        if last == "insert":
            out, old = self.put_entry(e, s, ents, c.args[1], c.args[2])
            e.set(s, loc, self.new_map(out))
            return [(s, NONE if old is None else some(old))]
        if last == "remove":
            kk = self.key_of(e, s, c.args[1])
            hit = [b for a, b in ents if self.key_of(e, s, a) == kk]
            e.set(s, loc, self.new_map([(a, b) for a, b in ents if self.key_of(e, s, a) != kk]))
            return [(s, some(hit[0]) if hit else NONE)]
        if last == "clear":
            e.set(s, loc, self.new_map())
            return [(s, UNIT)]
        if last == "extend":
            w = e.deref_all(s, c.args[1])
            if w[0] == "adt" and w[1] == "map":
                prs = [("tup", p) for p in self.entries(w)]
                sts = [(s, prs)]
            elif w[0] == "iter" and exact(w):
                sts = self.drain(e, s, c, w)
            else:
                return None
            outs = []
            for s2, xs in sts:
                out = ents
                for x in xs:
                    x = e.deref_all(s2, x)
                    out, _ = self.put_entry(e, s2, out, x[1][0], x[1][1])
                s2 = s2.copy()
                e.set(s2, loc, self.new_map(out))
                outs.append((s2, UNIT))
            return outs
        return None

    def mem_call(self, e, st, c, last, v, loc):
        if last == "take":
            if v[0] == "adt" and v[1] == "map":
                new = [(st, self.new_map())]
            elif v[0] == "arr":
                new = [(st, ("arr", ()))]
            elif v[0] == "adt" and v[1] == OPT:
                new = [(st, NONE)]
            elif v[0] == "adt" and e.p.impl_method.get(("core::default::Default::default", v[1])) in e.p.fns:
                new = e.run(e.p.fns[e.p.impl_method["core::default::Default::default", v[1]]], [], st, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),))
            else:
                return None
        elif last == "replace":
            new = [(st, c.args[1])]
        else:
            w, wl = c.args[1], None
            while w[0] == "ref":
                wl = (w[1], w[2])
                w = e.get(st, wl)
            if wl is None:
                return None
            s = st.copy()
            e.set(s, loc, w)
            e.set(s, wl, v)
            return [(s, UNIT)]
        outs = []
        for s, x in new:
            s = s.copy()
            e.set(s, loc, x)
            outs.append((s, v))
        return outs
