"""Transfer functions for library calls (std, alloc) used by the analysed code."""
import re
from absint import TOP, UNIT, TRUE, FALSE, Budget

OPT = "core::option::Option"
RES = "core::result::Result"
MODELS = []


def model(pat):
    def d(f):
        MODELS.append((re.compile(pat), f))
        return f
    return d


def some(v):
    return ("adt", OPT, 1, (v,))


NONE = ("adt", OPT, 0, ())


def ok(v):
    return ("adt", RES, 0, (v,))


def err(v):
    return ("adt", RES, 1, (v,))


@model(r"^<str as core::cmp::PartialEq|String as core::cmp::PartialEq|^<&?str as core::cmp::PartialEq")
def _streq(e, st, c):
    a, b = e.norm(st, c.args[0]), e.norm(st, c.args[1])
    r = e.eq_values(st, strip(a), strip(b))
    if c.name.endswith("::ne"):
        r = e.neg(r)
    return [(st, r)]


def strip(v):
    """&String / &&str / as_str chains denote the same text."""
    for _ in range(6):
        if v[0] == "at":
            v = v[1]
            continue
        if v[0] == "sym" and v[2] and v[2][-1] == "*":
            v = ("sym", v[1], v[2][:-1])
            continue
        if v[0] == "sym" and not v[2] and isinstance(v[1], tuple) and v[1][0] == "app" and len(v[1]) == 3 and \
                re.search(r"(^|::)(deref|as_str|as_ref|borrow|to_string|to_owned|into_owned|as_deref|into|from|as_bytes)$", str(v[1][1])):
            v = v[1][2]
            continue
        break
    return v


@model(r"^<log::Level(Filter)? as core::cmp::PartialOrd<log::|^log::max_level$|^log::__private_api")
def _log(e, st, c):
    """Whether a log record is emitted is unknown and remembered by nothing."""
    return [(st, TOP)]


@model(r"^core::intrinsics::discriminant_value$")
def _dv(e, st, c):
    v = e.get(st, e.deref(c.args[0]))
    t = c.callee.get("ra") or c.callee.get("a")
    ty = e.subst_ty(t[0], c.fr.subst) if t else None
    if ty is None:
        return None
    return [(st, e.discr_of(st, v, ty))]


@model(r"^core::hint::(must_use|black_box)$|^core::convert::identity$")
def _ident(e, st, c):
    return [(st, c.args[0])]


@model(r"^core::intrinsics::(cold_path|assume|likely|unlikely)$")
def _cold(e, st, c):
    return [(st, c.args[0] if c.args else UNIT)]


@model(r"core::clone::Clone(>)?::clone$")
def _clone(e, st, c):
    a = c.args[0]
    v = e.get(st, e.deref(a))
    if v[0] in ("adt", "int", "str", "fn", "clo", "tup", "ref", "sym", "symo"):
        return [(st, v)]
    return None


@model(r"core::ops::deref::Deref(Mut)?(>)?::deref(_mut)?$")
def _deref(e, st, c):
    a = c.args[0]
    v = e.get(st, e.deref(a))
    if v[0] in ("ref", "str"):
        return [(st, v)]
    if v[0] == "arr":
        return [(st, a)]
    if v[0] == "sym":
        return [(st, ("sym", ("app", "deref", v), ()))]
    return None


@model(r"^alloc::(boxed::Box|rcs::arc::Arc|rcs::rc::Rc|rc::Rc|sync::Arc)::new$")
def _boxnew(e, st, c):
    root = ("L", ("heap", c.fr.id, c.blk), 0)
    st = st.copy()
    st.env[root] = c.args[0]
    return [(st, ("ref", root, ()))]


@model(r"^core::mem::(forget)$")
def _forget(e, st, c):
    return [(st, UNIT)]


@model(r"^core::mem::drop$")
def _mdrop(e, st, c):
    st = st.copy()
    t = c.callee.get("ra") or c.callee.get("a")
    ty = e.subst_ty(t[0], c.fr.subst) if t else None
    if ty is not None:
        e.mon.on_drop(e, st, c.fr, c.args[0], ty, c.line)
    return [(st, UNIT)]


@model(r"^core::mem::discriminant$")
def _mdisc(e, st, c):
    return [(st, e.app("discriminant", e.norm(st, c.args[0])))]


# ------------------------------------------------------------------ iterators
ADAPT = ("map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while", "copied", "cloned", "rev",
         "peekable", "fuse", "by_ref", "into_iter", "iter", "iter_mut", "enumerate")


def elem(e, st, c, src, tag=0):
    return e.fresh(st, ("elem", c.fr.fn.name, c.blk, tag, c.fr.id), [src])


def clo_like(e, st, v):
    v = e.deref_all(st, v)
    return v[0] in ("clo", "fn")


def param_ty(e, st, f, peel):
    f = e.deref_all(st, f)
    if f[0] == "clo" and f[1] in e.p.fns:
        g = e.p.fns[f[1]]
        if g.argc >= 2:
            t = g.locals[2]
            if peel and t[0] == "ref" and t[3]:
                t = t[3][0]
            return t
    return None


def exact(v):
    """Whether the source of an iterator value is a constant array."""
    while v[0] == "iter":
        if v[1] == "arr":
            return True
        v = v[2]
    return False


def iter_next(e, st, c, it, site, ety=None):
    """[(state, None | element)] one step of a (possibly lazily adapted) iterator; `it` is the iterator or a reference to it."""
    v = e.deref_all(st, it)
    if v[0] == "iter":
        loc = None
        if it[0] == "ref":
            while e.get(st, (it[1], it[2]))[0] == "ref":
                it = e.get(st, (it[1], it[2]))
            loc = (it[1], it[2])
        outs = []
        for s, nv, x in iter_step(e, st, c, v, site, ety):
            if nv != v and loc is not None:
                s = s.copy()
                e.set(s, loc, nv)
            outs.append((s, x))
        return outs
    r = e.mon.elements(e, st, c, v, ety, site)
    if r is not None:
        return r
    s0 = st
    s1 = st.copy()
    x = elem(e, s1, c, v, site)
    return [(s0, None), (s1, x)]


def iter_step(e, st, c, v, site, ety=None):
    """[(state, iterator afterwards, None | element)]"""
    kind, src, f = v[1], v[2], v[3]
    outs = []
    if kind == "arr":
        i = f[1]
        if i >= len(src[1]):
            return [(st, v, None)]
        return [(st, ("iter", "arr", src, ("int", i + 1)), src[1][i])]
    ex = exact(v)
    sty = param_ty(e, st, f, kind in ("filter", "take_while", "skip_while", "inspect"))
    if sty is None and kind != "enumerate" and kind != "map":
        sty = ety
    if src[0] == "iter":
        steps = iter_step(e, st, c, src, site + ("s",), sty)
    else:
        steps = [(s, src, x) for s, x in iter_next(e, st, c, src, site + ("s",), sty)]
    for s, ns, x in steps:
        nv = ("iter", kind, ns, f)
        if x is None:
            outs.append((s, nv, None))
            continue
        if kind == "map":
            r = e.call_value(c.fr, site + ("m",), c.line, f, [x], s)
            if r is None:
                s = s.copy()
                outs.append((s, nv, elem(e, s, c, x, site)))
            else:
                outs += [(s2, nv, y) for s2, y in r]
        elif kind == "inspect":
            outs.append((s, nv, x))
        elif kind == "enumerate":
            if ex:
                n = f[1] if f[0] == "int" else 0
                outs.append((s, ("iter", kind, ns, ("int", n + 1)), ("tup", (("int", n), x))))
            else:
                outs.append((s, nv, ("tup", (e.app("index", x), x))))
        elif kind in ("filter", "filter_map", "take_while", "map_while", "skip_while"):
            if kind == "filter" or kind == "take_while" or kind == "skip_while":
                root = ("L", ("itm", c.fr.id, c.blk, site), 0)
                s = s.copy()
                s.env[root] = x
                arg = ("ref", root, ())
            else:
                arg = x
            r = e.call_value(c.fr, site + ("f",), c.line, f, [arg], s)
            if r is None:
                s = s.copy()
                outs.append((s, nv, elem(e, s, c, x, site)))
                continue

            def skipped(s3):
                # skipped element: the iterator goes on (to another element) or ends
                if ex and kind in ("filter", "filter_map", "skip_while"):
                    return iter_step(e, s3, c, nv, site, ety)
                return [(s3, nv, None)]
            for s2, b in r:
                if kind in ("filter", "take_while", "skip_while"):
                    keep = kind != "skip_while"
                    t = e.assume(s2, b, keep)
                    if t is not None:
                        outs.append((t, nv if keep or not ex else ns, x))
                    fl = e.assume(s2, b, not keep)
                    if fl is not None:
                        outs += skipped(fl)
                else:
                    vs = e.variants(s2, b, OPT)
                    if 1 in vs:
                        if b[0] == "adt":
                            outs.append((s2, nv, b[3][0]))
                        else:
                            s3 = e.assume_var(s2, e.term(b), frozenset((1,)), OPT)
                            outs.append((s3, nv, e.proj(e.proj(b, ("d", 1)), 0)))
                    if 0 in vs:
                        outs += skipped(s2)
    return outs


@model(r"^core::iter::traits::iterator::Iterator::(map|filter|filter_map|flat_map|inspect|take_while|map_while|skip_while)$")
def _adapt(e, st, c):
    kind = (c.trait or c.name).rsplit("::", 1)[1]
    if not clo_like(e, st, c.args[1]):
        return None
    if kind == "flat_map":
        f = e.deref_all(st, c.args[1])
        t = e.p.fns[f[1]].locals[0] if f[0] == "clo" and f[1] in e.p.fns else None
        if t is None or t[0] != "adt" or t[2] != OPT:
            return None
        kind = "filter_map"
    return [(st, ("iter", kind, c.args[0], c.args[1]))]


@model(r"core::iter::traits::iterator::Iterator(>)?::enumerate$")
def _enum(e, st, c):
    return [(st, ("iter", "enumerate", c.args[0], UNIT))]


@model(r"^core::iter::traits::iterator::Iterator::(cloned|copied|rev|fuse|by_ref)$|::Iterator>::(cloned|copied|rev)$")
def _same(e, st, c):
    if c.args and c.args[0][0] == "iter":
        v = c.args[0]
        if c.name.endswith("rev") and exact(v):
            return [(st, reverse(v))] if reverse(v) else None
        if v[1] == "arr" and re.search(r"::(copied|cloned)$", c.name):
            v = ("iter", "arr", ("arr", tuple(e.get(st, (x[1], x[2])) if x[0] == "ref" else x for x in v[2][1])), v[3])
        return [(st, v)]
    return None


def reverse(v):
    if v[1] == "arr":
        return ("iter", "arr", ("arr", tuple(reversed(v[2][1][v[3][1]:]))), ("int", 0))
    if v[1] in ("map", "filter", "filter_map", "inspect") and v[2][0] == "iter":
        x = reverse(v[2])
        return x and ("iter", v[1], x, v[3])
    return None


@model(r"Iterator(>)?::(skip|take)$")
def _skip(e, st, c):
    v, n = c.args[0], e.norm(st, c.args[1])
    if v[0] == "iter" and n == ("int", 0) and c.name.endswith("skip"):
        return [(st, v)]
    if v[0] == "iter" and v[1] == "arr" and n[0] == "int":
        els, i = v[2][1], v[3][1]
        return [(st, ("iter", "arr", ("arr", els[i + n[1]:] if c.name.endswith("skip") else els[i:i + n[1]]), ("int", 0)))]
    return None


RANGE = "core::ops::range::Range"
RANGEI = "core::ops::range::RangeInclusive"


@model(r"^core::ops::range::RangeInclusive(<.*>)?::new$")
def _rinew(e, st, c):
    return [(st, ("adt", RANGEI, 0, (c.args[0], c.args[1], FALSE)))]


def range_next(e, st, c, it, v):
    """One step of a range whose bounds are known constants; None when they are not."""
    lo, hi = v[3][0], v[3][1]
    if lo[0] != "int" or hi[0] != "int" or it[0] != "ref":
        return None
    if v[1] == RANGE:
        if lo[1] >= hi[1]:
            return [(st, None)]
        nv = ("adt", RANGE, 0, (("int", lo[1] + 1), hi))
    else:
        if v[3][2] != FALSE or lo[1] > hi[1]:
            return [(st, None)]
        nv = ("adt", RANGEI, 0, (("int", lo[1] + 1), hi, FALSE) if lo[1] < hi[1] else (lo, hi, TRUE))
    st = st.copy()
    e.set(st, (it[1], it[2]), nv)
    return [(st, lo)]


@model(r"core::iter::traits::collect::IntoIterator(>)?::into_iter$")
def _into_iter(e, st, c):
    v = c.args[0]
    if v[0] == "iter" or v[0] == "adt" and v[1] in (RANGE, RANGEI):
        return [(st, v)]
    a = e.deref_all(st, v)
    if a[0] == "arr" and len(a[1]) <= 24:
        if v[0] == "ref":
            if v[1][0] == "K":
                a = ("arr", tuple(("ref", ("K", x), ()) if x[0] != "ref" else x for x in a[1]))
            else:
                loc = (v[1], v[2])
                while e.get(st, loc)[0] == "ref":
                    x = e.get(st, loc)
                    loc = (x[1], x[2])
                a = ("arr", tuple(("ref", loc[0], loc[1] + (("ci", i, False),)) for i in range(len(a[1]))))
        if a is not None:
            return [(st, ("iter", "arr", a, ("int", 0)))]
    return [(st, ("sym", ("app", "iter", e.norm(st, v)), ()))]


@model(r"^(\[T\]|<.*Vec<.*>>|alloc::vec::Vec(<.*>)?)::iter$")
def _slice_iter(e, st, c):
    return _into_iter(e, st, c) if e.deref_all(st, c.args[0])[0] == "arr" and c.args[0][0] == "ref" else None


@model(r"core::iter::traits::iterator::Iterator(>)?::next$")
def _next(e, st, c):
    a = c.args[0]
    v = e.deref_all(st, a)
    if v[0] == "adt" and c.name in e.p.fns and not e.p.fns[c.name].ext:
        return None
    if v[0] == "adt" and v[1] in (RANGE, RANGEI):
        while a[0] == "ref" and e.get(st, (a[1], a[2]))[0] == "ref":
            a = e.get(st, (a[1], a[2]))
        r = range_next(e, st, c, a, v)
        if r is not None:
            return [(s, NONE if x is None else some(x)) for s, x in r]
    if c.name in e.p.fns and not e.p.fns[c.name].ext:
        return None
    outs = []
    ety = c.dt[3][0] if c.dt is not None and c.dt[0] == "adt" and c.dt[2] == OPT and c.dt[3] else None
    for s, x in iter_next(e, st, c, a, ("n",), ety):
        outs.append((s, NONE if x is None else some(x)))
    return outs


def loop_states(e, st, c, it, body, maxit=60, ety=None):
    """Fixpoint of `for x in it { body }`; body(state, x) -> [(state, stop, value)].
    Returns (states after exhaustion, [(state, value)] of early exits)."""
    done, stops = {}, {}
    root = None
    if it[0] == "iter" and exact(it):
        root = ("L", ("loopit", c.fr.id, c.blk), 0)
        st = st.copy()
        st.env[root] = it
        it = ("ref", root, ())
    frontier = [st]
    seen = {st.key()}
    n = 0
    while frontier and n < maxit:
        n += 1
        nxt = []
        for s in frontier:
            for s2, x in iter_next(e, s, c, it, ("l",), ety):
                if x is None:
                    done[s2.key()] = s2
                    continue
                for s3, stop, val in body(s2, x):
                    if stop:
                        stops[(s3.key(), val)] = (s3, val)
                    else:
                        e.gc_facts(s3)
                        k = s3.key()
                        if k not in seen:
                            seen.add(k)
                            nxt.append(s3)
        frontier = nxt
    if frontier:
        raise Budget("iterator loop in %s did not converge" % c.fr.fn.name)
    if root:
        for s in list(done.values()) + [x[0] for x in stops.values()]:
            s.env.pop(root, None)
    return list(done.values()), list(stops.values())


@model(r"::(any|all)$")
def _any(e, st, c):
    if "Iterator" not in c.name and "Iterator" not in (c.trait or ""):
        return None
    if len(c.args) < 2 or not clo_like(e, st, c.args[1]):
        return None
    want = c.name.endswith("any")

    def body(s, x):
        r = e.call_value(c.fr, c.blk + ("p",), c.line, c.args[1], [x], s)
        if r is None:
            s = s.copy()
            b = e.fresh(s, ("pred", c.fr.fn.name, c.blk, c.fr.id), [x])
            r = [(s, b)]
        out = []
        for s2, b in r:
            t = e.assume(s2, b, want)
            if t is not None:
                out.append((t, True, TRUE if want else FALSE))
            f = e.assume(s2, b, not want)
            if f is not None:
                out.append((f, False, None))
        return out
    done, stops = loop_states(e, st, c, c.args[0], body, ety=param_ty(e, st, c.args[1], False))
    return [(s, FALSE if want else TRUE) for s in done] + stops


def cursor_of(e, st, it):
    """How many elements of a constant array an unadapted iterator over it has yielded."""
    v = e.deref_all(st, it)
    return v[3][1] if v[0] == "iter" and v[1] == "arr" else None


@model(r"Iterator(>)?::(find|find_map|position|rfind|rposition)$")
def _find(e, st, c):
    if len(c.args) < 2 or not clo_like(e, st, c.args[1]):
        return None
    kind = c.name.rsplit("::", 1)[1]
    src, at = c.args[0], None
    if kind.startswith("r"):
        v = e.deref_all(st, src)
        if v[0] != "iter" or not exact(v) or not reverse(v):
            return None
        src, kind = reverse(v), kind[1:]
        if kind == "position" and src[1] != "arr":
            return None
        at = len(src[2][1]) if kind == "position" else None
    if kind == "position" and exact(e.deref_all(st, src)):
        if cursor_of(e, st, src) is None:
            return None
        seen = [(st, e.deref_all(st, src))]
        out = []
        n = 0
        while seen:
            nxt = []
            for s, it in seen:
                for s2, ni, x in iter_step(e, s, c, it, ("p",)):
                    if x is None:
                        out.append((s2, NONE))
                        continue
                    r = e.call_value(c.fr, c.blk + ("p",), c.line, c.args[1], [x], s2)
                    if r is None:
                        return None
                    for s3, b in r:
                        t, f = e.assume(s3, b, True), e.assume(s3, b, False)
                        if t is not None:
                            out.append((t, some(("int", n if at is None else at - 1 - n))))
                        if f is not None:
                            nxt.append((f, ni))
            seen = nxt
            n += 1
        return out

    def body(s, x):
        arg = x
        if kind == "find":
            root = ("L", ("itm", c.fr.id, c.blk, "find"), 0)
            s = s.copy()
            s.env[root] = x
            arg = ("ref", root, ())
        r = e.call_value(c.fr, c.blk + ("p",), c.line, c.args[1], [arg], s)
        if r is None:
            return [(s, True, some(x)), (s, False, None)]
        out = []
        for s2, b in r:
            if kind == "find_map":
                vs = e.variants(s2, b, OPT)
                if 1 in vs:
                    s3 = s2 if b[0] == "adt" else e.assume_var(s2, e.term(b), frozenset((1,)), OPT)
                    out.append((s3, True, b))
                if 0 in vs:
                    out.append((s2, False, None))
                continue
            t = e.assume(s2, b, True)
            if t is not None:
                out.append((t, True, some(x) if kind == "find" else some(e.app("index", x))))
            f = e.assume(s2, b, False)
            if f is not None:
                out.append((f, False, None))
        return out
    done, stops = loop_states(e, st, c, src, body, ety=param_ty(e, st, c.args[1], kind == "find"))
    return [(s, NONE) for s in done] + stops


@model(r"Iterator(>)?::for_each$")
def _foreach(e, st, c):
    if not clo_like(e, st, c.args[1]):
        return None

    def body(s, x):
        r = e.call_value(c.fr, c.blk + ("p",), c.line, c.args[1], [x], s)
        if r is None:
            return [(s, False, None)]
        return [(s2, False, None) for s2, _ in r]
    done, stops = loop_states(e, st, c, c.args[0], body, ety=param_ty(e, st, c.args[1], False))
    return [(s, UNIT) for s in done]


@model(r"Iterator(>)?::(collect|count|sum|product|last|max|min|max_by|min_by|max_by_key|min_by_key|partition|unzip|extend|nth|fold)$|::(extend|from_iter)$")
def _drain(e, st, c):
    """Eager consumers: run the adapted closures over all elements, result opaque."""
    it = None
    for a in c.args:
        v = e.deref_all(st, a)
        if v[0] == "iter":
            it = a
    if it is None:
        return None
    if c.name.endswith("::collect") and exact(e.deref_all(st, it)) and c.dt and c.dt[0] == "adt" and re.search(r"Vec$|Box$|SmallVec$", c.dt[2] or ""):
        outs = []
        work = [(st, e.deref_all(st, it), ())]
        while work:
            s, v, got = work.pop()
            for s2, nv, x in iter_step(e, s, c, v, ("c",)):
                if x is None:
                    outs.append((s2, ("arr", got)))
                elif len(got) > 100:
                    raise Budget("collecting in %s did not converge" % c.fr.fn.name)
                else:
                    work.append((s2, nv, got + (x,)))
        return outs
    done, _ = loop_states(e, st, c, it, lambda s, x: [(s, False, None)])
    outs = []
    for s in done:
        s = s.copy()
        src = e.behind(s, c.args)
        e.havoc_args(c.fr, c.blk, c.args, s, c)
        outs.append((s, e.fresh(s, ("call", c.fr.fn.name, c.blk, c.fr.id), src)))
    return outs


# ------------------------------------------------------------------ misc
@model(r"^core::convert::Into::into$|core::convert::Into<.*>>::into$")
def _into(e, st, c):
    t = c.callee.get("a") or ()
    if len(t) == 2:
        a, b = e.subst_ty(t[0], c.fr.subst), e.subst_ty(t[1], c.fr.subst)
        if a == b:
            return [(st, c.args[0])]
        fn = from_impl(e, a, b)
        if fn:
            f = e.may_inline(c.fr, fn)
            if f is not None:
                return e.run(f, c.args, st, c.fr.ctx + ((c.fr.fn.name, c.blk),), c.fr.stack + ((c.fr.fn.name, c.blk),))
            return e.invoke(c.fr, c.blk + ("into",), c.line, {"p": fn, "r": fn, "a": ()}, c.args, st, c.dt, None)
        # the reflexive impl, or an external conversion: opaque but value-numbered
        return [(st, e.app("into:" + b[1], e.norm(st, c.args[0])))]
    return None


def from_impl(e, a, b):
    bn = e.type_self(b)
    want = "<%s as core::convert::From<%s>>::from" % (bn, a[1])
    if want in e.p.fns and not e.p.fns[want].ext:
        return want
    return None


@model(r"^<T as core::convert::From<T>>::from$|^<T as core::convert::From>::from$")
def _refl(e, st, c):
    return [(st, c.args[0])]


@model(r"^core::convert::From::from$|as core::convert::From<.*>>::from$")
def _from(e, st, c):
    if c.name in e.p.fns and not e.p.fns[c.name].ext:
        return None
    t = c.callee.get("a") or ()
    if len(t) == 2:
        a, b = e.subst_ty(t[1], c.fr.subst), e.subst_ty(t[0], c.fr.subst)
        if a == b and a[0] != "param":
            return [(st, c.args[0])]
        fn = from_impl(e, a, b)
        if fn:
            return e.invoke(c.fr, c.blk + ("from",), c.line, {"p": fn, "r": fn, "a": ()}, c.args, st, c.dt, None)
        return [(st, e.app("into:" + b[1], e.norm(st, c.args[0])))]
    return None
