"""K01: the places that are reported are those in the file."""
import itertools
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, fidx, result_of, option_of, vname, some, ok, err, NONE, analyse, Vecs
from strs import text_call, parts_of
from rules import rule
from props.fc_report import get, put

UNIT = ("tup", ())
MSPAN = "miette::protocol::SourceSpan"


def S(*k):
    return ("sym", k, ())


def flag(b):
    return TRUE if b else FALSE


class Content(Vecs, Mon):
    """Texts are known; pieces of them are texts, or bytes: ('sym', ('bytes', latin-1 text))."""
    force = (r"diagnostics::source_file", r"diagnostics::span", r"litcheck_core::range", r"pseudo_line_for_offset")
    init = ()
    max_depth = 60
    widen_ints = 10 ** 6
    whole = ""

    def raw(self, e, st, v):
        v = e.deref_all(st, v)
        for _ in range(3):
            if v[0] == "str":
                return v[1].encode()
            if v[0] == "sym" and v[1][0] == "bytes":
                return v[1][1].encode("latin-1")
            if v[0] == "adt" and len(v[3]) == 1:
                v = e.deref_all(st, v[3][0])
        return None

    def piece(self, b, is_text):
        if not is_text:
            return S("bytes", b.decode("latin-1"))
        try:
            return ("str", b.decode())
        except UnicodeDecodeError:
            return None

    def bounds(self, e, st, v, n):
        v = e.norm(st, e.deref_all(st, v))
        if v[0] == "int":
            return v[1], v[1] + 1
        if v[0] != "adt":
            return None
        k, x = v[1].rsplit("::", 1)[-1], []
        for y in v[3]:
            y = e.norm(st, e.deref_all(st, y))
            while y[0] == "adt" and len(y[3]) == 1:
                y = e.norm(st, e.deref_all(st, y[3][0]))
            x.append(y[1] if y[0] == "int" else None)
        if None in x[:2]:
            return None
        return (0, n) if k == "RangeFull" else (x[0], n) if k == "RangeFrom" else (0, x[0]) if k == "RangeTo" else (0, x[0] + 1) if k == "RangeToInclusive" else \
            (x[0], x[1]) if k == "Range" else (x[0], x[1] + 1) if k == "RangeInclusive" else None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if last == "match_file_bytes":
            return [(st, self.piece(self.whole.encode(), False))]
        if MSPAN in nm or "miette" in nm and "SourceSpan" in nm:
            if last == "new":
                return [(st, ("adt", MSPAN, 0, tuple(e.norm(st, e.deref_all(st, a)) for a in c.args)))]
            v = e.deref_all(st, c.args[0])
            if last in ("offset", "len", "is_empty") and v[0] == "adt":
                x = v[3][0 if last == "offset" else 1]
                return [(st, flag(x == ("int", 0)) if last == "is_empty" else x)]
        if last in ("into", "from", "clone", "to_string", "as_ref", "into_boxed_str", "into_string", "to_owned", "as_str", "deref", "borrow", "as_bytes", "into_boxed_slice") and len(c.args) == 1:
            a = e.norm(st, e.deref_all(st, c.args[0]))
            if a[0] == "str":
                return [(st, self.piece(a[1].encode(), False) if last == "as_bytes" else a)]
            if a[0] == "sym" and a[1][0] in ("bytes", "uri"):
                return [(st, a)]
            if a[0] == "int" and last == "into" and "SourceOffset" in nm + str(c.trait):
                return [(st, a)]
        if last in ("into", "from") and len(c.args) == 1 and "SourceOffset" in nm + str(getattr(c, "trait", "")):
            return [(st, e.norm(st, e.deref_all(st, c.args[0])))]
        if nm in self.p.fns and not self.p.fns[nm].ext:
            return None
        if not c.args:
            return self.vec_call(e, st, c, last)
        if last in ("from_vec", "from_slice", "into_vec") and "SmallVec" in nm:
            v = self.vec_of(e, st, c.args[0])[0]
            return [(st, v)] if v is not None else None
        if last in ("memchr_iter", "memrchr_iter", "memchr", "memrchr") and len(c.args) == 2:
            n, b = e.norm(st, e.deref_all(st, c.args[0])), self.raw(e, st, c.args[1])
            if b is None or n[0] != "int":
                return None
            at = [i for i, x in enumerate(b) if x == n[1]]
            if last.startswith("memr"):
                at.reverse()
            if last.endswith("_iter"):
                return [(st, ("iter", "arr", ("arr", tuple(("int", i) for i in at)), ("int", 0)))]
            return [(st, some(("int", at[0])) if at else NONE)]
        a = e.norm(st, e.deref_all(st, c.args[0]))
        b = self.raw(e, st, a) if a[0] in ("str", "sym") else None
        if b is not None:
            text = a[0] == "str"
            if last == "len":
                return [(st, ("int", len(b)))]
            if last == "is_empty":
                return [(st, flag(not b))]
            if last in ("get", "index", "get_unchecked") and len(c.args) == 2:
                w = self.bounds(e, st, c.args[1], len(b))
                if w is None:
                    return None
                i, j = w
                if e.norm(st, e.deref_all(st, c.args[1]))[0] == "int":
                    v = ("int", b[i]) if 0 <= i < len(b) else None
                else:
                    v = self.piece(b[i:j], text) if 0 <= i <= j <= len(b) else None
                if last == "get":
                    return [(st, some(v) if v is not None else NONE)]
                return [(st, v)] if v is not None else [(self.panics(st), S("panic"))]
            if last in ("floor_char_boundary", "ceil_char_boundary", "is_char_boundary", "split_at", "split_at_checked"):
                n = e.norm(st, e.deref_all(st, c.args[1]))
                if n[0] != "int":
                    return None
                k, ends = n[1], [i for i in range(len(b) + 1) if self.piece(b[:i], True) is not None]
                if last == "is_char_boundary":
                    return [(st, flag(k in ends))]
                if last.startswith("split"):
                    if k not in ends and (text or k > len(b)):
                        return [(self.panics(st), S("panic"))] if last == "split_at" else [(st, NONE)]
                    v = ("tup", (self.piece(b[:k], text), self.piece(b[k:], text)))
                    return [(st, v if last == "split_at" else some(v))]
                return [(st, ("int", max(i for i in ends if i <= k) if last[0] == "f" else min([i for i in ends if i >= k] or [len(b)])))]
            if last in ("chars", "bytes", "iter", "char_indices", "into_iter"):
                els = b.decode() if text and last[:4] == "char" else b
                els = tuple(("int", ord(x) if isinstance(x, str) else x) for x in els)
                if last == "char_indices":
                    n = [len(b.decode()[:i].encode()) for i in range(len(els))]
                    els = tuple(("tup", (("int", i), x)) for i, x in zip(n, els))
                return [(st, ("iter", "arr", ("arr", els), ("int", 0)))]
            if last in ("match_indices", "matches") and text:
                y = e.norm(st, e.deref_all(st, c.args[1]))
                y = chr(y[1]) if y[0] == "int" else y[1] if y[0] == "str" else None
                if y:
                    n = [m.start() for m in re.finditer(re.escape(y.encode()), b)]
                    return [(st, ("iter", "arr", ("arr", tuple(("tup", (("int", i), ("str", y))) if last == "match_indices" else ("str", y) for i in n)), ("int", 0)))]
        v, loc = self.vec_of(e, st, c.args[0])
        if v is not None and last in ("binary_search", "partition_point", "binary_search_by"):
            xs = [self.number(e, st, x) for x in v[1]]
            if last == "binary_search":
                k = self.number(e, st, c.args[1])
                if k is not None and None not in xs and xs == sorted(set(xs)):
                    i = sum(x < k for x in xs)
                    return [(st, ok(("int", i)) if k in xs else err(("int", i)))]
        if v is not None and last in ("get", "index") and len(c.args) == 2:
            n = e.norm(st, e.deref_all(st, c.args[1]))
            if n[0] == "int" and last == "get":
                return [(st, some(v[1][n[1]]) if n[1] < len(v[1]) else NONE)]
        if last in ("into_iter", "iter") and a[0] == "adt" and a[1].endswith("Option"):
            return [(st, ("iter", "arr", ("arr", tuple(a[3]) if a[2] else ()), ("int", 0)))]
        if last in ("copied", "cloned") and a[0] == "adt" and a[1].endswith("Option"):
            return [(st, NONE if a[2] == 0 else some(e.deref_all(st, a[3][0])))]
        if last in ("cmp", "partial_cmp") and len(c.args) == 2:
            x, y = self.number(e, st, c.args[0]), self.number(e, st, c.args[1])
            if x is not None and y is not None:
                o = ("adt", "core::cmp::Ordering", (x > y) - (x < y) + 1, ())
                return [(st, o if last == "cmp" else some(o))]
        if last in ("eq", "ne", "le", "lt", "ge", "gt") and len(c.args) == 2:
            x, y = self.number(e, st, c.args[0]), self.number(e, st, c.args[1])
            if x is not None and y is not None:
                return [(st, flag({"eq": x == y, "ne": x != y, "le": x <= y, "lt": x < y, "ge": x >= y, "gt": x > y}[last]))]
        if a[0] == "int" and last in ("saturating_sub", "saturating_add", "checked_add", "checked_sub", "checked_add_signed", "saturating_add_signed", "abs_diff", "try_into", "try_from", "get", "min", "max", "clamp", "new_unchecked", "wrapping_sub") and "Option" not in nm:
            x = [self.number(e, st, y) for y in c.args]
            if None not in x and last == "clamp" and x[1] <= x[2]:
                return [(st, ("int", min(max(x[0], x[1]), x[2])))]
            if None not in x and len(x) == 2:
                i, j = x
                v = {"saturating_sub": max(0, i - j), "saturating_add": i + j, "saturating_add_signed": max(0, i + j), "abs_diff": abs(i - j), "min": min(i, j), "max": max(i, j)}.get(last)
                if v is not None:
                    return [(st, ("int", v))]
                if last in ("checked_add", "checked_add_signed"):
                    return [(st, some(("int", i + j)) if i + j >= 0 else NONE)]
                if last == "checked_sub":
                    return [(st, some(("int", i - j)) if i >= j else NONE)]
            elif None not in x and len(x) == 1:
                return [(st, ok(a) if last.startswith("try") else a)]
        v = self.vec_call(e, st, c, last)
        return v if v is not None else text_call(e, st, c)

    def number(self, e, st, v):
        for _ in range(4):
            v = e.norm(st, e.deref_all(st, v))
            if v[0] == "int":
                return v[1]
            if v[0] == "sym" and v[1][0] == "kadt":
                return v[1][2]
            if v[0] == "sym" and v[1][0] == "app" and str(v[1][1]).startswith("into:"):
                v = v[1][2]
                continue
            if v[0] != "adt" or len(v[3]) != 1:
                return None
            v = v[3][0]
        return None

    def panics(self, st):
        st = st.copy()
        st.mon = put(st.mon, panic=True)
        return st

    def on_panic(self, e, st, *a):
        self.panicked = True
        return None


class Places:
    def __init__(self, r):
        self.r, self.p = r, r.p
        self.m = Content(r.p)
        self.at = "diagnostics::source_file::SourceContent(<.*>)?::"
        self.file, self.index, self.line = adt(r, "SourceFile", "core"), adt(r, "ByteIndex", "core"), adt(r, "LineIndex", "core")
        self.flc = adt(r, "FileLineCol", "core")

    def call(self, fn, args, text, keep=()):
        """The results: (engine, state, value), or None for a panic."""
        m = self.m
        m.whole, m.panicked = text, False
        st = State(env=dict(keep), mon=())
        e, outs = analyse(self.r, fn, m, args, st)
        return e, [(s, v) for s, v in outs if not get(s.mon, "panic")], m.panicked or any(get(s.mon, "panic") for s, _ in outs)

    def one(self, fn, args, text, keep, read, want, what, key):
        e, outs, bad = self.call(fn, args, text, keep)
        got = [read(e, s, v) for s, v in outs]
        msg = "panics" if bad else None if got and all(g == want for g in got) else "is %s, not %s" % (" or ".join(sorted({str(g) for g in got})), want)
        self.r.ob(key, key, msg is None, "%s|%s" % (key, (msg or "").split(",")[0][:40]), "%s: %s in the text %r %s" % (fn.loc(), what, text, msg))

    def number(self, e, s, v):
        return self.m.number(e, s, v)

    def opt(self, read):
        def f(e, s, v):
            k, x = option_of(e, s, v)
            return None if k == "none" else read(e, s, e.deref_all(s, x)) if k == "some" else "?"
        return f

    def rng(self, e, s, v):
        v = e.deref_all(s, v)
        return tuple(self.number(e, s, x) for x in v[3]) if v[0] == "adt" and len(v[3]) == 2 else "?"

    def loc(self, e, s, v):
        v = e.deref_all(s, v)
        if v[0] != "adt" or v[1] != self.flc:
            return "?"
        return "%s:%s" % tuple(self.number(e, s, v[3][fidx(self.r, self.flc, n)]) for n in ("line", "column"))

    def texts(self, most):
        for n in range(most + 1):
            for t in itertools.product("a\né", repeat=n):
                yield "".join(t)

    def run(self, most):
        r, root = self.r, ("L", ("keep", 7), 0)
        fn = {n: r.fn(self.at + n + "$") for n in ("new", "line_count", "last_line_index", "line_start", "line_range", "line_index", "location")}
        pseudo = r.fn(r"context::Context(Ext)?::pseudo_line_for_offset$")
        span = r.fn(r"SourceFile as .*SourceCode>::read_span$")
        idx, line = (lambda n: ("adt", self.index, 0, (("int", n),))), (lambda n: ("adt", self.line, 0, (("int", n),)))
        part = {n: r.fn(r"ScopedSourceFileRef(<.*>)? as .*SpanContents>::%s$" % n) for n in ("data", "line", "column")}
        scoped = adt(r, "ScopedSourceFileRef", "core")
        for t in self.texts(most):
            b = t.encode()
            e, outs, bad = self.call(fn["new"], [("str", "lang"), S("uri"), ("str", t)], t)
            starts = [0] + [i + 1 for i, x in enumerate(b) if x == 10]
            values = {e.deref_all(s, v) for s, v in outs}
            r.ob("content", "content", len(values) == 1 and not bad, "content", "%s: the content of %r is not known" % (fn["new"].loc(), t))
            if len(values) != 1:
                continue
            keep = {root: values.pop()}
            me = ("ref", root, ())
            self.one(fn["line_count"], [me], t, keep, self.number, len(starts), "the number of lines", "count")
            self.one(fn["last_line_index"], [me], t, keep, self.number, len(starts) - 1, "the last line", "count")
            ends = starts[1:] + [len(b)]
            for i in range(len(starts) + 2):
                good = i < len(starts)
                self.one(fn["line_start"], [me, line(i)], t, keep, self.opt(self.number), starts[i] if good else None, "the start of line %d" % i, "start")
                self.one(fn["line_range"], [me, line(i)], t, keep, self.opt(self.rng), (starts[i], ends[i]) if good else None, "the extent of line %d" % i, "range")
            for k in range(len(b) + 2):
                n = b[:k].count(b"\n")
                self.one(pseudo, [S("context"), ("int", k)], t, keep, self.number, n + 1, "the number of the line of byte %d" % k, "here")
                if k <= len(b):
                    self.one(fn["line_index"], [me, idx(k)], t, keep, self.number, n, "the line of byte %d" % k, "index")
                    col = sum(1 for x in b[starts[n]:min(k + 1, len(b))] if x & 0xC0 != 0x80) - (1 if k < len(b) else 0)
                    self.one(fn["location"], [me, idx(k)], t, keep, self.opt(self.loc), "%d:%d" % (n + 1, col + 1), "the place of byte %d" % k, "place")
                else:
                    self.one(fn["location"], [me, idx(k)], t, keep, self.opt(self.loc), None, "the place of byte %d" % k, "place")
            f = self.p.adts[self.file]["v"][0]["f"]
            fv = {root: ("adt", self.file, 0, tuple(keep[root] if x["n"] == "content" else S("id") for x in f)), ("L", ("keep", 8), 0): None}
            for i, a in enumerate(starts):
                for k in range(i, len(starts)):
                    sv, sf = ("adt", MSPAN, 0, (("int", a), ("int", ends[k] - a))), ("L", ("keep", 9), 0)
                    fv[sf] = ("adt", scoped, 0, tuple(me if x["n"] == "file" else sv for x in self.p.adts[scoped]["v"][0]["f"]))
                    what = "of the lines %d to %d that are shown" % (i, k)
                    self.one(part["data"], [("ref", sf, ())], t, fv, lambda e, s, v: self.m.raw(e, s, v), b[a:ends[k]], "the content " + what, "part")
                    self.one(part["line"], [("ref", sf, ())], t, fv, self.number, i, "the first line " + what, "part")
                    self.one(part["column"], [("ref", sf, ())], t, fv, self.number, 0, "the first column " + what, "part")
            for i in range(len(b) + 1):
                for j in range(i, len(b) + 1):
                    sp = ("L", ("keep", 8), 0)
                    fv[sp] = ("adt", MSPAN, 0, (("int", i), ("int", j - i)))
                    for before, after in ((1, 1), (2, 1), (1, 2)):
                        x, y = b[:i].count(b"\n"), b[:j].count(b"\n")
                        want = (starts[max(0, x - before)], ends[min(len(ends) - 1, y + after)])
                        self.one(span, [me, ("ref", sp, ()), ("int", before), ("int", after)], t, fv, self.shown, want,
                                 "what is shown of the bytes %d to %d with %d lines before and %d after" % (i, j, before, after), "shown")

    def regions(self):
        """What a failed search is said to have searched."""
        r = self.r
        fn, new = r.fn(r"SearchedRegion(<.*>)?::describe$"), r.fn(self.at + "new$")
        reg, f = adt(r, "SearchedRegion", "filecheck"), self.p.adts[self.file]["v"][0]["f"]
        root, rng = ("L", ("keep", 7), 0), "core::ops::range::Range"
        for t in ("", "a\n", "é", "a\né\n", "\n\na", "a\n" * 11 + "é"):
            b = t.encode()
            e, outs, bad = self.call(new, [("str", "lang"), S("uri"), ("str", t)], t)
            content = e.deref_all(outs[0][0], outs[0][1])
            me = ("adt", self.file, 0, tuple(content if x["n"] == "content" else S("id") for x in f))
            cuts = range(len(b) + 2) if len(b) < 8 else (0, 1, 2, 3, 4, len(b) - 4, len(b) - 3, len(b) - 2, len(b) - 1, len(b))
            for i, j in ((i, j) for i in cuts for j in cuts if i <= j):
                for inline in (True, False):
                    x, y = min(i, len(b)), min(j, len(b))
                    l1, l2 = b[:x].count(b"\n") + 1, b[:max(x, y - 1)].count(b"\n") + 1
                    e, outs, bad = self.call(fn, [("adt", rng, 0, (("int", i), ("int", j))), ("ref", root, ()), flag(inline)], t, {root: me})
                    msg = "panics" if bad else None if outs else "is unknown"
                    for s, v in outs:
                        msg = msg or self.region(e, s, v, reg, x, y, l1, l2, inline)
                    r.ob("region", "in full" if inline else "in short", msg is None, "region|%s" % (msg or "")[:50], "%s: what is said of the search of the bytes %d to %d of the text %r %s" % (fn.loc(), i, j, t, msg))

    def region(self, e, s, v, reg, x, y, l1, l2, inline):
        v = self.m.vec_of(e, s, v)[0]
        if v is None:
            return "is unknown"
        marks = []
        for z in v[1]:
            z = e.deref_all(s, z)
            if z[0] != "adt" or z[1] != reg:
                return "is unknown"
            if vname(self.p, reg, z[2]) == "Marker":
                i = [q["n"] for q in self.p.adts[reg]["v"][z[2]]["f"]]
                sp = e.deref_all(s, z[3][i.index("span")])
                ns = [self.number(e, s, q) for q in sp[3]] if sp[0] == "adt" else []
                ns = [q for q in ns if q is not None] or [self.rng(e, s, q) for q in sp[3] if e.deref_all(s, q)[0] == "adt"]
                ns = ns[0] if ns and isinstance(ns[0], tuple) else tuple(ns)
                k, w = option_of(e, s, e.deref_all(s, z[3][i.index("message")]))
                words = "".join(q if isinstance(q, str) else " %s " % self.number(e, s, q) for q in parts_of(e, s, e.deref_all(s, w))) if k == "some" else ""
                marks.append((ns, words))
        if x == y:
            return "marks something although nothing was searched" if marks else None
        if not marks:
            return "marks nothing"
        if inline or l2 - l1 < 10:
            if [m[0] for m in marks] != [(x, y)]:
                return "does not mark them: %s" % (marks[0][0],)
        else:
            a, z = marks[0][0], marks[-1][0]
            if a[0] != x or not z or not x <= z[0] < y or self.m.whole.encode()[:z[0]].count(b"\n") + 1 != l2:
                return "does not mark their ends"
        ns = {int(q) for q in re.findall(r"\d+", marks[0][1])}
        return None if {l1, l2} <= ns else "does not name the lines %d to %d: %s" % (l1, l2, marks[0][1])

    def shown(self, e, s, v):
        k, x = result_of(e, s, v)
        x = e.deref_all(s, x)
        for _ in range(6):
            if x[0] == "adt" and x[1] != MSPAN:
                ys = [e.deref_all(s, y) for y in x[3]]
                z = [y for y in ys if y[0] == "adt" and y[1] == MSPAN] or ys[:1]
                if not z:
                    break
                x = z[0]
        if k != "ok" or x[0] != "adt" or x[1] != MSPAN:
            return k + " " + str(x)[:60]
        o, n = (self.number(e, s, y) for y in x[3])
        return (o, o + n) if o is not None and n is not None else "?"


@rule("K01")
def k01(r):
    g = Places(r)
    g.run(3 if r.tier == "quick" else 4)
    g.regions()
    for k, n in (("content", 30), ("start", 50), ("range", 50), ("index", 100), ("place", 100), ("here", 100), ("part", 100), ("region", 200), ("shown", 500)):
        r.floor(k, n)
