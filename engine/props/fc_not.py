"""F05: every CHECK-NOT is looked for between the matches around it, and rejects what it finds."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put
from props.fc_window import S, CTX, POS, END, EOF, win, Window

NEST = re.compile(r"^litcheck_filecheck::check::check_(group|tree)$")
# what evaluating an operand can give: (inner result, its match results as (has a range, is good)), the last rows for results with failures
GOOD = (((True, True),), ((True, True), (True, True)), ((True, True), (False, True)), ((False, True), (True, True)))


class Excl(Vecs, Window):
    """mon: 'tries' the windows searched, with the outcome; 'pos' where the cursor is; 'ops' the operands evaluated."""
    watch = (r"MatcherMut(>)?::try_match_mut$", r"Cursor::", r"context::Context(Ext)?(>)?::", r"check::check_(group|tree)$", r"Matches::")
    stop = (r"CheckFailedError::", r"RelatedLabel::", r"Label::", r"SourceSpan::", r"errors::", r"::span$", r"first_pattern_span$", r"pattern_len$", r"diagnostics::",
            r"CheckTree::(first|last)$", r"remarks_enabled$", r"::kind$", r"file_line_col$")
    max_states = 300000

    def operand(self, e, st, v):
        v = e.norm(st, e.deref_all(st, v))
        while v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "app" and len(v[1]) == 3:
            v = v[1][2]
        return v[1][0] if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] in ("left", "right", "root") else None

    def ms(self, e, st, v):
        v = e.deref_all(st, v)
        return v if v[:2] == ("adt", "ms") else None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        pos = get(st.mon, "pos") or POS
        if NEST.search(nm):
            op = self.operand(e, st, c.args[0])
            outs = []
            for good in (True, False):
                for rs in GOOD if good else ((),) + GOOD[:1]:
                    s = st.copy()
                    items = tuple(("adt", "ms", 0, (S(op, i), TRUE if rng else FALSE, TRUE)) for i, (rng, g) in enumerate(rs))
                    s.mon = put(s.mon, ops=(get(s.mon, "ops") or ()) + ((op, good, tuple(i for i, (rng, g) in enumerate(rs) if rng)),),
                                pos=S("after", op, good))
                    outs.append((s, ok(("adt", RES, 0 if good else 1, (("arr", items),)))))
            return outs
        if not c.args:
            return self.vec_call(e, st, c, last)
        if "TestResult::" in nm:
            return [(st, UNIT)]
        if last == "source_file" and "ontext" in nm + str(c.trait):
            return [(st, some(S("file")))]
        if last == "try_match_mut" and "Matcher" in nm + str(c.trait):
            op = self.operand(e, st, c.args[0])
            return self.search(e, st, c, (op, self.bounds(e, st, c.args[1])))
        x0 = e.norm(st, e.deref_all(st, c.args[0]))
        m = self.ms(e, st, c.args[0])
        if m is not None and "Matches" in nm:
            if last in ("is_ok", "has_errors"):
                return [(st, m[3][2] if last == "is_ok" else FALSE)]
            if last == "range":
                tag = m[3][0][1]
                return [(st, some(("adt", self.range, 0, (S("start", *tag), S("end", *tag)))) if m[3][1] == TRUE else NONE)]
        if "Matches" in nm and last in ("from_iter", "from", "from_vec", "new"):
            return [(st, ("adt", "ms", 0, (S("new"), FALSE, FALSE)))]
        if x0[0] == "adt" and x0[1] == "window":
            if last in ("bounded", "anchored"):
                return Window.before_call(self, e, st, c)
            return None
        if x0[0] == "sym" and x0[1][0] in ("context", "cursor") and not x0[2]:
            if last in ("cursor", "cursor_mut"):
                return [(st, S("cursor"))]
            if last in ("as_ref", "as_mut", "deref", "deref_mut"):
                return [(st, x0)]
            now = {"search_to_eof": (pos, EOF), "search_block": (pos, END)}
            if last in now:
                return [(st, win(*now[last]))]
            if last == "search_line":
                return [(st, win(pos, S("line end", pos)))]
            if last == "search":
                return [(st, win(("int", 0), EOF))]
            if last == "search_range":
                w = self.bounds(e, st, c.args[1])
                return [(st, win(*w) if w else TOP)]
            if last in ("start", "end", "end_of_file"):
                return [(st, {"start": pos, "end": END, "end_of_file": EOF}[last])]
            if last == "range":
                return [(st, ("adt", self.range, 0, (pos, END)))]
            if last in ("set_start", "move_to", "reset", "set_bounds", "move_to_end", "consume_newline"):
                s = st.copy()
                p = e.norm(s, e.deref_all(s, c.args[1])) if last == "set_start" else S(last)
                s.mon = put(s.mon, pos=p, moved=True)
                return [(s, UNIT)]
            return None
        return self.vec_call(e, st, c, last)


def extreme(e, s, v, xs, least):
    """Whether v is the least (greatest) of xs on this path."""
    terms = set(xs) | {v}
    top = ("int", (1 << 64) - 1)
    le = {(a, b) for a in terms for b in terms if a == b or a == ("int", 0) or b == top or e.truth(s, e.app("Lt", b, a)) is False or e.truth(s, e.app("Lt", a, b)) is True}
    extra = {("int", 0), top} - terms
    for x in extra:
        for a in terms:
            if e.truth(s, e.app("Lt", x, a)) is False or x == ("int", 0):
                le.add((a, x) if x != ("int", 0) else (x, a))
            if x == ("int", 0) and e.truth(s, e.app("Lt", x, a)) is False:
                le.add((a, x))
            if x == top:
                le.add((a, x))
                if e.truth(s, e.app("Lt", a, x)) is False:
                    le.add((x, a))
    terms |= extra
    for k in terms:
        le |= {(a, b) for a in terms for b in terms if (a, k) in le and (k, b) in le}
    one = any((x, v) in le and (v, x) in le for x in xs)
    return one and all(((v, x) if least else (x, v)) in le for x in xs)


def judge(r, fn, m, e, s, v, name, root, lefts):
    """One path through one kind of group."""
    ops = {o: (g, ids) for o, g, ids in get(s.mon, "ops") or ()}
    tries = get(s.mon, "tries") or ()
    at = fn.loc()
    n = [o for o, g, ids in get(s.mon, "ops") or ()]
    r.ob("order", name, n == lefts, "order|" + name, "%s: the checks around a CHECK-NOT are not evaluated once each, in order (%s)" % (at, name))
    if not all(ops.get(o, (False,))[0] for o in lefts):
        return None         # a check failed, and with it the run
    r.ob("searched", name, len(tries) == 1 and tries[0][0][0] == "root", "searched|" + name, "%s: all checks around a CHECK-NOT match, but its patterns are not looked for (%s)" % (at, name))
    if not tries:
        return None
    (op, w), kind = tries[0]
    lo, hi = w or (None, None)
    if "left" in lefts:
        good = lo == S("after", "left", True) or extreme(e, s, lo, [S("end", "left", i) for i in ops["left"][1]], False)
        r.ob("from", name, good, "from|" + name, "%s: a CHECK-NOT is not looked for from the end of the match before it (%s)" % (at, name))
    else:
        r.ob("from", name, lo == POS, "from|" + name, "%s: a CHECK-NOT that comes first is not looked for from the start of its part of the input (%s)" % (at, name))
    if "right" in lefts:
        good = extreme(e, s, hi, [S("start", "right", i) for i in ops["right"][1]], True)
        r.ob("to", name, good, "to|" + name, "%s: a CHECK-NOT is not looked for up to the start of the match after it (%s)" % (at, name))
    else:
        r.ob("to", name, hi == END, "to|" + name, "%s: a CHECK-NOT that comes last is not looked for up to the end of its block (%s)" % (at, name))
    end = get(s.mon, "pos") or POS
    r.ob("cursor", name, not get(s.mon, "moved"), "cursor|" + name, "%s: a CHECK-NOT moves the cursor (%s)" % (at, name))
    k, pay = result_of(e, s, v)
    extra = False
    if k == "ok":
        inner, bag = result_of(e, s, pay)
        bag = e.deref_all(s, bag)
        r.need(bag[0] == "arr", "the results returned by %s" % fn.name)
        new = [x for x in (e.deref_all(s, y) for y in bag[1]) if x[:2] == ("adt", "ms") and x[3][0] == S("new")]
        extra = bool(new)
    bad = kind in ("found", "err")
    if bad or not extra:
        r.ob("verdict", name + " " + kind, bad == (extra or k == "err"), "verdict|%s|%s" % (name, kind), "%s: %s (%s)" % (
            at, "an excluded pattern that is found is not reported" if kind == "found" else "an error while looking for an excluded pattern is not reported" if kind == "err" else
            "a failure is reported although the excluded pattern was not found", name))
    return kind


SHAPES = {"MatchAround": ["left", "right"], "MatchBefore": ["left"], "MatchAfter": ["right"]}


@rule("F05")
def f05(r):
    for fname, enum in (("check_tree", "CheckTree"), ("check_group", "CheckGroup")):
        fn = r.fn(r"litcheck_filecheck::check::%s$" % fname)
        a = adt(r, enum)
        n = 0
        for i, v in enumerate(r.p.adts[a]["v"]):
            names = [f["n"] if isinstance(f, dict) else f for f in v["f"]]
            if fname == "check_tree":
                lefts = SHAPES.get(v["n"])
                if v["n"] == "MatchAll":
                    continue
                r.need(lefts is not None and set(names) == set(lefts) | {"root"}, "the shapes of a tree of checks around a CHECK-NOT")
            elif v["n"] != "Never":
                r.need(not any("MatchAny" in str(f["t"]) for f in v["f"]), "the groups that contain a CHECK-NOT")
                continue
            else:
                names, lefts = ["root"], []
            n += 1
            m = Excl(r.p).setup(r)
            st = State(mon=())
            root = ("L", ("arg", 0), 0)
            st.env[root] = ("adt", a, i, tuple(S(x) for x in names))
            e, outs = analyse(r, fn, m, [("ref", root, ()), S("result"), CTX], st)
            r.need(outs, "paths of %s" % fn.name)
            seen = {judge(r, fn, m, e, s, rv, v["n"], None, lefts) for s, rv in outs}
            r.need({"found", "none", "err"} <= seen, "the outcomes of looking for an excluded pattern in %s" % v["n"])
        r.need(n == (3 if fname == "check_tree" else 1), "the groups that contain a CHECK-NOT")
    r.floor("from", 20)
