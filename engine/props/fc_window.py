"""F04: each kind of check searches only the part of the input it may look at, and moves on behind its match."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put


def S(*x):
    return ("sym", x, ())


CTX, CUR, POS, END, EOL, EOF, NEXT, INFO, MSTART, MEND = (S(x) for x in (
    "context", "cursor", "position", "blockend", "lineend", "eof", "nextline", "match", "matchstart", "matchend"))
RULE = r"<litcheck_filecheck::rules::\w+::%s(<.*>)? as litcheck_filecheck::rules::Rule(<.*>)?>::apply$"
SEARCH = {"search": (("int", 0), EOF), "search_to_eof": (POS, EOF), "search_block": (POS, END), "search_line": (POS, EOL)}
POSN = {"start": POS, "end": END, "end_of_line": EOL, "end_of_file": EOF, "start_of_next_line": NEXT}
MOVES = ("move_to", "reset", "set_bounds", "consume_newline", "move_to_end")


def win(lo, hi):
    return ("adt", "window", 0, (lo, hi))


class Window(Mon):
    """mon: 'tries' the windows searched so far with their outcome; 'moved' where the cursor went."""
    init = ()
    watch = (r"MatcherMut(>)?::try_match_mut$", r"Cursor::", r"context::Context(Ext)?(>)?::", r"try_match_all$")
    stop = (r"CheckFailedError::", r"Input::", r"SourceSpan::", r"errors::")
    max_states = 200000
    group = False

    def setup(self, r):
        self.mres = adt(r, "MatchResult", "filecheck")
        self.mtype = adt(r, "MatchType", "filecheck")
        self.info = adt(r, "MatchInfo", "filecheck")
        self.range = adt(r, "Range", "litcheck_core")
        self.spi = fidx(r, self.info, "span")
        self.tyi = fidx(r, self.mres, "ty")
        self.failed = vidx(r, self.mtype, "Failed")
        self.found = vidx(r, self.mtype, "MatchFoundAndExpected")
        self.excl = vidx(r, self.mtype, "MatchNoneAndExcluded")
        self.bad = {}
        return self

    def pinned(self, i):
        return True

    def mk(self, ty, info):
        t = ("adt", self.mtype, ty, (S("failure"),) if ty == self.failed else ())
        o = some(info) if info is not None else NONE
        return ("adt", self.mres, 0, (t, o) if self.tyi == 0 else (o, t))

    def parts(self, e, st, v):
        """(is ok, info) of a match result."""
        v = e.deref_all(st, v)
        if v[0] != "adt" or v[1] != self.mres:
            return None, None
        t, o = e.deref_all(st, v[3][self.tyi]), e.deref_all(st, v[3][1 - self.tyi])
        ok_ = (t[2] != self.failed) if t[0] == "adt" else None
        k, pay = option_of(e, st, o)
        return ok_, (e.deref_all(st, pay) if k == "some" else None)

    def bounds(self, e, st, v):
        v = e.deref_all(st, v)
        n = lambda x: e.norm(st, e.deref_all(st, x))  # noqa: E731
        if v[0] != "adt":
            return None
        if v[1] == self.range or v[1].endswith("ops::range::Range") or v[1] == "window":
            return n(v[3][0]), n(v[3][1])
        if v[1].endswith("RangeFrom"):
            return n(v[3][0]), EOF
        if v[1].endswith("RangeTo"):
            return ("int", 0), n(v[3][0])
        if v[1].endswith("RangeFull"):
            return ("int", 0), EOF
        return None

    def newline(self, st, lo):
        k = "nl%r" % (lo,)
        cur = get(st.mon, k)
        outs = []
        for b in ((cur,) if cur is not None else (True, False)):
            s = st.copy()
            s.mon = put(s.mon, **{k: b})
            outs.append((s, some(S("newline", lo)) if b else NONE))
        return outs

    def fork(self, st, key):
        cur = get(st.mon, key)
        outs = []
        for b in ((cur,) if cur is not None else (True, False)):
            s = st.copy()
            s.mon = put(s.mon, **{key: b})
            outs.append((s, TRUE if b else FALSE))
        return outs

    def span_of(self, e, st, x):
        """Whether x is the span of the match found."""
        v = e.norm(st, e.deref_all(st, x))
        pr = tuple(y for y in v[2] if y != "*") if v[0] == "sym" else None
        return v[0] == "sym" and v[1] == INFO[1] and pr == (self.spi,)

    def search(self, e, st, c, w):
        """One search in the window w."""
        outs = []
        tries = get(st.mon, "tries") or ()
        for kind, v in (("err", None), ("found", self.mk(self.found, INFO)), ("spoilt", self.mk(self.failed, INFO)),
                        ("none", self.mk(self.failed, None))):
            s = st.copy()
            i = len(tries)
            if v is not None and kind in ("found", "spoilt") and i:
                v = self.mk(self.found if kind == "found" else self.failed, S("match", i))
            s.mon = put(s.mon, tries=tries + ((w, kind),))
            outs.append((s, err(S("err")) if v is None else ok(v)))
        return outs

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        tn = nm + " " + str(c.trait)
        iscur = re.search(r"cursor::Cursor(Guard)?\b|context::(Context|ContextExt|ContextGuard|MatchContext)\b", tn) is not None
        if not c.args:
            return None
        if self.group and re.search(r"check::check_(group|tree)$", nm):
            s = st.copy()
            self.rights.append((get(s.mon, "tries") or (), moved(self, s), c.loc()))
            s.mon = put(s.mon, moved=None, right=True)
            return [(s, err(S("right"))), (s.copy(), ok(err(S("right", "matches"))))]
        if last == "source_file" and "ontext" in tn:
            return [(st, some(S("file")))]
        v = self.dag_call(e, st, c, last)
        if v is not None:
            return v
        if last == "try_match_mut" and "MatcherMut" in tn or last == "try_match_mut_dyn":
            return self.search(e, st, c, self.bounds(e, st, c.args[1]))
        if last == "try_match_all":
            return self.search_all(e, st, c)
        x0 = e.norm(st, e.deref_all(st, c.args[0]))
        if last in ("start", "end", "len") and self.span_of(e, st, c.args[0]):
            if last == "len":
                return None
            return [(st, MSTART if last == "start" else MEND)]
        if last in ("matched_range", "into_slice_index", "into_range", "range") and (x0 == INFO or self.span_of(e, st, c.args[0])):
            return [(st, ("adt", self.range if last != "into_slice_index" else "core::ops::range::Range", 0, (MSTART, MEND)))]
        if last in ("to_usize", "into", "from") and x0 in (MSTART, MEND):
            return [(st, x0)]
        if last in ("into", "from", "from_iter") and x0[0] == "adt" and x0[1] == self.mres:
            return [(st, ("adt", "matches", 0, (x0,)))]
        if x0[0] == "adt" and x0[1] == "window" and last == "bounded":
            w = self.bounds(e, st, c.args[1])
            return [(st, win(*w) if w else TOP)]
        if x0[0] == "adt" and x0[1] == "window" and last == "anchored":
            self.bad["anchored"] = "%s: the search is tied to the start of its part of the input" % c.loc()
            return [(st, x0)]
        b = self.bounds(e, st, x0) if last == "is_empty" else None
        if b is not None:
            if b == (POS, END) or b[0] == NEXT:
                return self.ask(e, st, e.app("Lt", b[0], b[1]), True)
            return None
        if not iscur:
            return None
        if x0[0] != "sym" or x0[1][0] not in ("context", "cursor") or x0[2]:
            return None
        lev = x0[1][1:]
        if last in ("cursor", "cursor_mut") and "ontext" in tn:
            return [(st, S("cursor", *lev))]
        if last in ("as_ref", "as_mut", "deref", "deref_mut") and x0[1][0] == "cursor":
            return [(st, x0)]
        if last == "protect":
            return [(st, S(x0[1][0], *lev, "guard"))]
        if last == "save" and lev:
            s = st.copy()
            mv = get(s.mon, "moved") or ()
            s.mon = put(s.mon, moved=mv + tuple((lev[:-1], x) for l, x in mv if l == lev))
            return [(s, UNIT)]
        gone = any(l == lev[:len(l)] for l, x in get(st.mon, "moved") or ())
        if last in SEARCH or last in POSN or last in ("search_range", "range", "bounds", "is_empty", "next_newline", "next_newline_from", "next_newline_in_range",
                                                      "at_end_of_line", "is_end_of_line", "at_eof", "position", "span") or last.startswith("prev_newline") or last.startswith("is_") and "Cursor" in nm:
            if gone and last not in ("end", "end_of_file"):
                return None
        if last in SEARCH:
            return [(st, win(*SEARCH[last]))]
        if last == "search_range":
            w = self.bounds(e, st, c.args[1])
            return [(st, win(*w) if w else TOP)]
        if last in POSN and "Cursor" in nm:
            return [(st, POSN[last])]
        if last == "range" and "Cursor" in nm:
            return [(st, ("adt", self.range, 0, (POS, END)))]
        if last == "next_newline":
            return self.newline(st, POS)
        if last == "next_newline_from":
            return self.newline(st, e.norm(st, e.deref_all(st, c.args[1])))
        if last == "next_newline_in_range":
            w = self.bounds(e, st, c.args[1])
            if w and w[1] in (EOF, END):
                return self.newline(st, w[0])
            return None
        if last == "at_end_of_line" or last == "is_end_of_line" and e.norm(st, e.deref_all(st, c.args[1])) == POS:
            return self.fork(st, "at end of line")
        if last == "at_eof" or last == "is_eof" and e.norm(st, e.deref_all(st, c.args[1])) == POS:
            return self.fork(st, "at eof")
        if last == "is_empty" and "Cursor" in nm:
            return self.ask(e, st, e.app("Lt", POS, END), True)
        if last == "set_start":
            s = st.copy()
            s.mon = put(s.mon, moved=(get(s.mon, "moved") or ()) + ((lev, e.norm(s, e.deref_all(s, c.args[1]))),))
            return [(s, UNIT)]
        if last in MOVES:
            s = st.copy()
            s.mon = put(s.mon, moved=(get(s.mon, "moved") or ()) + ((lev, S(last)),))
            return [(s, UNIT)]
        return None

    def ask(self, e, st, cond, neg):
        outs = []
        for b in (True, False):
            s = e.assume(st, cond, b)
            for s2 in ([s] if isinstance(s, State) else s or []):
                outs.append((s2, TRUE if b != neg else FALSE))
        return outs

    def matches(self, kind):
        return ("adt", "matches", 0, (self.mk(self.found, INFO) if kind == "found" else self.mk(self.failed, None),))

    def search_all(self, e, st, c):
        """All patterns of a CHECK-DAG group are looked for; the visitor may leave the cursor anywhere."""
        v = e.deref_all(st, c.args[0])
        w = v[3][0] if v[0] == "adt" and v[1] == "visitor" else None
        x = e.norm(st, e.deref_all(st, c.args[1]))
        lev = x[1][1:] if x[0] == "sym" and x[1][0] == "context" else ()
        outs = []
        for kind in ("err", "found", "none"):
            s = st.copy()
            s.mon = put(s.mon, tries=(get(s.mon, "tries") or ()) + ((w, kind),), moved=(get(s.mon, "moved") or ()) + ((lev, S("visitor")),))
            outs.append((s, err(S("err")) if kind == "err" else ok(self.matches(kind))))
        return outs

    def dag_call(self, e, st, c, last):
        x = [e.deref_all(st, a) for a in c.args]
        if "matches::Matches" in c.name and x[0][:2] == ("adt", "matches"):
            good = x[0][3][0] == self.mk(self.found, INFO)
            if last in ("is_ok", "has_errors"):
                return [(st, TRUE if good == (last == "is_ok") else FALSE)]
            if last == "range":
                rng = some(("adt", self.range, 0, (MSTART, MEND)))
                return [(st, rng)] if good else [(st, NONE), (st.copy(), some(("adt", self.range, 0, (S("badstart"), S("badend")))))]
        if "Visitor" in c.name and last == "new" and x[0][:2] == ("adt", "searcher"):
            return [(st, ("adt", "visitor", 0, x[0][3]))]
        if c.dt is not None and "Searcher" in str(c.dt) and last in ("search", "new"):
            w = [self.bounds(e, st, a) for a in x if a[:2] == ("adt", "window")]
            v = ("adt", "searcher", 0, (w[0] if w else None,))
            if c.dt[1] and "Result" in c.dt[1] or c.dt[2] == RES:
                f = st.copy()
                f.mon = put(f.mon, tries=(get(f.mon, "tries") or ()) + ((w[0] if w else None, "err"),))
                return [(st, ok(v)), (f, err(S("err")))]
            return [(st, v)]
        return None


def final(e, s, m, v):
    """(outcome, number of results, is ok, info) of what apply returns."""
    k, pay = result_of(e, s, v)
    if k != "ok":
        return k, None, None
    pay = e.deref_all(s, pay)

    def walk(x, n):
        if not isinstance(x, tuple) or n > 12:
            return []
        if x[:2] == ("adt", m.mres):
            return [x]
        if x[:1] == ("ref",):
            return walk(e.get(s, (x[1], x[2])), n + 1)
        return [z for y in x if isinstance(y, tuple) for z in walk(y, n + 1)]
    rs = walk(pay, 0)
    if len(set(rs)) != 1:
        return "?", None, None
    ok_, info = m.parts(e, s, rs[0])
    return k, ok_, info


NAMES = {"CheckPlain": "CHECK", "CheckNext": "CHECK-NEXT", "CheckSame": "CHECK-SAME", "CheckEmpty": "CHECK-EMPTY", "CheckDag": "CHECK-DAG"}


def windows(e, s, m, kind):
    """Windows allowed on this path."""
    if kind in ("CheckPlain", "CheckDag"):
        return [(POS, END)]
    if kind == "CheckSame":
        return [(POS, EOL)]
    nl = get(s.mon, "nl%r" % (NEXT,))
    return {None: [], True: [(NEXT, S("newline", NEXT))], False: [(NEXT, END), (NEXT, EOF)]}[nl]


def moved(m, s):
    """Where the cursor ended up, None if it was not moved."""
    x = [b for a, b in get(s.mon, "moved") or () if a == ()]
    return x[-1] if x else None


def simple(r, kind):
    fn = r.fn(RULE % kind)
    m = Window(r.p).setup(r)
    e, outs = analyse(r, fn, m, [S("rule"), CTX], State(mon=()))
    r.need(outs, "paths of %s" % fn.name)
    at, what = fn.loc(), NAMES[kind]
    seen = set()
    for s, v in outs:
        tries = get(s.mon, "tries") or ()
        k, ok_, info = final(e, s, m, v)
        mv = moved(m, s)
        r.need(k != "?", "the outcome of %s" % fn.name)
        if not tries:
            # given up without searching: only when there is nothing to search
            r.ob("search", what + " gives up", k == "ok" and ok_ is False and kind == "CheckNext" and e.truth(s, e.app("Lt", NEXT, END)) is False, "giveup|" + kind,
                 "%s: %s reports a result without searching the input" % (at, what))
            r.ob("cursor", what + " gives up", mv is None, "giveup-moved|" + kind, "%s: %s moves on although nothing matched" % (at, what))
            seen.add("giveup")
            continue
        w, first = tries[0]
        seen.add(first)
        good = w in windows(e, s, m, kind)
        if kind == "CheckNext":
            good = good and (e.truth(s, e.app("Lt", NEXT, END)) is True)
        r.ob("window", what, good, "window|" + kind, "%s: %s does not search exactly the part of the input it is about" % (at, what))
        for w2, k2 in tries[1:]:
            r.ob("window", what + " again", not ok_, "again|" + kind, "%s: %s accepts the outcome of a second search" % (at, what))
        if first == "err" or any(k2 == "err" for _, k2 in tries):
            r.ob("outcome", what + " error", k == "err", "error|" + kind, "%s: an error while searching for the pattern of a %s is dropped" % (at, what))
            continue
        r.ob("outcome", what, k == "ok" and ok_ == (first == "found"), "outcome|" + kind,
             "%s: %s reports %s although its search %s" % (at, what, "a match" if ok_ else "a failure", {"found": "found a match", "none": "found nothing"}.get(first, "failed")))
        if first == "found":
            r.ob("outcome", what + " match", info == INFO, "info|" + kind, "%s: %s does not report the match it found" % (at, what))
        r.ob("cursor", what, mv == (MEND if first == "found" else None), "cursor|%s|%s" % (kind, first),
             "%s: after %s the next check does not start %s" % (at, what, "right behind the match" if first == "found" else "where this one did"))
    r.need({"found", "none", "err"} <= seen, "the outcomes of %s" % fn.name)
    for k, msg in m.bad.items():
        r.ob("window", k, False, kind + "|" + k, msg)


def empty(r):
    fn = r.fn(RULE % "CheckEmpty")
    m = Window(r.p).setup(r)
    e, outs = analyse(r, fn, m, [S("rule"), CTX], State(mon=()))
    at = fn.loc()
    seen = set()
    for s, v in outs:
        k, ok_, info = final(e, s, m, v)
        r.need(k == "ok" and ok_ is not None, "the outcome of %s" % fn.name)
        nl = get(s.mon, "nl%r" % (NEXT,))
        his = [S("newline", NEXT)] if nl else [EOF, END]
        emp = None
        for h in his:
            t = e.truth(s, e.app("Lt", NEXT, h))
            q = e.truth(s, e.eq_values(s, NEXT, h))
            if t is not None or q is not None:
                emp = (t is False) or q is True
        more = e.truth(s, e.app("Lt", POS, NEXT))
        q = e.truth(s, e.eq_values(s, POS, NEXT))
        more = (not q) if more is None and q is not None else more
        if more is None:
            x = e.truth(s, e.app("Lt", POS, EOF))
            more = x if x is not None else more
            if get(s.mon, "at eof") is not None:
                more = not get(s.mon, "at eof")
        eol = get(s.mon, "at end of line")
        mv = moved(m, s)
        if ok_:
            for n, x, msg in (("at the end of its line", eol, "is accepted although the rest of the current line is not known to be empty"),
                              ("next line exists", more, "is accepted although there may be no further line"),
                              ("next line empty", emp, "is accepted although the next line may not be empty")):
                r.ob("empty", n, x is True, "empty|" + n, "%s: CHECK-EMPTY %s" % (at, msg))
            r.ob("cursor", "CHECK-EMPTY", mv in [h for h in his] or mv == NEXT, "cursor|empty", "%s: after CHECK-EMPTY the next check does not start at the end of the empty line" % at)
        else:
            r.ob("empty", "rejected", False in (eol, more, emp), "empty|rejected", "%s: CHECK-EMPTY is rejected although an empty line follows" % at)
            r.ob("cursor", "CHECK-EMPTY fails", mv is None, "cursor|emptyfail", "%s: a failed CHECK-EMPTY moves on" % at)
        seen.add(ok_)
    r.need(seen == {True, False}, "the outcomes of %s" % fn.name)


@rule("F04")
def f04(r):
    r.assumptions += ["the windows are compared as expressions over the cursor, whose meaning the cursor rules of this property establish"]
    for k in ("CheckPlain", "CheckNext", "CheckSame"):
        simple(r, k)
    empty(r)
    dag(r)
    cursor_rules(r)


def dag(r):
    fn = r.fn(r"litcheck_filecheck::check::check_group$")
    grp = adt(r, "CheckGroup", "filecheck")
    at, what = fn.loc(), "CHECK-DAG"
    kinds = set()
    for name in ("Unordered", "Bounded"):
        i = vidx(r, grp, name)
        m = Window(r.p).setup(r)
        m.group, m.rights = True, []
        args = []
        for j in range(fn.argc):
            t = str(fn.locals[j + 1])
            args.append(("adt", grp, i, tuple(S("part", k) for k in range(len(r.p.adts[grp]["v"][i]["f"])))) if "CheckGroup" in t else CTX if "MatchContext" in t else S("result"))
        e, outs = analyse(r, fn, m, args, State(mon=()))
        r.need(outs, "paths of %s" % fn.name)
        seen = set()
        for s, v in outs:
            tries = get(s.mon, "tries") or ()
            r.ob("search", what, len(tries) == 1, "search|" + name, "%s: a group of %s is not looked for exactly once" % (at, what))
            if not tries:
                continue
            w, kind = tries[0]
            seen.add(kind)
            r.ob("window", what, w == (POS, END), "window|" + name, "%s: %s does not search exactly the rest of the block" % (at, what))
            if name == "Unordered" or get(s.mon, "right"):
                mv = moved(m, s)
                want = MEND if kind == "found" and name == "Unordered" else None
                r.ob("cursor", what, mv == want, "cursor|%s|%s" % (name, kind), "%s: after %s of %s the next check does not start %s" % (
                    at, "a match" if kind == "found" else "a failure", what, "behind the last match" if want else "where it should"))
        r.need({"found", "none", "err"} <= seen, "the outcomes of %s" % fn.name)
        for tries, mv, loc in m.rights:
            k = tries[-1][1] if tries else "never"
            r.ob("cursor", "CHECK after CHECK-DAG", k in ("none", "err") and mv is None or k == "found" and mv == MEND, "cursor|right|" + k,
                 "%s: a CHECK that follows a group of CHECK-DAG %s" % (loc, {"found": "is not looked for behind the matches of the group", "never": "is looked for before the group"}.get(
                     k, "that failed does not start where the group did")))
        r.need(name != "Bounded" or m.rights, "the check that follows a CHECK-DAG group")
        kinds |= seen


# ---------------------------------------------------------------------- the cursor itself
class Prim(Mon):
    """The functions of the cursor over an explicit cursor value."""
    init = ()
    watch = (r"text::Newline::", r"text::find_", r"range_from_bounds$")
    stop = (r"SourceSpan::", r"LookMatcher::", r"Report::")
    small = 80

    def setup(self, r):
        self.cur = adt(r, "Cursor", "filecheck")
        self.range = adt(r, "Range", "litcheck_core")
        self.inp = adt(r, "Input", "litcheck_filecheck::input")
        self.nlt = adt(r, "Newline", "litcheck_core")
        self.names = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[self.cur]["v"][0]["f"]]
        r.need({"buffer", "block", "eol", "crlf"} <= set(self.names), "the fields of the cursor")
        return self

    def pinned(self, i):
        return True

    def cursor(self, tag=""):
        v = {"buffer": S("buf"), "block": ("adt", self.range, 0, (POS, END)), "eol": EOL, "crlf": S("crlf")}
        return ("adt", self.cur, 0, tuple(self.tagged(v.get(n, S("cur", n)), tag) for n in self.names))

    def tagged(self, v, tag):
        if not tag or not isinstance(v, tuple):
            return v
        if v and v[0] == "sym":
            return ("sym", v[1] + (tag,), ())
        return tuple(self.tagged(x, tag) for x in v)

    def fields(self, e, st, v):
        v = e.deref_all(st, v)
        if v[0] != "adt" or v[1] != self.cur:
            return None
        d = {n: e.norm(st, e.deref_all(st, x)) for n, x in zip(self.names, v[3])}
        b = e.deref_all(st, v[3][self.names.index("block")])
        if b[0] == "adt" and b[1] == self.range:
            d["start"], d["end"] = (e.norm(st, e.deref_all(st, x)) for x in b[3])
        return d

    def assumed(self, e, st, cond, b):
        s = e.assume(st, cond, b)
        return [s] if isinstance(s, State) else list(s or [])

    def bounds(self, e, st, v):
        v = e.deref_all(st, v)
        n = lambda x: e.norm(st, e.deref_all(st, x))  # noqa: E731
        if v[0] == "adt":
            if v[1] == self.range or v[1].endswith("ops::range::Range"):
                return n(v[3][0]), n(v[3][1])
            if v[1].endswith("RangeFrom"):
                return n(v[3][0]), None
            if v[1].endswith("RangeTo"):
                return None, n(v[3][0])
            if v[1].endswith("RangeFull"):
                return None, None
        return S("lo", v), S("hi", v)

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        n = lambda x: e.norm(st, e.deref_all(st, x))  # noqa: E731
        if last in ("min", "max") and "cmp" in nm and len(c.args) == 2:
            a, b = n(c.args[0]), n(c.args[1])
            outs = []
            for t in (True, False):
                for s2 in self.assumed(e, st, e.app("Lt", a, b), t):
                    outs.append((s2, (a if t else b) if last == "min" else (b if t else a)))
            return outs
        if last == "cmp" and "Ord" in nm and len(c.args) == 2:
            a, b = n(c.args[0]), n(c.args[1])
            outs = []
            for i, (p, q) in enumerate(((True, False), (False, False), (False, True))):
                for s in self.assumed(e, st, e.app("Lt", a, b), p):
                    outs += [(s2, ("adt", "core::cmp::Ordering", i, ())) for s2 in self.assumed(e, s, e.app("Lt", b, a), q)]
            return outs
        if last in ("try_into", "try_from") and len(c.args) == 1:
            return [(st, ok(n(c.args[0])))]
        if last == "len" and n(c.args[0]) == S("buf"):
            return [(st, EOF)]
        if last == "range_from_bounds":
            lo, hi = self.bounds(e, st, c.args[0])
            al = self.bounds(e, st, c.args[1])
            v = ("adt", self.range, 0, (al[0] if lo is None else lo, al[1] if hi is None else hi))
            return [(st, ok(v))]
        if nm.endswith("range::Range::new") or "range::Range as core::convert::From" in nm and len(c.args) == 2:
            return [(st, ("adt", self.range, 0, tuple(c.args)))]
        if nm.endswith("Newline::next_from") or nm.endswith("Newline::next"):
            off = n(c.args[1]) if len(c.args) > 1 else ("int", 0)
            return [(st, S("newline of", n(c.args[0]), off))]
        if "Newline::" in nm and last in ("offset", "next_line_start", "is_crlf"):
            x = n(c.args[0])
            if x[0] == "sym" and x[1][0] == "newline of":
                return [(st, S(last, x[1][1], x[1][2]))]
        if "text::find_" in nm:
            w = self.bounds(e, st, c.args[1])
            kind = last.split("_or_eof")[0]
            key = "%s %r" % (kind, w)
            cur = get(st.mon, key)
            outs = []
            for b in ((cur,) if cur is not None else (True, False)):
                s = st.copy()
                s.mon = put(s.mon, **{key: b})
                outs.append((s, some(S(kind, n(c.args[0]), w)) if b else NONE))
            return outs
        return None


def newline_at(e, s, lo):
    """Values that denote the end of the line that contains lo, for text up to the end of the block or the input."""
    outs = set()
    crlf = e.truth(s, S("crlf"))
    for key, b in s.mon:
        for hi in (END, EOF):
            for kind in ("find_next_lf", "find_next_crlf"):
                if key == "%s %r" % (kind, (lo, hi)) and crlf == kind.endswith("crlf"):
                    outs |= {S(kind, S("buf"), (lo, hi))} if b else {END, EOF}
    return outs


def cursor_rules(r):
    m = Prim(r.p).setup(r)
    X = S("x")

    def run(name, args, pat=r"litcheck_filecheck::cursor::Cursor(<.*>)?::%s$"):
        fn = r.fn(pat % name)
        st = State(mon=())
        vals = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[:2] == ("adt", m.cur):
                root = ("L", ("arg", i), 0)
                st.env[root] = a
                a = ("ref", root, ())
            vals.append(a)
        e, outs = analyse(r, fn, m, vals, st)
        r.need(outs, "paths of %s" % fn.name)
        return fn, e, outs

    # what a search looks at
    for name, want in sorted(SEARCH.items()) + [("search_range", (S("lo", X), S("hi", X)))]:
        fn, e, outs = run(name, [m.cursor()] + ([X] if name == "search_range" else []))
        for s, v in outs:
            v = e.deref_all(s, v)
            r.need(v[0] == "adt" and v[1] == m.inp, "the input that %s returns" % fn.name)
            f = dict(zip([x["n"] if isinstance(x, dict) else x for x in r.p.adts[m.inp]["v"][0]["f"]], v[3]))
            r.ob("extent", name, m.bounds(e, s, f["span"]) == want, "extent|" + name, "%s: the part of the input that is searched is not what %s stands for" % (fn.loc(), name))
            r.ob("extent", name + " buffer", e.norm(s, e.deref_all(s, f["buffer"])) == S("buf") and e.norm(s, e.deref_all(s, f["crlf"])) == S("crlf"), "buffer|" + name,
                 "%s: another buffer or another style of newlines is searched" % fn.loc())
            r.ob("extent", name + " anchored", f["anchored"] == FALSE, "anchored|" + name, "%s: the search is tied to its start" % fn.loc())
    for name, want in (("start", POS), ("end", END), ("end_of_line", EOL), ("end_of_file", EOF), ("start_of_next_line", S("next_line_start", S("buf"), POS))):
        fn, e, outs = run(name, [m.cursor()])
        for s, v in outs:
            r.ob("position", name, e.norm(s, e.deref_all(s, v)) == want, "position|" + name, "%s: a position other than the one it stands for" % fn.loc())
    fn, e, outs = run("next_newline_from", [m.cursor(), X])
    for s, v in outs:
        k, pay = option_of(e, s, v)
        want = {x for x in newline_at(e, s, X) if x[1][0].startswith("find")}
        r.ob("position", "next newline", k == "some" and e.norm(s, e.deref_all(s, pay)) in want or k == "none" and not want, "position|next_newline_from",
             "%s: something other than the next newline is found" % fn.loc())
    # moving
    fn, e, outs = run("set_start", [m.cursor(), X])
    seen = set()
    for s, v in outs:
        f = m.fields(e, s, ("ref", ("L", ("arg", 0), 0), ()))
        st_ = f["start"]
        lt = lambda a, b: e.truth(s, e.app("Lt", a, b))  # noqa: E731
        clamp = st_ == X and (lt(X, END) is True or lt(END, X) is False) or st_ == END and lt(X, END) is False or st_ == END and lt(END, X) is True
        r.ob("move", "start", clamp and f["end"] == END and f["buffer"] == S("buf"), "move|start", "%s: the cursor does not go where it is told, within its block" % fn.loc())
        unchanged = f["eol"] == EOL and (st_ == POS or (lt(POS, X) is True or lt(X, POS) is False) and lt(EOL, st_) is False)
        same = lt(X, POS) is False and lt(POS, X) is False
        r.ob("move", "line end", unchanged or same and f["eol"] == EOL or f["eol"] in newline_at(e, s, st_), "move|eol",
             "%s: the end of the line that the cursor remembers is not that of the line it is on" % fn.loc())
        seen.add(f["eol"] == EOL)
    r.need(seen == {True, False}, "the outcomes of %s" % fn.name)
    fn, e, outs = run("set_bounds", [m.cursor(), X])
    for s, v in outs:
        f = m.fields(e, s, ("ref", ("L", ("arg", 0), 0), ()))
        lo, hi = S("lo", X), S("hi", X)
        r.ob("move", "bounds", (f["start"], f["end"]) == (lo, hi), "move|bounds", "%s: the cursor is not confined to the given part of the input" % fn.loc())
        r.ob("move", "bounds line end", f["eol"] in newline_at(e, s, lo), "move|bounds-eol", "%s: the end of the line that the cursor remembers is not that of the line it is on" % fn.loc())
    fn, e, outs = run("reset", [m.cursor()])
    for s, v in outs:
        f = m.fields(e, s, ("ref", ("L", ("arg", 0), 0), ()))
        r.ob("move", "reset", (f["start"], f["end"], f["eol"]) == (("int", 0), EOF, S("offset", S("buf"), ("int", 0))), "move|reset", "%s: a reset cursor does not cover the whole input" % fn.loc())
    fn, e, outs = run("new", [S("id"), S("buf")])
    for s, v in outs:
        f = m.fields(e, s, v)
        r.ob("move", "new", f and (f["start"], f["end"], f["eol"], f["crlf"], f["buffer"]) == (
            ("int", 0), EOF, S("offset", S("buf"), ("int", 0)), S("is_crlf", S("buf"), ("int", 0)), S("buf")), "move|new", "%s: a new cursor does not cover the whole input" % fn.loc())
    # positions saved and restored, and guards
    posn = adt(r, "CursorPosition", "filecheck")
    pn = [x["n"] if isinstance(x, dict) else x for x in r.p.adts[posn]["v"][0]["f"]]
    there = ("adt", m.range, 0, (S("lo"), S("hi")))
    fn, e, outs = run("move_to", [m.cursor(), ("adt", posn, 0, tuple(there if n == "range" else S("peol") if n == "eol" else S("p", n) for n in pn))])
    for s, v in outs:
        f = m.fields(e, s, ("ref", ("L", ("arg", 0), 0), ()))
        r.ob("move", "to", (f["start"], f["end"]) == (S("lo"), S("hi")) and (f["eol"] == S("peol") or f["eol"] in newline_at(e, s, S("lo"))), "move|to",
             "%s: the cursor does not return to the position it is given" % fn.loc())
    fn, e, outs = run("position", [m.cursor()])
    for s, v in outs:
        v = e.deref_all(s, v)
        d = dict(zip(pn, v[3])) if v[0] == "adt" else {}
        r.ob("position", "position", d and m.bounds(e, s, d["range"]) == (POS, END) and e.norm(s, e.deref_all(s, d["eol"])) == EOL, "position|position",
             "%s: the position is not where the cursor is" % fn.loc())
    guard = adt(r, "CursorGuard", "filecheck")
    gn = [x["n"] if isinstance(x, dict) else x for x in r.p.adts[guard]["v"][0]["f"]]
    G = r"litcheck_filecheck::cursor::CursorGuard(<.*>)?::%s$"
    fn, e, outs = run("new", [m.cursor()], G)
    for s, v in outs:
        v = e.deref_all(s, v)
        inner = [x for x in v[3] if x[:2] == ("adt", m.cur)] if v[0] == "adt" else []
        f = m.fields(e, s, inner[0]) if inner else None
        r.ob("guard", "copy", f and (f["start"], f["end"], f["eol"], f["buffer"]) == (POS, END, EOL, S("buf")), "guard|copy", "%s: a guarded cursor does not start where the cursor is" % fn.loc())
    if set(gn) >= {"guarded", "cursor"}:
        fn = r.fn(G % "save")
        st = State(mon=())
        root = ("L", ("arg", 9), 0)
        st.env[root] = m.cursor()
        g = ("adt", guard, 0, tuple(("ref", root, ()) if n == "guarded" else m.cursor("g") if n == "cursor" else S("g", n) for n in gn))
        e, outs = analyse(r, fn, m, [g], st)
        for s, v in outs:
            f = m.fields(e, s, ("ref", root, ()))
            r.ob("guard", "save", (f["start"], f["end"], f["eol"]) == tuple(m.tagged(x, "g") for x in (POS, END, EOL)), "guard|save",
                 "%s: what was done with a guarded cursor is not kept when it is saved" % fn.loc())
    # contexts search with their own cursor
    for name, want in sorted(SEARCH.items()):
        fn = r.fn(r"litcheck_filecheck::context::Context::%s$" % name)
        c2 = Ctx(r.p).setup(r)
        e, outs = analyse(r, fn, c2, [S("context")], State(mon=()))
        for s, v in outs:
            v = e.deref_all(s, v)
            r.need(v[0] == "adt" and v[1] == m.inp, "the input that %s returns" % fn.name)
            f = dict(zip([x["n"] if isinstance(x, dict) else x for x in r.p.adts[m.inp]["v"][0]["f"]], v[3]))
            r.ob("extent", "context " + name, m.bounds(e, s, f["span"]) == want, "context|" + name, "%s: the part of the input that is searched is not what %s stands for" % (fn.loc(), name))


class Ctx(Prim):
    def before_call(self, e, st, c):
        if c.name.rsplit("::", 1)[-1] in ("cursor", "cursor_mut") and c.args and e.norm(st, e.deref_all(st, c.args[0])) == S("context"):
            root = ("L", ("ctxcursor",), 0)
            s = st.copy()
            if root not in s.env:
                s.env[root] = self.cursor()
            return [(s, ("ref", root, ()))]
        return Prim.before_call(self, e, st, c)
