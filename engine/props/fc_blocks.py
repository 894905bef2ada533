"""F09: CHECK-LABEL lines divide the input into the blocks the checks are confined to."""
from kit import *
from rules import rule
from props.fc_report import get, put
from props.fc_window import S, CTX, POS, EOF, END, win, Window
from props.fc_run import RANGE

ZERO = ("int", 0)


class Labels(Vecs, Window):
    """mon: 'tries' ((label, window, outcome), ..); 'pos' where the cursor is; 'reset' it covers the whole input again."""
    watch = (r"Matcher(>)?::try_match$", r"Cursor::", r"context::Context(Ext)?(>)?::")
    stop = (r"CheckFailedError::", r"RelatedLabel::", r"Label::", r"SourceSpan::", r"errors::", r"::span$", r"diagnostics::", r"remarks_enabled$", r"file_line_col$")
    max_states = 300000
    widen_ints = 12

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        pos = get(st.mon, "pos") or ZERO
        if not c.args:
            return self.vec_call(e, st, c, last)
        if last == "source_file" and "ontext" in nm + str(c.trait):
            return [(st, some(S("file")))]
        x0 = e.norm(st, e.deref_all(st, c.args[0]))
        if last in ("try_match", "try_match_mut") and "Matcher" in nm + str(c.trait):
            w = self.bounds(e, st, c.args[1])
            lab = x0[1] if x0[0] == "sym" and x0[1][0] == "label" else None
            outs = []
            for kind in ("found", "none", "err"):
                s = st.copy()
                s.mon = put(s.mon, tries=(get(s.mon, "tries") or ()) + ((lab, w, kind),))
                v = None if kind == "err" else self.mk(self.found, S("match", lab)) if kind == "found" else self.mk(self.failed, None)
                outs.append((s, err(S("err")) if v is None else ok(v)))
            return outs
        pr = tuple(y for y in x0[2] if y != "*") if x0[0] == "sym" else None
        if x0[0] == "sym" and x0[1][0] == "match":
            lab = x0[1][1]
            if last in ("start", "end") and pr == (self.spi,):
                return [(st, S("match" + last, lab))]
            if last in ("matched_range", "into_slice_index", "into_range", "range"):
                return [(st, ("adt", self.range if last != "into_slice_index" else RANGE, 0, (S("matchstart", lab), S("matchend", lab))))]
            if last in ("into_static", "into_owned", "clone"):
                return [(st, x0)]
        if last in ("to_usize", "into", "from") and x0[0] == "sym" and x0[1][0] in ("matchstart", "matchend"):
            return [(st, x0)]
        if x0[0] == "adt" and x0[1] == "window":
            return Window.before_call(self, e, st, c) if last in ("bounded", "anchored") else None
        if x0[0] == "sym" and x0[1][0] in ("context", "cursor") and not x0[2]:
            if last in ("cursor", "cursor_mut"):
                return [(st, S("cursor"))]
            if last in ("as_ref", "as_mut", "deref", "deref_mut"):
                return [(st, x0)]
            now = {"search_to_eof": (pos, EOF), "search_block": (pos, EOF), "search": (ZERO, EOF)}
            if last in now:
                return [(st, win(*now[last]))]
            if last == "search_range":
                w = self.bounds(e, st, c.args[1])
                return [(st, win(*w) if w else TOP)]
            if last in ("start", "end", "end_of_file"):
                return [(st, {"start": pos, "end": EOF, "end_of_file": EOF}[last])]
            if last in ("next_newline_from", "prev_newline_from"):
                x = e.norm(st, e.deref_all(st, c.args[1]))
                key = "%s%r" % (last, x)
                cur = get(st.mon, key)
                outs = []
                for b in ((cur,) if cur is not None else (True, False)):
                    s = st.copy()
                    s.mon = put(s.mon, **{key: b})
                    outs.append((s, some(S(last, x)) if b else NONE))
                return outs
            if last in ("next_newline_in_range", "prev_newline_in_range"):
                w = self.bounds(e, st, c.args[1])
                if w and (last[0] == "n" and w[1] == EOF or last[0] == "p" and w[0] == ZERO):
                    d = "next_newline_from" if last[0] == "n" else "prev_newline_from"
                    x = w[0] if last[0] == "n" else w[1]
                    key = "%s%r" % (d, x)
                    cur = get(st.mon, key)
                    outs = []
                    for b in ((cur,) if cur is not None else (True, False)):
                        s = st.copy()
                        s.mon = put(s.mon, **{key: b})
                        outs.append((s, some(S(d, x)) if b else NONE))
                    return outs
            if last in ("set_start", "move_to", "reset", "set_bounds", "move_to_end", "consume_newline"):
                s = st.copy()
                p = e.norm(s, e.deref_all(s, c.args[1])) if last == "set_start" else ZERO if last == "reset" else S(last)
                s.mon = put(s.mon, pos=p, reset=last == "reset")
                return [(s, UNIT)]
            return None
        return self.vec_call(e, st, c, last)


def opt(e, s, v):
    k, x = option_of(e, s, v)
    return None if k == "none" else e.norm(s, e.deref_all(s, x)) if k == "some" else "?"


PROGRAMS = ("", "G", "GG", "B", "BB", "BBB", "GB", "GBB", "GGBB")


@rule("F09")
def f09(r):
    fn = r.fn(r"litcheck_filecheck::check::discover_blocks$")
    sec, prog, bi = adt(r, "CheckSection"), adt(r, "CheckProgram"), adt(r, "BlockInfo")
    gi, bl = vidx(r, sec, "Group"), vidx(r, sec, "Block")
    names = lambda a, i=0: [f["n"] if isinstance(f, dict) else f for f in r.p.adts[a]["v"][i]["f"]]  # noqa: E731
    F = {n: fidx(r, bi, n) for n in ("sections", "start", "end", "eof")}
    at = fn.loc()
    for shape in PROGRAMS:
        m = Labels(r.p).setup(r)
        st = State(mon=())
        secs = tuple(("adt", sec, bl if k == "B" else gi, tuple(S("label", i) if n == "label" else S(n, i) for n in names(sec, bl if k == "B" else gi))) for i, k in enumerate(shape))
        root = ("L", ("arg", 0), 0)
        st.env[root] = ("adt", prog, 0, tuple(("arr", secs) if n == "sections" else S(n) for n in names(prog)))
        e, outs = analyse(r, fn, m, [("ref", root, ()), CTX], st)
        r.need(outs, "paths of %s" % fn.name)
        labels = [i for i, k in enumerate(shape) if k == "B"]
        first = len(shape) - len(labels) if not shape.startswith("B") else None
        what = shape or "empty"
        oks = 0
        for s, v in outs:
            tries = get(s.mon, "tries") or ()
            eol = [nl(s, "next_newline_from", S("matchstart", ("label", i)), EOF) for i in labels]
            prev = [nl(s, "prev_newline_from", S("matchstart", ("label", i)), ZERO) for i in labels]
            r.ob("labels", what, [t[0] for t in tries] == [("label", i) for i in labels], "labels", "%s: not every label is searched for, once and in order" % at)
            pos = ZERO
            for n, (lab, w, kind) in enumerate(tries):
                r.ob("search", what, w == (pos, EOF), "search", "%s: a label is not searched for in everything behind the line of the label found before it" % at)
                if kind == "found" and n < len(eol):
                    pos = eol[n]
            r.ob("reset", what, get(s.mon, "reset") or not tries, "reset", "%s: the cursor does not return to the start of the input" % at)
            k, pay = result_of(e, s, v)
            lost = [t for t in tries if t[2] != "found"]
            r.ob("found", what, (k == "ok") == (not lost), "found|%s" % bool(lost), "%s: %s" % (
                at, "a label that is not found is not an error" if lost else "an error is reported although every label was found"))
            if k != "ok" or lost:
                continue
            oks += 1
            bag = e.deref_all(s, pay)
            r.need(bag[0] == "arr", "the blocks returned by %s" % fn.name)
            got = []
            for x in bag[1]:
                x = e.deref_all(s, x)
                r.need(x[0] == "adt" and x[1] == bi, "the blocks returned by %s" % fn.name)
                k2, rng = option_of(e, s, x[3][F["sections"]])
                got.append((m.bounds(e, s, rng) if k2 == "some" else None, opt(e, s, x[3][F["start"]]), opt(e, s, x[3][F["end"]]), e.norm(s, x[3][F["eof"]])))
            want = []
            if first is not None:
                want.append(((ZERO, ("int", first)), ZERO, prev[0] if labels else None, EOF))
            for n, i in enumerate(labels):
                want.append(((("int", i), ("int", i + 1)), eol[n], prev[n + 1] if n + 1 < len(labels) else None, EOF))
            r.ob("blocks", what + " sections", [g[0] for g in got] == [w[0] for w in want], "sections", "%s: the checks of the program are not assigned to the blocks, each once and in order" % at)
            if len(got) == len(want):
                for g, w in zip(got, want):
                    r.ob("blocks", what + " start", g[1] == w[1], "start", "%s: a block does not start at the end of the line of its label" % at)
                    r.ob("blocks", what + " end", g[2] == w[2] or w[2] is None and g[2] == EOF, "end", "%s: a block does not end before the line of the next label" % at)
                    r.ob("blocks", what + " eof", g[3] == EOF or g[2] is not None, "eof", "%s: the last block does not extend to the end of the input" % at)
        r.need(oks, "paths of %s on which every label is found" % fn.name)
    span(r, bi, F)
    enter(r)
    r.floor("blocks", 30)


def nl(s, f, x, other):
    return S(f, x) if get(s.mon, "%s%r" % (f, x)) else other


class Enter(Mon):
    init = ()
    watch = (r"set_bounds$", r"::clear$")
    stop = (r"Cursor::", r"env::")

    def pinned(self, i):
        return True

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if last in ("set_bounds", "clear", "move_to", "reset", "set_start") and c.args:
            s = st.copy()
            s.mon += ((last, e.norm(s, e.deref_all(s, c.args[1])) if len(c.args) > 1 else None),)
            return [(s, UNIT)]
        return None


def enter(r):
    """Entering a block confines the cursor to it, and forgets local variables exactly when they are scoped."""
    fn = r.fn(r"litcheck_filecheck::context::MatchContext(<.*>)?::enter_block$")
    opts = adt(r, "Options", "litcheck_filecheck")
    oi = fidx(r, opts, "enable_var_scope")
    m = Enter(r.p)
    e, outs = analyse(r, fn, m, [S("ctx"), S("range")], State(mon=()))
    seen = set()
    for s, v in outs:
        calls = dict(s.mon)
        flags = [f[1] for (i, pr), f in s.facts.items() if pr and tuple(y for y in pr if y != "*")[-1] == oi and f[0] == "eq"]
        if len(flags) != 1:
            r.ob("enter", "scope", False, "enter|flag", "%s: whether variables are forgotten does not depend on whether they are scoped" % fn.loc())
            continue
        seen.add(flags[0])
        moves = [x for x in s.mon if x[0] != "clear"]
        r.ob("enter", "bounds", moves == [("set_bounds", S("range"))], "enter|bounds", "%s: the cursor is not confined to the block that is entered" % fn.loc())
        r.ob("enter", "scope %s" % flags[0], ("clear" in calls) == bool(flags[0]), "enter|scope", "%s: %s" % (
            fn.loc(), "variables outlive their block although they are scoped" if flags[0] else "variables are forgotten although they are not scoped"))
    if len(seen) == 1:
        r.ob("enter", "scope", False, "enter|flag", "%s: whether variables are forgotten does not depend on whether they are scoped" % fn.loc())


def span(r, bi, F):
    """The range a block is entered with: from its start (or that of the input) to its end (or that of the input)."""
    fn = r.fn(r"litcheck_filecheck::check::BlockInfo::range$")
    names = [f["n"] if isinstance(f, dict) else f for f in r.p.adts[bi]["v"][0]["f"]]
    for a in (None, S("start")):
        for b in (None, S("end")):
            m = Labels(r.p).setup(r)
            st = State(mon=())
            root = ("L", ("arg", 0), 0)
            have = {"start": a, "end": b}
            st.env[root] = ("adt", bi, 0, tuple((NONE if have[n] is None else some(have[n])) if n in have else EOF if n == "eof" else S(n) for n in names))
            e, outs = analyse(r, fn, m, [("ref", root, ())], st)
            r.need(outs, "paths of %s" % fn.name)
            for s, v in outs:
                r.ob("range", "%s %s" % (a, b), m.bounds(e, s, v) == (a or ZERO, b or EOF), "range", "%s: a block does not cover the input from its start to its end" % fn.loc())
