"""F03: every check line of a check file ends up in the check program exactly once, in order, as the check it was written as."""
from kit import *
from rules import rule, Anchor
from props.fc_report import get, put
from models import loop_states

DEPENDENT = ("Same", "Next", "Empty")
INDEPENDENT = ("Plain", "Count", "Dag", "Label")
CLASS = {"Count": "Plain", "Dag": "Plain", "Same": "Next", "Empty": "Next"}
RULEOF = {"Plain": "CheckPlain", "Count": "CheckPlain", "Same": "CheckSame", "Next": "CheckNext", "Empty": "CheckEmpty"}


def full_range(e, st, c):
    return len(c.args) > 1 and e.deref_all(st, c.args[1])[:2] in (("adt", "core::ops::range::RangeFull"), ("tup", ())) or "RangeFull" in str(c.callee)


def peel(t):
    while t is not None and t[0] == "ref" and t[3]:
        t = t[3][0]
    return t


class Lines(Mon):
    """Conservation of check lines. `flight` holds the lines (and lists of lines, labels, groups) that were taken from the
    input and are not stored in their destination yet, in the order they were taken."""
    init = ()
    small = 60
    max_states = 4000000

    def setup(self, r, labels, kinds=None, fail=True, labelled=(True, False)):
        self.r = r
        self.fail = fail                # whether compiling a pattern may fail
        self.labelled = labelled        # whether the blocks have labels
        self.bad = {}
        self.stores = 0
        self.labels = labels            # whether CHECK-LABEL lines occur among the lines, and their block's label
        self.line = adt(r, "CheckLine", "filecheck")
        self.ctype = adt(r, "CheckType", "filecheck")
        self.check = adt(r, "Check", "ast::directive")
        self.pattern = adt(r, "CheckPattern", "filecheck")
        self.group = adt(r, "CheckGroup", "filecheck")
        self.tree = adt(r, "CheckTree", "filecheck")
        self.section = adt(r, "CheckSection", "filecheck")
        self.gnames = [v["n"] for v in r.p.adts[self.group]["v"]]
        self.kinds = [v["n"] for v in r.p.adts[self.check]["v"]]
        self.tyi = fidx(r, self.line, "ty")
        self.kindi = fidx(r, self.ctype, "kind")
        self.lineix = [i for i, k in enumerate(self.kinds) if k not in ("None", "Comment") and (labels or k != "Label") and (kinds is None or k in kinds)]
        self.seenkinds = set()
        return self

    def violation(self, key, msg):
        self.bad.setdefault(key, msg)

    # ------------------------------------------------------------------ tokens
    def mkline(self, i, ki):
        n = len(self.r.p.adts[self.line]["v"][0]["f"])
        fs = [("sym", i, (j,)) for j in range(n)]
        v = self.r.p.adts[self.check]["v"][ki]
        tys = [("sym", i, (self.tyi, j)) for j in range(len(self.r.p.adts[self.ctype]["v"][0]["f"]))]
        tys[self.kindi] = ("adt", self.check, ki, tuple(("sym", i, ("count",)) for _ in v["f"]))
        fs[self.tyi] = ("adt", self.ctype, 0, tuple(tys))
        return ("adt", self.line, 0, tuple(fs))

    TRACKED = ("line", "list", "elem", "prev", "label")

    def items(self, e, st, v):
        """Tracked items inside v, in the order in which the checker evaluates them."""
        out = []

        def walk(x, n):
            if not isinstance(x, tuple) or n > 40 or not x:
                return
            h = x[0]
            if h in ("sym", "symo") and len(x) >= 3:
                i = x[1]
                if isinstance(i, tuple) and i and i[0] in self.TRACKED:
                    if i not in out:
                        out.append(i)
                    return
                if isinstance(i, tuple):
                    for y in i[1:]:
                        walk(y, n + 1)
                if h == "symo":
                    for _, y in x[3]:
                        walk(y, n + 1)
                return
            if h == "ref":
                walk(e.get(st, (x[1], x[2])), n + 1)
                return
            if h == "adt":
                fs = list(x[3])
                if x[1] == self.tree:
                    fn = [f["n"] if isinstance(f, dict) else f for f in self.r.p.adts[self.tree]["v"][x[2]]["f"]]
                    order = {"left": 0, "root": 1, "right": 2}
                    fs = [y for _, y in sorted(zip([order.get(a, 1) for a in fn], fs), key=lambda z: z[0])]
                for y in fs:
                    walk(y, n + 1)
                return
            for y in x:
                if isinstance(y, tuple):
                    walk(y, n + 1)
        walk(v, 0)
        return out

    def kind_of(self, st, i):
        """Kinds of the lines behind a tracked item."""
        if i[0] == "line" or i[0] == "label":
            return frozenset((i[2],))
        if i[0] == "list":
            return dict(get(st.mon, "lists", ())).get(i, (frozenset(), None))[0]
        return frozenset()

    def listof(self, e, st, v):
        v = e.deref_all(st, v)
        if v[0] == "sym" and isinstance(v[1], tuple) and v[1][0] == "list" and not v[2]:
            return v[1]
        return None

    def newlist(self, s, c, content=(), last=None):
        ls = dict(get(s.mon, "lists", ()))
        n = 0
        at = c.fr.fn.name.rsplit("::", 1)[-1] + "/" + ".".join(map(str, c.blk))
        while ("list", "%s/%d" % (at, n)) in ls:
            n += 1
        if n > 9:
            raise Budget("lists of checks are created without being stored at %s" % c.loc())
        i = ("list", "%s/%d" % (at, n))
        ls[i] = (frozenset(content), last)
        s.mon = put(s.mon, lists=tuple(sorted(ls.items(), key=repr)), walk=())
        s.env.pop(("L", ("listelem",), 0), None)
        return i

    def setlist(self, s, i, content, last):
        ls = dict(get(s.mon, "lists", ()))
        if content is None:
            ls.pop(i, None)
        else:
            ls[i] = (frozenset(content), last)
        s.env.pop(("L", ("listelem",), 0), None)
        s.mon = put(s.mon, lists=tuple(sorted(ls.items(), key=repr)), walk=())

    def flight(self, st):
        return list(get(st.mon, "flight", ()))

    def setflight(self, s, f):
        lit = tuple(x for x in get(s.mon, "lit", ()) if x[0] in f)
        s.mon = put(s.mon, flight=tuple(f), lit=lit)

    def sweep(self, s):
        """Forget boxes nothing refers to any more."""
        def refs(v, out):
            if isinstance(v, tuple):
                if len(v) == 3 and v[0] == "ref":
                    out.add(v[1])
                for x in v:
                    if isinstance(x, tuple):
                        refs(x, out)
        isheap = lambda k: k[0] == "L" and isinstance(k[1], tuple) and k[1][0] == "heap"  # noqa: E731
        live = set()
        for k, v in s.env.items():
            if not isheap(k):
                refs(v, live)
        work = list(live)
        while work:
            k = work.pop()
            if k in s.env and isheap(k):
                more = set()
                refs(s.env[k], more)
                work += [x for x in more if x not in live]
                live |= more
        for k in [k for k in s.env if isheap(k) and k not in live]:
            del s.env[k]
        ls = dict(get(s.mon, "lists", ()))
        if ls:
            used = set(self.flight(s))

            def names(v):
                if isinstance(v, tuple):
                    if len(v) == 2 and v[0] == "list":
                        used.add(v)
                        return
                    for x in v:
                        if isinstance(x, tuple):
                            names(x)
            for v in s.env.values():
                names(v)
            if any(i not in used for i in ls):
                s.mon = put(s.mon, lists=tuple(sorted(((i, v) for i, v in ls.items() if i in used), key=repr)))

    # ------------------------------------------------------------------ the input queue
    def take(self, e, st, c):
        """Outcomes of taking the next line: [(state, line value | None)]."""
        st = st.copy()
        self.sweep(st)
        la = list(get(st.mon, "ahead", ()))
        tail = get(st.mon, "tail")
        outs = []
        if la:
            i = la.pop(0)
            s = st.copy()
            s.env.pop(("L", ("peeked",), 0), None)
            s.mon = put(s.mon, ahead=tuple(la))
            self.setflight(s, self.flight(s) + [i])
            return [(s, self.mkline(i, self.kinds.index(i[2])))]
        if tail != "some":
            s = st.copy()
            s.mon = put(s.mon, tail="empty")
            outs.append((s, None))
        if tail != "empty":
            if get(st.mon, "closed"):
                self.violation("unbounded|" + get(st.mon, "closed"),
                               "%s: a group of CHECK-NOT lines is stored as one that extends to the end of its block although another check follows it" % get(st.mon, "closed"))
            for ki in self.lineix:
                s = st.copy()
                i = self.fresh_line(s, ki)
                s.mon = put(s.mon, tail=None)
                self.setflight(s, self.flight(s) + [i])
                self.seenkinds.add(self.kinds[ki])
                outs.append((s, self.mkline(i, ki)))
        return outs

    def fresh_line(self, s, ki):
        used = {x[1] for x in self.flight(s) + list(get(s.mon, "ahead", ())) if x[0] == "line"}
        n = 0
        while n in used:
            n += 1
        if n > 12:
            raise Budget("lines are taken from the input without being stored")
        return ("line", n, self.kinds[ki])

    def peek(self, e, st, c):
        la = get(st.mon, "ahead", ())
        tail = get(st.mon, "tail")
        if la:
            return [(st, la[0])]
        outs = []
        if tail != "some":
            s = st.copy()
            s.mon = put(s.mon, tail="empty")
            outs.append((s, None))
        if tail != "empty":
            for ki in self.lineix:
                s = st.copy()
                i = self.fresh_line(s, ki)
                s.mon = put(s.mon, ahead=(i,), tail=None)
                outs.append((s, i))
        return outs

    def peekval(self, s, c, i):
        root = ("L", ("peeked",), 0)
        s = s.copy()
        s.env[root] = self.mkline(i, self.kinds.index(i[2]))
        return s, ("ref", root, ())

    def is_queue(self, e, st, v):
        v = e.deref_all(st, v)
        while v[0] == "iter" and v[1] not in ("map", "filter", "filter_map", "enumerate", "inspect"):
            v = v[2]
        return v == ("sym", ("body",), ())

    def is_blocks(self, e, st, v):
        return e.deref_all(st, v) == ("sym", ("blocks",), ())

    # ------------------------------------------------------------------ storing
    def merge(self, e, s, i, its, kinds, last, c):
        """Items `its` are appended to list i."""
        f = self.flight(s)
        content = self.kind_of(s, i)
        at = f.index(i) if i in f else None
        missing = [x for x in its if x not in f]
        if missing:
            self.violation("twice|" + self.describe(missing[0]), "%s: a %s line is stored although it was stored before" % (c.loc(), self.describe(missing[0])))
            return
        pos = [f.index(x) for x in its]
        if at is not None and (not pos or pos != list(range(at + 1, at + 1 + len(pos)))) or (at is None and pos != list(range(pos[0], pos[0] + len(pos)) if pos else [])):
            if its:
                self.violation("order|" + self.describe(its[0]), "%s: a %s line is stored out of order" % (c.loc(), self.describe(its[0])))
        for x in its:
            f.remove(x)
        if its:
            k = at if at is not None else pos[0]
            if at is None:
                f.insert(min(k, len(f)), i)
        self.setflight(s, f)
        for x in its:
            if x[0] == "list":
                self.setlist(s, x, None, None)
        self.setlist(s, i, content | kinds, last)

    def store(self, e, s, v, c, what):
        """v reaches its final destination."""
        self.stores += 1
        its = self.items(e, s, v)
        f = self.flight(s)
        for n, x in enumerate(its):
            if x[0] == "list" and not self.kind_of(s, x):
                continue
            if x not in f:
                if x[0] in ("elem", "list"):
                    continue
                self.violation("twice|" + self.describe(x), "%s: %s is stored although it was stored before" % (c.loc(), self.describe(x)))
                continue
            if f[0] != x:
                self.violation("order|%s" % self.describe(x), "%s: %s is stored before %s that precedes it" % (c.loc(), self.describe(x), self.describe(f[0])))
            f.remove(x)
        self.setflight(s, f)
        for x in its:
            if x[0] == "list":
                self.setlist(s, x, None, None)
            if x[0] == "elem":
                s.mon = put(s.mon, elem="stored")

    def describe(self, i):
        if i[0] == "line":
            return "CHECK-%s" % i[2].upper()
        return {"list": "a list of checks", "elem": "a group of checks", "prev": "the preceding group", "label": "the label"}[i[0]]

    # ------------------------------------------------------------------ what a group may contain
    def only(self, st, its, ks):
        got = frozenset()
        for x in its:
            got |= self.kind_of(st, x)
        return got and got <= frozenset(ks)

    def judge(self, e, s, v, c, bounded=False):
        """A group is made of the kinds of lines it stands for."""
        v = e.deref_all(s, v)
        if v[0] != "adt" or v[1] != self.group:
            its = self.items(e, s, v)
            if its and all(x[0] in ("prev", "elem") for x in its):
                return
            self.violation("group|unknown", "%s: a group of unknown kind is stored" % c.loc())
            return
        n = self.gnames[v[2]]
        f = {(x["n"] if isinstance(x, dict) else x): y for x, y in zip(self.r.p.adts[self.group]["v"][v[2]]["f"], v[3])}
        vals = list(v[3])
        its = self.items(e, s, v)
        if its and its[0][0] == "prev" and n != "Tree":
            return

        def want(x, ks, what):
            t = self.items(e, s, x)
            if not self.only(s, t, ks):
                got = sorted(set().union(*[self.kind_of(s, y) for y in t])) if t else ["no"]
                self.violation("group|%s|%s" % (n, ",".join(got)), "%s: %s lines are compiled into %s" % (c.loc(), "/".join(got), what))
        if n == "Never":
            want(vals[0], ("Not",), "a group of CHECK-NOTs")
            s.mon = put(s.mon, closed=c.loc())
        elif n == "Unordered":
            want(vals[0], ("Dag",), "a group of CHECK-DAGs")
        elif n == "Bounded":
            want(f["left"], ("Dag",), "a group of CHECK-DAGs")
            self.judge(e, s, f["right"], c, True)
        elif n == "Ordered":
            x = e.deref_all(s, vals[0])
            if x[0] == "arr":
                for y in x[1]:
                    self.rule_ok(e, s, y, c, counts=False)
            else:
                want(vals[0], ("rule",), "a sequence of checks")
        elif n == "Repeated":
            self.rule_ok(e, s, f["rule"], c, counts=True)
            t = self.items(e, s, f["rule"])
            good = len(t) == 1 and e.deref_all(s, f["count"]) == ("sym", t[0], ("count",))
            if not good:
                self.violation("count", "%s: a repeated check is compiled with a number of repetitions other than the one its CHECK-COUNT line asks for" % c.loc())
        elif n == "Tree":
            self.judge_tree(e, s, vals[0], c, want)
        else:
            self.violation("group|" + n, "%s: a group of unknown kind %s is stored" % (c.loc(), n))

    def judge_tree(self, e, s, t, c, want):
        t = e.deref_all(s, t)
        if t[0] != "adt" or t[1] != self.tree:
            its = self.items(e, s, t)
            if not (its and all(x[0] == "prev" for x in its)):
                self.violation("group|tree", "%s: a tree of unknown structure is stored" % c.loc())
            return
        vd = self.r.p.adts[self.tree]["v"][t[2]]
        f = {(x["n"] if isinstance(x, dict) else x): y for x, y in zip(vd["f"], t[3])}
        if vd["n"] == "MatchAll":
            its = self.items(e, s, t[3][0])
            if its and its[0][0] == "prev":
                return
            self.judge(e, s, t[3][0], c)
            return
        if "root" not in f:
            self.violation("group|tree|" + vd["n"], "%s: a tree of unknown kind %s is stored" % (c.loc(), vd["n"]))
            return
        want(f["root"], ("Not",), "the CHECK-NOTs of a tree")
        for k in ("left", "right"):
            if k in f:
                self.judge_tree(e, s, f[k], c, want)
        if "right" not in f:
            s.mon = put(s.mon, closed=c.loc())

    def rule_ok(self, e, s, v, c, counts):
        """A compiled rule belongs to the line it was compiled from."""
        v = e.deref_all(s, v)
        t = self.items(e, s, v)
        if len(t) != 1 or t[0][0] != "line" or v[0] != "adt":
            self.violation("rule|unknown", "%s: a rule that was not compiled from exactly one check line is stored" % c.loc())
            return t
        k = t[0][2]
        nm = v[1].rsplit("::", 1)[-1]
        if RULEOF.get(k) != nm:
            self.violation("rule|%s|%s" % (k, nm), "%s: a CHECK-%s line is compiled into a %s rule" % (c.loc(), k.upper(), nm))
        if (k == "Count") != counts:
            self.violation("rule|%s|repeated" % k, "%s: a CHECK-%s line is compiled into %s check" % (c.loc(), k.upper(), "a repeated" if counts else "a single"))
        return t

    # ------------------------------------------------------------------ events
    def elements(self, e, st, c, src, ety, site):
        v = e.deref_all(st, src)
        if self.is_queue(e, st, v):
            return self.take(e, st, c)
        i = self.listof(e, st, v)
        if i is None:
            return None
        content, last = dict(get(st.mon, "lists", ())).get(i, (frozenset(), None))
        if last is not None or "group" in content:
            # groups: each one has to be stored when the next one is asked for
            if get(st.mon, "elem") == "open":
                self.violation("group-dropped", "%s: a compiled group of checks is not stored" % c.loc())
            f = self.flight(st)
            outs = []
            if not content or get(st.mon, "elem"):
                s = st.copy()
                s.mon = put(s.mon, elem=None)
                if i in f:
                    f.remove(i)
                    self.setflight(s, f)
                self.setlist(s, i, None, None)
                outs.append((s, None))
            if content:
                if get(st.mon, "elem") is None and (not f or f[0] != i):
                    self.violation("order|groups", "%s: groups are stored before %s that precedes them" % (c.loc(), self.describe(f[0]) if f else "nothing"))
                s = st.copy()
                s.mon = put(s.mon, elem="open")
                outs.append((s, ("sym", ("elem", i), ())))
            return outs
        ks = sorted(content)
        at = dict(get(st.mon, "walk", ()))
        n = at.get(i, 0)
        s = st.copy()
        if n >= len(ks):
            at.pop(i, None)
            s.mon = put(s.mon, walk=tuple(sorted(at.items())))
            return [(s, None)]
        at[i] = n + 1
        s.mon = put(s.mon, walk=tuple(sorted(at.items())))
        root = ("L", ("listelem",), 0)
        ki = self.kinds.index(ks[n]) if ks[n] in self.kinds else self.kinds.index("Not")
        s.env[root] = self.mkline(("some", ks[n]), ki)
        return [(s, ("ref", root, ()))]

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        tr = str(c.trait)
        a0 = c.args[0] if c.args else None
        if a0 is not None:
            r = self.queue_call(e, st, c, nm, last, tr)
            if r is not None:
                return r
        # ---- compiling single lines
        if re.search(r"MatchAll(<.*>)?::compile$", nm):
            return self.compiled(st, c.args[0])
        if re.search(r"Pattern(<.*>)?::(compile|compile_literal)$", nm):
            t = e.deref_all(st, c.args[0])
            its = self.items(e, st, t)
            lit = nm.endswith("literal")
            if its and its[0][0] == "line" and dict(get(st.mon, "lit", ())).get(its[0]) is (not lit):
                self.violation("literal|%s" % lit, "%s: a %s pattern is compiled as %s" % (c.loc(), "LITERAL" if not lit else "non-LITERAL", "a literal one" if lit else "a regular one"))
            return self.compiled(st, t)
        if re.search(r"Pattern(<.*>)?::compile_static$", nm):
            p = self.items(e, st, c.args[1])
            if len(p) != 1 or p[0][0] not in ("line", "label"):
                self.violation("label-pattern", "%s: the pattern of a label is not the one of its CHECK-LABEL line" % c.loc())
            return self.compiled(st, c.args[1])
        if last == "into_matcher_mut":
            return [(st, c.args[0])]
        if re.search(r"MatchAny.* as core::convert::From<.*>>::from$", nm) or (last in ("into", "from") and self.listof(e, st, c.args[0]) is not None and peel(c.dt) is not None and "Vec" not in str(peel(c.dt)[2])):
            return [(st, c.args[0])]
        if last == "is_literal_match" and a0 is not None:
            v = e.deref_all(st, a0)
            its = self.items(e, st, v)
            if its and its[0][0] == "line":
                outs = []
                d = dict(get(st.mon, "lit", ()))
                for b in ((d[its[0]],) if its[0] in d else (True, False)):
                    s = st.copy()
                    d2 = dict(d)
                    d2[its[0]] = b
                    s.mon = put(s.mon, lit=tuple(sorted(d2.items())))
                    outs.append((s, TRUE if b else FALSE))
                return outs
        # ---- lists
        if last in ("new", "default", "with_capacity") and self.seqtype(c.dt):
            s = st.copy()
            return [(s, ("sym", self.newlist(s, c), ()))]
        if last == "new_uninit" and "Box" in nm:
            root = ("L", ("heap", c.fr.id, c.blk), 0)
            s = st.copy()
            s.env[root] = ("sym", ("uninit", c.fr.fn.name, c.blk), ())
            return [(s, ("ref", root, ()))]
        if last in ("box_assume_init_into_vec_unsafe", "into_vec") and self.seqtype(c.dt):
            els = self.find_array(e, st, a0)
            if els is None:
                raise Budget("a list of unknown content at %s" % c.loc())
            s = st.copy()
            i = self.newlist(s, c)
            for x in els:
                self.append(e, s, i, x, c)
            return [(s, ("sym", i, ()))]
        if (last == "take" and "mem" in nm or last == "drain" and full_range(e, st, c)) and self.listof(e, st, a0) is not None:
            i = self.listof(e, st, a0)
            s = st.copy()
            j = self.newlist(s, c)
            loc = (a0[1], a0[2])
            while e.get(s, loc)[0] == "ref":
                x = e.get(s, loc)
                loc = (x[1], x[2])
            e.set(s, loc, ("sym", j, ()))
            return [(s, ("sym", i, ()))]
        if last == "compile_blocks" and "compile_lines" in c.fr.fn.name + str([x for x, _ in c.fr.stack]) and self.labels:
            f = [x for x in self.flight(st) if not (x[0] == "list" and not self.kind_of(st, x))]
            if f:
                self.violation("lines-dropped", "%s: %s is not handed on to be compiled" % (c.loc(), self.describe(f[0])))
            if get(st.mon, "ahead") or get(st.mon, "tail") != "empty":
                self.violation("lines-left", "%s: compilation goes on before every line of the check file was taken" % c.loc())
            s = st.copy()
            s.mon = put(s.mon, compiled=True)
            return [(s, ("sym", ("compiled",), ()))]
        if last == "clone" and a0 is not None:
            v = e.deref_all(st, a0)
            if v[0] == "adt" and v[1] == self.line:
                return [(st, v)]
        i = self.listof(e, st, a0) if a0 is not None else None
        if last in ("extend", "append") and len(c.args) > 1 and (i is not None or self.items(e, st, c.args[1]) or self.walks(e, st, c.args[1])):
            it = c.args[1]
            v = e.deref_all(st, it)
            if v[0] == "adt" and v[1] == OPT:
                s = st.copy()
                if v[2] == 1 and not self.push(e, s, a0, v[3][0], c):
                    raise Budget("something unknown is added to a list of checks at %s" % c.loc())
                return [(s, UNIT)]
            if v[0] == "arr":
                s = st.copy()
                for x in v[1]:
                    if not self.push(e, s, a0, x, c):
                        raise Budget("something unknown is added to a list of checks at %s" % c.loc())
                return [(s, UNIT)]
            if self.walks(e, st, it):
                def body(s, x):
                    s = s.copy()
                    if not self.push(e, s, a0, x, c):
                        raise Budget("something unknown is added to a list of checks at %s" % c.loc())
                    return [(s, False, None)]
                done, _ = loop_states(e, st, c, it, body)
                return [(s, UNIT) for s in done]
            raise Budget("something unknown is added to a list of checks at %s" % c.loc())
        if i is not None:
            return self.list_call(e, st, c, i, last)
        if last in ("push", "push_back") and len(c.args) > 1:
            s = st.copy()
            if self.push(e, s, a0, c.args[1], c):
                return [(s, UNIT)]
        return None

    def walks(self, e, st, it):
        """Whether `it` iterates over one of the queues or lists."""
        v = e.deref_all(st, it)
        while v[0] == "iter":
            v = e.deref_all(st, v[2])
        return self.listof(e, st, v) is not None or self.is_queue(e, st, v) or self.is_blocks(e, st, v)

    def push(self, e, s, dst, v, c):
        """v is appended to dst (in s); whether it is something this analysis knows."""
        i = self.listof(e, s, dst)
        if i is not None:
            self.append(e, s, i, v, c)
            return True
        x = e.deref_all(s, v)
        if not (self.items(e, s, v) or (x[0] == "adt" and x[1] == self.section)):
            return False
        if x[0] == "adt" and x[1] == self.section:
            if vname(self.r.p, self.section, x[2]) == "Group":
                self.judge(e, s, x[3][0], c)
        elif x[0] == "tup" and self.labels:
            self.flush(e, s, x, c)
        self.store(e, s, v, c, "stored")
        return True

    def compiled(self, st, v):
        return [(st, ok(v))] + ([(self.failed(st), err(("sym", ("compileerr",), ())))] if self.fail else [])

    def failed(self, st):
        s = st.copy()
        s.mon = put(s.mon, failed=True)
        return s

    def find_array(self, e, st, a):
        v = e.deref_all(st, a)

        def walk(x, n):
            if not isinstance(x, tuple) or n > 8:
                return None
            if x and x[0] == "arr":
                return x[1]
            for y in x:
                r = walk(y, n + 1)
                if r is not None:
                    return r
            return None
        return walk(v, 0)

    def seqtype(self, t):
        """Whether t is a list of lines, rules or groups."""
        t = peel(t)
        if t is None or t[0] != "adt" or not re.search(r"(::Vec|::SmallVec|::VecDeque)$", t[2] or "") or not t[3]:
            return False
        x = t[3][0]
        if x[0] in ("slice", "array") and x[3]:
            x = x[3][0]
        return bool(x[0] == "adt" and (x[2] in (self.line, self.group) or (x[2].endswith("Box") and "DynRule" in str(x))))

    def queue_call(self, e, st, c, nm, last, tr):
        a0 = c.args[0]
        if self.is_blocks(e, st, a0):
            if last in ("pop_front", "next"):
                if get(st.mon, "active"):
                    self.end_body(st, c)
                st = st.copy()
                self.sweep(st)
                s0 = st.copy()
                s0.mon = put(s0.mon, done=True, active=None)
                outs = [(s0, NONE)]
                for lab in self.labelled:
                    s = st.copy()
                    s.mon = put(s.mon, active=True, ahead=(), tail=None, closed=None, lit=())
                    l = NONE
                    if lab:
                        i = ("label", 0, "Label")
                        self.setflight(s, self.flight(s) + [i])
                        l = some(self.mkline(i, self.kinds.index("Label")))
                    outs.append((s, some(("tup", (l, ("sym", ("body",), ()))))))
                return outs
            if last in ("into_iter", "drain", "by_ref", "deref", "deref_mut", "iter_mut"):
                return [(st, a0)]
            return None
        if not self.is_queue(e, st, a0):
            return None
        if last in ("from", "into", "into_iter", "peekable", "fuse", "by_ref", "deref", "deref_mut", "from_iter", "collect", "into_boxed_slice", "drain"):
            return [(st, ("sym", ("body",), ()) if a0[0] != "ref" else a0)]
        if last in ("pop_front", "next"):
            return [(s, NONE if x is None else some(x)) for s, x in self.take(e, st, c)]
        if last in ("peek", "front", "first", "peek_mut", "front_mut"):
            outs = []
            for s, i in self.peek(e, st, c):
                if i is None:
                    outs.append((s, NONE))
                else:
                    s, v = self.peekval(s, c, i)
                    outs.append((s, some(v)))
            return outs
        if last == "is_empty":
            if get(st.mon, "ahead"):
                return [(st, FALSE)]
            outs = []
            for t, v in (("empty", TRUE), ("some", FALSE)):
                if get(st.mon, "tail") in (None, t):
                    s = st.copy()
                    s.mon = put(s.mon, tail=t)
                    outs.append((s, v))
            return outs
        if last in ("next_if", "pop_front_if") and len(c.args) > 1:
            outs = []
            for s, i in self.peek(e, st, c):
                if i is None:
                    outs.append((s, NONE))
                    continue
                s, v = self.peekval(s, c, i)
                r = e.call_value(c.fr, c.blk + ("nif",), c.line, c.args[1], [v], s)
                for s2, b in r or ():
                    t = e.assume(s2, b, True)
                    if t is not None:
                        outs += [(s3, some(x)) for s3, x in self.take(e, t, c)]
                    f = e.assume(s2, b, False)
                    if f is not None:
                        outs.append((f, NONE))
            return outs
        if last == "push_front":
            its = self.items(e, st, c.args[1])
            f = self.flight(st)
            s = st.copy()
            if len(its) == 1 and its[0][0] == "line" and f and f[-1] == its[0]:
                self.setflight(s, f[:-1])
                s.mon = put(s.mon, ahead=(its[0],) + tuple(get(s.mon, "ahead", ())))
            else:
                self.violation("putback", "%s: something other than the last line taken is put back" % c.loc())
            return [(s, UNIT)]
        if last in ("push_back", "pop_back", "clear", "truncate", "retain", "swap", "reverse", "sort", "sort_by", "sort_by_key", "nth", "last", "dedup",
                    "skip", "take", "step_by", "rev", "skip_while", "take_while"):
            self.violation("queue|" + last, "%s: the lines of a block are not taken in order, one by one" % c.loc())
        return None

    def end_body(self, st, c):
        if get(st.mon, "ahead") or get(st.mon, "tail") != "empty":
            self.violation("body-left", "%s: a block is finished before every line of it was taken" % (c.loc() if c is not None else self.where))
        f = [x for x in self.flight(st) if not (x[0] == "list" and not self.kind_of(st, x))]
        if f:
            self.violation("dropped|" + self.describe(f[0]), "%s: %s of a block is not stored in the check program" % (c.loc() if c is not None else self.where, self.describe(f[0])))

    def append(self, e, s, i, v, c):
        """v is pushed onto list i."""
        x = e.deref_all(s, v)
        its = self.items(e, s, v)
        if x[0] == "adt" and x[1] == self.group:
            self.judge(e, s, x, c)
            self.merge(e, s, i, its, frozenset(("group",)), x[2], c)
            return
        if x[0] == "adt" and x[1] == self.line:
            ki = x[3][self.tyi][3][self.kindi] if x[3][self.tyi][0] == "adt" else TOP
            k = self.kinds[ki[2]] if ki[0] == "adt" else "?"
            if not its:
                if k != "Not":
                    self.violation("implicit-kind", "%s: a check of kind %s that is in no line of the check file is added" % (c.loc(), k))
                if not get(s.mon, "enabled"):
                    self.violation("implicit-extra", "%s: a check is added that is in no line of the check file" % c.loc())
                s.mon = put(s.mon, imp=True)
            elif self.labels:
                if k in DEPENDENT and not get(s.mon, "indep"):
                    self.violation("dependent|" + k, "%s: a CHECK-%s without a preceding check it could depend on is accepted" % (c.loc(), k.upper()))
                if k in INDEPENDENT:
                    s.mon = put(s.mon, indep=True)
                if k != "Not":
                    if get(s.mon, "enabled") and not get(s.mon, "imp"):
                        self.violation("implicit-missing", "%s: no --implicit-check-not check is inserted before a positive check" % c.loc())
                    s.mon = put(s.mon, imp=False)
            self.merge(e, s, i, its, frozenset((CLASS.get(k, k) if self.labels else k,)), None, c)
            return
        if its and its[0][0] == "line":
            self.rule_ok(e, s, x, c, counts=False)
            self.merge(e, s, i, its, frozenset(("rule",)), None, c)
            return
        if its:
            # a group (or part of one) of unknown kind
            self.merge(e, s, i, its, frozenset(("group",)), None, c)
            return
        raise Budget("something unknown is added to a list of checks at %s" % c.loc())

    def flush(self, e, s, x, c):
        """A block of lines is complete."""
        if get(s.mon, "enabled") and not get(s.mon, "imp"):
            self.violation("implicit-end", "%s: no --implicit-check-not check is inserted after the last check of a block" % c.loc())
        lab = e.deref_all(s, x[1][0])
        its = self.items(e, s, lab)
        for i in its:
            if i[0] != "line" or i[2] != "Label":
                self.violation("label-kind", "%s: %s becomes the label of a block" % (c.loc(), self.describe(i)))
        for i in self.items(e, s, x[1][1]):
            if "Label" in self.kind_of(s, i):
                self.violation("label-lost", "%s: a CHECK-LABEL line is treated as a check within a block" % c.loc())
        s.mon = put(s.mon, imp=False, indep=any(i[0] == "line" and i[2] == "Label" and i not in its for i in self.flight(s)))

    def list_call(self, e, st, c, i, last):
        content, lastv = dict(get(st.mon, "lists", ())).get(i, (frozenset(), None))
        if last in ("push", "push_back"):
            s = st.copy()
            self.append(e, s, i, c.args[1], c)
            return [(s, UNIT)]
        if last in ("is_empty",):
            return [(st, FALSE if content else TRUE)]
        if last in ("iter", "into_iter", "as_slice", "deref", "deref_mut", "as_ref", "borrow", "drain", "as_mut_slice", "iter_mut"):
            s = st.copy()
            at = dict(get(s.mon, "walk", ()))
            at.pop(i, None)
            s.mon = put(s.mon, walk=tuple(sorted(at.items())))
            if last == "drain":
                raise Budget("drain of a list of checks at %s" % c.loc())
            return [(s, ("sym", i, ()) if last not in ("deref", "deref_mut", "as_slice", "as_ref", "borrow", "as_mut_slice") else c.args[0])]
        if last == "pop" and ("group" in content or not content):
            if not content:
                return [(st, NONE)]
            outs = []
            if lastv is None:
                s = st.copy()
                f = self.flight(s)
                if i in f:
                    f.remove(i)
                    self.setflight(s, f)
                self.setlist(s, i, (), None)
                outs.append((s, NONE))
            for v in ((lastv,) if lastv is not None else range(len(self.gnames))):
                s = st.copy()
                p = ("prev",)
                f = self.flight(s)
                if p in f:
                    self.violation("prev-dropped", "%s: a group is taken back while another one that was taken back is not stored" % c.loc())
                    continue
                f.insert(f.index(i) + 1 if i in f else 0, p)
                self.setflight(s, f)
                self.setlist(s, i, ("group",), None)
                n = len(self.r.p.adts[self.group]["v"][v]["f"])
                outs.append((s, some(("adt", self.group, v, tuple(("sym", p, (j,)) for j in range(n))))))
            return outs
        if last in ("pop", "clear", "truncate", "retain", "swap", "reverse", "sort", "sort_by", "sort_by_key", "remove", "swap_remove", "insert", "dedup", "push_front", "rotate_left", "rotate_right"):
            self.violation("list|" + last, "%s: a list of checks is changed other than by appending to it (%s)" % (c.loc(), last))
            return None
        if last == "len":
            return [(st, ("int", 0) if not content else e.fresh(st.copy(), ("len", c.fr.fn.name, c.blk), ()))]
        return None

    def on_panic(self, e, st, fr, line, name):
        if re.search(r"check::program::", fr.fn.name) and re.search(r"panicking::(panic|panic_fmt|panic_explicit|unreachable_display|assert_failed\w*)$", name):
            f = [x[2] for x in self.flight(st) if x[0] == "line"]
            self.violation("panic|%s" % (f[-1] if f else ""), "%s:%s: compilation panics (on a CHECK-%s line) instead of compiling the check" % (fr.fn.file, line, f[-1].upper() if f else "?"))

    def on_assign(self, e, st, fr, loc, val, line):
        # a label becomes pending: the checks of its block may depend on it
        if self.labels and val[0] == "adt" and val[1] == OPT and val[2] == 1 and not loc[1]:
            its = self.items(e, st, val)
            f = self.flight(st)
            if its and its[0][0] == "line" and its[0][2] == "Label" and its[0] in f:
                st.mon = put(st.mon, indep=True)


class Source(Lines):
    """compile_lines additionally asks for the options."""
    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if last in ("is_empty", "len") and c.args:
            v = e.norm(st, c.args[0])
            if self.is_option(v):
                b = get(st.mon, "enabled")
                outs = []
                for on in ((True, False) if b is None else (b,)):
                    s = st.copy()
                    s.mon = put(s.mon, enabled=on)
                    outs.append((s, (FALSE if on else TRUE) if last == "is_empty" else ("int", 1 if on else 0)))
                return outs
        return Lines.before_call(self, e, st, c)

    def is_option(self, v):
        from props.lit_fmt import contains
        oi = self.opt

        def p(x):
            return x[0] in ("sym", "symo") and len(x) >= 3 and isinstance(x[2], tuple) and any(x[2][j:j + 2] == oi for j in range(len(x[2]) - 1))
        return contains(v, p)


def report(r, fn, m, rl):
    for k, msg in sorted(m.bad.items()):
        r.ob(rl, k, False, "%s|%s" % (rl, k), msg)
    for k in sorted(m.seenkinds):
        r.ob(rl, "%s: %s lines" % (fn.name.rsplit("::", 1)[-1], k), True)


@rule("F03")
def f03(r):
    r.assumptions += ["compiling a single pattern or a list of patterns either fails or yields a matcher for all of them"]
    # ---- lines -> blocks
    fn = r.fn(r"CheckProgram(<.*>)?::compile_lines$")
    m = Source(r.p, watch=(r"CheckProgram(<.*>)?::compile_blocks$",), stop=(r"CheckProgram(<.*>)?::compile_blocks$", r"Pattern::compile", r"SourceManager", r"source_span", r"load_argument"),
               force=(r"check::program::",)).setup(r, True)
    cfg, opts = adt(r, "Config", "filecheck"), adt(r, "Options", "filecheck")
    m.opt = (fidx(r, cfg, "options"), fidx(r, opts, "implicit_check_not"))
    m.where = fn.loc()
    args = [("sym", ("arg", 1), ()), ("sym", ("body",), ()), ("sym", ("arg", 3), ())]
    e, outs = run(r, fn, m, args, State(mon=put((), active=True)))
    report(r, fn, m, "blocks")
    n = 0
    for s, v in outs:
        k, _ = result_of(e, s, v)
        if v == ("sym", ("compiled",), ()):
            n += 1
            continue
        dep = get(s.mon, "ahead", ()) or tuple(x for x in self_flight(s) if x[0] == "line")
        r.ob("blocks", "rejected: %s" % k, k == "err" and dep and dep[-1][2] in DEPENDENT and not get(s.mon, "indep"), "blocks|rejected|%s" % (dep[-1][2] if dep else None),
             "%s: a check file is %s" % (fn.loc(), "rejected although its first check does not depend on a preceding one" if k == "err" else "accepted without being compiled"))
    r.need(n, "a path that compiles the blocks")
    # ---- blocks -> sections
    fn = r.fn(r"CheckProgram(<.*>)?::compile_blocks$")
    m = Lines(r.p, watch=(r"CheckProgram(<.*>)?::compile_rule$",), stop=(r"Pattern(<.*>)?::", r"MatchAll", r"SourceSpan"), force=(r"check::program::",)).setup(r, False)
    m.where = fn.loc()
    args = [("sym", ("arg", 1), ()), ("sym", ("blocks",), ()), ("sym", ("arg", 3), ())]
    e, outs = run(r, fn, m, args, State(mon=()))
    report(r, fn, m, "sections")
    for s, v in outs:
        k, _ = result_of(e, s, v)
        if k == "ok" and not get(s.mon, "failed"):
            r.ob("sections", "compiled", bool(get(s.mon, "done")), "sections|early", "%s: a path succeeds before every block was compiled" % fn.loc())
            if get(s.mon, "active"):
                m.end_body(s, None)
        r.ob("sections", "verdict failed=%s %s" % (bool(get(s.mon, "failed")), k), (k == "ok") != bool(get(s.mon, "failed")), "sections|verdict|%s" % bool(get(s.mon, "failed")),
             "%s: compilation %s" % (fn.loc(), "succeeds although a check could not be compiled" if k == "ok" else "fails although every check could be compiled"))
    r.need(m.stores, "stores into the list of sections")
    whole(r)
    conversions(r)
    r.floor("blocks", 8)
    r.floor("sections", 9)


def self_flight(s):
    return get(s.mon, "flight", ())


def run(r, fn, m, args, st):
    try:
        return analyse(r, fn, m, args, st)
    except Budget:
        if not m.bad:
            raise
        return Engine(r.p, m), []


class Whole(Mon):
    init = ()
    want = None

    def before_call(self, e, st, c):
        last = c.name.rsplit("::", 1)[-1]
        if last == "compile_lines":
            outs = []
            for k in ("ok", "err"):
                s = st.copy()
                s.mon = put(s.mon, lines=k, got=e.deref_all(s, c.args[1]))
                if k == "ok":
                    e.set(s, (c.args[0][1], c.args[0][2]), ("sym", ("compiled program",), ()))
                outs.append((s, ok(UNIT) if k == "ok" else err(("sym", ("compileerr",), ()))))
            return outs
        if last == "is_empty" and c.args and self.want is not None and e.deref_all(st, c.args[0]) == self.want:
            outs = []
            for b in (True, False):
                s = st.copy()
                s.mon = put(s.mon, empty=b)
                outs.append((s, TRUE if b else FALSE))
            return outs
        return None


def whole(r):
    """A check file is compiled from all of its lines, or rejected."""
    fn = r.fn(r"CheckProgram(<.*>)?::compile$")
    m = Whole(r.p, watch=(r"compile_lines$",), force=(r"CheckFile(<.*>)?::into_lines$",))
    cf = adt(r, "CheckFile", "filecheck")
    m.want = want = ("sym", ("arg", 1), (fidx(r, cf, "lines"),))
    e, outs = analyse(r, fn, m)
    for s, v in outs:
        k, pay = result_of(e, s, v)
        l = get(s.mon, "lines")
        r.ob("whole", "compile: lines=%s %s" % (l, k), (k == "ok") == (l == "ok") and k in ("ok", "err"), "whole|%s|%s" % (l, k),
             "%s: compilation of a check file %s" % (fn.loc(), "succeeds although its lines were not compiled" if k == "ok" else "fails although its lines were compiled"))
        if l is None:
            r.ob("whole", "rejected: empty=%s" % get(s.mon, "empty"), get(s.mon, "empty") is not False, "whole|rejected", "%s: a check file with check lines is rejected without being compiled" % fn.loc())
        if l:
            r.ob("whole", "all lines", get(s.mon, "got") == want, "whole|lines", "%s: something other than the lines of the check file is compiled" % fn.loc())
        if k == "ok" and l == "ok":
            r.ob("whole", "program returned", e.deref_all(s, pay) == ("sym", ("compiled program",), ()), "whole|program", "%s: the program that is returned is not the one that was compiled" % fn.loc())
    r.floor("whole", 4)


def conversions(r):
    """Conversions between the representations of a set of patterns keep all of it."""
    f = [x for x in r.p.fns.values() if not x.ext and re.search(r"MatchAny(<.*>)? as core::convert::From<.*MatchAll.*>>::from$", x.name)]
    r.need(len(f) == 1, "the conversion from MatchAll to MatchAny")
    f = f[0]
    a, b = adt(r, "MatchAll", "filecheck"), adt(r, "MatchAny", "filecheck")
    for i, v in enumerate(r.p.adts[a]["v"]):
        fs = tuple(("sym", ("part", j), ()) for j in range(len(v["f"])))
        e, outs = analyse(r, f, Mon(r.p), [("adt", a, i, fs)], State(mon=()))
        for s, x in outs:
            good = x[0] == "adt" and x[1] == b and vname(r.p, b, x[2]) == v["n"] and x[3] == fs
            r.ob("converted", v["n"], good, "converted|" + v["n"], "%s: a set of patterns of kind %s is not kept when it becomes a set of excluded patterns" % (f.loc(), v["n"]))
    fn = r.fn(r"pattern::Pattern(<.*>)?::into_matcher_mut$")
    a = adt(r, "Pattern", r"filecheck::pattern::Pattern$")
    for i, v in enumerate(r.p.adts[a]["v"]):
        e, outs = analyse(r, fn, Mon(r.p), [("adt", a, i, (("sym", ("part", i), ()),))], State(mon=()))
        for s, x in outs:
            r.ob("converted", "matcher " + v["n"], e.deref_all(s, x) == ("sym", ("part", i), ()), "converted|matcher|" + v["n"],
                 "%s: the matcher of a %s pattern is not the one that was compiled" % (fn.loc(), v["n"]))
