"""F13: prefixes are well-formed, and none is both a check prefix and a comment prefix."""
import itertools
import re
from absint import State
from kit import Mon, TRUE, FALSE, adt, vidx, fidx, result_of, some, ok, err, NONE, analyse, Vecs
from strs import text_call
from rules import rule
from props.fc_report import get, put

UNIT = ("tup", ())
LISTS = ("check_prefixes", "comment_prefixes")
NAMED = ("Check", "Com", "Run")


def S(*k):
    return ("sym", k, ())


def flag(b):
    return TRUE if b else FALSE


CHAR = {"is_ascii": lambda c: c < "\x80", "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum, "is_numeric": str.isnumeric,
        "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_whitespace": str.isspace, "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
        "is_ascii_alphabetic": lambda c: c < "\x80" and c.isalpha(), "is_ascii_alphanumeric": lambda c: c < "\x80" and c.isalnum(),
        "is_ascii_digit": lambda c: c in "0123456789", "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z",
        "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF", "is_ascii_punctuation": lambda c: "!" <= c <= "~" and not c.isalnum(),
        "is_ascii_graphic": lambda c: "!" <= c <= "~", "is_ascii_whitespace": lambda c: c in " \t\n\x0c\r", "is_ascii_control": lambda c: c < " " or c == "\x7f"}


class Texts(Vecs, Mon):
    """Texts are known characters, one for each class of them; a predicate is applied to each of them."""
    watch = (r"prefix_value_parser",)
    force = (r"prefix_value_parser",)
    init = ()

    def holds(self, e, st, c, f, ch, site):
        """[(state, the pattern f matches the character)], None if unknown."""
        v = e.norm(st, e.deref_all(st, f))
        x = ("int", ord(ch))
        if v[0] == "int":
            return [(st, v == x)]
        if v[0] in ("arr", "tup"):
            return [(st, x in v[1])]
        outs = []
        for s, b in e.call_value(c.fr, (c.blk, site), c.line, f, [x], st) or ():
            t = e.truth(s, b)
            if t is None:
                return None
            outs.append((s, t))
        return outs or None

    def scan(self, e, st, c, s, f, want, by=None):
        """[(state, index of the first character for which f is `want`, None if there is none)]"""
        work, outs = [(st, 0)], []
        while work:
            q, i = work.pop()
            if i == len(s):
                outs.append((q, None))
                continue
            got = self.holds(e, q, c, f, s[i], i)
            if got is None:
                return None
            for q2, t in got:
                if t == want:
                    outs.append((q2, i))
                else:
                    work.append((q2, i + 1))
        return outs

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("Symbol::intern"):
            return [(st, S("interned", e.deref_all(st, c.args[0])))]
        if "clap" in nm and "Error" in nm:
            return [(st, S("refused"))]
        if nm in self.p.fns and not self.p.fns[nm].ext or not c.args:
            return None
        a = e.norm(st, e.deref_all(st, c.args[0]))
        if a[0] == "int" and last in CHAR and len(c.args) == 1:
            return [(st, flag(CHAR[last](chr(a[1]))))]
        if a[0] == "str":
            s = a[1]
            if last in ("is_empty", "len"):
                return [(st, flag(not s) if last == "is_empty" else ("int", len(s.encode())))]
            if last in ("chars", "as_bytes", "bytes", "char_indices"):
                els = tuple(("int", x) for x in (s.encode() if "bytes" in last else map(ord, s)))
                if last == "char_indices":
                    els = tuple(("tup", (("int", len(s[:i].encode())), x)) for i, x in enumerate(els))
                return [(st, ("arr", els) if last == "as_bytes" else ("iter", "arr", ("arr", els), ("int", 0)))]
            if last in ("trim_matches", "trim_start_matches", "trim_end_matches") and len(c.args) == 2:
                outs = []
                for q, i in self.scan(e, st, c, s, c.args[1], False) if last != "trim_end_matches" else [(st, 0)]:
                    t = s[i:] if i is not None else ""
                    for q2, j in (self.scan(e, q, c, t[::-1], c.args[1], False) or ()) if last != "trim_start_matches" else [(q, 0)]:
                        outs.append((q2, ("str", t[:len(t) - j] if j is not None else "")))
                return outs or None
            if last in ("starts_with", "ends_with", "contains", "find", "strip_prefix") and len(c.args) == 2:
                y = e.deref_all(st, c.args[1])
                if y[0] == "str":
                    return [(st, flag({"starts_with": s.startswith, "ends_with": s.endswith, "contains": s.__contains__}[last](y[1])))] if last in ("starts_with", "ends_with", "contains") else None
                part = s[:1] if last in ("starts_with", "strip_prefix") else s[-1:] if last == "ends_with" else s
                got = self.scan(e, st, c, part, c.args[1], True)
                if got is None:
                    return None
                if last == "find":
                    return [(q, NONE if i is None else some(("int", len(s[:i].encode())))) for q, i in got]
                if last == "strip_prefix":
                    return [(q, NONE if i is None else some(("str", s[1:]))) for q, i in got]
                return [(q, flag(i is not None)) for q, i in got]
        if last in ("all", "any") and len(c.args) == 2 and a[0] == "iter":
            outs = []
            for q, xs in self.drain(e, st, c, a) or ():
                xs = [e.norm(q, e.deref_all(q, x)) for x in xs]
                if any(x[0] != "int" for x in xs):
                    return None
                got = self.scan(e, q, c, "".join(chr(x[1]) for x in xs), c.args[1], last == "any")
                if got is None:
                    return None
                outs += [(q2, flag((i is not None) == (last == "any"))) for q2, i in got]
            return outs or None
        v = self.vec_call(e, st, c, last)
        return v if v is not None else text_call(e, st, c)

    def on_panic(self, e, st, *a):
        return None


class Flags(Texts):
    """The options as clap is told about them; what reads the values of the two lists is applied to texts."""
    watch = (r"prefix_value_parser", r"Symbol::intern$", r"clap_builder::builder::arg::Arg::new")
    texts, sink = (), None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if re.search(r"Arg(::new|<.*>::new)$", nm):
            x = e.deref_all(st, c.args[0])
            return [(st, S("arg", x[1] if x[0] == "str" else "?"))]
        if "ValueParser" in nm and last in ("from", "new", "into") and len(c.args) == 1:
            return [(st, c.args[0])]
        a = e.deref_all(st, c.args[0]) if c.args else None
        if a and a[0] == "sym" and a[1][0] == "arg" and "::Arg::" in nm:
            if a[1][1] in LISTS:
                if last == "value_parser":
                    for t in self.texts:
                        ends = e.call_value(c.fr, (c.blk, t), c.line, e.deref_all(st, c.args[1]), [("str", t)], st)
                        self.sink(a[1][1], t, [(result_of(e, s, v)[0], e.deref_all(s, result_of(e, s, v)[1])) for s, v in ends or ()])
                if last == "value_delimiter":
                    d = e.deref_all(st, c.args[1])
                    self.sink(a[1][1], None, d)
            return [(st, a)]
        return Texts.before_call(self, e, st, c)


class Start(Vecs, Mon):
    """mon: the value of the lists that the checks are run with ('with'); the lists come from the command line, or from FILECHECK_OPTS."""
    watch = (r"Options::validate$", r"filecheck::(test::)?Test(<.*>)?::new$")
    force = (r"Options::validate",)
    init = ()
    later = None

    def before_call(self, e, st, c):
        nm, last = c.name, c.name.rsplit("::", 1)[-1]
        if nm.endswith("env::var"):
            return [(st, ok(S("opts")) if self.later else err(S("no opts")))]
        if nm.endswith("shlex::split"):
            return [(st, some(S("args")))]
        if last in ("update_from", "try_update_from") and c.args[0][0] == "ref":
            s = st.copy()
            v = e.deref_all(s, c.args[0])
            if v[0] == "adt":
                e.set(s, (c.args[0][1], c.args[0][2]), self.later)
            return [(s, UNIT if last == "update_from" else ok(UNIT))]
        if re.search(r"filecheck::(test::)?Test(<.*>)?::new$", nm):
            w = ()
            for a in c.args:
                v = e.deref_all(st, a)
                if v[0] == "adt" and v[1].endswith("::Config"):
                    v = e.deref_all(st, v[3][fidx(self.r, v[1], "options")])
                if v[0] == "adt" and v[1].endswith("::Options"):
                    w = tuple(self.lists(e, st, v, n) for n in LISTS)
            s = st.copy()
            s.mon = put(st.mon, **{"with": w})
            return [(s, S("test"))]
        if re.search(r"Test(<.*>)?::(verify|check)", nm):
            return [(st, ok(S("matches"))), (st, err(S("failed")))]
        if nm.endswith("into_source"):
            return [(st, ok(S("file")))]
        if last == "into_diagnostic":
            return [(st, c.args[0])]
        if "Config as core::default::Default" in nm:
            a = self.config
            return [(st, ("adt", a, 0, tuple(S("default", f["n"]) for f in self.p.adts[a]["v"][0]["f"])))]
        if last in ("eq", "ne") and len(c.args) == 2:
            x, y = (self.number(e, st, a) for a in c.args)
            if x is not None and y is not None:
                return [(st, flag((x == y) == (last == "eq")))]
        if nm in self.p.fns and not self.p.fns[nm].ext or not c.args:
            return None
        it = e.deref_all(st, c.args[0])
        if last in ("collect", "from_iter") and it[0] == "iter":
            return [(q, ("arr", tuple(xs))) for q, xs in self.drain(e, st, c, it) or ()] or None
        v, loc = self.vec_of(e, st, c.args[0])
        if v is not None and last in ("is_disjoint", "is_subset"):
            w = self.vec_of(e, st, c.args[1])[0]
            n, k = ([self.number(e, st, x) for x in y[1]] if y else [None] for y in (v, w))
            if None not in n + k:
                return [(st, flag(set(n) <= set(k) if last == "is_subset" else not set(n) & set(k)))]
        if v is not None:
            n = [self.number(e, st, x) for x in v[1]]
            if None not in n:
                if last in ("sort", "sort_unstable", "dedup") and loc:
                    keep, seen = [], None
                    for k, x in sorted(zip(n, v[1])) if last != "dedup" else zip(n, v[1]):
                        if last != "dedup" or k != seen:
                            keep.append(x)
                        seen = k
                    s = st.copy()
                    e.set(s, loc, ("arr", tuple(keep)))
                    return [(s, UNIT)]
                if last == "contains":
                    y = self.number(e, st, c.args[1])
                    if y is not None:
                        return [(st, flag(y in n))]
        v = self.vec_call(e, st, c, last)
        return v if v is not None else text_call(e, st, c)

    def number(self, e, st, v):
        """The number of a symbol."""
        for _ in range(4):
            v = e.norm(st, e.deref_all(st, v))
            if v[0] == "int":
                return v[1]
            if v[0] == "sym" and v[1][0] == "kadt":
                return v[1][2]
            if v[0] != "adt" or not re.search(r"Symbol(Index)?$", v[1]):
                return None
            v = v[3][0]
        return None

    def lists(self, e, st, v, n):
        v = e.deref_all(st, v[3][fidx(self.r, v[1], n)])
        return frozenset(self.number(e, st, x) for x in v[1]) if v[0] == "arr" else None

    def on_panic(self, e, st, *a):
        return None


def formed(r):
    others = "0_-.,:{} \t\n$\\/é٣ß€"
    every = [chr(i) for i in range(128)] + [x for x in others if x > "\x7f"]
    texts = [""] + every + ["a" + x for x in every] + ["Z" + x + "q" for x in others + "aZ9"] + ["a-" + x for x in others] + ["B_0" + x for x in others]
    m = Flags(r.p, texts=tuple(texts))
    seen = {}

    def sink(where, t, got):
        if t is None:
            seen.setdefault(where, {})["delimiter"] = got
        else:
            seen.setdefault(where, {}).setdefault("texts", {}).setdefault(t, []).extend(got or [("unknown", None)])
    m.sink = sink
    fn = r.fn(r"filecheck::Options as clap_builder::derive::Args>::augment_args$")
    analyse(r, fn, m, [S("command")])
    for where in LISTS:
        x = seen.get(where, {})
        at = fn.loc()
        r.ob("delimiter", where, x.get("delimiter") in (("int", ord(",")), some(("int", ord(",")))), "delimiter|" + where, "%s: the values of --%s are not separated by commas" % (at, where.replace("_", "-")))
        for t in texts:
            good = re.fullmatch(r"[A-Za-z][A-Za-z0-9_-]*", t) is not None
            got = x.get("texts", {}).get(t) or [("unknown", None)]
            k = {a for a, _ in got}
            msg = None if good and k == {"ok"} or not good and k == {"err"} else "is not decided" if k not in ({"ok"}, {"err"}) else "is refused although it is well-formed" if good else "is accepted although it is not well-formed"
            if not msg and good and any(v != S("interned", ("str", t)) for _, v in got):
                msg = "is read as something else"
            r.ob("form", where, msg is None, "form|%s|%s" % (where, (msg or "") and (msg[:12] + repr(t))), "%s: as a value of --%s, %r %s" % (at, where.replace("_", "-"), t, msg))


def distinct(r):
    p = r.p
    m = Start(p)
    m.r = r
    opts, cmd = adt(r, "Options", "filecheck"), adt(r, "FileCheck", "commands")
    m.config = adt(r, "Config", "filecheck")
    run = r.fn(r"FileCheck as .*Command>::run$")
    sym = {}
    from absint import Engine, Monitor
    e0 = Engine(p, Monitor())
    for n in NAMED:
        g = p.fns.get("litcheck_core::symbol::symbols::" + n)
        v = e0.eval_const_body(g, None) if g is not None else None
        k = m.number(e0, State(env={}), v) if v is not None else None
        r.need(k is not None, "the symbol %s" % n) if hasattr(r, "need") else None
        sym[n] = (k, v)
    shape = sym["Check"][1]

    def other(k):
        def sub(v):
            return ("int", k) if v[0] == "int" else ("adt", v[1], v[2], tuple(map(sub, v[3]))) if v[0] == "adt" else ("sym", ("kadt", v[1][1], k), ())
        return sub(shape)
    sym["X"], sym["Y"] = (900001, other(900001)), (900002, other(900002))
    dump = adt(r, "Dump", "filecheck")

    def options(lists):
        return ("adt", opts, 0, tuple(("arr", tuple(sym[x][1] for x in lists[f["n"]])) if f["n"] in LISTS else ("adt", dump, vidx(r, dump, "Fail"), ()) if f["n"] == "dump_input" else
                                      S("option", f["n"]) for f in p.adts[opts]["v"][0]["f"]))
    names = sorted(sym)
    most = 2 if r.tier == "quick" else 3
    combos = [x for n in range(1, most + 1) for x in itertools.product(names, repeat=n)]
    for later in (False, True):
        for a in combos if not later else combos[:30]:
            for b in combos if not later else combos[:5]:
                if len(a) + len(b) > most + 2:
                    continue
                o = options({LISTS[0]: a, LISTS[1]: b})
                first = options({LISTS[0]: ("Check",), LISTS[1]: ("Com", "Run")}) if later else o
                m.later = o if later else None
                self_ = ("adt", cmd, 0, tuple(first if f["n"] == "options" else S("field", f["n"]) for f in p.adts[cmd]["v"][0]["f"]))
                e, outs = analyse(r, run, m, [self_], State(env={}, mon=()))
                both = set(a) & set(b)
                text = "the check prefixes %s and the comment prefixes %s%s" % (",".join(a), ",".join(b), " of FILECHECK_OPTS" if later else "")
                started = [get(s.mon, "with") for s, _ in outs]
                ran = [w for w in started if w is not None]
                refused = [result_of(e, s, v)[0] for s, v in outs if get(s.mon, "with") is None]
                msg = None
                if both:
                    msg = "the checks are run" if ran else "there is no error" if set(refused) != {"err"} else None
                elif refused or not ran:
                    msg = "the checks are not run"
                else:
                    want = tuple(frozenset(sym[x][0] for x in l) for l in (a, b))
                    msg = None if all(w == want for w in ran) else "the checks are run with other prefixes"
                r.ob("both" if both else "apart", "FILECHECK_OPTS" if later else "command line", msg is None, "prefixes|%s|%s" % ("both" if both else "apart", msg), "%s: with %s, %s" % (run.loc(), text, msg))


@rule("F13")
def f13(r):
    formed(r)
    distinct(r)
    r.floor("form", 400)
    r.floor("both", 100)
    r.floor("apart", 100)
