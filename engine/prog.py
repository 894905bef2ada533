"""Loading of the MIR facts dumped by /verif/driver: the resolved program of /repo's current tree."""
import json, os, re, sys

CRATES = ["litcheck_core.main", "litcheck_filecheck.main", "litcheck_lit.main", "litcheck.bin.main"]


class Fn:
    __slots__ = ("name", "kind", "file", "line", "argc", "locals", "blocks", "names", "prom", "self_name",
                 "trait_item", "generics", "root", "derived", "crate", "ext", "preds", "live", "borrowed",
                 "is_macro", "unsafe", "vis", "_order", "loopheads")

    def __repr__(self):
        return "<Fn %s>" % self.name

    def loc(self, line=None):
        return "%s:%s" % (self.file, line if line is not None else self.line)


def short(name):
    """Last path segments, for reports."""
    return re.sub(r"\b(?:[a-z_0-9]+::)+", "", name)


class Prog:
    def __init__(self, facts_dir):
        self.fns = {}
        self.adts = {}
        self.impls = []            # dicts
        self.impl_method = {}      # (trait method path, self name) -> fn name
        self.trait_impls = {}      # trait method path -> [(self name, fn name)]
        self.unsafe_blocks = []
        self.crates = []
        for c in CRATES:
            p = os.path.join(facts_dir, c + ".json")
            d = json.load(open(p))
            self.crates.append(c)
            tys = self._types(d["tys"])
            for src, isext in ((d["fns"], False), (d["ext"], True)):
                for n, f in src.items():
                    if isext and n in self.fns:
                        continue
                    self.fns[n] = self._fn(n, f, tys, c, isext)
            for n, a in d["adts"].items():
                if a is not None and (n not in self.adts or a.get("local")):
                    self.adts[n] = a
            for im in d["impls"]:
                im["sty"] = tys[im["st"]]
                self.impls.append(im)
                for tm, fn in im["m"].items():
                    self.impl_method.setdefault((tm, im["self"]), fn)
                    self.trait_impls.setdefault(tm, []).append((im["self"], fn))
            for u in d["unsafe_blocks"]:
                self.unsafe_blocks.append((c, u[0], u[1], u[2]))
        self._callers = None

    # types become nested tuples: (kind, string, extra, args)
    def _types(self, raw):
        out = [None] * len(raw)

        def get(i, depth=0):
            if out[i] is not None:
                return out[i]
            t = raw[i]
            if t is None or depth > 12:
                return ("other", t["s"] if t else "?", None, ())
            args = tuple(get(a, depth + 1) for a in t.get("args", ()))
            k = t["k"]
            extra = t.get("adt") or t.get("def") or (t.get("mut") if k in ("ref", "ptr") else None)
            out[i] = (k, t["s"], extra, args)
            return out[i]
        for i in range(len(raw)):
            get(i)
        return out

    def _op(self, o, tys):
        if o[0] in ("c", "m"):
            return (o[0], self._place(o[1]))
        if o[0] == "k":
            c = dict(o[1])
            c["t"] = tys[c["t"]]
            if "fn" in c:
                c["fn"] = self._callee(c["fn"], tys)
            return ("k", c)
        return ("?",)

    def _place(self, p):
        return (p[0], tuple(tuple(e) if isinstance(e, list) else e for e in p[1]))

    def _callee(self, c, tys):
        c = dict(c)
        c["a"] = tuple(tys[a] for a in c.get("a", ()))
        if "ra" in c:
            c["ra"] = tuple(tys[a] for a in c["ra"])
        return c

    def _rv(self, r, tys):
        k = r[0]
        if k == "use":
            return ("use", self._op(r[1], tys))
        if k == "rep":
            return ("rep", self._op(r[1], tys))
        if k == "ref":
            return ("ref", self._place(r[1]), r[2])
        if k == "cast":
            return ("cast", self._op(r[1], tys), tys[r[2]], r[3], tys[r[4]])
        if k == "bin":
            return ("bin", r[1], self._op(r[2], tys), self._op(r[3], tys), tys[r[4]])
        if k == "un":
            return ("un", r[1], self._op(r[2], tys))
        if k == "discr":
            return ("discr", self._place(r[1]), tys[r[2]])
        if k == "agg":
            return ("agg", tuple(r[1]), tuple(self._op(o, tys) for o in r[2]))
        if k == "tls":
            return ("tls", r[1])
        return ("?",)

    def _body(self, f, d, tys):
        f.argc = d["argc"]
        f.locals = [tys[t] for t in d["l"]]
        f.names = {}
        for n, p in d["n"]:
            f.names.setdefault(self._place(p), n)
        f.blocks = []
        for b in d["b"]:
            sts = []
            for st in b["s"]:
                if st[0] == "=":
                    sts.append(("=", self._place(st[1]), self._rv(st[2], tys), st[3]))
                elif st[0] == "sd":
                    sts.append(("sd", self._place(st[1]), st[2], tys[st[3]]))
                elif st[0] == "dead":
                    sts.append(("dead", st[1]))
            t = dict(b["t"])
            k = t["k"]
            if k == "switch":
                t["d"] = self._op(t["d"], tys)
                t["t"] = tys[t["t"]]
                t["c"] = [(v, bb) for v, bb in t["c"]]
            elif k == "call":
                if "f" in t:
                    t["f"] = self._callee(t["f"], tys)
                else:
                    t["fp"] = self._op(t["fp"], tys)
                t["a"] = [self._op(o, tys) for o in t["a"]]
                t["d"] = self._place(t["d"])
                t["dt"] = tys[t["dt"]]
            elif k == "assert":
                t["c"] = self._op(t["c"], tys)
            elif k == "drop":
                t["p"] = self._place(t["p"])
                t["t"] = tys[t["t"]]
            f.blocks.append((sts, t, b["u"]))
        f.preds = None
        f.live = None
        f.borrowed = None
        f._order = None

    def _fn(self, n, d, tys, crate, ext):
        f = Fn()
        f.name = n
        f.kind = d["kind"]
        f.file = d["file"]
        f.line = d["line"]
        f.self_name = d.get("self")
        f.trait_item = d.get("trait_item")
        f.generics = d.get("g", [])
        f.root = d.get("root")
        f.derived = d.get("derived", False)
        f.is_macro = d.get("macro", False)
        f.unsafe = d.get("unsafe", False)
        f.vis = d.get("vis")
        f.crate = crate
        f.ext = ext
        self._body(f, d, tys)
        f.prom = []
        for i, p in enumerate(d.get("prom", [])):
            g = Fn()
            g.name = "%s::{promoted#%d}" % (n, i)
            g.kind = "promoted"
            g.file, g.line, g.self_name, g.trait_item = f.file, f.line, f.self_name, None
            g.generics, g.root, g.derived, g.crate, g.ext = f.generics, None, False, crate, ext
            g.is_macro, g.unsafe, g.vis = False, False, None
            self._body(g, p, tys)
            g.prom = []
            f.prom.append(g)
        return f

    # ------------------------------------------------------------ queries
    def find(self, pattern, ext=False):
        """All functions whose path matches the regex (fullmatch on path with module prefixes optional)."""
        r = re.compile(pattern)
        return [f for n, f in sorted(self.fns.items()) if (ext or not f.ext) and r.search(n)]

    def local_fns(self):
        return [f for f in self.fns.values() if not f.ext]

    def adt_named(self, last):
        return [n for n in self.adts if n == last or n.endswith("::" + last)]

    def variant_index(self, adt, name):
        for i, v in enumerate(self.adts[adt]["v"]):
            if v["n"] == name:
                return i
        raise KeyError((adt, name))

    def callees(self, f):
        """(block, term, callee dict) for every direct call in f."""
        for bi, (sts, t, u) in enumerate(f.blocks):
            if t["k"] == "call" and "f" in t:
                yield bi, t, t["f"]

    def fn_refs(self, f):
        """Every function item / closure mentioned in f: calls, fn items as values, closures built."""
        def op(o):
            if o[0] == "k" and "fn" in o[1]:
                yield o[1]["fn"]
        for bi, (sts, t, u) in enumerate(f.blocks):
            for st in sts:
                if st[0] == "=":
                    rv = st[2]
                    if rv[0] == "agg":
                        if rv[1][0] == "closure":
                            yield bi, st[3], {"p": rv[1][1], "r": rv[1][1], "a": (), "closure": True}
                        for o in rv[2]:
                            for c in op(o):
                                yield bi, st[3], c
                    elif rv[0] in ("use", "cast", "rep"):
                        for c in op(rv[1]):
                            yield bi, st[3], c
                    if rv[0] in ("use", "cast") and rv[1][0] == "k":
                        t0 = rv[1][1]["t"]
                        if t0[0] == "closure":
                            yield bi, st[3], {"p": t0[2], "r": t0[2], "a": (), "closure": True}
            if t["k"] == "call":
                if "f" in t:
                    yield bi, t["l"], t["f"]
                for o in t["a"]:
                    for c in op(o):
                        yield bi, t["l"], c
                    if o[0] == "k" and o[1]["t"][0] == "closure":
                        yield bi, t["l"], {"p": o[1]["t"][2], "r": o[1]["t"][2], "a": (), "closure": True}

    def targets(self, c):
        """Possible local/ext bodies for a callee (CHA on unresolved trait methods)."""
        if "r" in c:
            return [c["r"]] if c["r"] in self.fns else []
        out = []
        if "trait" in c:
            for sn, fn in self.trait_impls.get(c["p"], ()):
                if fn in self.fns:
                    out.append(fn)
            if c["p"] in self.fns:
                out.append(c["p"])
        return out

    def call_graph(self):
        if self._callers is None:
            self.succ = {}
            for n, f in self.fns.items():
                s = set()
                for bi, ln, c in self.fn_refs(f):
                    for t in self.targets(c):
                        s.add(t)
                self.succ[n] = s
            self._callers = {}
            for a, bs in self.succ.items():
                for b in bs:
                    self._callers.setdefault(b, set()).add(a)
        return self.succ

    def callers(self, name):
        self.call_graph()
        return self._callers.get(name, set())

    def reachable(self, roots, stop=()):
        self.call_graph()
        seen = set()
        st = list(roots)
        while st:
            n = st.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            st.extend(self.succ.get(n, ()))
        return seen
