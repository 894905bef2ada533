"""Rule registry, reports and evidence."""
import importlib, json, os, pkgutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
TABLE = {}


class Anchor(Exception):
    """A construct the rule is about could not be found in the analysed program."""


def rule(pid):
    def d(f):
        TABLE[pid] = f
        return f
    return d


def load():
    import props
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module("props." + m.name)
    return TABLE


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {e["key"]: e for e in json.load(open(p))["findings"] if e["property"] == pid and e.get("state") == "known"}


class Report:
    def __init__(self, pid, tier, p, t0):
        self.pid, self.tier, self.p, self.t0 = pid, tier, p, t0
        self.obs = []            # (rule, site, ok)
        self.viol = {}           # key -> (rule, message)
        self.fns = set()
        self.paths = 0
        self.states = 0
        self.notes = []
        self.floors = {}
        self.counts = {}
        self.assumptions = []

    # ---- obligations
    def ob(self, rule, site, ok, key=None, msg=None):
        """One discharged or violated obligation. key must not contain line numbers."""
        self.obs.append((rule, site, bool(ok)))
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if not ok:
            self.violation(key or "%s|%s" % (rule, site), rule, msg or site)
        return ok

    def violation(self, key, rule, msg):
        self.viol.setdefault(key, (rule, msg))

    def floor(self, rule, n):
        self.floors[rule] = n

    def need(self, cond, what):
        if not cond:
            raise Anchor(what)
        return cond

    def fn(self, pattern, one=True):
        r = self.p.find(pattern)
        r = [f for f in r if f.kind != "const" and "{closure" not in f.name.rsplit("::", 1)[-1]] if one else r
        if not r or (one and len(r) != 1):
            raise Anchor("expected one function matching %s, found %s" % (pattern, [f.name for f in r]))
        return r[0] if one else r

    def cover(self, eng):
        self.fns |= eng.visited_fns
        self.paths += eng.paths
        self.states += eng.nstates

    def note(self, s):
        self.notes.append(s)

    def check_floors(self):
        for r, n in self.floors.items():
            c = self.counts.get(r, 0)
            if c < n:
                raise Anchor("rule %s checked %d instances, expected at least %d" % (r, c, n))

    def write(self, error=None, violations=()):
        os.makedirs(EVID, exist_ok=True)
        rules = {}
        for r, s, ok in self.obs:
            d = rules.setdefault(r, {"instances": 0, "held": 0, "sites": []})
            d["instances"] += 1
            d["held"] += ok
            if s not in d["sites"] and len(d["sites"]) < 60:
                d["sites"].append(s)
        cov = {
            "explanation": "Static analysis of the MIR of /repo's current tree (rustc driver, all four crates, resolved callees). "
                           "Rules applied and instances decided are listed under `rules`; `functions` were analysed along "
                           "`states` abstract states with `paths` distinct outcomes." + ((" " + " ".join(self.notes)) if self.notes else ""),
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o[2]),
            "rules": rules,
            "functions": sorted(f for f in self.fns if not self.p.fns[f].ext) if self.fns else [],
            "n_functions": len(self.fns),
            "paths": self.paths,
            "states": self.states,
            "program": {"functions": sum(1 for f in self.p.fns.values() if not f.ext), "crates": self.p.crates},
        }
        ev = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": list(violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        if error:
            ev["coverage"]["error"] = error
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1, default=str)

    def finish(self):
        kn = known(self.pid)
        new = []
        for k, (r, m) in sorted(self.viol.items()):
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, kn[k]["what"]))
            else:
                new.append((k, r, m))
        self.write(violations=[{"key": k, "rule": r, "what": m} for k, r, m in new])
        if new:
            rp = os.path.join(EVID, self.pid + ".violation.txt")
            with open(rp, "w") as f:
                for k, r, m in new:
                    f.write("rule: %s\nkey: %s\n%s\n\n" % (r, k, m))
            for k, r, m in new:
                print("  [%s] %s" % (r, m))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
        else:
            print("OK property=%s obligations=%d functions=%d states=%d" % (self.pid, len(self.obs), len(self.fns), self.states))
        return len(new)
