#!/usr/bin/env python3
"""check.py <property id | --all> [--tier quick|thorough]: decide properties of /repo's current source tree."""
import os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)

import absint         # noqa: E402
import facts          # noqa: E402
import prog           # noqa: E402
import rules          # noqa: E402


LIMIT = 600      # seconds one property may take


def late(*_):
    raise absint.Budget("no answer within %d s" % LIMIT)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args.remove(tier)
    table = rules.load()
    ids = sorted(table) if "--all" in sys.argv else args
    t0 = time.time()
    d = facts.ensure()
    p = prog.Prog(d)
    rc = 0
    for i in ids:
        t1 = time.time() if len(ids) > 1 else t0
        r = rules.Report(i, tier, p, t1)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT)
        try:
            table[i](r)
            r.check_floors()
            signal.alarm(0)
        except rules.Anchor as e:
            # fail closed: the construct the rule decides about is gone, so nothing shows that the property holds
            r.violation("anchor|%s" % e, "anchor", "the rule cannot find what it decides about: %s" % e)
        except absint.Budget as e:
            # likewise: the rule does not hold as far as it could be decided
            r.violation("budget|%s" % e, "budget", "the analysis did not terminate within its budget, so the property is not shown: %s" % e)
        except Exception:
            traceback.print_exc()
            print("ERROR property=%s" % i)
            rc = max(rc, 2)
            continue
        finally:
            signal.alarm(0)
        n = r.finish()
        if n and rc == 0:
            rc = 1
    return rc


if __name__ == "__main__":
    sys.exit(main())
