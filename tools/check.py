#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree.

Every part of a check yields traces of the real code that TLC compares with the specification in spec/, or a model
that TLC explores.  Prints "VIOLATION property=<id> replay=<path>" and exits 1 when the code does not behave as
specified; exits 0 when everything explored agreed; 2 when no answer was possible."""
import collections, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, gen, parts, vlib

VERIF = build.VERIF

class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []          # (signature, replay object, text)
        self.cov = collections.Counter()
        self.samples = []
        self.reached = set()
        self.extra = {}
        self.parts = []
        self.assume = []
    def violation(self, signature, replay, text):
        self.violations.append((signature, replay, text))

def known(prop):
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s key=" % prop):
                key, _, text = l[len("known: property=%s key=" % prop):].strip().partition(" :: ")
                r[key] = text
    return r

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    rep = Report(prop, tier, seed)
    try:
        level = parts.run(prop, tier, seed, rep)
    except build.BuildError as e:
        print("the tree does not build: " + str(e)[-2000:])
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
    kn = known(prop)
    new = []
    for sig, replay, text in rep.violations:
        if sig in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[sig]))
        else:
            new.append((sig, replay, text))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": rep.assume,
          "coverage": dict({k: v for k, v in rep.cov.items()}, samples=rep.samples[:6], parts=rep.parts,
                           reached=len(rep.reached), **rep.extra)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rd = os.path.join(VERIF, "build", "replay")
    for n, (sig, replay, text) in enumerate(new[:5]):
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  " + text[:1500])
    print("%s %s: %s in %.1f s; %s" % (prop, tier, "%d violations" % len(new) if new else "held", time.time() - t0,
          ", ".join("%s=%s" % kv for kv in rep.cov.items())))
    sys.exit(1 if new else 0)

if __name__ == "__main__":
    main()
