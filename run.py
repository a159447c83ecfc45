#!/usr/bin/env python3
"""run.py <property> quick|thorough

Builds what the check needs from /repo's current tree, runs the monitored
workload, decides the property, writes evidence/<property>.json.
exit 0: held on everything explored; 1: violated; 3: no answer (machinery)."""
import hashlib
import importlib
import json
import math
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.dont_write_bytecode = True
if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]

import build      # noqa: E402
import drvlib     # noqa: E402
import points     # noqa: E402


def load_known():
    """known_findings.txt -> {(property, key): text}; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("KNOWN-FINDING: "):
                rest = line[len("KNOWN-FINDING: "):].strip()
                head, _, text = rest.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split())
                out[(kv["property"], kv["key"])] = text
    return out


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.kinds = {}          # kind -> set/count of distinct observed things
        self.counts = {}
        self.samples = []
        self.notes = {}
        self.worst = {}
        self.violations = {}     # key -> (text, replay)
        self.known = load_known()
        self.hits = set()

    # ---- workload ----------------------------------------------------------
    def rng(self, name=""):
        return points.Rng(f"{self.pid}/{self.seed}/{name}")

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 20) if self.thorough else quick

    def build(self, *a, **k):
        return build.build(*a, **k)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---- observations -------------------------------------------------------
    def ev(self, n=1):
        self.evals += n

    def seen(self, kind, key):
        """counts a distinct observed state/input class"""
        self.kinds.setdefault(kind, set()).add(key)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(str(text)[:300])

    def track(self, name, ratio, what=""):
        """largest observed deviation in units of its tolerance"""
        if ratio == ratio and ratio > self.worst.get(name, (-1, ""))[0]:
            self.worst[name] = (float(ratio), str(what)[:200])

    def violate(self, key, text, replay=None):
        key = str(key).replace(" ", "_")
        if (self.pid, key) in self.known:
            self.hits.add(key)
            return
        if key not in self.violations:
            self.violations[key] = (str(text), replay)

    def close(self, key, name, got, want, tol, text, replay=None):
        """|got - want| <= tol (tol > 0), nan is only equal to nan"""
        self.evals += 1
        d = abs(got - want)
        if not (d <= tol):
            if math.isnan(float(got)) and math.isnan(float(want)):
                return True
            self.violate(key, f"{text}: got {got!r}, expected {want!r}, |difference| {float(d):.3e} > {float(tol):.3e}", replay)
            if str(key).replace(" ", "_") in self.hits:
                return False
            self.track(name, float(d / tol) if d == d else float("inf"), text)
            return False
        self.track(name, float(d / tol) if tol > 0 else 0.0, text)
        if self.evals % 997 == 1 or (len(self.samples) < 3 and self.evals % 17 == 1):
            self.sample(f"{text}: {got!r} vs {want!r} (tolerance {float(tol):.2e})")
        return True

    # ---- verdict -------------------------------------------------------------
    def finish(self, level, rule, minimum=1):
        distinct = sum(len(v) for v in self.kinds.values())
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "evaluations": self.evals, "distinct_nontrivial": distinct, "rule": rule,
                "samples": self.samples or ["(none)"],
                "distinct_by_kind": {k: len(v) for k, v in sorted(self.kinds.items())},
                "counts": dict(sorted(self.counts.items())),
                "largest_deviation_over_tolerance": {k: [float(f"{v[0]:.3g}") if math.isfinite(v[0]) else str(v[0]), v[1]]
                                                     for k, v in sorted(self.worst.items())},
                "notes": self.notes,
            },
            "violations": len(self.violations),
            "known_findings_observed": sorted(self.hits),
            "wall_s": round(time.time() - self.t0, 2),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        txt = json.dumps(ev, indent=1)
        if len(txt) > 60000:
            ev["coverage"]["largest_deviation_over_tolerance"] = {}
            txt = json.dumps(ev, indent=1)[:60000]
        with open(path, "w") as f:
            f.write(txt + "\n")
        for key in sorted(k for p, k in self.known if p == self.pid):
            print(f"KNOWN-FINDING: property={self.pid} {key} {self.known[(self.pid, key)]}")
        if self.violations:
            os.makedirs(os.path.join(VERIF, "build", "replay"), exist_ok=True)
            for key, (text, replay) in list(self.violations.items())[:20]:
                h = hashlib.sha256(key.encode()).hexdigest()[:10]
                rp = os.path.join(VERIF, "build", "replay", f"{self.pid}-{h}.json")
                with open(rp, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": text, "replay": replay,
                               "rerun": f"VERIF_SEED={self.seed} python3-vt run.py {self.pid} {self.tier}"}, f, indent=1, default=str)
                print(f"  {key}: {text[:600]}")
                print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.evals < minimum or distinct < 2:
            print(f"no answer: only {self.evals} evaluations, {distinct} distinct observations")
            return 3
        print(f"{self.pid} {self.tier}: held on {self.evals} evaluations, {distinct} distinct observations, "
              f"{time.time() - self.t0:.1f} s")
        return 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module(pid.lower())
        return mod.run(ctx)
    except (build.BuildError, drvlib.HarnessError) as e:
        print("no answer:", e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
