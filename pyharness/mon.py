"""Monitor core of the Python checks: counts, samples, known findings,
evidence; the same formats as harness/lib/mon."""
import hashlib
import json
import os
import random
import re
import sys
import time

VERIF = os.environ.get("VERIF_DIR", "/verif")
real_time = time.monotonic


class Run:
    def __init__(self, pid):
        self.id = pid
        self.seed = int(os.environ.get("VERIF_SEED") or 1) or 1
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.start = real_time()
        self.level, self.rule, self.assume = "exploration", "", []
        self.evals, self.keys, self.counts = 0, set(), {}
        self.samples, self.sample_n, self.viol, self.hit = [], {}, [], set()
        self.known = {}
        try:
            for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
                m = re.match(r"^known: property=(\S+) key=(\S+) (.*)$", l)
                if m and m[1] == pid:
                    self.known[m[2]] = m[3]
        except FileNotFoundError:
            pass

    def pick(self, q, t):
        return t if self.tier == "thorough" else q

    def merge(self, c):
        self.evals += c.evals
        self.keys |= c.keys
        for k, n in c.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        for kind, s in c.samples:
            if self.sample_n.get(kind, 0) < 2 and len(self.samples) < 24:
                self.sample_n[kind] = self.sample_n.get(kind, 0) + 1
                self.samples.append({"kind": kind, "case": s})
        for v in c.viol:
            self.violation(*v)

    def violation(self, key, desc, detail):
        if key in self.known:
            if key not in self.hit:
                self.hit.add(key)
                print(f"KNOWN-FINDING: property={self.id} {self.known[key]}", flush=True)
            return
        self.viol.append(key)
        if self.viol.count(key) > 2 or len(set(self.viol)) > 12:
            return
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.id}-{self.tier}-{self.seed}-{len(self.viol) - 1}.json")
        with open(p, "w") as f:
            json.dump({"property": self.id, "tier": self.tier, "seed": self.seed, "key": key, "description": desc, "detail": detail,
                       "rerun": f"VERIF_SEED={self.seed} /verif/check.sh {self.id} {self.tier}"}, f, indent=1, default=repr)
        print(f"VIOLATION property={self.id} replay={p}\n  key={key} {desc[:1500]}", flush=True)

    def finish(self):
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.keys), "rule": self.rule, "samples": self.samples,
               "observed": dict(sorted(self.counts.items()))}
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": real_time() - self.start, "violations": len(self.viol)}
        if self.assume:
            ev["assumptions"] = self.assume
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        print(f"{self.id} {self.tier} seed={self.seed}: {self.evals} evaluations, {len(self.keys)} distinct, {len(self.viol)} violations, {real_time() - self.start:.1f}s")
        for k, n in sorted(self.counts.items()):
            print(f"  {k}: {n}")
        if self.viol:
            return 1
        if not self.evals:
            print("CHECK-ERROR: nothing was evaluated", file=sys.stderr)
            return 2
        return 0


class Case:
    """One generated history and what was seen in it."""

    def __init__(self, pid, seed, i):
        self.pid, self.i = pid, i
        self.rng = random.Random(f"{pid}/{seed}/{i}")
        self.evals, self.keys, self.counts, self.samples, self.viol = 0, set(), {}, [], []
        self.trace = []

    def eval(self, key=""):
        self.evals += 1
        if key:
            self.keys.add(hashlib.sha256(key.encode()).digest()[:8])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, kind, s):
        if self.i < 40:
            self.samples.append((kind, s))

    def violation(self, key, desc, detail=None):
        self.viol.append((key, f"case {self.i}: {desc}", {"trace": self.trace[-200:], "detail": detail}))
