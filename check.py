#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides a property of the interpreter in the repository's working tree:
  - TLC explores the specification's models for the property (spec/, every
    behaviour of which is checked against the property's laws) and each of
    the behaviours explored is replayed on the implementation;
  - programs are generated, carried out by the implementation, and what was
    observed is validated by TLC against the specification.
"""
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True

import engine           # noqa: E402
import models           # noqa: E402
import props            # noqa: E402

EDIR = os.path.join(HERE, "evidence")
QUICK = {"n": 10000, "batches": 1, "seconds": 400, "model": "quick"}
SLOW = {"C23": 0.2}     # programs with random draws take several paths each
THOROUGH = {"n": 8000, "batches": 60, "seconds": 2400, "model": "thorough"}
ASSUME = [
    "CPython 3.12 and the operating system carry out the interpreter's own code as Python prescribes",
    "the specification's number domain: integers of up to 160 digits and IEEE doubles (with correctly rounded arithmetic and elementary functions as the mathematical library rounds them; not denormals, infinities, "
    "and elementary functions of huge arguments or within a hair of a rounding boundary); a behaviour "
    "that leaves it (or takes longer than the bounds) is counted as not modelled and never judged",
    "source text and input are printable ASCII, tabs, newlines and " + engine.OTHERS + " (standing for all other characters), in UTF-8",
    "random draws: any item or permutation may be drawn and a fixed seed repeats its draws; the value of r is known only where it is "
    "printed, and only the set of possible outcomes is judged, not their frequencies",
]


def key(inv):
    return json.dumps({k: inv[k] for k in engine.INVFIELDS if k not in ("ver", "help")}, sort_keys=True)


def known(pid):
    """The invocations listed as known findings of the property."""
    path = os.path.join(HERE, "known_findings.txt")
    res = set()
    if os.path.exists(path):
        for line in open(path):
            head = f"known: property={pid} "
            if line.startswith(head):
                inv = engine.case("")
                inv.update(json.loads(line[len(head):].split(" # ")[0]))
                res.add(key(inv))
    return res


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.listed, self.seen = known(pid), set()
        self.c = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "traces_conforming": 0,
                  "traces_not_modelled": 0, "traces_unobserved": 0, "deviations_not_confirmed": 0,
                  "model_behaviours": 0, "model_behaviours_replayed": 0}
        self.samples, self.violations, self.models = [], [], []
        self.nontrivial = set()

    def violate(self, inv, what, prescribed, observed):
        path = os.path.join(EDIR, f"{self.pid}.violation.{len(self.violations) + 1}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "invocation": inv, "specification": prescribed,
                       "implementation": observed}, f, indent=1)
        self.violations.append((what, path))

    def judge(self, inv, v):
        """A verdict that is neither ok nor oom: is it confirmed?"""
        if key(inv) in self.listed:
            self.seen.add(key(inv))
            return
        if len(self.violations) >= 5:
            return
        c = engine.confirm(inv, v)
        if c is None:
            self.c["deviations_not_confirmed"] += 1
        else:
            self.violate(inv, v["v"], v, c)

    def traces(self, invs):
        """Run the invocations on the implementation; validate the traces."""
        invs = engine.with_texts([i for i in invs if engine.clean(i)])
        obs = engine.observe(invs)
        if isinstance(obs, str):
            self.violate(None, obs, "the interpreter starts", obs)
            return
        vs, st = engine.validate(invs, obs)
        self.c["states"] += st["states"]
        self.c["transitions"] += st["transitions"]
        self.c["traces_unobserved"] += sum(o is None for o in obs)
        for k, v in sorted(vs.items()):
            if v["v"] == "oom":
                self.c["traces_not_modelled"] += 1
                continue
            self.c["traces_validated_against_impl"] += 1
            if v["v"] == "ok":
                self.c["traces_conforming"] += 1
                if v["oc"] == "ok":
                    self.nontrivial.add(key(invs[k]))
                if len(self.samples) < 6 and k % 97 == 0:
                    self.samples.append({"invocation": invs[k], "trace": obs[k]})
            else:
                self.judge(invs[k], v)

    def model(self, m):
        """Explore a model with TLC; replay its behaviours."""
        res = m.explore()
        self.models.append(res["what"])
        self.c["states"] += res["states"]
        self.c["transitions"] += res["transitions"]
        if isinstance(m, models.Cover):
            return self.cover(m, res)
        bs = [b for b in res["behaviours"] if b["oc"] != "oom" or not engine.random_op(b["inv"])]
        self.c["model_behaviours"] += len(res["behaviours"])
        invs = engine.with_texts([b["inv"] for b in bs])
        obs = engine.observe(invs)
        if isinstance(obs, str):
            self.violate(None, obs, "the interpreter starts", obs)
            return
        for b, inv, o in zip(bs, invs, obs):
            if o is None:
                self.c["traces_unobserved"] += 1
                continue
            self.c["model_behaviours_replayed"] += 1
            what = engine.compare(b, o)
            if what:
                self.judge(inv, dict(b, v=what))
        if bs and len(self.samples) < 8:
            self.samples.append({"model": res["what"], "invocation": invs[0], "behaviour": {k: bs[0][k] for k in bs[0] if k != "inv"}})

    def cover(self, m, res):
        self.c["model_behaviours"] += len(res["behaviours"])
        for src, outs in sorted(res["outcomes"].items()):
            seen = m.shown(src)
            if isinstance(seen, str):
                return self.violate(None, seen, "the interpreter starts", seen)
            self.c["model_behaviours_replayed"] += m.TIMES
            if seen != outs and m.shown(src) | seen != outs:
                self.violate(engine.case(src), "outcomes", sorted(outs), sorted(seen))

    def run(self):
        plan = THOROUGH if self.tier == "thorough" else QUICK
        seed = os.environ.get("VERIF_SEED", "1")
        for m in models.of(self.pid, plan["model"], seed):
            if not self.violations:
                self.model(m)
        for b in range(plan["batches"]):
            if self.violations or (b and time.time() - self.t0 > plan["seconds"]):
                break
            rng = random.Random(f"{self.pid}/{seed}/{b}")
            self.traces(props.PROPS[self.pid](rng, int(plan["n"] * SLOW.get(self.pid, 1))))
        self.c["traces_validated_against_impl"] += self.c["model_behaviours_replayed"]
        self.c["distinct_nontrivial"] = len(self.nontrivial)
        self.c["rule"] = ("distinct_nontrivial: distinct generated invocations whose run ended without a fatal error, as the "
                          "specification prescribes; traces_validated_against_impl: generated traces judged by TLC and "
                          "model behaviours replayed")
        ev = {"property": self.pid, "tier": self.tier, "seed": int(seed) if seed.isdigit() else 0,
              "level": "model_checking", "coverage": dict(self.c, samples=self.samples, models=self.models),
              "assumptions": ASSUME, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        with open(os.path.join(EDIR, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.listed):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        print(f"{self.pid}: {self.c} models: {self.models} in {time.time() - self.t0:.0f} s")
        for what, path in self.violations:
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1 if self.violations else 0


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.makedirs(EDIR, exist_ok=True)
    for f in os.listdir(EDIR):
        if f.startswith(f"{pid}."):
            os.unlink(os.path.join(EDIR, f))
    try:
        return Check(pid, tier).run()
    except engine.MachineryError:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
