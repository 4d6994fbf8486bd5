"""The models that TLC explores for each property, and their behaviours."""
import engine

# law instances of each property, as enumerated in full
SIZES = {"C02": 21504, "C04": 13722, "C05": 2352, "C06": 456, "C07": 21144, "C08": 1715, "C09": 2151, "C10": 70848, "C11": 25158,
         "C12": 12222, "C13": 3240, "C14": 32580, "C15": 28362, "C16": 13926, "C17": 22218, "C18": 11934, "C19": 1188, "C20": 10716, "C23": 760}
QUICKN = 6000


class Laws:
    """spec/PipLaws.tla: the laws of a property, on every instance."""

    def __init__(self, pid, every, off):
        self.pid, self.every, self.off = pid, every, off

    def explore(self):
        rc, out = engine.tlc("PipLaws", env={"PROP": self.pid, "MOD": str(self.every), "OFF": str(self.off)}, timeout=1500)
        if rc != 0:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"BEHAVIOUR'))
            raise engine.MachineryError(f"the laws of {self.pid} ({rc}):\n{tail[:1500]}\n{tail[-3000:]}")
        bs = engine.tagged(out, "BEHAVIOUR")
        if self.pid == "C23":               # (one for each way to draw: they end in the same way)
            bs = [b for b in {b["src"]: b for b in bs}.values() for _ in range(5)]
        for b in bs:
            b["inv"] = engine.case(b["src"])
        st = engine.STATS.findall(out)[-1]
        part = "all instances" if self.every == 1 else f"one instance in {self.every}"
        return {"what": f"PipLaws {self.pid}, {part}: {len(bs)}", "states": int(st[1]), "transitions": int(st[0]), "behaviours": bs}


class Cover(Laws):
    """Programs with a random outcome: TLC finds every outcome there can be;
    the implementation must show each of them, and no other."""
    TIMES = 250

    def __init__(self):
        Laws.__init__(self, "C23cover", 1, 0)

    def explore(self):
        res = Laws.explore(self)
        outs = {}
        for b in res["behaviours"]:
            outs.setdefault(b["src"], set()).add(b["out"])
        res["outcomes"] = outs
        res["what"] = f"PipLaws C23cover: {len(outs)} programs, {sum(map(len, outs.values()))} outcomes, {self.TIMES} runs of each"
        return res

    def shown(self, src):
        obs = engine.observe([engine.case(src)] * self.TIMES, workers=2)
        return obs if isinstance(obs, str) else {o["out"] if o["oc"] == "ok" else o["oc"] for o in obs if o}


class Runs(Laws):
    """spec/PipModels.tla: whole runs, made by choosing from tables."""

    def explore(self):
        ver, hlp = engine.repl_texts()
        rc, out = engine.tlc("PipModels", env={"PROP": self.pid, "MOD": str(self.every), "OFF": str(self.off), "VER": ver, "HELP": hlp}, timeout=1500)
        if rc != 0:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"BEHAVIOUR'))
            raise engine.MachineryError(f"the runs of {self.pid} ({rc}):\n{tail[:1500]}\n{tail[-3000:]}")
        bs = engine.tagged(out, "BEHAVIOUR")
        for b in bs:
            b["inv"] = dict(engine.case(""), **b["inv"])
        st = engine.STATS.findall(out)[-1]
        part = "all" if self.every == 1 else f"one in {self.every}"
        return {"what": f"PipModels {self.pid}, {part}: {len(bs)}", "states": int(st[1]), "transitions": int(st[0]), "behaviours": bs}


# sizes of the models of runs, and the part of them that is always left out
RUNS = {"C01": 430000, "C03": 388, "C21": 62400, "C22": 33792, "C24": 131000}
PARTS = {"C01": 6, "C24": 2}


def of(pid, tier, seed):
    off = int(seed) if seed.isdigit() else 0
    ms = []
    if pid in SIZES:
        every = 1 if tier == "thorough" else -(-SIZES[pid] // QUICKN)
        ms.append(Laws(pid, every, off))
    if pid in RUNS:
        ms.append(Runs(pid, PARTS.get(pid, 1) if tier == "thorough" else -(-RUNS[pid] // QUICKN), off))
    if pid == "C23":
        ms.append(Cover())
    return ms
