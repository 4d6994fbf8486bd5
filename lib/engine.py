"""Running cases on the implementation, validating them against the
specification with TLC, and confirming what does not conform."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("PIP_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))
ENV = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
ENV.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONIOENCODING="utf-8",
           PYTHONPYCACHEPREFIX="/nonexistent/pycache", LC_ALL="C.UTF-8")


OTHERS = "°ÉÑßéñΛλЯя€中"


class MachineryError(Exception):
    pass


def scratch():
    base = os.environ.get("TMPDIR", "/tmp")
    return tempfile.mkdtemp(prefix="pipverif.", dir=base if os.path.isdir(base) else None)


def case(src, args=(), fm="p", sh=True, inp=(), r=False, x=False, i=False, how="e", runs=1):
    return {"kind": "prog", "src": src, "args": list(args), "fm": fm, "sh": sh, "i": i, "r": r, "x": x,
            "inp": list(inp), "ver": "", "help": "", "how": how, "runs": runs, "reals": [],
            "vb": False, "ask": False, "entry": "main", "words": [], "file": "", "code": False, "form": "none"}


def session(lines, fm="", sh=True):
    return dict(case("", fm=fm, sh=sh, inp=lines), kind="repl")


def command(words, inp=(), file=""):
    """A command line, as words; the file code.pip has the content given."""
    return dict(case("", inp=inp, fm="", sh=False), kind="cmd", words=list(words), file=file)


def calling(code=None, argv=None, inp=(), file=""):
    """A call of the function run."""
    form = "none" if argv is None else "text" if isinstance(argv, str) else "list"
    return dict(command([argv] if form == "text" else argv or [], inp, file), entry="run", code=code is not None, src=code or "", form=form)


def has_codes(inv):
    t = inv["src"] + "".join(inv["args"] + inv["inp"] + inv["words"]) + inv["file"]
    return all(c in "\n\t" or " " <= c <= "~" or c in OTHERS for c in t)


def clean(inv):
    """Is this invocation one that the command line can carry?"""
    return has_codes(inv) and not any("\n" in s for s in inv["inp"])


# ------------------------------------------------------------- implementation
def observe(invs, workers=CPUS, timeout=0.4, overall=600):
    """Observations of the invocations, in order; None where there is none.
    (Programs to be run twice are, in different processes.)"""
    obs = observe1(invs, workers, timeout, overall, ENV)
    twice = [k for k, i in enumerate(invs) if i["runs"] == 2]
    if not isinstance(obs, str) and twice:
        again = observe1([invs[k] for k in reversed(twice)], workers, timeout, overall, dict(ENV, PYTHONHASHSEED="4711"))
        if isinstance(again, str):
            return again
        for k, o2 in zip(reversed(twice), again):
            o1 = obs[k]
            obs[k] = o1 and o2 and dict(o2, out=o1["out"] + o2["out"], sg=[max(o1["sg"] + o2["sg"])])
    return obs


def observe1(invs, workers, timeout, overall, env):
    obs = [None] * len(invs)
    todo = [(k, inv) for k, inv in enumerate(invs)]
    tries = 0
    deadline = time.time() + overall
    while todo and tries < 6 and time.time() < deadline:
        tries += 1
        n = min(workers, max(1, len(todo) // 20))
        procs = []
        for w in range(n):
            part = todo[w::n]
            p = subprocess.Popen([PY, os.path.join(HERE, "runner.py"), REPO, str(timeout)], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True,
                                 encoding="utf-8")
            procs.append((p, part))
        import threading

        outs = {}

        def feed(p, part, w):
            data = "".join(json.dumps({"id": k, "inv": inv}) + "\n" for k, inv in part)
            try:
                outs[w] = p.communicate(data, timeout=max(5, deadline - time.time()))[0]
            except subprocess.TimeoutExpired:
                p.kill()
                outs[w] = p.communicate()[0] or ""
        ts = [threading.Thread(target=feed, args=(p, part, w)) for w, (p, part) in enumerate(procs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        left = []
        for w, (p, part) in enumerate(procs):
            got = set()
            for line in outs.get(w, "").splitlines():
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if "fail" in o:
                    return o["fail"]
                got.add(o["id"])
                obs[o["id"]] = None if "skip" in o["obs"] else o["obs"]
            missing = [(k, inv) for k, inv in part if k not in got]
            if missing:
                # the process died on the first case without an observation
                k = missing[0][0]
                obs[k] = {"oc": "died", "out": "", "rd": [], "sg": [0], "err": ""}
                left += missing[1:]
        todo = left
    return obs


def cli(inv, timeout=20):
    """One run of the real command line, for confirmation."""
    sys.path.insert(0, HERE)
    d = scratch()
    try:
        path = os.path.join(d, "code.pip")
        with open(path, "w", encoding="utf-8") as f:
            f.write(inv["file"] if inv["kind"] == "cmd" else inv["src"])
        argv, call = runner_argv(inv, path)
        how = [os.path.join(REPO, "pip.py")] + argv[1:]
        if inv["entry"] == "run":
            how = ["-c", f"import sys\nsys.path.insert(0, {REPO!r})\nimport pip\npip.run(*{call!r})"]
        data = "".join(s + "\n" for s in inv["inp"])
        try:
            p = subprocess.run([PY] + how, input=data, capture_output=True,
                               text=True, timeout=timeout, env=ENV, cwd=d, encoding="utf-8", errors="replace",
                               preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return {"oc": "timeout", "out": "", "err": ""}
        oc = "ok" if p.returncode == 0 else "usage" if p.returncode == 2 else "fatal" if p.returncode == 1 and "Traceback (most recent" not in p.stderr \
            else f"crash ({p.returncode})"
        return {"oc": oc, "out": p.stdout, "err": p.stderr[:2000]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def runner_argv(inv, path):
    src = open(os.path.join(HERE, "runner.py")).read()
    ns = {}
    exec(src[src.index("def argv_of"):src.index("def run(")], ns)
    return ns["argv_of"](inv, path), ns["call_of"](inv)


_repl_texts = None


def repl_texts():
    """The version and help text that the read-eval-print loop shows."""
    global _repl_texts
    if _repl_texts is None:
        o = observe([session([";help"])], workers=1)
        ver, hlp = "", ""
        if not isinstance(o, str) and o[0]:
            t = o[0]["out"]
            m = re.match(r"Pip ([^\n]*)\nType ;help for more information\.\n>> ", t)
            if m:
                ver = m.group(1)
                body = t[m.end():]
                if body.endswith(">> Bye!\n"):
                    hlp = body[:-len(">> Bye!\n")]
        _repl_texts = (ver, hlp)
    return _repl_texts


def with_texts(invs):
    """The invocations, sessions with the interpreter's texts filled in."""
    if any(i["kind"] != "prog" for i in invs):
        ver, hlp = repl_texts()
        invs = [dict(i, ver=ver, help=hlp) if i["kind"] != "prog" else i for i in invs]
    return invs


def same_out(want, got):
    """Is this the output prescribed, in which \f stands for any text?"""
    head, gap, tail = want.partition("\f")
    return len(got) >= len(head + tail) and got.startswith(head) and got.endswith(tail) if gap else want == got


def after_gap(rd, want, got):
    """The places rd in the output prescribed, in the output there was."""
    gap = want.find("\f")
    return [r if gap < 0 or r <= gap else r + len(got) - len(want) for r in rd]


UNENDED = ("timeout", "endless output", "died")


def unlike(b, o):
    """The same for a behaviour known up to some step only."""
    if o["oc"] not in ("ok", "fatal", "usage") + UNENDED:
        return "crash"
    out = b["out"].partition("\f")[0]
    if not o["out"].startswith(out) and not (o["oc"] in UNENDED and out.startswith(o["out"])):
        return "begins"
    return ""


def compare(b, o):
    """What of the observation is not the behaviour's ("" if nothing)."""
    if b["oc"] == "oom":
        return unlike(b, o)
    if o["oc"] != b["oc"]:
        return "outcome"
    if not same_out(b["out"], o["out"]):
        return "output"
    if o["rd"] != after_gap(b["rd"], b["out"], o["out"]):
        return "reads"
    if len(o["sg"]) != len(b["sg"]) or any(x != 2 and x != y for x, y in zip(b["sg"], o["sg"])):
        return "reports"
    return ""


# ---------------------------------------------------------------- specification
def java(mem="8g"):
    return ["java", "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss256m", "-Dtlc2.tool.queue.IStateQueue=StateDeque",
            f"-DTLA-Library={SPEC}", "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-cp", f"{JAR}:{CM}",
            "tlc2.TLC", "-noTE"]


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg=None, env=None, workers=CPUS, timeout=800, extra=(), mem="8g"):
    d = scratch()
    try:
        cmd = java(mem) + ["-metadir", d, "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg"),
                           *extra, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, LC_ALL="C.UTF-8")
        e.update(env or {})
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, encoding="utf-8", timeout=timeout, env=e, cwd=d)
            return p.returncode, p.stdout + p.stderr
        except subprocess.TimeoutExpired as t:
            so = t.stdout or b""
            return -1, so.decode("utf-8", "replace") if isinstance(so, bytes) else so
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unquote(line):
    return line[1:-1].replace('\\"', '"').replace("\\\\", "\\") if "\\" not in line else unesc(line[1:-1])


def unesc(s):
    return re.sub(r'\\(["\\ntrf])', lambda m: {"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(m.group(1), m.group(1)), s)


def tagged(out, tag):
    """The JSON values printed with the given tag."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + tag):
            res.append(json.loads(unesc(line[1 + len(tag):-1])))
    return res


def validate(invs, obs, cfg="PipTrace.cfg", timeout=800):
    """Verdicts of TLC on the observations: {index: verdict}, and statistics.
    (A case on which TLC itself fails, by an integer overflow say, is not
    modelled: its verdict is "oom".)"""
    todo = [k for k, o in enumerate(obs) if o is not None]
    vs, stats = {}, {"states": 0, "transitions": 0}
    deadline = time.time() + timeout
    fails = 0
    while todo:
        d = scratch()
        try:
            path = os.path.join(d, "cases.ndjson")
            with open(path, "w") as f:
                for k in todo:
                    inv = {a: b for a, b in invs[k].items() if a in INVFIELDS}
                    o = obs[k]
                    if inv["reals"]:
                        inv["reals"] = inv["reals"] + REAL.findall(o["out"])[:8]
                    f.write(json.dumps({"inv": inv, "obs": {a: o[a] for a in ("oc", "out", "rd", "sg")}}) + "\n")
            rc, out = tlc("PipTrace", cfg, {"CASES": path}, timeout=max(20, deadline - time.time()))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for v in tagged(out, "VERDICT"):
            k = todo[v["id"] - 1]
            if k not in vs or RANK.get(v["v"], 2) < RANK.get(vs[k]["v"], 2):
                vs[k] = v
        st = STATS.findall(out)
        if st:
            stats["states"] += int(st[-1][1])
            stats["transitions"] += int(st[-1][0])
        left = [k for k in todo if k not in vs]
        if rc == 0:
            for k in left:
                if not random_op(invs[k]):
                    raise MachineryError(f"no verdict on {invs[k]}")
                vs[k] = {"id": 0, "n": 0, "v": "draws", "oc": "ok", "out": "", "rd": [], "sg": [2]}
            break
        tail = "\n".join(l for l in out.splitlines() if not l.startswith('"VERDICT'))
        if rc == -1:                # out of time: what is left is not decided
            for k in left:
                vs[k] = {"id": 0, "n": 0, "v": "oom", "why": "time"}
            break
        bad = re.findall(r"casenum = (\d+)", tail)
        if not bad or "Invariant" in tail or "property" in tail.lower() or "Parsing" in tail or fails > 12:
            raise MachineryError(f"TLC ended with {rc}, {len(vs)} verdicts:\n{tail[:1500]}\n...\n{tail[-1500:]}")
        fails += 1
        k = todo[int(bad[-1]) - 1]
        vs[k] = {"id": 0, "n": 0, "v": "oom", "why": "TLC: " + "".join(re.findall(r"Error: (.*)", tail))[:300]}
        todo = [k for k in left if k not in vs]
    return vs, stats


RANK = {"ok": 0, "oom": 1}
REAL = re.compile(r"\d+\.\d+(?:e-\d+)?|\de-\d+")


def random_op(inv):
    """May the invocation involve random numbers?"""
    return re.search(r"RC|RR|SH|r", inv["src"] + "".join(inv["inp"] + inv["args"] + inv["words"]) + inv["file"]) is not None


INVFIELDS = ("kind", "src", "args", "fm", "sh", "i", "r", "x", "inp", "ver", "help", "runs", "reals", "vb", "ask", "entry", "words", "file",
             "code", "form")


def confirm(inv, v):
    """Does the real command line, started afresh, deviate from what the
    specification prescribes (v) as well?  (what it did, or None)"""
    if random_op(inv) and v["oc"] != "oom" and (v["v"] == "draws" or v.get("drew")):
        return confirm_random(inv)
    if v["oc"] == "oom":
        c = cli(inv, 10)
        return c if unlike(v, c) else None
    c = cli(inv)
    if c["oc"] != v["oc"] or not same_out(v["out"], c["out"]):
        return c
    sg = v["sg"]
    if v["v"] == "reports" and 2 not in sg:
        if any(sg) != bool(c["err"]):
            return c
    if v["v"] in ("reads", "reports"):
        o = observe([inv], workers=1)
        if isinstance(o, str) or o[0] is None:
            return None
        o = o[0]
        bad = o["rd"] != v["rd"] or any(s != 2 and s != t for s, t in zip(sg, o["sg"]))
        return o if bad else None
    return None


def confirm_random(inv, times=24):
    """Does it happen again in other processes?"""
    for w in range(3):
        obs = observe([inv] * times, workers=1)
        if isinstance(obs, str):
            return obs
        vs, _ = validate([inv] * times, obs)
        for k, v in vs.items():
            if v["v"] not in RANK:
                return obs[k]
    return None
