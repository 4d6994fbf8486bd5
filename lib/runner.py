"""Runs cases against the interpreter in the repository's working tree.

Usage: runner.py REPO < cases.ndjson > observations.ndjson
Each case is {"id", "inv"}; each observation is {"id", "obs"}.  The entry
point is the command line (pip.main with sys.argv), in process, with the
standard streams replaced by recording ones.
"""
import sys
import io
import json
import os
import resource
import signal
import time

sys.dont_write_bytecode = True
REPO = sys.argv[1]
TIMEOUT = float(sys.argv[2]) if len(sys.argv) > 2 else 4.0
BUDGET = 75 * TIMEOUT        # for cases that do not end
sys.path.insert(0, REPO)
real_in, real_out = sys.stdin, sys.stdout
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Timeout(BaseException):
    pass


class TooMuch(BaseException):
    pass


def on_alarm(*_):
    raise Timeout()


class Out(io.TextIOBase):
    def __init__(self):
        self.parts, self.size = [], 0

    def writable(self):
        return True

    def write(self, s):
        self.parts.append(s)
        self.size += len(s)
        if self.size > 300000:
            raise TooMuch()
        return len(s)

    def text(self):
        return "".join(self.parts)


class In(io.TextIOBase):
    """Standard input that notes when it is read."""

    def __init__(self, lines, out, err):
        self.lines, self.out, self.err = list(lines), out, err
        self.rd, self.sg = [], []
        self.mark = 0

    def readable(self):
        return True

    def seg(self):
        new = "".join(self.err.parts[self.mark:])
        self.mark = len(self.err.parts)
        # (that an infinite Range is iterated over, nothing is said about)
        return 1 if new.replace("Iterating over an infinite Range\n", "") else 0

    def readline(self, *_):
        self.rd.append(self.out.size)
        self.sg.append(self.seg())
        if len(self.rd) > 2000:
            raise TooMuch()
        return self.lines.pop(0) + "\n" if self.lines else ""


def argv_of(inv, path):
    a = ["pip.py"]
    if inv["kind"] == "cmd":
        return a + list(inv["words"])
    if inv["fm"]:
        a.append("-" + inv["fm"])
    if inv["sh"]:
        a.append("-w")
    if inv["vb"]:
        a.append("-v")
    if inv["kind"] == "repl":
        return a + ["-R"]
    if inv["r"]:
        a.append("-r")
    if inv["x"]:
        a.append("-x")
    how = inv.get("how", "e")
    if inv["i"]:
        a.append("-i")
    elif how == "e":
        a.append("--execute=" + inv["src"])
    elif how == "f":
        a.append("--file=" + path)
    a.append("--")
    if how == "p" and not inv["i"]:
        a.append(path)
    return a + list(inv["args"])


def call_of(inv):
    """The parameters of the function run."""
    return (inv["src"] if inv["code"] else None,
            None if inv["form"] == "none" else list(inv["words"]) if inv["form"] == "list" else inv["words"][0])


def run(inv, path):
    import pip
    out, err = Out(), Out()
    inp = In(inv["inp"], out, err)
    if inv["kind"] == "cmd" or not inv["i"] and inv.get("how", "e") in "fp":
        with open(path, "w", encoding="utf-8") as f:
            f.write(inv["file"] if inv["kind"] == "cmd" else inv["src"])
    sys.argv = argv_of(inv, path)
    sys.stdin, sys.stdout, sys.stderr = inp, out, err
    oc = "ok"
    try:
        signal.setitimer(signal.ITIMER_REAL, TIMEOUT)
        try:
            if inv["entry"] == "run":
                pip.run(*call_of(inv))
            else:
                pip.main()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except SystemExit as e:
        oc = "ok" if e.code in (0, None) else "fatal" if e.code == 1 else "usage" if e.code == 2 else f"exit {e.code}"
    except Timeout:
        oc = "timeout"
    except TooMuch:
        oc = "endless output"
    except BaseException as e:
        oc = f"crash {type(e).__name__}"
    finally:
        sys.stdin, sys.stdout, sys.stderr = real_in, real_out, sys.__stderr__
    sg = inp.sg + [inp.seg()]
    return {"oc": oc, "out": out.text()[:200000], "rd": inp.rd, "sg": sg, "err": err.text()[:2000]}


def main():
    import tempfile
    signal.signal(signal.SIGALRM, on_alarm)
    try:
        import pip      # noqa
    except BaseException as e:
        real_out.write(json.dumps({"fail": f"cannot import: {e!r}"}) + "\n")
        return
    home = tempfile.mkdtemp(prefix="pipverif.")
    os.chdir(home)
    path = os.path.join(home, "code.pip")
    slow = 0.0
    try:
        for line in real_in:
            case = json.loads(line)
            if slow > BUDGET:
                obs = {"skip": True}
            else:
                t = time.time()
                obs = run(case["inv"], path)
                if obs["oc"] in ("timeout", "endless output"):
                    slow += time.time() - t
            real_out.write(json.dumps({"id": case["id"], "obs": obs}) + "\n")
            real_out.flush()
    finally:
        if os.path.exists(path):
            os.unlink(path)
        os.chdir("/")
        os.rmdir(home)


main()
