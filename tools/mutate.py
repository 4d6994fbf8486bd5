#!/usr/bin/env python3
"""mutate.py: how much of the interpreter the checks reach.

Not a check: a survey, run by hand, that shows where the generators are thin.
It makes small changes (mutants) to a scratch copy of the interpreter, one at
a time, and runs the programs of the checks on each; a mutant on which none
is observed to behave otherwise than the specification prescribes survives.

  mutate.py pool DIR [N]        programs of every check, with what the
                                specification (by way of the unchanged
                                interpreter, conforming) prescribes
  mutate.py run DIR COUNT SEED [FILE[:FUNC]]   mutants at random -> DIR/results.jsonl
  mutate.py one DIR ID...       the mutants of these numbers again
"""
import ast
import copy
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
import engine    # noqa: E402
import models    # noqa: E402
import props     # noqa: E402

FILES = ["execution.py", "operators.py", "parsing.py", "pip.py", "ptypes.py", "scanning.py", "tokens.py"]
SRC = "/repo"
CMPS = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BINS = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Div, ast.Mult], ast.Mod: [ast.FloorDiv], ast.Div: [ast.FloorDiv],
        ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.Pow: [ast.Mult]}


def quiet(node):
    """Calls whose text nobody relies on."""
    if isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        return name in ("warn", "die", "fatal", "__init__", "FatalError", "print_warning")
    return False


def mutations(tree):
    """(path to the node, what) for every mutation."""
    out = []

    def walk(node, path, func):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            func = func + "." + node.name if func else node.name
        if quiet(node):
            return
        add = lambda what: out.append((path, what, func, getattr(node, "lineno", 0)))
        if isinstance(node, ast.Compare):
            for k, op in enumerate(node.ops):
                for j in range(len(CMPS.get(type(op), []))):
                    add(("cmp", k, j))
        elif isinstance(node, ast.BoolOp):
            add(("bool",))
            for k in range(len(node.values)):
                add(("drop", k))
        elif isinstance(node, ast.UnaryOp):
            add(("unary",))
        elif isinstance(node, ast.BinOp):
            for j in range(len(BINS.get(type(node.op), []))):
                add(("bin", j))
        elif isinstance(node, ast.Constant):
            if isinstance(node.value, bool):
                add(("flip",))
            elif isinstance(node.value, int):
                add(("const", 1))
                add(("const", -1))
            elif isinstance(node.value, str) and " " not in node.value and len(node.value) < 12:
                add(("str",))
            elif node.value is None:
                add(("none",))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            add(("true",))
            add(("false",))
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant,))) and not (isinstance(node, ast.Expr) and quiet(node.value)) and func:
                add(("delete",))
        elif isinstance(node, ast.Return):
            add(("delete",))
        elif isinstance(node, (ast.Break, ast.Continue)):
            add(("jump",))
        elif isinstance(node, ast.Call):
            if len(node.args) == 2:
                add(("swap",))
            elif len(node.args) > 2:
                add(("dropcall",))
            if isinstance(node.func, ast.Name) and len(node.args) == 1 and node.func.id in ("list", "reversed", "str", "int", "sorted", "iter", "set", "tuple", "len", "repr", "abs", "copy", "deepcopy", "Fraction", "float"):
                add(("unwrap",))
            if isinstance(node.func, ast.Name) and node.func.id == "isinstance" and isinstance(node.args[1], ast.Tuple):
                for k in range(len(node.args[1].elts)):
                    add(("type", k))
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords and node.func.attr not in ("append",):
                add(("unmeth",))
        elif isinstance(node, ast.Slice):
            for k in ("lower", "upper", "step"):
                if getattr(node, k) is not None:
                    add(("slice", k))
        for name, val in ast.iter_fields(node):
            if isinstance(val, ast.AST):
                walk(val, path + [(name, None)], func)
            elif isinstance(val, list):
                for k, v in enumerate(val):
                    if isinstance(v, ast.AST):
                        walk(v, path + [(name, k)], func)
    walk(tree, [], "")
    return out


def at(tree, path):
    for name, k in path:
        tree = getattr(tree, name)
        if k is not None:
            tree = tree[k]
    return tree


def put(tree, path, new):
    parent = at(tree, path[:-1])
    name, k = path[-1]
    if k is None:
        setattr(parent, name, new)
    else:
        getattr(parent, name)[k] = new


def mutate(tree, path, what):
    tree = copy.deepcopy(tree)
    n = at(tree, path)
    w = what[0]
    if w == "cmp":
        n.ops[what[1]] = CMPS[type(n.ops[what[1]])][what[2]]()
    elif w == "bool":
        n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
    elif w == "drop":
        rest = n.values[:what[1]] + n.values[what[1] + 1:]
        put(tree, path, rest[0] if len(rest) == 1 else ast.BoolOp(n.op, rest))
    elif w == "unary":
        put(tree, path, n.operand)
    elif w == "bin":
        n.op = BINS[type(n.op)][what[1]]()
    elif w == "flip":
        n.value = not n.value
    elif w == "const":
        n.value += what[1]
    elif w == "str":
        n.value = "" if n.value else "?"
    elif w == "none":
        n.value = 0
    elif w in ("true", "false"):
        n.test = ast.Constant(w == "true")
    elif w == "delete":
        put(tree, path, ast.Pass())
    elif w == "jump":
        put(tree, path, ast.Continue() if isinstance(n, ast.Break) else ast.Break())
    elif w == "swap":
        n.args.reverse()
    elif w == "dropcall":
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif w == "unwrap":
        put(tree, path, n.args[0])
    elif w == "unmeth":
        put(tree, path, n.func.value)
    elif w == "type":
        del n.args[1].elts[what[1]]
    elif w == "slice":
        setattr(n, what[1], None)
    return ast.unparse(ast.fix_missing_locations(tree))


def all_mutants():
    for f in FILES:
        tree = ast.parse(open(os.path.join(SRC, f)).read())
        for path, what, func, line in mutations(tree):
            yield f, tree, path, what, func, line


def pool(d, n):
    invs = []
    for pid in sorted(props.PROPS):
        rng = random.Random(f"{pid}/mutate")
        cs = [i for i in props.PROPS[pid](rng, n) if engine.clean(i)]
        cs = engine.with_texts(cs)
        obs = engine.observe(cs)
        vs, _ = engine.validate(cs, obs)
        got = [dict(pid=pid, inv=cs[k], obs=obs[k]) for k, v in vs.items() if v["v"] == "ok"]
        print(pid, len(got), flush=True)
        invs += got
        if pid in models.SIZES:
            res = models.Laws(pid, -(-models.SIZES[pid] // n), 1).explore()
            bs = [b for b in res["behaviours"] if b["oc"] != "oom"]
            cs = [b["inv"] for b in bs]
            obs = engine.observe(cs)
            invs += [dict(pid=pid, inv=c, obs=o) for b, c, o in zip(bs, cs, obs) if o and not engine.compare(b, o)]
    random.Random(5).shuffle(invs)
    json.dump(invs, open(os.path.join(d, "pool.json"), "w"))
    print(len(invs))


def trial(d, invs, m):
    """The first program on which the mutant shows, or None."""
    f, tree, path, what, func, line = m
    try:
        text = mutate(tree, path, what)
    except Exception as e:
        return "unmade " + repr(e)
    work = os.path.join(d, "work")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    for g in os.listdir(SRC):
        if g.endswith(".py"):
            shutil.copy(os.path.join(SRC, g), work)
    open(os.path.join(work, f), "w").write(text)
    engine.REPO = work
    pos, size = 0, 400
    while pos < len(invs):
        part = invs[pos:pos + size]
        obs = engine.observe([p["inv"] for p in part], timeout=2)
        if isinstance(obs, str):
            return "import"
        for p, o in zip(part, obs):
            if o is not None and engine.compare(dict(p["obs"]), o):
                return {"pid": p["pid"], "inv": p["inv"], "was": p["obs"], "now": o}
        pos += size
        size = min(size * 3, 12000)
    return None


def diff(m):
    f, tree, path, what, func, line = m
    a = ast.unparse(tree).splitlines()
    b = mutate(tree, path, what).splitlines()
    return [l for l in difflib.unified_diff(a, b, n=1, lineterm="")][3:]


def run(d, count, seed, only):
    invs = [p for p in json.load(open(os.path.join(d, "pool.json"))) if not engine.random_op(p["inv"])]
    ms = list(enumerate(all_mutants()))
    print(len(ms), "mutants", flush=True)
    if only:
        file, _, fn = only.partition(":")
        ms = [m for m in ms if m[1][0] == file and fn in m[1][4]]
    random.Random(seed).shuffle(ms)
    done = {}
    path = os.path.join(d, "results.jsonl")
    if os.path.exists(path):
        done = {json.loads(l)["id"] for l in open(path)}
    n = 0
    with open(path, "a") as out:
        for k, m in ms:
            if k in done:
                continue
            if n >= count:
                break
            n += 1
            t = time.time()
            r = trial(d, invs, m)
            rec = {"id": k, "file": m[0], "func": m[4], "line": m[5], "what": m[3], "diff": diff(m) if not isinstance(r, str) else [], "killed": r is not None,
                   "by": r if isinstance(r, str) else r and {"pid": r["pid"], "src": r["inv"]["src"] or r["inv"]["inp"]}, "s": round(time.time() - t, 1)}
            out.write(json.dumps(rec) + "\n")
            out.flush()


if __name__ == "__main__":
    if sys.argv[1] == "pool":
        pool(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 2000)
    elif sys.argv[1] == "run":
        run(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5] if len(sys.argv) > 5 else "")
    elif sys.argv[1] == "one":
        invs = json.load(open(os.path.join(sys.argv[2], "pool.json")))
        ids = {int(x) for x in sys.argv[3:]}
        for k, m in enumerate(all_mutants()):
            if k in ids:
                r = trial(sys.argv[2], invs, m)
                print(k, m[0], m[4], m[3], "\n".join(diff(m)), "\n", r if r is None or isinstance(r, str) else (r["pid"], r["inv"]["src"], r["inv"]["inp"], r["was"], r["now"]))
