"""Generators of invocations for the properties.

Each generator takes a random.Random and a number and returns about that many
invocations.  What each of them should do is not written here: that is what
the specification says.
"""
import itertools
import re
import string

from engine import OTHERS, calling, case, command, session
from gen import (ALL, BLOCKS, BY, FLOATY, LISTS, NILS, NUMS, OUTPUTS, PATS, POOLS, RANDOM_FNS, RANGES, ROWS, SIMPLE,
                 SMALL, STRS, Gen, apply, kinds)

INF = ("(3,())", "(\\,())")
FIN = [v for v in ALL if v not in INF]
ARGS = ["abc", "5"]


def rows(*fns):
    return [r for r in ROWS if r["fn"] in fns]


def pick(rng, pool=None, inf=0.1):
    while True:
        v = rng.choice(pool or ALL)
        if v not in INF or rng.random() < inf:
            return v


def RPs(*xs):
    return "".join(f"P RP({x})" for x in xs)


def fuzz_rows(rng, rs, n, pool=None, wrap="RP({})", pools=None, args=ARGS, fms=("p",), weird=0.2):
    """n applications of the given operators to values of the pool; weird is
    the share of operands of any type."""
    out = []
    while len(out) < n:
        r = rs[len(out) % len(rs)]
        ops = []
        for k in range(r["ar"]):
            p = (pools[k] if pools and k < len(pools) else pool) or ALL
            ops.append(pick(rng, ALL if rng.random() < weird else p))
        out.append(case(wrap.format(apply(r, ops)), args, fm=rng.choice(fms)))
    return out


# ------------------------------------------------------------------- C01
GAPS = [" ", " ", "\n", "\t", " \n ", "\n\n", "  ;c c\n", "\n;\"'`\n", "\n\t;y\n", "\n ;z\n", "  1 (\n  ' 2\n", " {;c}\"\n;} ", "{;;}", "{; x;}\n"]
SEPS = ["", "", ""] + GAPS + ["  ", " ;x\n", "\t;y\n", ";", " ; "]
TOKS = (["a", "b", "x", "y", "i", "l", "$0", "$12", "$_", "$__", "$`", "$'", "$]", "$(", "$ab", "\\a", "\\g", "AZ", "PI", "XW", "z"]
        + ["0", "1", "12", "3.5", ".5", "007", "1.", "1..2", "()", '"s t"', '""', "'c", "''", "' ", "';", "`p`", "`a\\`b`",
           '\\"q\\"', '\\"i\\(1+1)j\\"', '\\"\\"']
        + ["+", "-", "*", "/", "//", "**", ".", ",", "\\,", "=", "==", "!=", "<", ">", "<=", ">=", "&", "|", "?", ":", "::", "@", "@<",
           "@>", "@?", "@*", "^", "^@", "<>", "~", "~=", "#", "#=", "#<", "!", "\\!", "\\&", "\\|", "\\?", "++", "--", "|>", "<|", "||",
           "|<", ">|", "$+", "$.", "\\$+", "+*", "X", "J", "R", "RA", "TR", "M", "MX", "FI", "SK", "N", "NI", "AE", "PE", "EQ", "LT",
           "UC", "TB", "FB", "Z", "WV", "V", "RP", "ST"]
        + ["(", ")", "[", "]", "{", "}", ";", "F", "I", "EI", "EL", "W", "T", "L", "LR", "WG", "P", "O", "Y", "FABC", "PRP", "XXX",
           "IFx", "BY", "ISI"])


def soup(rng, n):
    return "".join(rng.choice(TOKS) + rng.choice(SEPS) for _ in range(n))


def etoks(rng, d, names=("a", "b", "x", "y")):
    """Tokens of a random expression."""
    r = rng.random()
    if d <= 0 or r < 0.25:
        return [rng.choice(list(names) + ["0", "1", "2.5", "12", '"s;t"', "'c", "' ", "`p+`", '\\"q\\(a)r\\"', "()", "PI", "AZ", "i", "$_", "z"])]
    if r < 0.35:
        return ["("] + etoks(rng, d - 1, names) + [")"]
    if r < 0.45:
        return ["["] + sum((etoks(rng, d - 1, names) + rng.choice([[], [";"]]) for _ in range(rng.randint(0, 3))), []) + ["]"]
    if r < 0.52:
        return ["{"] + stoks(rng, d - 1, names, 2) + ["}"]
    if r < 0.58:
        return ["("] + etoks(rng, d - 1, names) + etoks(rng, d - 1, names) + [")"]
    row = rng.choice([q for q in ROWS if q["fn"] not in RANDOM_FNS])
    tx = row["tx"]
    x = rng.random()
    e = lambda: etoks(rng, d - 1, names)
    if row["ar"] == 1:
        return [tx] + (["*"] if x < 0.05 else []) + (["$"] if False else []) + e()
    if row["ar"] == 2:
        if x < 0.07:
            return ["$" + tx] + e()
        if x < 0.1:
            return ["\\$" + tx] + e()
        if x < 0.14:
            return [rng.choice(names), tx + ":"] + e()
        if x < 0.17:
            return e() + [tx + "*"] + e()
        return e() + [tx] + e()
    return e() + [tx] + e() + [":"] * 0 + e()


def stoks(rng, d, names=("a", "b", "x", "y"), n=3):
    out = []
    for _ in range(rng.randint(0, n)):
        r = rng.random()
        e = lambda: etoks(rng, d - 1, names)
        body = lambda: ["{"] + stoks(rng, d - 1, names, 2) + ["}"] if d > 0 and rng.random() < .6 else ["P"] + [rng.choice(names)]
        if r < .1:
            out += ["I"] + e() + body() + (["EI"] + e() + body() if rng.random() < .4 else []) + (["EL"] + body() if rng.random() < .5 else [])
        elif r < .18:
            out += ["F", rng.choice(["i", "k", "[a b]"])] + e() + body()
        elif r < .23:
            out += ["L"] + e() + body()
        elif r < .26:
            out += ["W"] + e() + body()
        elif r < .29:
            out += ["T"] + e() + body()
        elif r < .32:
            out += ["LR"] + e() + e() + body()
        elif r < .34:
            out += ["WG"]
        elif r < .5:
            out += [rng.choice(["P", "O", "Y", "YP", "PRP"])] + e()
        elif r < .6:
            out += [rng.choice(names), ":"] + e()
        else:
            out += e()
        if rng.random() < .5:
            out += [";"]
    return out


def glue(rng, toks, tight=0.5):
    """Join tokens; usually safely, sometimes tightly."""
    s = ""
    for t in toks:
        if s and t:
            p, c = s[-1], t[0]
            merge = (p.isalnum() or p in "_$") and (c.isalnum() or c in "_.") or (not p.isspace() and not p.isalnum()
                                                                                and not c.isspace() and not c.isalnum() and p not in "()[]{};" )
            x = rng.random()
            sep = rng.choice(GAPS if merge and x < 0.97 else SEPS if x > .98 else [""] if merge or rng.random() < tight else GAPS)
            s += sep
        s += t
    return s


def g_scan(rng, n):
    out = []
    while len(out) < n:
        k = len(out) % 10
        if k < 2:
            out.append(case("{" + soup(rng, rng.randint(1, 5)) + "}"))
        elif k == 2:
            out.append(case(soup(rng, rng.randint(1, 4)), ARGS))
        elif k == 3:
            # literals next to one another
            lits = [rng.choice(["'" + rng.choice(string.printable[:95]), '"' + rstr(rng, 4).replace('"', "") + '"',
                                "`" + rstr(rng, 4).replace("`", "\\`").replace("\\", "") + "`", "\\\"" + rstr(rng, 4).replace('"', "") + "\\\"",
                                rng.choice(["1", "1.", ".5", "1.5.2", "00", "12a", "$1", "1e5", "0.0"]), "()", "$_", "\\a", "PI"])
                    for _ in range(rng.randint(1, 4))]
            out.append(case("RP[" + rng.choice(["", " "]).join(lits) + "]", ARGS))
        elif k == 4:
            # runs of capitals
            w = "".join(rng.choice(["X", "R", "P", "M", "F", "I", "A", "Z", "PI", "RV", "UC", "AB", "XI", "S", "SK", "EL", "EI", "W", "B", "G", "J", "LC"])
                        for _ in range(rng.randint(1, 6)))
            out.append(case(rng.choice(["{%sx}", "{x%sy}", "RP x%sy", "{%s}", "RP%s\"ab\"", "{i%s2}"]) % w, ARGS))
        elif k == 5:
            # runs of symbols
            w = "".join(rng.choice("+-*/%<>=!&|?:@#^~.,$\\") for _ in range(rng.randint(1, 5)))
            out.append(case(rng.choice(["{x%sy}", "{%sx}", "RP(3%s2)", "RP(l%s[1 2])", "{x%s2}"]) % w, ARGS))
        else:
            out.append(case(glue(rng, ["{"] + stoks(rng, rng.choice([2, 2, 3])) + ["}"]), ARGS))
        out[-1]["vb"] = rng.random() < .3
    return out


# ------------------------------------------------------------------- C02
def g_prec(rng, n):
    out = []
    un = [r for r in ROWS if r["ar"] == 1 and r["fn"] not in RANDOM_FNS | {"RECURSE"}]
    bi = [r for r in ROWS if r["ar"] == 2 and r["fn"] not in RANDOM_FNS]
    te = [r for r in ROWS if r["ar"] == 3]
    safe = [r for r in bi if r["fn"] not in ("EVAL", "PERMUTATIONS", "COMBINATIONS", "POW", "POWEROFTEN", "STRMUL", "COORDINATEGRID",
                                             "ZEROGRID", "ONEGRID", "SWAP", "ASSIGN")]
    arith = [r for r in rows("ADD", "SUB", "MUL", "INTDIV", "MOD", "CAT", "NUMLESS", "NUMGREATER", "NUMEQUAL", "AND", "OR", "OBJEQUAL",
                             "ABSOLUTEDIFF", "BITWISEAND", "BITWISEOR", "BITWISEXOR", "NUMCMP", "RVALAND", "RVALOR", "STRLESS",
                             "RANGE", "APPENDELEM", "STRMUL", "POW", "DIV") if r["ar"] == 2]
    pairs = [(p, q) for p in bi for q in bi]
    rng.shuffle(pairs)
    pi = iter(itertools.cycle(pairs))
    upairs = [(u, q) for u in un for q in bi]
    rng.shuffle(upairs)
    ui = iter(itertools.cycle(upairs))
    while len(out) < n:
        k = len(out) % 10
        if k < 3:
            p, q = next(pi)
            out.append(case(f"P{{a {p['tx']} b {q['tx']} c}}"))
        elif k == 3:
            u, q = next(ui)
            out.append(case(rng.choice([f"P{{{u['tx']} a {q['tx']} b}}", f"P{{a {q['tx']} {u['tx']} b}}", f"P{{a {q['tx']} {u['tx']} b {rng.choice(bi)['tx']} c}}"])))
        elif k == 4:
            t, p = rng.choice(te), rng.choice(bi)
            out.append(case(rng.choice([f"P{{a {t['tx']} b {p['tx']} c d}}", f"P{{a {p['tx']} b {t['tx']} c d}}", f"P{{a {t['tx']} b c {p['tx']} d}}",
                                        f"P{{a {t['tx']} b c {rng.choice(te)['tx']} d e}}", f"P{{a ? b ? c d e}}", f"P{{{rng.choice(un)['tx']} a {t['tx']} b c}}"])))
        elif k == 5:
            # meta-operators, assignment and sends
            p, q = rng.choice(bi), rng.choice(bi)
            u = rng.choice(un)
            out.append(case("P{" + rng.choice([f"${p['tx']} a {q['tx']} b", f"a {q['tx']} ${p['tx']} b", f"a {p['tx']}: b {q['tx']} c",
                                               f"a {p['tx']} b {q['tx']}: c", f"\\${p['tx']} a {q['tx']} b",
                                               f"{u['tx']}* a {q['tx']} b", f"a {p['tx']} (b c) {q['tx']} d", f"{u['tx']}: a {p['tx']} b",
                                               f"${p['tx']} * a", f"{u['tx']}*: b", f"a . (b) @ c"]) + "}"))
        elif k < 8:
            ops = [rng.choice(arith) for _ in range(rng.randint(2, 5))]
            s = rng.choice(["", "-", "#", "!", "U"]) + rng.choice("012357")
            for o in ops:
                s += f" {o['tx']} " + rng.choice(["", "", "", "-", "!"]) + rng.choice(["0", "1", "2", "3", "4", "5", "7", "1.5"])
            out.append(case("RP(" + s + ")"))
        else:
            ops = [rng.choice(safe) for _ in range(rng.randint(2, 3))]
            s = rng.choice(FIN)
            for o in ops:
                s += f" {o['tx']} " + rng.choice(["", "", "", rng.choice(un)["tx"] + " "]) + rng.choice(FIN)
            out.append(case("RP(" + s + ")", ARGS))
    return out


# ------------------------------------------------------------------- C03
def rstr(rng, n, alphabet=None):
    return "".join(rng.choice(alphabet or "abcxyz019 ;\"'`\\()[]{}.,-+*$#@!?:\n") for _ in range(rng.randint(0, n)))


def g_complete(rng, n):
    out = []
    while len(out) < n:
        k = len(out) % 4
        toks = stoks(rng, rng.choice([1, 2, 2, 3]))
        if k == 0:          # a program cut off
            toks = toks[:rng.randint(0, len(toks))]
            s = glue(rng, toks, .8)
            out.append(case("P4;" + s if rng.random() < .3 else "{" + s, ARGS))
        elif k == 1:        # a token too many, or too few
            p = rng.randint(0, len(toks))
            t = rng.random()
            if t < .5:
                toks = toks[:p] + [rng.choice([")", "]", "}", "(", "[", "{", "+", "?", "F", "I", "EL", "EI", "$", ":", "\\$", "'", '"', "`", "*",
                                               "LR", "R", "MZ", "TR", "$+", "BAD", "QQ", "\\"])] + toks[p:]
            elif toks:
                toks = toks[:max(0, p - 1)] + toks[p:]
            out.append(case("O 7;{" + glue(rng, toks, .8) + "}", ARGS))
        elif k == 2:        # the same at the prompt: the rest comes on the next lines
            toks = [t.replace("\n", " ") for t in ["{"] + toks + ["}"]]
            lines, cur = [], ""
            for t in toks:
                cur += (" " if cur else "") + t
                if rng.random() < .25:
                    lines.append(cur)
                    cur = ""
            lines.append(cur)
            out.append(session(lines + ["i", "{}"]))
        else:
            s = rng.choice(["(", "[1 2", "{a", '"abc', "'", "`re", '\\"ab', "x:", "1+", "F i", "Fi,3", "I 1", "I1P2EL", "L3", "x?1", "a b", "[[", "({[",
                            ")", "]", "}", "1)", "(1]", "{)", "+", "EL 1", "EI 1 2", "R", "1R2", "$", "$+", "\\$+", "\\", "x::", "M", "MX", "1 2 +",
                            "F 5 P1", "F[a b]", "F[a 1]x P1", "F[]x P1", "F a", "LR 1", "LR 1 2", "W", "T1", "WG", "P", "O", "1?2", "1?2 3", "BB", "UU",
                            "x:+", "(;)", "[;]", "{;}", ";;", "1;;2", "(1;2)", "[1;2]", "()()", "((", "\"a\"\"b", "3x", "x3", "I 1 {", "I 1 {2", "W 0 {1", "{}}", "Fi,3{P", "'a'"])
            more = [rng.choice([")", "]", "}", '"', "`", '\\"', "2", "P5", "", " ", "5}", "x)", ";h", "1", "+1", "{P 3}", "c"]) for _ in range(rng.randint(1, 4))]
            if rng.random() < .5:
                out.append(session([s] + more))
            else:
                out.append(case(s + rng.choice(["", rng.choice(["", "\n", " "]).join(more)]), ARGS))
    return out


# ------------------------------------------------------------------- C04
def g_unparse(rng, n):
    out = []
    tails = ["", "P RP V RP x;", "P(V RP x)=x;", "y:V RPx;P RPy;P x==y;P(x 3 5);P(y 3 5);", "y:V RPx;P RPy;P x=y;P(x\"abc\"[1 2 3]);P(y\"abc\"[1 2 3]);"]
    for _ in range(n):
        k = rng.random()
        if k < .6:
            f = glue(rng, ["{"] + stoks(rng, rng.choice([1, 2, 2, 3, 3])) + ["}"], .3)
        elif k < .8:
            f = "{" + "".join(rng.choice([lit(rng), " " + rng.choice(["a", "b", "x"]) + " ", rng.choice(["+", "-", ".", "*", "@", "=", "<"])]) for _ in range(rng.randint(1, 6))) + "}"
        elif k < .9:
            f = "{" + lit(rng) + rng.choice(["", ";"]) + "}"
        else:
            g = Gen(rng, "ab")
            f = "{" + g.wild(3) + rng.choice(["", ";", ";" + g.wild(2)]) + "}"
        out.append(case(f"x:{f};P RPx;" + rng.choice(tails), ["7", "ab", "12", "x y", "3"]))
    return out


# ------------------------------------------------------------------- C05
def lit(rng):
    r = rng.random()
    if r < .2:
        return rng.choice(["0", "1", "00", "1.50", ".5", "5.", "12345", "0.0", "007", "3.0", "99"])
    if r < .4:
        return '"' + rstr(rng, 5).replace('"', "") + '"'
    if r < .5:
        return "'" + rng.choice("abc\"'`; 5\\-\n()")
    if r < .6:
        return '\\"' + rstr(rng, 4).replace("\\", rng.choice(["\\\\", "\\n", ""])) .replace("(", "").replace('"', "'") + '\\"'
    if r < .75:
        return "`" + rng.choice(["a", "\\d+", "[a-c]", "a\\`b", "x|y", "^$", ".", "a{2}", "(a)(b)", "\\\\", "\"", "\n", "'", "", "\\.", "é"[:0]]) + "`"
    if r < .85:
        return rng.choice(["()", "[]", "[()]", "AZ", "PI", "n", "s", "w", "XI", "XD", "XA", "l"])
    return rng.choice(["_", "{}", "B", "G", "{a}"])


def value(rng, d=3):
    r = rng.random()
    if d > 0 and r < .35:
        return "[" + rng.choice([" ", ";"]).join(value(rng, d - 1) for _ in range(rng.randint(0, 4))) + "]"
    if r < .45:
        return rng.choice(NUMS + ['"-05"', '"-0"', '"1.50"', '"00"', '"-.5"', '".5"', '"5."', '"1e5"', '"+1"', '"- 1"', '"-"', '""', '"0x1"', '"1_0"', '" 1"', '"1 "', '"--1"',
                                  "('\"." + rng.choice(["'\\ ", "'\\", "'\\.'\\", '"\\\\"', '"\\ a"', '"\\1"', '"a\\"', '"\\("', '"n\\n"']) + ")", "(" + rng.choice(["'\\", '"\\"', '"a\\ "', '"1\\2"', '"\\\\"', '"x\\("']) + ".'\"." + rng.choice(["1", "'\\", '"\n"', "'(", '""', "'\""]) + ")",
                                  "(5/2)", "(1/4)", "(-1/4)", "(0*(-1))", "(2**20)", "(-2.50)", '("-1".0)'])
    if r < .55:
        return rng.choice(["(" + rng.choice(["", "1", "(-3)", "5", "0"]) + "," + rng.choice(["3", "0", "(-2)", "()", "7", "5"]) + ")", "(()," + rng.choice(["5", "()"]) + ")", "(\\,3)", "(2\\,4)"])
    if r < .65:
        return rng.choice(PATS + ["(-`a`)", "(A`a`)", "(.`a`)", "(,`a`)", "(-.`a`)", "(K`a`)", "(+`a`)", "(`a`,`b`)", "(`a`.`b`)", "(X\"a.b\")", "(`a`X3)", "(+`(a)`)", "(#`(a)`)",
                                  "(-(A`a`))", "(.(-`a`))", "(,(.(-(A`x`))))", "X`a`"])
    if r < .72:
        return "(" + rng.choice(["{a+1}", "_+1", "_.b", "$+_", "{Pa}", "_*_", "_<2", "{a;b}", "{[a;b]}", "{x:a}", "_@1", "#_", "-_", "_ R`a`'b", "{I a P b}", "{Fi,a Pi}",
                                 "{a?b c}", "_?1 2", "{\"a;\"}", "{';}", "{' }", "_M,3", "{_+1}", "{{a}}", "{a b}", "(_ 3)", "{a:b}", "_=:3", "{a\"\"}", "{-5}", "_-(-5)", "{`a`}", "_<3<4"]) + ")"
    if r < .8:
        return "(" + lit(rng) + "." + lit(rng) + ")"
    return lit(rng)


def g_repr(rng, n):
    out = []
    for k in range(n):
        v = value(rng)
        out.append(case(rng.choice([f"x:{v};y:V RPx;P RPx;P RPy;P x==y", f"x:{v};y:V RPx;P RP x;P(RPx)Q RPy;P x==y;Px;Py", f"x:{v};P RP[x[x]];P x==V RPx;P (RPx)Q(RP V RPx)",
                                    f"x:{v};Px;P ST x;P RPx;x"]),
                        ARGS, fm=rng.choice(["p", "p", "p", "", "P"])))
    return out


# ------------------------------------------------------------------- C06
MUT = ["{v}@{i}:{e}", "{v}@>1:{e}", "{v}@<2:{e}", "{v}@(1,2):[{e} {e}]", "{v}PU{e}", "{v}PB{e}", "PO{v}", "DQ{v}", "{v}AE:{e}", "{v}.:{e}", "{v}RA:{i} {e}", "{v}RV:()", "U{v}", "D{v}", "++{v}", "--{v}",
       "{v}+:1", "{v}*:2", "{v}R:1 {e}", "U{v}@{i}", "{v}@{i}+:1", "{v}@{i}@0:{e}", "{v}@{i}@{i}.:{e}", "{v}PU:{e}", "{v}@{i}PU{e}", "PO{v}@{i}", "DQ{v}@{i}", "{v}PB:{e}", "{v}AL:[{e}]", "{v}::{w}",
       "{v}@{i}::{w}@{j}", "{v}@0::{v}@1", "[{v} {w}]:[{w} {v}]", "[{v} {w}]::[{w} {v}]", "{v}:{w}", "{v}@{i}:{w}", "{v}:[{w} {w}]", "{v}X:2", "RV:{v}", "SN:{v}", "{v}@[0 1]:[{e} {e}]", "Y{v}", "Y[{v} {w}]",
       "F i {v} i@0:9", "F i {v} i+:1", "F i {v}{{vPU i}}I#v>9v:[]"]
FUNS = ["{a@0:9 a}", "{aPU 8 a}", "{POa a}", "{a+:1 a}", "{x:a}", "{x:a xPU 7 a}", "{y@0:a}", "{a:b b@0:6 a}", "{[a b]:[b a] a}", "{aAE:x x}", "{a@1:x xPU1 a}", "{$_:a}", "{DQa}", "{l:a lPU l l}",
        "{b:a bPU5 [a b]}", "{a@0@0:4 a}", "{Ua a}", "{a.:1 a}"]


def g_alias(rng, n):
    out = []
    for _ in range(n):
        vs = ["x", "y", "l", "v"]
        s = ""
        for v in vs:
            s += f"{v}:" + rng.choice(["[1 2 3]", "[[1 2][3 4]]", '"abc"', "[5 [6 [7]]]", ",4", "[\"ab\" [0 1]]", "7", "x", "y", "[x x]", "[x y]", "x@0", "x@1", "(x@<2)", "(x AE y)", "RVx", "x.\"\"", "(2,5)", "{a}", "()"]) + ";"
        for _ in range(rng.randint(1, 5)):
            if rng.random() < .7:
                m = rng.choice(MUT)
                v, w = rng.choice(vs), rng.choice(vs)
                s += m.format(v=v, w=w, i=rng.choice(["0", "1", "-1", "2"]), j=rng.choice("01"), e=rng.choice(["9", '"z"', "x", "y", "[0]", "v", "[x]", "l@0", ",2"])) + ";"
            else:
                s += rng.choice(["", "v:", "Px:", "l:"]) + "(" + rng.choice(FUNS) + " " + rng.choice(vs) + " " + rng.choice(vs) + ");" if rng.random() < .7 else \
                    rng.choice(["v:", "l:", ""]) + rng.choice(FUNS) + rng.choice(["M", "MJ", "MS", "FI", "SK", "ME", "MU", "MP"]) + rng.choice(vs) + ";"
        out.append(case(s + RPs(*vs), ARGS))
    return out


# ------------------------------------------------------------------- C07
LV = ["x", "y", "l", "a", "b", "$5", "t", "x@0", "x@1", "x@-1", "x@5", "l@0", "l@1@0", "l@1@1", "l@2", "x@0@0", "y@1", "(x)", "x@(0,2)", "l@(1,())", "x@<1", "x@>1", "l@[0 1]", "x@y", "x@y@0", "(l 1)", "(l 1 0)", "x@()", "l@l@0", "\\a", "AZ", "_", "B", "$_", "z@3", "q", "i", "r" if False else "i"]
RVS = ["0", "1", "5", "(-3)", "2.5", '"s"', '"abc"', "[]", "[7 8]", "[[1]2]", ",3", "()", "x", "y", "l", "x@0", "l@1", "{a}", "`p`", "(x.y)", "[x y]", "(1,3)"]
ASOPS = ["+", "-", "*", "//", "%", ".", "AE", "PE", "AL", "PU", "PB", "X", "RV", "J", "@", "MX", "MN", "<", "=", "?", "&", "|", "R", "BA", "**", "TB", "^", "\\&", "N", "RM", "WR", ",", "==", "!", "H", "UQ", "SN", "#", "M", "Z", "@<", "@>", "CH", "AT", "BO", "AD"]
MODES = ["{lv}:{rv}", "{lv}:{rv}", "{lv}{op}:{rv}", "{lv}{op}:{rv}", "[{lv} {lw}]:[{rv} {rw}]", "[{lv} {lw}]:{rv}", "[{lv}[{lw} y]]:[{rv}[{rw} 4]]", "{lv}::{lw}", "[{lv} {lw}]::[{lw} {lv}]", "U{lv}", "D{lv}",
         "++{lv}", "--{lv}", "{u}:{lv}", "Y{rv}", "Y{lv}", "{lv}:{lw}:{rv}", "({lv}:{rv}){op}{rw}", "{lv}{op}:{lw}{op}:{rv}", "{rv}:{rw}", "{rv}{op}:{rw}", "[{lv} {rv}]:[{rw} 1]", "{lv}::{rv}", "({c}?{lv} {lw}):{rv}", "({lv}:{rv}):{rw}",
         "PO{lv}", "DQ{lv}", "{lv}PU{rv}", "{lv}PB{rv}", "({lv}&{lw}):{rv}", "({lv}|{lw}):{rv}", "[{lv} {lw} y]:{rv}", "${op}:{lv}", "{u}*:{lv}", "F {lv} [3 4] P 1", "F [x y] [[1 2][3]] P x", "({lv} {rv}):{rw}"]
UNAS = ["-", "+", "#", "RV", "UQ", "SN", "!", "UC", "A", "C", "TB", "FB", "^", "J", "MX", "ABS" if False else "AB", "$+", "\\$+", "EN", "Z", "FL", "HV", "DB", "V", "RP"]


def g_assign(rng, n):
    out = []
    while len(out) < n:
        c = lambda xs: rng.choice(xs)
        pre = f"x:{c(['[1 2 3]', chr(34) + 'abc' + chr(34), '[[1 2] 3]', '5', '[]'])};y:{c(RVS)};l:{c(['[1 [2 3] 4]', '[[1 2][3 4][5 6]]', '[' + chr(34) + 'ab' + chr(34) + ' [0 ' + chr(34) + 'cd' + chr(34) + ']]', ',5'])};a:{c(RVS)};b:{c(RVS)};"
        s = ""
        for _ in range(rng.randint(1, 3)):
            st = c(MODES).format(lv=c(LV), lw=c(LV), rv=c(RVS), rw=c(RVS), op=c(ASOPS), u=c(UNAS), c=c("01xy"))
            s += rng.choice(["", "", "P RP(" if not st.startswith("F ") else ""]) + st
            s += ")" if s.count("(") > s.count(")") else ""
            s += ";"
        vs = ["x", "y", "l", "a", "b", "$5", "t", "z@3", "i"]
        out.append(case(pre + s + RPs(*vs), ["11", "[2 3]"]))
    return out


# ------------------------------------------------------------------- C08
PRESET = "AZ CZ PA PI VW VY XA XC XD XI XL XN XU XV XW XX XY B G h i k l m n o p s t u v w x y z \\a \\e \\f \\g $_ $__ $0 $1 $` a e".split()


def g_scope(rng, n):
    out = []
    fixed = ["f:{a<2?1 a*(f a-1)};P(f 6)", "f:{a?(f a-1)AE a []};P(f 4)", "{a?a+(RE a-1)0}5", "P({a?a.RE(a-1)\"\"}4)", "f:{b:a a?(f a-1).b b};P(f 3);Pb",
             "f:{x:a g:{a+x}(g 3)};P(f 4);Px", "{a M{b:a b}}", "f:{$_}P(f 3 4)", "f:{[a b c d e]}P(f 1 2)P(f 1 2 3 4 5 6 7)P(f)", "f:{\\g}P(f 1 2 3 4 5 6 7 8)", "f:{e:1 d:2 c}P RP(f 1 2)P RPe P RPd",
             "P{a+b}M[[1 2][3 4]]", "P{c:a c*2}M,3 P RPc", "f:{a<1?0(g a-1)}g:{a<1?1(f a-1)}P(f 5)P(f 4)", "f:{h:a{h+:a h}}P((f 3)4)Ph", "f:{a:9}a:3(f 1)Pa", "f:{a@0:9}x:[1](f x)Px",
             "f:{V\"b:5 b\"}P(f 1)P RPb", "f:{V{b:5 b}}P(f 1)P RPb", "f:{V{a}}P(f 7)", "f:{V\"a\"}P(f 7)", "f:{$___}1 2 3 (f 0)P$__", "f:{5 6 $__}1 2 3 (f 0)P$___", "4 5 6 7;f:{I a>0{$_;9 (f a-1)}$___}(f 2)", "{f:8 a>0?RE(a-1)f}2", "f:{f:a a>0?(RE a-1)+f f}P(f 3)P RPf", "f:{I a>0{RE(a-1)}f:a f}P(f 2)",
             "f:{g:f f:3 a?(g 0).f f}P(f 1)Pf", "f:{P$_ a}5 (f 7)P$_", "f:{7 8 P[$_$__$___]a}5 6 (f 7)P[$_$__$___]", "f:{b:a RE:5 b}P(f 1)", "{{a>0?RE(a-1)b}(a 7)}2", "f:{I a{b:3}b}P RP(f 1)P RPb P RP(f 0)", "f:{F a,3{}a}P(f 8)Pa", "F a,3{}P a", "f:{L3{b:a}b}P(f 4)P RPb",
             "f:{5/0 a}P(f 2)Pa", "P({a b c}1)", "P(({a}1)2)", "f:_+1 g:_*2 P(f(g 3))P(g(f 3))", "P(_ 3)P({_} 3 4)", "f:{a+b}$+f", "P $f,4" , "f:{g:{a.b}(g b a)}P(f 1 2)", "{f:{b}(f a b)}", "P({(a b)}{a+1}4)"]
    body = ["a", "b", "x", "a+b", "x+:a", "b:a", "a:b", "c:[a b]", "y:{a.x}", "(y a b)", "(f a-1)", "(g b a)", "RE(a-1)", "I a>1{(f a-1)}", "a<1?0(g a-1 b)", "Pa", "Pb", "F b,2{x.:b}", "V\"a.b\"", "V\"c:a\"", "V{a}", "{b:a}M,2", "(f (g a))",
            "d:x", "x:d", "[a b]:[b a]", "L2{a+:1}", "[a b c d e]", "\\g", "(_ 3)", "a@0", "c", "e", "{a:5}()", "(y 1)", "({a.b}b a)", "P[a b]", "x", "a-1", "5/0", "$_", "$__", "$_:3"]
    while len(out) < n:
        r = rng.random()
        if r < .2:
            s = rng.choice(fixed)
            if rng.random() < .5:
                out.append(case(s + ";" + RPs("a", "b", "c", "x"), ARGS))
            else:
                out.append(session([s, "a", "b", "x", "[a b c d e]", "h"]))
            continue
        if r < .23:
            # what is there before anything is assigned
            ps = rng.sample(PRESET, rng.randint(1, 4))
            out.append(case(rng.choice(["P RP[%s]", "{P RP[%s]}1", "P{RP a}M[%s]", "P PA@*[%s]", "f:{[a %s]}P RP(f 7)", "P RP[%s];{%s:a}5;P RP%s",
                                        "P RP(V\"[%s]\")", "AZ:3;PI:4;XA:5;P RP[%s]"]).replace("%s", " ".join(ps)).replace("{%s:a}" % " ".join(ps), "{%s:a}" % ps[0]),
                            rng.choice([[], [], ARGS])))
            continue
        if r < .3:
            h = lambda: rng.choice(["0", "()", "[]", '""', "5", "6", "7", '"a"', "x", "[1 2]", "{a}", "2", "3"])
            v = lambda: rng.choice(["$_", "$__", "$___"])
            q = lambda: rng.choice([f"{v()}", f"P RP{v()}", f"P RP[$_ $__ $___]", f"{v()}:{h()}", f"x:{v()}", f"({v()})", f"I {v()} {h()}", f"{v()}+1", f"RP {v()}", f"({{{h()};{v()}}}{h()})", f"f:{{{h()};{h()};P RP{v()};{v()}}}", f"(f {h()})", f"{{{v()}}}M,2", f"V\"{v()}\"", f"F i[{h()}]{{{h()};P RP{v()}}}"])
            ls = [h() if rng.random() < .6 else q() for _ in range(rng.randint(3, 9))] + ["P RP[$_ $__ $___]"]
            out.append(session(ls) if rng.random() < .5 else case("f:{a};" + ";".join(ls)))
            continue
        fs = {}
        for f in "fg":
            fs[f] = "{" + "I a<0{()}EL{" * (rng.random() < .5) + ";".join(rng.choice(body) for _ in range(rng.randint(1, 4)))
            fs[f] += "}" * (fs[f].count("{") - fs[f].count("}"))
        s = f"f:{{t-:1 I t>0{fs['f']}}};g:{{t-:1 t>0?({fs['g']} a b) x}};t:9;x:1;y:_;"
        calls = ";".join(rng.choice(["P(f 3 4)", "P(g 2)", "P f M,3", "Pa", "Pb", "(f 2 5)", "f MZ[1 2][3 4]", "P(g(f 1))", "c:7", "P c", "a:3", "(f)", "P g FI,4", "P f SK[2 1 3]", "$_:2", "P$_"]) for _ in range(rng.randint(2, 4)))
        if rng.random() < .7:
            out.append(case(s + calls + ";" + RPs("a", "b", "c", "x", "d"), ARGS))
        else:
            out.append(session([s, *calls.split(";"), "[a b c d e]", "x", "$_", "$__"]))
    return out


# ------------------------------------------------------------------- C09
def stmt(rng, d, vs="xyik"):
    r = rng.random()
    e = lambda: rng.choice(["x", "y", "i", "k", "1", "0", "x<3", "y>2", "i%2", "#l", "x=y", "()", "[]", "\"0\"", "\"\"", "[0]", "\"00\"", "0.0", "\"a\"", "x-1", "(P3)", "(O y)", "l", "i>k", "!x", "x&y", "x|y", "x?y i", "`a`", "{}", ",0", ",3", "i<2",
                             '"-0"', '".0"', '"0."', '" "', "[()]"])
    b = lambda: "{" + "".join(stmt(rng, d - 1) for _ in range(rng.randint(0, 2))) + "}" if rng.random() < .75 else rng.choice(["Px", "Py;", "x+:1;", "O i;", "l:[x y];"])
    if d <= 0 or r < .4:
        return rng.choice(["Px;", "Py;", "O i;", "O \".\";", "x+:1;", "y-:1;", "Ux;", "Di;", "l:[x y];", "P l;", "x:y;", "P x&y;", "P RP(x|y);", "P x?y i;", "P !x;", "x<y?P 1 P 2;", "x&P 5;", "y|P 6;", "P 1<x<3;", "P x=y=i;", "PRP[x y i];",
                           "P(x<(y:3)<5);", "(x:0)&(y:9);", "(x:1)|(y:9);", "P RP(()&P 3);", "P i\\&P 3;", "P 0\\|P 2;", "P 0\\?P 1 P 2;", "P(P 1)<(P 0)<(P 2);"])
    if r < .55:
        return f"I {e()} {b()}" + (f"EI {e()} {b()}" if rng.random() < .4 else "") + (f"EL {b()}" if rng.random() < .6 else "")
    if r < .67:
        return f"F {rng.choice('ikxy')} {rng.choice([',3', '[1 2]', chr(34) + 'ab' + chr(34), 'l', '()', '(2,4)', '[]', 'x', '5', '`ab`', '[[1 2][3]]', '{a}', 'REV' if False else 'RVl'])} {b()}"
    if r < .73:
        return f"F [i k] {rng.choice(['[[1 2][3 4]]', 'EN l', '[[1 2 3]]', '[[1]]', '[5 6]', 'Z[[1 2][3 4]]', '[(1,3)]', '[()[1 2]]', '[' + chr(34) + 'ab' + chr(34) + ']'])} {b()}"
    if r < .8:
        return f"L {rng.choice(['2', '0', '(-1)', '3', 'x%3', '1.5', chr(34) + '2' + chr(34), '()', '[2]', '#l', ',2', chr(34) + 'a' + chr(34)])} {b()}"
    if r < .87:
        return f"W (z-:1)>0&{e()} {b()}"
    if r < .92:
        return f"T (z-:1)<1|{e()} {b()}"
    if r < .96:
        return f"LR {rng.choice(['`.`', chr(34) + 'a' + chr(34), '`a(b)?`', '`x*`', '5', '()'])} {rng.choice([chr(34) + 'abcab' + chr(34), 'x', 'l', chr(34) + chr(34), '121'])} " + rng.choice(["{P$0}", "{P[$0 $1 $( $)]}", b(), "{O $` O \",\" O $'}"])
    return f"{{P a {stmt(rng, d - 1)}}}M {rng.choice([',2', 'l', '[]'])};"


def g_flow(rng, n):
    out = []
    while len(out) < n:
        s = "z:8;x:" + rng.choice(["0", "1", "2", "5", "()", "[]", "\"\"", "\"0\""]) + ";y:" + rng.choice(["0", "3", "\"a\"", "[1]"]) + ";k:2;l:[4 5];"
        s += "".join(stmt(rng, 3) for _ in range(rng.randint(1, 3)))
        out.append(case(s + ";" + RPs("x", "y", "i", "k", "l", "z"), ARGS))
    return out


# ------------------------------------------------------------------- C10
def nested(rng, d=2, leaf=None):
    r = rng.random()
    if d <= 0 or r < .3:
        return rng.choice(leaf or ["1", "2", "3", "5", "0", "(-2)", "1.5", '"7"', '"ab"', '""', "10", '"x"'])
    if r < .4:
        return rng.choice([",3", "(1,4)", ",0", "(2,4)", "()", "`a`"])
    return "[" + " ".join(nested(rng, d - 1, leaf) for _ in range(rng.randint(0, 3))) + "]"


def g_broadcast(rng, n):
    keep = [r for r in ROWS if "l" in r["fl"] and r["fn"] not in RANDOM_FNS]
    out = []
    whole = [r for r in ROWS if r["fn"] in ("ADD", "SUB", "NEG", "POS", "MUL", "INTDIV", "MOD", "CAT", "RANGE", "RANGETO", "INCLRANGE", "PARENTHESIZE")]
    while len(out) < n:
        if rng.random() < .1:
            # Ranges as a whole, infinite ones too
            r = rng.choice(whole)
            k = lambda: rng.choice(["0", "1", "(-1)", "3", "(-4)", "2", "5", "()", "2.5", '"2"', '"1x"'])
            t = lambda: rng.choice([f"({k()},{k()})", f"({k()},())", "(\\,())", f"(\\,{k()})", f"((),{k()})", f"({k()}\\,{k()})"])
            ops = [k(), t()] if rng.random() < .4 else [t(), k()] if rng.random() < .7 else [t(), t()]
            out.append(case(rng.choice(["RP(%s)", "x:%s;P RPx;P RP[x@0x@1x@-1];P RP(x@<3)", "x:%s;P RP[3Nx -2Nx x@?4 5Nx];P RP(x@>2)", "P RP[%s 7]"])
                            .replace("%s", apply(r, ops[:r["ar"]])), ARGS))
            continue
        r = keep[len(out) % len(keep)]
        ops = [nested(rng, rng.choice([1, 2, 2, 3])) for _ in range(r["ar"])]
        if rng.random() < .2:
            ops[rng.randrange(len(ops))] = pick(rng, ALL)
        out.append(case("RP(" + apply(r, ops) + ")", ARGS))
    return out



# ------------------------------------------------------------------- C11
SIMPLEOPS = ["+", "-", "*", ".", "//", "%", "MX", "MN", "<", ">", "=", "==", "BA", "BO", "BX", "AE", "AL", "PE", ",", "/", "**", "CM", "AD", "J", "X", "@", "&", "|", "N", "Z", "LT", ":", "M", "FI", "^", "RL", "WR", "~", "CB", "#<", "Q", "#=", "#>",
             "NE", "!=", "<=", ">=", "RM", "TB", "FB", "CH", "UW", "H", "S", "AT", "@?", "@*", "\\&", "\\|", "CP", "\\,", "PU", "SK"]


def g_meta(rng, n):
    seqs = LISTS + STRS[:12] + RANGES[:6] + ["[1 2 3 4 5 6]", "[1 2 2 3 1 9 4]", "[5 1 4 2 3 6 7]", "[1 1 1 2 2 1]", "[9 8 7 6 5 7 3]", "[0 1 0 2 0 3]", "(1,7)", "[[1] 2 [3 4] 5 6 7]", "[\"b\" \"a\" \"c\" \"d\" \"a\" \"e\"]", "7", "()", "`ab`", "{a}", '[[1 2][3 4]]', "[[1][2 3]]", '["a" "b"]', "[4]", "[\"x\"]", "[10 3 2]", "[2 3 2]", "321"]
    out = []
    while len(out) < n:
        k = len(out) % 8
        op = rng.choice(SIMPLEOPS)
        s = pick(rng, seqs)
        u = rng.choice(["-", "#", "+", "!", "RV", "UC", "U", "D", "J", "^", "$+", "\\$+", "MX", "FB", "A", "C", "TB", ",", "SN", "RP", "UQ", "++", "@", "FL", "H", "POS" if False else "AB", "K", "X", "Z", "PM"])
        if k == 0:
            src = f"RP(${op} {s})"
        elif k == 1:
            src = f"RP(\\${op} {s})"
        elif k == 2:
            src = f"RP({u}* {s})"
        elif k == 3:
            src = f"RP(${op} {rng.choice([f'[{s} {pick(rng, seqs)} {pick(rng, seqs)}]', s])})"
        elif k == 4:
            src = f"RP(${op}* [{s} {pick(rng, seqs)}])"
        elif k == 5:
            src = f"x:{s};{rng.choice([f'{u}:x', f'${op}:x', f'{u}*:x', f'x{op}:{pick(rng, seqs)}', f'{chr(92)}${op}:x', f'${op}*:x'])};P RPx"
        elif k == 6:
            src = f"f:{rng.choice([f'${op}_', f'{u}*_', chr(92) + f'${op}_', f'_{op}_'])};P RPf;P RP(f {s}{rng.choice(['', ' ' + pick(rng, seqs)])})"
        else:
            src = rng.choice([f"RP({u}** [{s} {s}])", f"RP(${op}(${rng.choice(SIMPLEOPS)}* [[{s}]]))", f"P RP({u}*{u}* [{s}])", f"RP({u}${op} {s})",
                              f"RP(${op} {s} {rng.choice(SIMPLEOPS)} {pick(rng, seqs)})"])
        out.append(case(src, ARGS))
    return out


# ------------------------------------------------------------------- C12
def lam(rng, d=2):
    r = rng.random()
    if d <= 0 or r < .35:
        return rng.choice(["_", "_", "B", "G", "_"])
    u = rng.choice([q for q in ROWS if q["ar"] == 1 and q["fn"] not in RANDOM_FNS | OUTPUTS | {"RECURSE", "INC", "DEC"}])["tx"]
    b = rng.choice([q for q in ROWS if q["ar"] == 2 and q["fn"] not in RANDOM_FNS | {"SWAP", "ASSIGN"}])["tx"]
    o = rng.choice(["1", "2", "3", '"a"', "[1 2]", "x", ",3", "()", "`a`", "5"])
    if r < .45:
        return f"({u} {lam(rng, d - 1)})"
    if r < .65:
        return f"({lam(rng, d - 1)} {b} {o})"
    if r < .8:
        return f"({o} {b} {lam(rng, d - 1)})"
    if r < .9:
        return f"({lam(rng, d - 1)} {b} {lam(rng, d - 1)})"
    if r < .94:
        t = rng.choice([q for q in ROWS if q["ar"] == 3])["tx"]
        return f"({lam(rng, d - 1)} {t} {o} {rng.choice([o, lam(rng, d - 1)])})"
    return rng.choice([f"(${rng.choice(SIMPLEOPS)} {lam(rng, d - 1)})", f"[{lam(rng, d - 1)} {o}]", f"({lam(rng, d - 1)}<{o}<{lam(rng, 0)})", f"({u}* {lam(rng, d - 1)})", f"({lam(rng, d - 1)} {o})"])


LBLK = ["{x.:1 a}", "{x.:2 a}", "{x:b a}", "{Pa b}", "{y:a}", "{a;}", "{x.:a b.a}", "{a}", "{b}", "f", "g", "{x}", "{a<3}", "{x.:3 ()}", "{O x}", "{a+b}", "_", "h"]


def g_lambda(rng, n):
    out = []
    us = [q for q in ROWS if q["fn"] not in RANDOM_FNS | {"RECURSE"}]
    while len(out) < n:
        k = len(out) % 4
        if k == 3 and rng.random() < .5:
            # blocks, some with statements, as operands
            r = rng.choice(us)
            ops = [rng.choice(LBLK) if rng.random() < .8 else rng.choice(SIMPLE) for _ in range(r["ar"])]
            f = rng.choice([apply(r, ops), apply(r, ops), f"{rng.choice(LBLK)}?{rng.choice(LBLK)} {rng.choice(LBLK)}", f"[{rng.choice(LBLK)} {rng.choice(LBLK)}]", f"({apply(r, ops)}){rng.choice(['+', '.', 'AE', '<', '@'])}{rng.choice(LBLK)}",
                            f"{rng.choice(LBLK)}<{rng.choice(LBLK)}<{rng.choice(LBLK)}", f"$+{rng.choice(LBLK)}", f"-*{rng.choice(LBLK)}"])
            out.append(case(f"x:4;y:5;f:{rng.choice(LBLK[:8])};g:{rng.choice(LBLK[:8])};h:{rng.choice(['f', 'g', '_+1', '{x.:7 a}'])};k:{f};P RPk;P RP(k {rng.choice(SIMPLE[:12])} {rng.choice(SIMPLE[:12])});P RP(k 3);P[x y]", ARGS))
            continue
        if k == 0:
            r = us[(len(out) // 4) % len(us)]
            ops = [rng.choice(["_", "_", "B", "2", "x", "[1 2]"]) for _ in range(r["ar"])]
            if not set(ops) & {"_", "B"}:
                ops[rng.randrange(len(ops))] = "_"
            f = apply(r, ops)
        else:
            f = lam(rng, rng.choice([1, 2, 3]))
        calls = "".join(f"P RP(f {' '.join(rng.choice(SIMPLE[:12]) for _ in range(rng.randint(1, 3)))});" for _ in range(2))
        out.append(case(f"x:4;f:{f};P RPf;{calls}" + rng.choice(["", f"P RP(f M[1 2]);", f"P RP({f} M [3 \"a\"])"]), ARGS))
    return out


# ------------------------------------------------------------------- C13
def g_index(rng, n):
    idx = ["0", "1", "2", "(-1)", "(-2)", "5", "(-9)", "1.7", "(-1.2)", '"1"', '"x"', '""', "()", "[]", "[0 2]", "[1 [0 (-1)]]", ",2", "(1,3)", "(1,())", "((),2)", "((-2),())", "((),())", "((-3),(-1))", "(3,1)", "(1,9)", "(7,9)", "[(0,2) 1]", "`b`", "`[a-c]`", "{a}", "[()]",
           "(0,0)", "((),(-1))", "100", "(\\,2)"]
    seqs = STRS[:9] + LISTS + RANGES + ["()", "{a}", "`abc`", "12345", "(2,8)", "((-3),())", "(1,())", "(,10)", "(5,())"]
    ops = rows("AT", "LEFTOF", "RIGHTOF", "PREFIX", "SUFFIX", "PICK", "SPLITAT", "REPLACEAT", "FIND", "FINDALL", "CHOP", "GROUP", "UNWEAVE")
    at = [r for r in ops if r["fn"] in ("AT", "LEFTOF", "RIGHTOF")]
    out = []
    while len(out) < n:
        k = len(out) % 6
        if k < 3:
            out.append(case(f"RP({pick(rng, seqs, .6)} @ {rng.choice(idx)}" + (f" @ {rng.choice(idx)}" if rng.random() < .3 else "") + ")", ARGS))
        elif k == 3:
            r = rng.choice(at)
            o = [pick(rng, seqs, .5)] + [rng.choice(idx)] * (r["ar"] - 1)
            out.append(case("RP(" + apply(r, o) + ")"))
        elif k == 4:
            r = rng.choice(ops)
            o = [pick(rng, seqs, .3)] + [rng.choice(idx) for _ in range(r["ar"] - 1)]
            if r["fn"] in ("FIND", "FINDALL") and rng.random() < .7:
                o = rng.choice([('"abcabc"', '"b"'), ("[1 2 1]", "1"), ('"aXbX"', "`X`"), ("[[1] 2]", "[1]"), (",9", "4"), ("(3,())", "5"), ("(3,())", "(-1)"), ('"abc"', '["c" "z"]'), ("121", "1"), ('"aaa"', '"aa"'), ("[1 2 1]", "[1 2]"), ('"abc"', '""'), (",9", "2.5"), (",5", "[1 2]"), ("[]", "1"), ('"a1b22"', "XD")])
            out.append(case("RP(" + apply(r, o) + ")"))
        else:
            s, i = pick(rng, seqs, .5), rng.choice(idx)
            out.append(case(rng.choice([f"x:{s};P RP(x {i});P RP({i}@x)", f"x:{s};x@{i}:9;P RPx", f"x:{s};x@{i}:[7 8];P RPx", f"x:{s};x@{i}@{rng.choice(idx)}:\"zz\";P RPx", f"x:{s};P RP((x@<{i}).(x@>{i}))", f"x:{s};P RP(@x);P RP(@<x);P RP(@>x)",
                                        f"x:{s};P RP(x {i} {rng.choice(idx)})", f"x:{s};x@<{i}:\"Q\";x@>1:[5];P RPx"])))
    return out


# ------------------------------------------------------------------- C14
ELEM = FLOATY | {"POW", "ROOT", "SQRT", "DEGREES", "RADIANS"}
ARITH = ("ADD", "SUB", "MUL", "DIV", "INTDIV", "MOD", "POW", "NEG", "POS", "INVERT", "ABS", "SIGN", "HALVE", "HALVEUP", "DOUBLE", "SQUARE", "ABSOLUTEDIFF",
         "BITWISEAND", "BITWISEOR", "BITWISEXOR", "BITWISENOT", "BITLENGTH", "NUMCMP", "FLOOR", "CEIL", "ROUNDZERO", "ROUNDNEAREST", "TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS",
         "INC", "DEC", "POWEROFTEN", "ROOT", "SQRT", "RANGE", "RANGETO", "INCLRANGE", "INCLRANGETO", "ASC", "CHR", "MAX", "MIN") + tuple(sorted(FLOATY))


def bignum(rng):
    """The text of an integer, likely a big one."""
    r = rng.random()
    if r < .5:
        n = rng.choice([9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 25, 33, 40])
        v = rng.choice("123456789") + "".join(rng.choice(rng.choice(["0", "9", "0123456789"])) for _ in range(n - 1))
    elif r < .8:
        v = str(rng.choice([2, 2, 10, 10, 3, 7, 256]) ** rng.choice([9, 10, 30, 31, 32, 53, 54, 62, 63, 64, 65, 80]) + rng.choice([-1, 0, 0, 1, 2]))[:110]
    else:
        v = str(rng.randint(1, 10 ** rng.randint(1, 9)))
    return f"(-{v})" if rng.random() < .3 else f'"{v}"' if rng.random() < .1 else v


BIGBIN = ["+", "-", "*", "//", "//", "%", "%", "CM", "<", "=", ">", "AD", ".", "TB", "/", "<=", "MX" if False else "!="]


def g_big(rng):
    """Integers beyond any machine word."""
    k = rng.randint(0, 7)
    a, b, c = bignum(rng), bignum(rng), bignum(rng)
    if k == 0:
        return f"P RP({a} {rng.choice(BIGBIN)} {b})"
    if k == 1:
        return f"x:{a};y:{b};P[x+y x-y x*y]P RP[x//y x%y]P[x<y x=y x>y xCMy]"
    if k == 2:
        return f"P RP({rng.choice(['-', 'AB', 'SG', 'HV', 'HU', 'DB', 'SQ', '+', '%', 'U', 'D', '!', '#', 'TB', 'TD', 'RV', '|<', '>|', 'RZ', 'RN'])} {a});P RP({b} {rng.choice(['|<', '>|', 'RZ', 'RN'])} {rng.choice(['10', '7', '1000', '2', a, c])})"
    if k == 3:
        return f"P RP({rng.choice(['2', '3', '(-2)', '7', '10', '12', '999', '1000000007', '0', '1', '(-1)', '1.5'])} ** {rng.randint(0, 70)} {rng.choice(['', '% 1000', '+ 1', '// 12345678901', '- ' + c])})"
    if k == 4:
        return f"x:{a};P RP(x//{rng.choice(['2', '3', '7', '10', '1000', '(-2)', '(-7)', b])});P RP(x%{rng.choice(['2', '3', '10', '1000', '(-7)', '97', b])})"
    if k == 5:
        return f"P RP({rng.choice(['$+', '$*', '$-', chr(92) + '$+', 'SN', 'DN', 'MX', 'MN', '$<', '$>', '$//'])}[{a} {b} {c}])"
    if k == 6:
        b = rng.choice(["2", "8", "10", "16", "36", "7"])
        return f"x:{a};P RP(xTB{b});P RP((xTB{b})FB{b});P RP(xTD{b});P RP((xTD{b})FD{b})"
    return f"x:{a};P RP(x+{b}-{b}=x);P RP(x*{c}//{c});x{rng.choice(['+', '*', '-', '//', '%'])}:{b};Px;UxPx;DxPx;P RPx;P V RPx==x"


def fltext(rng):
    """Doubles, mostly not dyadic."""
    k = rng.randint(0, 6)
    if k == 0:
        t = f"{rng.randrange(1, 1000) / 100}"
    elif k == 1:
        t = repr(rng.uniform(0, 10))
    elif k == 2:
        t = repr(rng.uniform(0, 1) * 10 ** rng.randrange(-12, 25))
    elif k == 3:
        t = rng.choice(["0.1", "0.2", "0.3", "0.7", "1.1", "2.675", "1e+20", "1e-7", "3.14159", "1e-05", "123456.789", "0.0001", "99999999999999999.0", "9007199254740993.0", "1e+16", "1e+23", "5e-200", "1.5e+300", "7.", "1.e+3", "2e+3"])
    elif k == 4:
        t = f"{rng.randrange(10 ** 6)}.{rng.randrange(10 ** 6):06d}"
    elif k == 5:
        t = repr(2.0 ** rng.randrange(-80, 80) * rng.choice([1, 3, 5]))
    else:
        t = rng.choice(["(1/3)", "(2/7)", "(10/3)", "(1/7)", "(22/7)", "(10**20/3)", "(0.1+0.2)", "PI", "(1/49)"])
    if t[0] == "(" or t == "PI":
        return t if rng.random() < .7 else f"(-{t})"
    if "e" in t:
        return f'"{rng.choice(["", "-"])}{t}"'
    return t if rng.random() < .7 else f"(-{t})"


FLBIN = ["+", "-", "*", "/", "//", "%", "AD", "|<", ">|", "RN", "RZ", "<", "=", ">=", "CM", "!="]
FLUN = ["|<", ">|", "RN", "RZ", "HV", "HU", "DB", "SQ", "/", "-", "AB", "SG", "+", "DG", "RD", "TB", "TD", "#", "!"]


def g_float(rng):
    a, b, c = fltext(rng), rng.choice([fltext, fltext, numtext])(rng), fltext(rng)
    k = rng.randint(0, 5)
    if k < 2:
        return f"P RP({a} {rng.choice(FLBIN)} {b});P RP({b} {rng.choice(FLBIN)} {a})"
    if k == 2:
        return f"x:{a};y:{b};P[x+y x-y x*y];P RP[x//y x%y x/y];P[x<y x=y x>y xCMy]"
    if k == 3:
        return f"P RP({rng.choice(FLUN)} {a});P RP(({a}{rng.choice(FLBIN)}{b}){rng.choice(FLBIN)}{c})"
    if k == 4:
        return f"P RP({rng.choice(['$+', '$*', '$-', chr(92) + '$+', 'SN', 'DN', 'MX', 'MN', '$<', '$/'])}[{a} {b} {c}])"
    return f"x:{a};x{rng.choice(['+', '*', '-', '/', '//', '%'])}:{b};Px;UxPx;DxPx;P RPx;P V RPx;P(V RPx)=x;P[x](x FD {rng.choice(['2', '10', '3'])})"


def realtext(rng):
    """Arguments of elementary functions."""
    k = rng.randint(0, 8)
    t = [lambda: str(rng.randrange(20)), lambda: str(rng.randrange(10 ** 5)), lambda: f"{rng.uniform(0, 10):.2f}", lambda: repr(rng.random()), lambda: f"{rng.uniform(0, 2):.3f}",
         lambda: str(rng.randrange(1, 10 ** rng.randrange(2, 25))), lambda: f"{rng.randrange(10)}.5", lambda: f"0.{'0' * rng.randrange(6)}{rng.randrange(1, 100)}",
         lambda: rng.choice(["0", "1", "2", "3", "4", "8", "10", "100", "16", "1000", "1024", "0.5", "0.25", "0.1", "PI", "(PI/2)", "(PI/4)", "(PI/6)", "2.718281828459045", "(1/3)", "27", "81", '"2.5x"', "0.0", "800", "1000000", "(2**40)"])][k]()
    return t if rng.random() < .75 else f"(-{t})"


def g_real(rng):
    r = rng.choice([x for x in ROWS if x["fn"] in ELEM])
    x, y = realtext(rng), realtext(rng)
    if rng.random() < .7:
        return "P RP(" + apply(r, [realtext(rng) for _ in range(r["ar"])]) + ")"
    return rng.choice([f"x:{x};P RP(SIx);P RP(COx);P RP(TAx)", f"x:{x};P RP(EX LNx);P RP(LN EXx)", f"x:{x};P RP(RTx);P RP(x**0.5);P RP(2RTx)", f"x:{x};P RP(ATx);P RP(x AT 1);P RP(1 AT x)", f"x:{x};P RP(LBx);P RP(LDx);P RP(LNx)",
                       f"x:{x};y:{y};P RP(x**y);P RP(y RT x)", f"P RP(DG {x});P RP(RD {x})", f"x:{x};P RP(SEx);P RP(CSx);P RP(CTx)", f"P RP(SI*[{x} {y}]);P RP({x}**[0 1 2 (-1) 0.5])", f"P RP(|<LD {x});P RP(RN(RT {y}))", f"P RP(**{x});P RP({x} RT {y})"])


def numtext(rng):
    r = rng.random()
    if r < .06:
        return bignum(rng)
    if r < .3:
        return str(rng.randint(0, 20))
    if r < .45:
        return f"(-{rng.randint(1, 20)})"
    if r < .6:
        return str(rng.randint(21, 5000))
    if r < .75:
        return rng.choice(["0.5", "1.5", "2.25", "(-0.5)", "(-1.25)", "3.75", "100.5", "0.125", "2.0", "(-3.0)", "0.0", "(-2.5)"]) if rng.random() < .5 else fltext(rng)
    if r < .9:
        return '"' + rng.choice(["", "", "", " ", "\t", "\n", "  \n"]) + rng.choice(["f", "101", "zz", "12abc", "3.5kg", "-7x", " 42", "1e3", "", "abc", "0x1f", "-", "1.2.3", "--5", "+5", ".5", "5.", "-.5", "7 8", "Z9", "777", "-101", "1_000", "12.0", "1.0", "A", "0b11"]) + '"'
    return rng.choice(["()", "[3 4]", "`a`", "{a}", ",3", "[1 [2 5]]", "h", "t", "m", "o", "v", "i"])


def g_arith(rng, n):
    rs = [r for r in ROWS if r["fn"] in ARITH and r["fn"] not in FLOATY]
    fl = [r for r in ROWS if r["fn"] in FLOATY]
    out = []
    while len(out) < n:
        k = len(out) % 10
        if k < 6:
            r = rs[len(out) % len(rs)] if k else rng.choice(rs)
            out.append(case("RP(" + apply(r, [numtext(rng) for _ in range(r["ar"])]) + ")"))
        elif k < 7:
            r = rng.choice(fl)
            out.append(case("RP(" + apply(r, [rng.choice(["0", "0.0", "()", "[0 0]", "1"]) if rng.random() < .5 else pick(rng, kinds("lup")) for _ in range(r["ar"])]) + ")"))
        elif k == 7:
            out.append(case([g_big, g_float, g_real][len(out) // 10 % 3](rng)))
        elif k == 8:
            s = numtext(rng)
            for _ in range(rng.randint(1, 3)):
                s = rng.choice(["({s}{o}{t})", "({t}{o}{s})", "({u}{s})"]).format(s=s, t=numtext(rng), o=rng.choice(["+", "-", "*", "//", "%", "/", "BA", "BX", "BO", "CM", "AD", "|<", ">|", "RN", "RZ"]),
                                                                               u=rng.choice(["-", "AB", "SG", "HV", "HU", "DB", "SQ", "|<", ">|", "RZ", "RN", "BN", "BL", "/", "%", "+"]))
            out.append(case(f"RP{s}"))
        else:
            b, v = rng.choice(["2", "3", "8", "10", "16", "36", "37", "1", "0", "(-2)", "7", '"x"', "1.5"]), str(rng.choice([0, 1, 5, 9, 35, 36, 100, 255, 1000, 12345, -10, -255]))
            out.append(case(f"x:\"{v}\";P RP(x TB {b});P RP(x TD {b});P RP((x TB {b}) FB {b});P RP((x TD {b})FD {b});P RP(TBx);P RP(FBx);P RP(FD TDx);P RP({v}*1.0)"))
    return out


# ------------------------------------------------------------------- C15
CMP = ("NUMLESS", "NUMGREATER", "NUMEQUAL", "NUMLESSEQ", "NUMGREATEREQ", "NUMNOTEQUAL", "STRLESS", "STRGREATER", "STREQUAL", "STRLESSEQ", "STRGREATEREQ", "STRNOTEQUAL",
       "LENEQUAL", "LENLESS", "LENGREATER", "OBJEQUAL", "NUMCMP", "IN", "NOTIN")
SORTS = ("SORTNUM", "SORTSTRING", "DESCENDINGNUM", "DESCENDINGSTRING", "UNIQUE", "MAX", "MIN", "ENUMERATE")
CMPPOOL = ["0", "1", "2", "10", "(-1)", '"01"', '"1.0"', '"abc"', '"ab"', '"b"', '"B"', '""', '"10"', '"9"', "[]", "[1]", "[1 2]", "[2]", "[1 [2]]", '["a"]', ",3", "[0 1 2]", "(1,3)", "(3,())", "(\\,())", "()", "`a`", "{a}", "[()]", "[[]]", "(5,())", "[(1,())]", ",0", "2.5", '["10" 9]', "[[1 2] 3]",
           "[(-1)]", '"a"', "[1 \"b\"]", "(-`a`)", "{a+1}", "_", "(0,3)", "0.1", "(0.1+0.2)", "0.3", '"1e+3"', "1000", '"1e+20"', "(10**20)", "(1/3)", "9007199254740993", '"9007199254740993.0"']


def g_order(rng, n):
    rs, ss = rows(*CMP), rows(*SORTS)
    out = []
    while len(out) < n:
        k = len(out) % 8
        c = lambda: pick(rng, CMPPOOL, .5)
        if k < 3:
            r = rs[(len(out) // 8 * 3 + k) % len(rs)]
            out.append(case("RP(" + apply(r, [c() for _ in range(r["ar"])]) + ")"))
        elif k == 3:
            a, b = c(), c()
            if rng.random() < .2:     # ranges that agree in one bound
                ends = lambda: f"({rng.choice(['0', '1', '2', '(-1)'])},{rng.choice(['2', '3', '5', '()', '(-1)'])})"
                a, b = ends(), ends()
            out.append(case(f"x:{a};y:{b};P[x<y x=y x>y x<=y x!=y x>=y xLTy xQy xGTy xLEy xNEy xGEy x==y y==x x#<y x#=y x#>y]"))
        elif k == 4:
            out.append(case("RP(" + "".join(c() + " " + rng.choice(["<", ">", "=", "<=", ">=", "!=", "LT", "GT", "Q", "LE", "GE", "NE", "#=", "#<", "#>"]) + " " for _ in range(rng.randint(1, 3))) + c() + ")"))
        elif k < 7:
            l = "[" + " ".join(c() if rng.random() < .4 else rng.choice(["3", "1", "2", "10", '"b"', '"a"', '"B"', '"10"', "(-1)", "2.5", '"2"', '"02"', '"1.0"', "1"]) for _ in range(rng.randint(0, 6))) + "]"
            r = rng.choice(ss)
            out.append(case("RP(" + r["tx"] + " " + rng.choice([l, l, l, '"hello"', '"3142"', ",4", "(2,6)", c()]) + ")"))
        else:
            l = "[" + " ".join(rng.choice(["3", "12", "2", "10", '"bb"', '"a"', '"Bcd"', "[1 2]", "[0]", "(-1)", "()"]) for _ in range(rng.randint(0, 6))) + "]"
            out.append(case(f"RP({rng.choice(['{#a}', '{-a}', '{a@0}', '{a%3}', '{0}', '_', '-_', '{a.a}', '{[#a a]}', '{RVa}', '#_', '{}', '3', '{a?`x` 2}', '{5/0}'])}{rng.choice(['SK', 'DK'])}{rng.choice([l, l, l, chr(34) + 'hello' + chr(34), ',5'])})"))
    return out


# ------------------------------------------------------------------- C16
HOF = ("MAP", "MAPCOORDS", "MAPENUMERATE", "MAPJOIN", "MAPMAP", "MAPPAIRS", "MAPSUM", "MAPUNPACK", "MAPFLATTEN", "FILTER", "FILTERNOT", "FILTERENUMERATE", "FILTERUNPACK",
       "FILTERINDEXES", "FILTERJOIN", "SORTKEYED", "DESCENDINGKEYED", "MAPREGEX", "MAPZIP")


def g_hof(rng, n):
    rs = rows(*HOF)
    g = Gen(rng, "")
    fns = ["{a}", "{a+1}", "{a.b}", "{a+b}", "{[a b]}", "{a>1}", "{b%2}", "{a=b}", "{Pa a}", "{x:a}", "{x.:a x}", "{a#x}" if False else "{#a}", "_", "(_+1)", "(_<2)", "(_.b)", "{b}", "{()}", "{a@0}", "{,a}", "{[a a]}", "{}", "{c}", "{a?b 0}", "{i+:1 i}", "{O a}", "{a X b}",
           "{$0}", "{$1.a}", "{a M{a+1}}", "{5/0}", "{a*:2 a}"]
    seqs = LISTS + STRS[:14] + RANGES + ["()", "`ab`", "12", "[[1 2][3 4]]", "[[1 2][3 4][5]]", "[\"ab\" \"cd\"]", "(,5)"]
    out = []
    while len(out) < n:
        r = rs[len(out) % len(rs)]
        o = []
        for k in range(r["ar"]):
            o.append(rng.choice(fns) if k == 0 else pick(rng, seqs, .15))
        if r["fn"] == "MAPREGEX":
            o[1] = rng.choice(["`.`", "`a`", "XD", "`(a)(b)?`", "\"a\"", "`x*`", "5", "`[a-c]+`"])
            o[2] = rng.choice(STRS + ["12", "[1]"])
        if r["fn"] == "MAPCOORDS":
            o[1] = rng.choice(["2", "3", "[2 3]", "[1 2 2]", "0", "(-1)", "\"2\"", "[]", "()", "1.5", ",3", "[2 0]"])
        if rng.random() < .15:
            rng.shuffle(o)
        if rng.random() < .1:
            o[rng.randrange(len(o))] = pick(rng, ALL)
        if r["ar"] == 2 and rng.random() < .12:
            o[0] = rng.choice(["[{a} {a+1}]", "[_ 5 \"x\"]", "3", "[]", "\"ab\"", "()", "[[{a}]]"])
        out.append(case("x:0;P RP(" + apply(r, o) + ");P RPx;PRPi", ARGS))
    return out


# ------------------------------------------------------------------- C17
RESTR = ("REPEATLIST", "CHOP", "GROUP", "COMBINATIONS", "PERMUTATIONS", "ZIP", "ZIPDEFAULT", "ZIPJOIN", "CARTESIANPRODUCT", "COORDINATEGRID", "ONEGRID", "ZEROGRID", "IDENTITYMATRIX", "ENUMERATE",
         "FLATTEN", "FLATTENALL", "PALINDROMIZE", "REFLECT", "REVERSE", "QUADREFLECT", "QUADPALINDROMIZE", "REPLACEAT", "REMOVE", "SPLITAT", "UNIQUE", "UNWEAVE", "WEAVE", "APPENDELEM", "APPENDLIST",
         "PREPENDELEM", "PUSH", "PUSHBACK", "POP", "DEQUEUE", "PICK", "LEN", "IN", "NOTIN", "FIND", "FINDALL", "SPLIT", "JOIN", "JOINWRAP", "PREFIX", "SUFFIX", "RANGE", "INCLRANGE")


def g_restructure(rng, n):
    rs = rows(*RESTR)
    out = []
    seqs = LISTS + RANGES + STRS[:12] + ["[[1 2 3][4 5]]", "[1 2 3 4 5 6 7]", '"abcdefg"', "[[\"a\" \"b\"] \"cd\"]", "(,7)", "[[[1]] 2]", "[[1 2][3 4]]", "[\"abc\" \"de\"]", "[,3 (4,6)]", "[[]]", "[[] [1]]"]
    while len(out) < n:
        r = rs[len(out) % len(rs)]
        small = r["fn"] in ("CARTESIANPRODUCT", "PERMUTATIONS", "COMBINATIONS", "COORDINATEGRID", "ONEGRID", "ZEROGRID")
        o = [pick(rng, seqs if rng.random() < .85 else ALL, .2)]
        if r["fn"] in ("COORDINATEGRID", "ONEGRID", "ZEROGRID", "IDENTITYMATRIX"):
            o = [rng.choice(["2", "3", "0", "1", "(-1)", "[2 3]", "[1 2]", "[]", "\"2\"", "1.5", "()", ",3", "[2 0]"])]
        for _ in range(r["ar"] - 1):
            o.append(rng.choice(SMALL) if rng.random() < .5 else pick(rng, seqs if rng.random() < .8 else ALL, .2))
        if r["fn"] == "SPLITAT" and rng.random() < .8:
            o[1] = rng.choice(["(-1)", "(-2)", "(-3)", "(-4)", "(-9)", "0", "1", "9", "[1 2]", "[2 1]", "[0 0]", "[1 1]", "[(-1) 1]", "[1 (-1)]", "[(-3) 0]", "[0 (-3) 3]", "[]", "[1 9]", "(1,3)", ",9", "[()1]", "[\"1\" 2.5]", "[[1]2]", "[3 (-3) 1 (-1)]"])
        if r["fn"] == "UNIQUE" and rng.random() < .6:
            o[0] = "[" + " ".join(rng.choice(["1", "12", "[1 2]", '"1"', '"12"', "()", '""', "[]", '"[1;2]"', "1.0", "[[1]2]", "[1 [2]]", "{a}", '"{a}"', "`a`", '"`a`"', '"a"', "(0,2)", "[0 1]", '"(0,2)"', '"01"', "01", "(-`a`)"]) for _ in range(rng.randint(2, 6))) + "]"
            out.append(case(f"RP({r['tx']} {o[0]})", ARGS, fm=rng.choice(["p", "", "", "s", "l"])))
            continue
        x = rng.random()
        if r["fn"] in ("PUSH", "PUSHBACK", "POP", "DEQUEUE") and x < .9 or x < .1:
            out.append(case(f"x:{o[0]};P RP({apply(r, ['x'] + o[1:])});P RPx", ARGS))
        else:
            out.append(case("RP(" + apply(r, o) + ")", ARGS))
    return out


# ------------------------------------------------------------------- C18
STROPS = ("STRIP", "LSTRIP", "RSTRIP", "TRIM", "LOWERCASE", "UPPERCASE", "SWAPCASE", "TITLECASE", "INITIALCAPS", "STRMUL", "REMOVE", "DELETECHARS", "REGEX", "DOT", "KLEENESTAR", "CAT", "WRAP", "FIRSTMATCH",
          "REPLACE", "SPLIT", "JOIN", "JOINWRAP", "TRANSLITERATE", "FIND", "FINDALL", "FULLMATCH", "ASC", "CHR", "LEN", "GROUP", "IN", "NOTIN", "MAPREGEX", "RANGE", "MUL", "POS", "NEG", "ABS")
REGEXES = ["`a`", "`[a-c]+`", "`(\\w)(\\d)`", "`\\d+`", "`x|y`", "`(a)|(b)`", "`a*`", "`^a`", "`c$`", "`.`", "`(.)\\1`", "`\\bw`", "`a{2}`", "`(?:ab)+`", "`[^a]`", "``", "`\\s+`", "`(a(b)?)`", "`B`", "(-`B`)", "(-`a`)", "(,`^a`)", "(.`.`)", "w", "XW", "XI", "XU", "XL", "XX", "(+`a`)", "(K`b`)",
           "(`a`.`b`)", "(`a`,`b`)", "(`ab`X2)", "(X\"a.b\")", "(X[\"a\" \"bc\"])", "`a+?`", "`(?=b)`", "`[`", "`(`", "`*`", "`\\W`", "`\\.`", "`l+`", "`i(s+)i`", "`$`", "`\\b`",
           "`(a)(b)?(c)?(d)?(e)?(f)?(g)?(h)?(.)(.)?`", "`(.)(.)(.)(.)(.)(.)(.)(.)(.)`", "`\\Aa`", "`c\\Z`", "(-`a|c`)", "(,`^b|a$`)", "`((((((((((\\w))))))))))\\10`", "`(((((((((.)))))))))\\9`", "`(.)(.)(.)(.)(.)(.)(.)(.)(.)(.)\\10`"]
SUBJ = ["\"abcdefghijj\"", "\"abcabc\"", '"aabbcc"', '"a1b22c"', '"Hello, World"', '"mississippi"', '"a.b.c"', '""', '"aaa"', '"x y  z"', '"ab\nab"', '"AbCdEf"', '" a "', '"--"', "121", "'a", '"xyxxy"', '"a-b_c"']


def regex(rng, d=2):
    """The text of a pattern, of few characters and all the ways to join them."""
    def atom(d):
        q = rng.random()
        if d > 0 and q < .22:
            return f"({alt(d - 1)})"
        if d > 0 and q < .3:
            return f"(?:{alt(d - 1)})"
        if d > 0 and q < .36:
            return rng.choice(["(?=", "(?!", "(?<=", "(?<!"]) + alt(d - 1 if rng.random() < .5 else 0) + ")"
        return rng.choice(["a", "a", "b", "c", "B", "ab", ".", "\\w", "\\d", "\\s", "\\W", "[ab]", "[^a]", "[b-d]", "\\b", "^", "$", "\\A", "\\Z", "1", " ", "\\.", "\\1" if rng.random() < .3 else "b"])
    def cat(d):
        s = ""
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            a = atom(d)
            s += a + (rng.choice(["*", "+", "?", "*?", "+?", "??", "{2}", "{1,2}", "{0,1}?"]) if rng.random() < .3 and a not in ("^", "$", "\\b", "\\A", "\\Z") and not re.match(r"\(\?<?[=!]", a) else "")
        return s
    def alt(d):
        return "|".join(cat(d) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    t = f"`{alt(d)}`"
    fl = "".join(rng.sample(["-", ",", ".", "A"], rng.choice([0, 0, 0, 1, 1, 2])))
    return f"({fl}{t})" if fl else t


def subject(rng):
    return '"' + "".join(rng.choice("aaabbcAB1 d.\n") for _ in range(rng.randint(0, 9))) + '"'


def g_string(rng, n):
    rs = rows(*STROPS)
    out = []
    while len(out) < n:
        k = len(out) % 6
        s, p = rng.choice(SUBJ), rng.choice(REGEXES)
        if rng.random() < .4:
            s, p = subject(rng), regex(rng)
        if k == 0:
            r = rs[(len(out) // 6) % len(rs)]
            out.append(case("RP(" + apply(r, [pick(rng, SUBJ + STRS + REGEXES[:6] if rng.random() < .7 else ALL) for _ in range(r["ar"])]) + ")"))
        elif k == 1:
            rep = rng.choice(['"-"', '"&"', '"[\\1]"', '"$1"', '"\\\\"', "{UCa}", "{a.b}", "_._", "{[a b c]}", '""', '"\\0"', "5", "[1 2]", "()", "`x`", "{#a}", "{$0.$1}", "{}", '"a&&b"', "\"\\n\"", "{`z`}", "(UC_)", "&", '"\\2\\1"', "`<\\9\\1>`", "`\\10-\\2`", "`[\\1&]`", "{[a k j]}" if False else "{$9.a}", "{#g}"])
            out.append(case(f"P RP({s} R {p} {rep});P RP[$0 $1 $2 $3 $9]"))
        elif k == 2:
            t = rng.choice([f"P RP({s}~{p})", f"P RP({s}~={p})", f"P RP({p}~={s})", f"P RP({p}~{s})", f"P RP({s}@?{p})", f"P RP({s}@*{p})", f"P RP({s}@{p})", f"P RP({s}^{p})", f"P RP({p}N{s})", f"P RP({s}RM{p})", f"P RP({s}TM{rng.randint(-1, 4)})", f"P RP({p}MR{s})" if False else f"P RP({{a}}MR{p}{s})",
                            f"LR{p}{s}{{P RP[$0 $1 $( $)]}}", f"P RP({s}||{p})", f"P RP({s}|>{p})", f"P RP({s}<|{p})", f"P RP({s}||{p})", f"P RP({s}|>{p})", f"P RP({s}<|{p})", f"P RP(#{p})", f"P RP({s}DC{p})", f"P RP({s}{rng.choice(['||', '|>', '<|'])}{rng.choice(['\"a\"', '\"ac\"', '\" \"', '\"\"', '[\"a\" \"b\"]', '()'])})"])
            out.append(case(t + ";P RP[$0 $1 $2 $( $) $[ $] $` $' $$];P RP[$3 $4 $5 $6 $7 $8 $9]"))
        elif k == 3:
            out.append(case(f"{s}~{p};P RP[$0 $1 $`];{rng.choice(SUBJ)}~{rng.choice(REGEXES)};P RP[$0 $1 $2 $( $) $` $' $$]"))
        elif k == 4:
            a = lambda: rng.choice(['"abc"', '"xyz"', '"a"', '""', '"ab"', "[1 2 3]", '["a" "b"]', '"aa"', ",3", "AZ", "z", "()", "[\"ab\" \"c\"]", "(3,())", "5", "`a`", "[]"])
            out.append(case(f"RP({s} TR {a()} {a()})" if rng.random() < .6 else f"RP([{s} {s}] {rng.choice(['TR', 'R'])} {a()} {a()})"))
        else:
            f = rng.choice(["UC", "LC", "SC", "TC", "IC", "RV", "||", "|>", "<|", "TM", "A", "C", "^", "J", "#", "K", "X", "+", "-", ".", "AB", ","])
            out.append(case(f"RP({f} {rng.choice(SUBJ + REGEXES[:20] + ['[' + chr(34) + 'aB' + chr(34) + ' ' + chr(34) + 'c d' + chr(34) + ']', '65', '[72 105]', '97.5', chr(34) + 'hello world' + chr(34), chr(34) + chr(39) + 'tis it' + chr(39) + 's' + chr(34)])})"
                            if rng.random() < .6 else f"RP({s} {rng.choice(['X', 'J', 'JW', 'WR', '.', '^', '<>', 'DC', 'RM', 'CH'])} {rng.choice(SUBJ + SMALL + ['[' + chr(34) + 'a' + chr(34) + ' 1]', '(-1)', '[1 2]', '()', ',3'])})"))
    return out


# ------------------------------------------------------------------- C19
def outval(rng, d=3):
    r = rng.random()
    if d > 0 and r < .5:
        return "[" + " ".join(outval(rng, d - 1) for _ in range(rng.randint(0, 4))) + "]"
    return rng.choice(["1", "2.50", '"ab"', '""', '"a\nb"', "()", ",3", "{a+1}", "`x`", "n", "'\"", "[]", "(-5)", "((-2),1)", ",0", '"a\'b"', "\\\"a\"b\\\"", "(-`y`)"])


def g_output(rng, n):
    out = []
    while len(out) < n:
        s = ""
        for _ in range(rng.randint(1, 4)):
            v = outval(rng) if rng.random() < .97 else "(1,())"
            s += rng.choice(["P {v};", "O {v};", "YP {v};", "YO {v};", "P RP {v};", "P ST {v};", "P {v}.\"\";", "x:{v};Px;", "P({v} J \",\");", "Y{v}Py;", "O {v}O n;", "P \\\"<\\({v})>\\\";", "P {v}.{v};", "P({v} WR {v});", "P #ST{v};", "{v};", "P ({v})Q{v};", "P({v} X 2);", "P J {v};"]).format(v=v)
        s += rng.choice(["", "x", outval(rng), "()", "P 5", "O 5", "Fi,2Oi", "{a}", "x:5", "I 0 5", "P[]", ""])
        out.append(case(s, ARGS, fm=rng.choice(["", "l", "n", "p", "P", "s", "S"])))
    return out


# ------------------------------------------------------------------- C20
def g_errors(rng, n):
    out = []
    g = Gen(rng)
    bad = ["1/0", "5%0", "()+1", "[1]@9", "[]@0", "x@{a}", "{a}+1", "`a`*`b`", "\"abc\"AE1", "#5/0", "V\")\"", "V\"(\"", "C(-1)", "PO[]", "DQ\"\"", "MX[]", "RC[]", "5 6", "(5 6)", "[1 2]R3 4", "\"a\"R`(`1", "x~`[`", "`*`~x", "(3,())M{a}" if False else "#(3,())", "RV(3,())", "1//0", "(-1)RT2", "LN0", "LN(-1)", "0**(-1)",
           "[3 1]SK{a}", "5M{a}", "{a}M5", "5FI{a}", "TB{a}", "\"zz\"FB10", "5TB1", "V{1/0}", "(RE 5)" if False else "V5", "x:()+[1 2]", "$+5", "$/[1 0]", "\\$//[1 0 0]", "Fi 5 Pi", "L[2]P1", "LR5\"a\"P1", "[a b]:5", "5:6", "x@5:6", "PI:3", "AZ:()", "U\"ab\"", "D[]", "1::2", "BAD",
           "EY{a}", "CG()", "ZG(-1)", "[1 2 3]CH0", "\"abc\"<>0", "\"abc\"X(-1)", "[1]RL(-1)", "\"abc\"TR5()", "CB5", "(,3)CB(-1)", "SI{}", "EX1000", "AB\"x\"", "(\"a\" 5)", "(() 5)", "({a+()}3)", "x@<()", "[1 2]@((-5),9)", "\"\"@0", "(\"\"@(1,2))", "$0", "J5", "^5", "A\"\"", "A5", "C\"a\"", "[()]J,2"]
    while len(out) < n:
        k = len(out) % 4
        sh = rng.random() < .6
        if k < 2:
            s = "O 1;"
            for _ in range(rng.randint(1, 3)):
                b = rng.choice(bad)
                s += rng.choice(["P RP({b});", "{b};", "x:({b});P RPx;", "P[1 ({b}) 2];", "I({b})P 1EL P 2;", "P({b})+1;", "P({b}).\"s\";", "({{{b}}}3);P a;", "{{{b}}}M,2;", "P RP V\"{b}\";"]).format(b=b.replace('"', "'x") if '"' in b and rng.random() < .1 else b) + rng.choice(["", "P 2;", "O x;"])
            out.append(case(s + "P\"end\"", ARGS, sh=sh, fm=rng.choice(["p", ""])))
        elif k == 2:
            out.append(case(f"x:{pick(rng)};P RP({g.wild(2)});P\"end\"", ARGS, sh=sh))
        else:
            b = [rng.choice(bad) for _ in range(2)]
            out.append(session([rng.choice(["", "O 1;", "P 3;", "x:4;"]) + b[0], "P 3", b[1], "x", "$_"], sh=sh))
    return out


# ------------------------------------------------------------------- C21
def g_input(rng, n):
    out = []
    texts = ["abc", "5", "-5", "", "1.5", "[1 2]", "a b", '"q"', "3 4", "x+1", "()", "0", "héllo"[:1], "-e", "--", "007", " pad ", "'c", "{a*2}", "1 2 3", "y:5", "((", "P3", ";c", "`x`", "[1;[2]]", "a", "b", "\\a", "q"]
    code = ["a", "b", "g", "\\a", "\\b", "\\g", "c", "e", "\\e", "q", "Pq", "#g", "[a b c d e]", "q.q", "WG", "P$*g", "a+b", "I q P q", "g@5", "Fxg Px", "W q!Q\"\"&#q P 1", "[q q]", "x:q", "(q)", "q~`\\d`", "V q", "\\f" if False else "\\d", "a:3;\\a", "q:5", "RPq", "#q", "O q", "Px:q", "P y", "YqPy", "T(i+:1)>2P q", "L2P q", "WG;a", "{q}M,2", "a@0", "gJ','"[:-1], "g.x", "UC a", "Uq",
            "W(x:q)Px"]
    while len(out) < n:
        args = [rng.choice(texts) for _ in range(rng.randint(0, 7))]
        inp = [rng.choice(texts) for _ in range(rng.randint(0, 5))]
        s = ";".join(rng.choice(code) if rng.random() < .4 else "P RP(" + rng.choice(["a", "b", "g", "\\a", "\\b", "\\g", "c", "\\e", "q", "q", "[q a]", "#g", "g@1", "\\c"]) + ")" for _ in range(rng.randint(1, 5)))
        x = rng.random()
        if x < .45:
            out.append(case(s, args, inp=inp, fm=rng.choice(["p", "p", "", "l"]), how=rng.choice("eefp")))
        elif x < .6:
            out.append(case(s, [], inp=inp, r=True, fm="p", how=rng.choice("efp")))
        elif x < .8:
            args = [rng.choice(["5", "[1 2 3]", '"ab"', "()", ",4", "{a+1}", "x:3", "x", "y+1", "a", "1 2", "P5", "(3", "5/0", "g", "q", "`r`", "[\"a\" ()]", "", ";c", "i+:1", "F i,3Pi", "_+1", "\"x", "7;8", "b", "$_", "\\a", "U i", "Y9", "{x:a}"]) for _ in range(rng.randint(0, 5))]
            r = rng.random() < .2
            out.append(case(s + ";P RPx;P RPi", [] if r else args, inp=args if r else inp, x=True, r=r, how=rng.choice("efp")))
        else:
            src = s.split(";") if rng.random() < .5 else [s]
            out.append(case("", args, inp=src, i=True, fm="p"))
    return [i for i in out if not any("\n" in t for t in i["args"])]


# ------------------------------------------------------------------- C22
LINES = ["5", "x", "x:3", "x+:1", "[1 2]", "$_", "$__", "$___", "$_+$__", "()", "\"ab\"", "P 5", "O 5", "Fi,3Pi", "i", "I 1 P 2", "(", "1)", "[1", "2]", "{a", "}", "\"abc", "d\"", "f:{a*2}", "(f 4)", "f", "5/0", "()+1", "x@9", ")", "]", "}", "+", "1+", "2", ";", ";h", ";help", ";he", ";w", ";warnings", ";w on",
         ";w off", ";warn on x", ";wa", ";q", ";quit", ";exit", ";e", ";x", "; q", ";comment", ";foo bar", "", " ", "  ", "\t5", "5 6", "5;6", "x:1;y:2;x+y", "1/0;3", "V\")\"", "(f)", "(5 6)", "WG", "q", "Px", "y", "Y7", "L2{x+:1}", "$_:9", "a", "a:5", "\\a", "g", "b", "`re`", "{a;b}", "\"x\"~`x`", "$0", ",3", "(1,())",
         "[();{}]", "2,", "I 0", "EL P 1", "P", "O", "F i", "T x>5{x+:1}", "W 0 {}", "R", "RV\"abc\"", "BAD", "'", "'a", "5  ;c", ";H", ";W ON", ";Q", "; w", "P3;;P4", "$_@0", "_", "B", "x==$_", "h:2", "V\"$_\"", "\\\"a\\(x)b\\\"", "{$_}", "({$_}1)", "[$_;$__;$___]", "z:q", "{5/0}M,2", "l@5@3:1", "RE 1" if False else "6", "x:(", "5)"]


def near_command(rng):
    """A line beginning with a semicolon: a command of the session, a shortened
    one, or a comment that almost is one."""
    w = rng.choice(["help", "quit", "exit", "warnings", "x"])
    q = rng.random()
    if q < .35:
        w = w[:rng.randint(0, len(w))]
    elif q < .65:
        w = w[:rng.randint(1, len(w))] + rng.choice(["s", "x", "p", "q", "e", "w", "ello", ".", "?", ";", "1", "it", "hat", "o"])
    elif q < .8:
        w = w[rng.randint(0, 2):]
    if rng.random() < .2:
        w = rng.choice([w.upper(), w.capitalize()])
    return ";" + rng.choice(["", "", "", " ", "  ", "\t"]) + w + rng.choice(["", "", "", "", " ", " on", " off", " ON", " o", " of", " on off", " off on", " to", " 1", "\ton", " it", " 5"])


def g_repl(rng, n):
    out = []
    while len(out) < n:
        k = rng.randint(2, 9)
        lines = [rng.choice(LINES) if rng.random() < .88 else near_command(rng) for _ in range(k)]
        if rng.random() < .1:
            g = Gen(rng)
            lines[rng.randrange(k)] = g.wild(2)
        out.append(session(lines, fm=rng.choice(["", "", "", "p", "l", "n", "s", "P", "S"]), sh=rng.random() < .5))
    return [s for s in out if not any("\n" in l for l in s["inp"])]


# ------------------------------------------------------------------- C23
RSEQ = ['"abc"', '"a"', '""', '"abcd"', "12", "[]", "[1]", "[1 2]", "[1 [2 3] ()]", "[[1 2] [3]]", ",3", ",1", ",0", "(2,5)", "((-1),2)", "(3,1)", "[{a} `x`]", '["ab" "ab"]', "[1 1 2]", "x", "k"]
RODD = ["()", "{a+1}", "`ab`", "(3,())", "(\\,())", "_", "2.5", '"-2x"', "(-3)"]
RINT = ["2", "3", "5", "9", "1", "0", "(-2)", "3.9", '"4"', '"x"', "[2 3]", "[3 [1 2] 0]", ",4", "7", "()", "()", "[]", "`a`", "i"]
SEEDS = ["5", '"ab"', "0", "[1 2]", "()", "1.5", '""', ",3", "`x`", "x", "(-1)", "i", "[[1] 2]"]


def draw(rng):
    """An expression with a random value; all of its value is to be printed."""
    q = rng.random()
    sq = lambda: rng.choice(RSEQ) if rng.random() < .93 else rng.choice(RODD)
    it = lambda: rng.choice(RINT)
    if q < .25:
        return rng.choice(["RC {}", "(RC {})", "RC*[{0} {0}]", "{{RCa}}M[{0} {0}]", "({{RC a}}{})", "RC{}"]).format(sq())
    if q < .5:
        return rng.choice(["RR {}", "{1} RR {0}", "{1} RR {0}", "(RR {})", "{{RRa}}M[{0} 4]", "RR*[{0} 3]", "({{a RR b}}{1} {0})", "RR [{0} {1}]", "[2 {1}] RR {0}", "{0} RR [4 {1}]", "(-3) RR {0}", "2 RR 6", "(_ RR {0} 1)", "((RR _) {0})"]).format(it(), it())
    if q < .7:
        return rng.choice(["SH {}", "SH {}", "(SH {})", "SH*[{0} {0}]", "{{SHa}}M[{0} {0}]", "({{SH a}}{})", "SH SH {}", "RV SH {}", "(SH {})"]).format(sq())
    if q < .85:
        return rng.choice(["r", "r", "[r r]", "r+1" if False else "r", "{r}M,2", "({r}5)", "x:r" if False else "r", "[r [r]]"])
    return rng.choice(["[RC {0} RR {1}]", "[SH {0} SH {0}]", "[r RR {1}]", "(RC {0}).(RC {0})" if False else "[RC {0} RC {0}]"]).format(sq(), it())


def g_random(rng, n):
    out = []
    while len(out) < n:
        k = len(out) % 8
        if k < 4:
            st = []
            for _ in range(rng.randint(1, 3)):
                st.append(rng.choice(["P RP({})", "P RP({})", "P RP(m:{})", "YP {}", "L2 P RP({})", "F i,2 P RP({})", "m:[{}];P RP m", "k:{};P RP k", "P({})", "({{P RP(a)}}({}))", "I 1 P RP({})"]).format(draw(rng)))
            c = case("x:[4 [5] 6];k:\"xyz\";" + ";".join(st) + ";P RP[x k];()", ARGS)
        elif k < 6:       # seeds: the same draws after the same seed
            d = [draw(rng) for _ in range(rng.randint(1, 3))]
            sd = rng.choice(SEEDS)
            pr = ";".join(f"P RP({e})" for e in d)
            t = rng.random()
            if t < .5:
                body = f"r:{sd};{pr};{rng.choice(['', '', 'P RR 5;', 'P r;', 'r:77;'])}r:{sd if t < .35 else rng.choice(SEEDS)};{pr};()"
            elif t < .75:
                body = f"F i[{sd} {sd}]{{r:i {pr}}}()"
            else:
                body = f"f:{{r:a {pr.replace('i', '2')}}};(f {sd});(f {sd});()"
            c = case("x:[4 [5] 6];k:\"xyz\";" + body, ARGS, runs=rng.choice([1, 2, 2]))
        elif k == 6:      # what a seed gives, it gives in every run
            c = case(f"x:[4 [5] 6];k:3;r:{rng.choice(SEEDS)};" + ";".join(f"P RP({draw(rng)})" for _ in range(rng.randint(1, 3))) + ";()", ARGS, runs=2)
        else:
            ls = [rng.choice([draw(rng), f"P RP({draw(rng)})", f"r:{rng.choice(SEEDS)}" + ";P 1", "$_", "x:[1 2 3]", "k:\"ab\"", "RC 5/0", "[$_ $__]"]) for _ in range(rng.randint(2, 5))]
            c = session(["x:[4 [5] 6];k:\"xyz\";()"] + ls)
        c["reals"] = ["0.5"]
        out.append(c)
    return out


# ------------------------------------------------------------------- C24
FLAGS = ["-p", "-p", "-P", "-s", "-S", "-n", "-l", "-w", "-v", "-d", "-r", "-x", "-R", "-V", "-i"]
LONGS = ["--repr", "--reprlines", "--space", "--spacelines", "--newline", "--lines", "--warnings", "--verbose", "--debug", "--readlines", "--exec-args", "--repl", "--version", "--stdin", "--help", "--execute", "--file"]
ODDWORDS = ["-z", "-1", "-1.5", "-.5", "-", "--", "--x", "--re", "--repr=1", "-p=", "-p=x", "-z q", "-p q", "--exec", "--file", "-e", "-f", "--=x", "---", "-ppp", "-pz", "-hz", "-zh", "-vh", "-ei", "-w-", "-5x", "-h"]
CLPROGS = ["P[1 a];g", "q", "a", "[1[2 a]]", "P g;q", "5/0", "3+", ")", "a.b", "[q q]", "x:a;x.x", "P x;Px:[1 2]", "\"ab", "#g", "()", "", "[a[b c]]", "O a;O b", "P[\"x\"[a 1]\"y\"]", "Fig P i", "a+b*2  c", "@;1", "1;(", "V a", "[1 2 3]", "V\")\"", "W q P 1", "RPg", "EI a b"]
CLARGS = ["abc", "5", "-5", "", "a b", "x y z", "[1 2]", "q", "3+", "-p", "code.pip", "it's", "\"", "'", "=", "e=1"]


def clwords(rng, prog):
    """The words of a command line (of which some are in order)."""
    ws = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        q = rng.random()
        if q < .55:
            ws.append(rng.choice(FLAGS[:12] if rng.random() < .85 else FLAGS))
        elif q < .75:
            w = rng.choice(LONGS[:11] if rng.random() < .85 else LONGS)
            ws.append(w if rng.random() < .5 else w[:rng.randint(3, len(w))])
        elif q < .9:
            ws.append("-" + "".join(rng.choice(FLAGS if rng.random() < .2 else FLAGS[:12])[1] for _ in range(rng.randint(2, 3))))
        else:
            ws.append(rng.choice(ODDWORDS))
    q = rng.random()
    if q < .35:
        src = rng.choice([["-e", prog], ["-e" + prog], ["--execute", prog], ["--execute=" + prog], ["--exe", prog], ["-pe", prog], ["-we" + prog], ["-e=" + prog]])
    elif q < .55:
        src = rng.choice([["-f", "code.pip"], ["--file=code.pip"], ["--fi", "code.pip"], ["-sf", "code.pip"], ["-fcode.pip"], ["-f", "none.pip"]])
    elif q < .7:
        src = rng.choice([["-i"], ["--stdin"], ["-pi"], ["--st"]])
    elif q < .85:
        src = [rng.choice(["code.pip", "code.pip", "code.pip", "./code.pip"[2:], "other"])]
    else:
        src = []
    k = rng.randint(0, len(ws))
    ws[k:k] = src
    args = [rng.choice(CLARGS) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    if args and rng.random() < .5:
        args.insert(rng.randint(0, len(args)) if rng.random() < .1 else 0, "--")
    return ws + args if rng.random() < .85 else args + ws


def quoted(rng, ws):
    """The words as one line (mostly)."""
    parts = []
    for w in ws:
        q = rng.choice("'\"")
        if q in w:
            q = "'" if q == '"' else '"'
        if " " in w or not w or "'" in w or '"' in w or rng.random() < .15:
            k = rng.randint(0, len(w)) if rng.random() < .2 else 0
            w = w[:k] + q + w[k:] + q if rng.random() < .9 else w
        parts.append(w)
    return rng.choice([" ", " ", "  "]).join(parts) + rng.choice(["", "", " ", "'", '"x'] if rng.random() < .2 else [""])


def g_command(rng, n):
    out = []
    while len(out) < n:
        prog = rng.choice(CLPROGS) if rng.random() < .8 else glue(rng, stoks(rng, 2))
        inp = [rng.choice(["abc", "5", "[1 2]", "", "P 3", "x y", "a", ")", "\"q"]) for _ in range(rng.randint(0, 3))]
        ws = clwords(rng, prog)
        file = rng.choice(CLPROGS) if rng.random() < .8 else prog
        q = rng.random()
        if q < .5:
            if "-i" in ws or "--stdin" in ws or "-R" in ws:
                inp = [prog] + inp
            out.append(command(ws, inp, file))
        elif q < .75:
            line = quoted(rng, ws)
            if rng.random() < .5:
                inp = prog.split("\n") + inp[:1]
            out.append(command([], ([line] if rng.random() < .97 else []) + inp, file))
        else:
            how = rng.random()
            argv = None if how < .15 else quoted(rng, ws) if how < .6 else ws
            out.append(calling(prog if rng.random() < .6 else None, argv, inp, file))
    return [i for i in out if not any("\n" in t or "\0" in t for t in i["inp"])]


# --------------------------------------------------------- characters beyond ASCII
LITERAL = re.compile(r'"[^"]*"|`(?:[^`\\]|\\.)*`|\'.')


def beyond(rng, inv):
    """The invocation, with other characters in place of some in its literals and input."""
    texts = inv["args"] + inv["inp"] + inv["words"] + [inv["file"]]
    where = "".join(LITERAL.findall(inv["src"])) + "".join(texts)
    pool = sorted(c for c in set(where) if c.isalnum() or c in " ,.-#")
    if not pool or rng.random() < 0.1:
        k = rng.randrange(len(inv["src"]) + 1)
        return dict(inv, src=inv["src"][:k] + rng.choice(OTHERS) + inv["src"][k:])
    put = {c: rng.choice(OTHERS) for c in rng.sample(pool, min(len(pool), rng.randint(1, 3)))}

    def change(t):
        return re.sub(r"(\\.)|(.)", lambda m: m.group(1) or put.get(m.group(2), m.group(2)), t)
    inside = re.sub(LITERAL, lambda m: change(m.group()), inv["src"])
    if rng.random() < 0.5:
        code = {c: str(ord(d)) for c, d in put.items()}
        inside = re.sub(r"\b(\d{2,3})\b", lambda m: code.get(chr(int(m.group(1))), m.group(1)), inside)
    lines = change if inv["kind"] == "prog" else lambda t: re.sub(LITERAL, lambda m: change(m.group()), t)
    return dict(inv, src=inside, args=[change(t) for t in inv["args"]], inp=[lines(t) for t in inv["inp"]],
                words=[lines(t) for t in inv["words"]], file=lines(inv["file"]))


def blanks(rng, inv):
    """The invocation, with blanks in place of some characters in its literals."""
    pool = sorted(c for c in set("".join(LITERAL.findall(inv["src"]))) if c.isalnum())
    if not pool or inv["kind"] != "prog":
        return inv
    put = {c: rng.choice(" \t\n") for c in rng.sample(pool, min(len(pool), rng.randint(1, 2)))}
    change = lambda m: re.sub(r"(\\.)|(.)", lambda m: m.group(1) or put.get(m.group(2), m.group(2)), m.group())
    return dict(inv, src=re.sub(LITERAL, change, inv["src"]))


def wide(g, share=0.06):
    return lambda rng, n: [beyond(rng, i) if rng.random() < share else blanks(rng, i) if rng.random() < share / 2 else i for i in g(rng, n)]


PROPS = {"C01": g_scan, "C02": g_prec, "C03": g_complete, "C04": g_unparse, "C05": g_repr, "C06": g_alias, "C07": g_assign, "C08": g_scope,
         "C09": g_flow, "C10": g_broadcast, "C11": g_meta, "C12": g_lambda, "C13": g_index, "C14": g_arith, "C15": g_order, "C16": g_hof,
         "C17": g_restructure, "C18": g_string, "C19": g_output, "C20": g_errors, "C21": g_input, "C22": g_repl, "C23": g_random, "C24": g_command}
PROPS = {k: wide(g) for k, g in PROPS.items()}
