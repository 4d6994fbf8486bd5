"""Generation of Pip programs: typed random expressions and programs, and
systematic enumeration of operators over pools of values."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))


def op_rows():
    """The operator table of the specification."""
    rows = []
    with open(os.path.join(HERE, "..", "spec", "PipOpTable.tla")) as f:
        for line in f:
            m = re.match(r'\s*<< "(.*?)", "(.*?)", (\d), (\d+), "(.*?)", "(.*?)", "(.*?)" >>', line)
            if m:
                tx, fn, ar, lv, assoc, df, fl = m.groups()
                rows.append(dict(tx=tx.replace("\\\\", "\\"), fn=fn, ar=int(ar), lv=int(lv), assoc=assoc, fl=fl))
    return rows


ROWS = op_rows()
BY = {(r["tx"], r["ar"]): r for r in ROWS}
RANDOM_FNS = {"RANDCHOICE", "SHUFFLE", "RANDRANGE", "RANDRANGETO"}
FLOATY = {"SINE", "COSINE", "TANGENT", "SECANT", "COSEC", "COTAN", "ARCTAN", "EXPONENTIAL",
          "NATURALLOG", "BINARYLOG", "DECIMALLOG"}
OUTPUTS = {"OUTPUT", "PRINT", "YANK", "YANKOUTPUT", "YANKPRINT"}

NUMS = ["0", "1", "2", "3", "5", "7", "10", "12", "100", "255", "1.5", "0.25", "2.0", "(-1)", "(-2)", "(-7)", "(-0.5)"]
SMALL = ["0", "1", "2", "3", "4", "(-1)", "(-2)", "5"]
STRS = ['""', '"a"', '"ab"', '"abc"', '"Hello, World"', '"a b  c"', '"x1y22z"', '"101"', '"ff"', '"aAbB"',
        "'!", '" pad "', '"abcabc"', '"-3"', '"3.5kg"', '"1,2;3"', '"mississippi"', '"\n"', "' ", '"[1;2]"']
LISTS = ["[]", "[1]", "[1 2 3]", "[3 1 2]", '["b" "a" "c"]', "[[1 2] [3]]", "[[1 2] [3 4]]", '["abc" 12 "x"]', "[1 [2 [3]]]",
         '["x" () 0]', "[5 5 1]", '["a1" "b22" ""]', "[()]", "[[]]", "[,3 \"ab\"]", "[2 10 1]", '["10" 9 "8"]',
         "[0 1 0 1]", '["ab" "cd"]', "[(-1) 2.5]"]
RANGES = [",5", ",0", "(2,5)", "(5,2)", "\\,3", "((-2),3)", "(3,())", "(\\,())", "(1,2)"]
NILS = ["()"]
PATS = ["`a`", "`[a-c]+`", "`(\\w)(\\d)`", "`\\d+`", "`x|y`", "(-`B`)", "``", "`b*`", "XI", "XL", "w"]
BLOCKS = ["{a+1}", "{a.b}", "{a<2}", "{}", "_", "{a}", "(_+1)", "(_.b)", "{Pa a}", "(_<2)"]
POOLS = {"n": NUMS, "i": SMALL, "s": STRS, "l": LISTS, "r": RANGES, "u": NILS, "p": PATS, "b": BLOCKS}
ALL = [v for k in "nslrupb" for v in POOLS[k]]
SIMPLE = ["0", "3", "(-2)", "1.5", '"abc"', '""', '"a b"', "[1 2 3]", "[]", "[[1 2] [3]]", '["ab" "c"]', ",4", "(2,5)",
          "(1,())", "()", "`b`", "{a}", '"12"']


def kinds(s):
    return [v for k in s for v in POOLS[k]]


def apply(row, ops):
    """Source text of an operator applied to operand texts."""
    tx = row["tx"]
    if row["ar"] == 1:
        return f"{tx} {ops[0]}"
    if row["ar"] == 2:
        return f"{ops[0]} {tx} {ops[1]}"
    return f"{ops[0]} {tx} {ops[1]} {ops[2]}"


class Gen:
    """Random expressions and programs. rng: random.Random."""

    def __init__(self, rng, names="xyl", fnames=(), depth=3):
        self.r = rng
        self.names = list(names)
        self.fnames = list(fnames)
        self.depth = depth

    def c(self, *xs):
        return self.r.choice(xs)

    def pick(self, xs):
        return self.r.choice(xs)

    def num(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.35:
            return self.pick(NUMS)
        if r < 0.6:
            return f"({self.num(d-1)} {self.c('+','-','*','%','//','AD','BA','BX','CM')} {self.num(d-1)})"
        if r < 0.7:
            return f"(#{self.seq(d-1)})"
        if r < 0.8:
            return f"({self.c('-','U','D','AB','SG','HV','DB','SQ','|<')} {self.num(d-1)})"
        if r < 0.9:
            return f"($+{self.lst(d-1)})"
        return f"({self.num(d-1)} {self.c('<','>','=','<=','!=')} {self.num(d-1)})"

    def str(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.4:
            return self.pick(STRS)
        if r < 0.55:
            return f"({self.str(d-1)}.{self.str(d-1)})"
        if r < 0.65:
            return f"({self.c('UC','LC','RV','TC','SC')} {self.str(d-1)})"
        if r < 0.75:
            return f"({self.str(d-1)} X {self.pick(SMALL)})"
        if r < 0.85:
            return f"({self.lst(d-1)} J {self.str(0)})"
        return f"({self.str(d-1)} @ {self.c('0','1','-1','(1,3)','[0 2]')})"

    def lst(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.3:
            return self.pick(LISTS)
        if r < 0.4:
            return self.pick(RANGES[:6])
        if r < 0.55:
            return "[" + " ".join(self.any(d-1) for _ in range(self.r.randint(0, 3))) + "]"
        if r < 0.65:
            return f"({self.fn(d-1)} M {self.seq(d-1)})"
        if r < 0.75:
            return f"({self.c('RV','SN','UQ','SS')} {self.seq(d-1)})"
        if r < 0.85:
            return f"({self.seq(d-1)} {self.c('AE','PE','AL','CH','RL','CP')} {self.any(d-1)})"
        return f"({self.str(d-1)} ^ {self.str(0)})"

    def seq(self, d=2):
        return self.c(self.str, self.lst, self.lst)(d)

    def fn(self, d=1):
        r = self.r.random()
        if r < 0.4:
            return self.pick(["{a+1}", "{a.a}", "{a}", "(_+1)", "(_._)", "{[a b]}", "{#a}", "(_<2)", "(_@0)", "{aJ','}", "(2*_)"])
        if r < 0.7:
            return "{" + self.with_names("ab", self.any, d) + "}"
        return f"(_ {self.c('+','.','-','AE','X')} {self.num(0)})"

    def with_names(self, names, f, d):
        old = self.names
        self.names = list(names)
        try:
            return f(d)
        finally:
            self.names = old

    def any(self, d=2):
        r = self.r.random()
        if r < 0.15 and self.names:
            return self.pick(self.names)
        if r < 0.4:
            return self.num(d)
        if r < 0.65:
            return self.str(d)
        if r < 0.93:
            return self.lst(d)
        if r < 0.96:
            return "()"
        return self.fn(d) if d > 0 else self.pick(ALL)

    def wild(self, d=2, rows=None):
        """An expression using any operators on operands of any type."""
        if d <= 0 or self.r.random() < 0.2:
            return self.pick(ALL if self.r.random() < 0.7 else self.names or ALL)
        row = self.pick(rows or WILD)
        return "(" + apply(row, [self.wild(d - 1, rows) for _ in range(row["ar"])]) + ")"


WILD = [r for r in ROWS if r["fn"] not in RANDOM_FNS | OUTPUTS | {"RECURSE", "ASSIGN", "SWAP", "PERMUTATIONS", "COMBINATIONS",
                                                                       "COORDINATEGRID", "ZEROGRID", "ONEGRID", "IDENTITYMATRIX",
                                                                       "POW", "POWEROFTEN", "EVAL"}]
