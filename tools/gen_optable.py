#!/usr/bin/env python3
"""One-time generator for spec/PipOpTable.tla from a reviewed copy of the
operator table.  The result is committed: it is specification data, and the
checks never regenerate it from the tree under test."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import operators as O

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

rows = []
for prec, (ar, assoc, *entries) in enumerate(O.precedenceTable):
    for e in entries:
        op = O.opsByArity[ar][e[0]]
        d = op.default
        ds = "N" if d is None else "L" if d == [] else "S" + str(d)
        fl = "".join(c for b, c in ((1, "v"), (2, "r"), (4, "l"), (8, "e"), (16, "m")) if op.flags & b)
        rows.append(f"  << {q(op._text)}, {q(op.function)}, {ar}, {prec}, {q(assoc or '-')}, {q(ds)}, {q(fl)} >>")
print("""---------------------------- MODULE PipOpTable ----------------------------
(* Operators of Pip: text, function, arity, precedence level, associativity,
   default (value of folding nothing: N nil, L empty List, Sxx the Scalar xx),
   flags (v evaluate operands, r to rvalues, l itemwise over Lists, e and
   Ranges, m builds lambda expressions from functions).
   Generated once by tools/gen_optable.py; reviewed against docs/. *)
OpRows == <<""")
print(",\n".join(rows))
print(">>\n" + "=" * 77)
