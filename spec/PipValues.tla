------------------------------ MODULE PipValues ------------------------------
(***************************************************************************)
(* Pip values and their basic observations.                                *)
(*                                                                         *)
(*   Scalar   [t |-> "S", s |-> string]        string or number            *)
(*   List     [t |-> "L", v |-> sequence of values]                        *)
(*   Range    [t |-> "R", lo |-> << >> or <<n>>, hi |-> << >> or <<n>>]    *)
(*   Pattern  [t |-> "P", raw |-> string, fl |-> set of flags]             *)
(*   Block    [t |-> "B", st |-> sequence of statements, re |-> node]      *)
(*   Nil      [t |-> "N"]                                                  *)
(*                                                                         *)
(* Two more "values" only exist inside the specification:                  *)
(*   X  [t |-> "X"]  the result lies outside the modelled domain (inexact  *)
(*                   floating point, random numbers, endless iteration);   *)
(*                   the specification constrains nothing about such a run *)
(*   F  [t |-> "F"]  the operation is a fatal error                        *)
(***************************************************************************)
EXTENDS PipNum

(* ------------------------------- values -------------------------------- *)
S(s) == [t |-> "S", s |-> s]
L(v) == [t |-> "L", v |-> v]
Rg(lo, hi) == [t |-> "R", lo |-> lo, hi |-> hi]
Pat(raw, fl) == [t |-> "P", raw |-> raw, fl |-> fl]
Blk(st, re) == [t |-> "B", st |-> st, re |-> re]
Nil == [t |-> "N"]
X == [t |-> "X"]
F == [t |-> "F"]
SN(a) == IF IsNone(a) THEN X ELSE LET s == NumS(a) IN IF s = "" THEN X ELSE S(s)
SI(n) == IF AbsI(n) > LIM THEN X ELSE S(IntS(n))
SB(b) == IF b THEN S("1") ELSE S("0")

IsS(v) == v.t = "S"
IsL(v) == v.t = "L"
IsR(v) == v.t = "R"
IsP(v) == v.t = "P"
IsB(v) == v.t = "B"
IsN(v) == v.t = "N"
IsIter(v) == v.t \in {"S", "L", "R"}
IsLR(v) == v.t \in {"L", "R"}
Bad(v) == v.t \in {"X", "F", "Z"}

Lo(r) == IF r.lo = << >> THEN 0 ELSE r.lo[1]
IsInf(v) == v.t = "R" /\ v.hi = << >>
RLen(r) == MaxI(0, r.hi[1] - Lo(r))             \* finite Ranges only
\* Range(lower, upper) with Python ints or None, where a lone bound is upper
MkRange(lo, hi) == IF hi = << >> THEN Rg(<< >>, lo) ELSE Rg(lo, hi)

\* Items of an iterable, in iteration order
MAXITEMS == 3000
Items(v) == CASE v.t = "S" -> [i \in 1..Len(v.s) |-> S(At(v.s, i))]
              [] v.t = "L" -> v.v
              [] v.t = "R" -> LET n == RLen(v) IN [i \in 1..n |-> S(IntS(Lo(v) + i - 1))]
              [] v.t = "P" -> [i \in 1..Len(v.raw) |-> S(At(v.raw, i))]
              [] OTHER -> << >>
\* Iterating such a value is outside the model
TooBig(v) == v.t = "R" /\ (v.hi = << >> \/ RLen(v) > MAXITEMS)
VLen(v) == CASE v.t = "S" -> Len(v.s) [] v.t = "L" -> Len(v.v) [] v.t = "R" -> RLen(v)
             [] v.t = "P" -> Len(v.raw) [] OTHER -> 0

ZeroText(s0) ==
    LET s == IF s0 # "" /\ At(s0, Len(s0)) = "\n" THEN SubSeq(s0, 1, Len(s0) - 1) ELSE s0
        cs == SetOf(s) IN
    /\ "0" \in cs /\ cs \subseteq {"0", "."}
    /\ FindFrom(s, ".", 1) = 0 \/ FindFrom(s, ".", FindFrom(s, ".", 1) + 1) = 0
IsEmptyV(v) == CASE v.t = "S" -> v.s = "" [] v.t = "L" -> v.v = << >>
                 [] v.t = "R" -> v.hi # << >> /\ v.hi[1] <= Lo(v)
                 [] v.t = "P" -> v.raw = ""
                 [] v.t = "B" -> v.st = << >> /\ v.re = [k |-> "val", v |-> Nil]
                 [] OTHER -> TRUE
Truthy(v) == IF v.t = "S" THEN v.s # "" /\ ~ZeroText(v.s) ELSE ~IsEmptyV(v)

(* --------------------------- repr and str ------------------------------ *)
AllIn(s, set) == FirstNotIn(s, 1, set) > Len(s)
\* digits, or digits.digits
PlainNumeral(s) ==
    s # "" /\ LET dot == FindFrom(s, ".", 1) IN
              IF dot = 0 THEN AllIn(s, Digits)
              ELSE /\ dot > 1 /\ dot < Len(s)
                   /\ AllIn(SubSeq(s, 1, dot - 1), Digits) /\ AllIn(From(s, dot + 1), Digits)
\* a numeral that is the standard notation of its own value
StdNumeral(s) ==
    LET x == ToNum(s) IN
    IF IsNone(x) THEN ~Occurs(".", s) /\ At(s, 1) # "0" ELSE s # "0" /\ NumS(NNeg(x)) = "-" \o s
ReprS(s) == IF PlainNumeral(s) THEN s
            ELSE IF StartsAt(s, 1, "-") /\ PlainNumeral(From(s, 2)) /\ StdNumeral(From(s, 2)) THEN s
            ELSE IF Occurs("\"", s) THEN "\\\"" \o ReplaceS(s, "\\", "\\\\") \o "\\\""
            ELSE "\"" \o s \o "\""
ReprP(v) == (IF "A" \in v.fl THEN "A" ELSE "") \o (IF "-" \in v.fl THEN "-" ELSE "")
            \o (IF "," \in v.fl THEN "," ELSE "") \o (IF "." \in v.fl THEN "." ELSE "")
            \o "`" \o ReplaceS(v.raw, "`", "\\`") \o "`"
ReprR(v) == "(" \o (IF v.lo = << >> THEN "()" ELSE IntS(v.lo[1])) \o ","
            \o (IF v.hi = << >> THEN "()" ELSE IntS(v.hi[1])) \o ")"
=============================================================================
