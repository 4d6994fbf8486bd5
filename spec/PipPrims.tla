------------------------------- MODULE PipPrims -------------------------------
(***************************************************************************)
(* The first-order built-in operations of Pip: those that only compute a    *)
(* value from argument values.                                              *)
(*                                                                         *)
(*    P(fn, a, fm) = [v |-> result, w |-> warned, m |-> matches]            *)
(*                                                                         *)
(* fn names the operation (see PipOpTable), a is the sequence of argument   *)
(* values and fm the list format (it decides how a List turns into text).   *)
(* w is 0 (no warning), 1 (a warning is reported) or 2 (unspecified).  m is  *)
(* the sequence of regex matches whose match variables are set, in order.   *)
(* The result X means "outside the model", F "fatal error".                 *)
(***************************************************************************)
EXTENDS PipSyntax, PipRegex, PipReal

(* Where a result is random, a hole stands for it until it is drawn:        *)
(* "item": one of the items of v; "perm": a permutation of the items of v.  *)
Hole(k, v) == [t |-> "?", k |-> k, v |-> v]
MaxAlts == 40
R0(v) == [v |-> v, w |-> 0, m |-> << >>]
RW == [v |-> Nil, w |-> 1, m |-> << >>]
RWv(v) == [v |-> v, w |-> 1, m |-> << >>]
RX == R0(X)
RF == R0(F)
RM1(v, ms) == [v |-> v, w |-> 0, m |-> ms]
WOr(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 0

\* combine the results for the items of a List (evaluated in order)
BadOf(rs) == LET bad == SelectSeq(rs, LAMBDA r : Bad(r.v)) IN bad[1].v
AnyBad(rs) == \E i \in DOMAIN rs : Bad(rs[i].v)
WAll(rs) == FoldLeft(LAMBDA a, r : WOr(a, r.w), 0, rs)
MAll(rs) == FoldLeft(LAMBDA a, r : a \o r.m, << >>, rs)
Comb(rs) == IF AnyBad(rs) THEN R0(BadOf(rs))
            ELSE [v |-> L([i \in DOMAIN rs |-> rs[i].v]), w |-> WAll(rs), m |-> MAll(rs)]
\* r2 after r1, whose value only mattered for computing r2
Then(r1, r2) == [v |-> r2.v, w |-> WOr(r1.w, r2.w), m |-> r1.m \o r2.m]
WithV(r, v) == [r EXCEPT !.v = v]

Num(v) == ToNum(v.s)
IntV(v) == IntNum(v.s)
RN(a) == R0(SN(a))
\* a number with a point is a double: of integral value, it does not compute
\* with long integers, or up to long integers, as an integer does
Dotted(v) == IsS(v) /\ (Occurs(".", v.s) \/ Occurs("e", v.s)) /\ Num(v).d = 0
Exact(a, r) == IF /\ \E i \in DOMAIN a : Dotted(a[i])
                  /\ \A i \in DOMAIN a : IsS(a[i]) => IsZ(Num(a[i]))
                  /\ (IsS(r.v) /\ IsBigZ(Num(r.v))) \/ (\E i \in DOMAIN a : IsS(a[i]) /\ IsBigZ(Num(a[i])))
               THEN RX ELSE r
N2(a, f(_, _)) == IF IsS(a[1]) /\ IsS(a[2])
                  THEN LET x == Num(a[1])
                           y == Num(a[2]) IN
                       IF IsNone(x) \/ IsNone(y) THEN RX ELSE Exact(a, f(x, y))
                  ELSE RW
NN1(a, f(_)) == IF IsS(a[1]) THEN LET x == Num(a[1]) IN IF IsNone(x) THEN RX ELSE Exact(a, f(x)) ELSE RW
RevSeq(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

(* --------------------------- indexing, slices --------------------------- *)
\* v[i] for an int i; F stands for IndexError
GetItem(v, i) ==
    CASE v.t = "S" -> IF v.s = "" THEN F ELSE S(At(v.s, 1 + (i % Len(v.s))))
      [] v.t = "L" -> IF v.v = << >> THEN F ELSE v.v[1 + (i % Len(v.v))]
      [] v.t = "R" -> IF IsInf(v) THEN IF i < 0 THEN Nil ELSE SI(AddI(Lo(v), i))
                      ELSE IF RLen(v) = 0 THEN F ELSE SI(Lo(v) + (i % RLen(v)))
      [] OTHER -> F
MAXSLICE == 2000
\* cyclic extraction of positions st..sp-1 (0-based)
Cycle(v, st, sp) ==
    IF sp - st > MAXSLICE THEN X
    ELSE IF v.t = "S" THEN S(Concat([k \in 1..(sp - st) |-> At(v.s, 1 + ((st + k - 1) % Len(v.s)))]))
    ELSE L([k \in 1..(sp - st) |-> v.v[1 + ((st + k - 1) % Len(v.v))]])
CycSlice(v, lo, hi) ==
    LET n == VLen(v)
        a == IF lo = << >> THEN 0 ELSE lo[1]
        b == IF hi = << >> THEN n ELSE hi[1]
        st == IF a < 0 THEN a + n ELSE a
        sp == IF b < 0 THEN b + n ELSE b IN
    IF n = 0 THEN v
    ELSE IF AbsI(a) > LIM \/ AbsI(b) > LIM THEN X
    ELSE IF st >= sp THEN IF v.t = "S" THEN S("") ELSE L(<< >>)
    ELSE Cycle(v, st, sp)
Clamp(x, n) == IF x < 0 THEN MaxI(x + n, 0) ELSE MinI(x, n)
\* v[lo:hi]; bounds are << >> or << n >>
GetSlice(v, lo, hi) ==
    IF v.t # "R" THEN CycSlice(v, lo, hi)
    ELSE IF ~IsInf(v)
    THEN LET n == RLen(v)
             a == IF lo = << >> THEN 0 ELSE lo[1]
             b == IF hi = << >> THEN n ELSE hi[1] IN
         IF n = 0 THEN v
         ELSE IF a >= -n /\ b <= n
         THEN Rg(<< Lo(v) + Clamp(a, n) >>, << Lo(v) + Clamp(b, n) >>)
         ELSE IF TooBig(v) THEN X ELSE CycSlice(L(Items(v)), << a >>, << b >>)
    ELSE IF (lo # << >> /\ lo[1] < 0) \/ (hi # << >> /\ hi[1] < 0) THEN Nil
    ELSE Rg(IF lo = << >> THEN v.lo ELSE << Lo(v) + lo[1] >>,
            IF hi = << >> THEN << >> ELSE << Lo(v) + hi[1] >>)

(* ------------------------------- ordering ------------------------------- *)
RECURSIVE NKey(_)
\* numeric sort key: [i |-> FALSE, n |-> number] or [i |-> TRUE, q |-> keys]
\* (x: some part is not modelled)
NKey(v) == CASE v.t = "S" -> LET x == Num(v) IN [q |-> << >>, n |-> x, ls |-> FALSE, x |-> IsNone(x)]
             [] v.t = "R" -> IF IsInf(v) THEN [q |-> << >>, n |-> N0, ls |-> TRUE, x |-> FALSE]
                             ELSE IF TooBig(v) THEN [q |-> << >>, n |-> N0, ls |-> TRUE, x |-> TRUE]
                             ELSE [q |-> [i \in 1..RLen(v) |-> [q |-> << >>, n |-> NInt(Lo(v) + i - 1), ls |-> FALSE, x |-> FALSE]],
                                   n |-> N0, ls |-> TRUE, x |-> FALSE]
             [] v.t = "L" -> LET ks == [i \in DOMAIN v.v |-> NKey(v.v[i])] IN
                             [q |-> ks, n |-> N0, ls |-> TRUE, x |-> \E i \in DOMAIN ks : ks[i].x]
             [] OTHER -> [q |-> << >>, n |-> N0, ls |-> FALSE, x |-> FALSE]
RECURSIVE KCmp(_, _), KCmpFrom(_, _, _)
\* -1, 0, 1, or 2 for incomparable
KCmp(a, b) == IF a.ls # b.ls THEN 2
              ELSE IF a.ls THEN KCmpFrom(a.q, b.q, 1) ELSE NCmp(a.n, b.n)
KCmpFrom(p, q, i) == IF i > Len(p) /\ i > Len(q) THEN 0
                     ELSE IF i > Len(p) THEN -1 ELSE IF i > Len(q) THEN 1
                     ELSE LET c == KCmp(p[i], q[i]) IN IF c = 0 THEN KCmpFrom(p, q, i + 1) ELSE c
Odd(v) == v.t \in {"P", "B", "N"} \/ IsInf(v)         \* sorted as 0 or [], with a warning
\* insertion sort of pairs << key, item >>, keeping the order of equal keys
SortPairs(ps, before(_, _)) ==
    FoldLeft(LAMBDA acc, p :
               LET k == CHOOSE k \in 1..(Len(acc) + 1) :
                          /\ (k <= Len(acc) => before(p[1], acc[k][1]))
                          /\ \A j \in 1..(k - 1) : ~before(p[1], acc[j][1]) IN
               SubSeq(acc, 1, k - 1) \o << p >> \o SubSeq(acc, k, Len(acc)),
             << >>, ps)
\* sort items by the given key values (SN, DN, SK, DK)
SortByKeys(items, keys, desc) ==
    LET ks == [i \in DOMAIN keys |-> NKey(keys[i])]
        w == IF \E i \in DOMAIN keys : Odd(keys[i]) THEN 1 ELSE 0
        n == Len(items) IN
    IF \E i \in 1..n : ks[i].x THEN RX
    ELSE IF n >= 2 /\ (\E i \in 1..n : ks[i].ls # ks[1].ls) THEN RW
    ELSE IF \E i, j \in 1..n : i < j /\ KCmp(ks[i], ks[j]) = 2 THEN RX
    ELSE LET ps == [i \in 1..n |-> << ks[i], items[i] >>]
             so == SortPairs(ps, LAMBDA a, b : KCmp(a, b) = (IF desc THEN 1 ELSE -1)) IN
         [v |-> L([i \in 1..n |-> so[i][2]]), w |-> w, m |-> << >>]
SortByStr(items, strs, desc) ==
    LET ps == [i \in DOMAIN items |-> << strs[i], items[i] >>]
        so == SortPairs(ps, LAMBDA a, b : IF desc THEN LtS(b, a) ELSE LtS(a, b)) IN
    [i \in DOMAIN items |-> so[i][2]]
\* first extreme element: sgn 1 for the maximum, -1 for the minimum
Extreme(items, sgn) ==
    LET ks == [i \in DOMAIN items |-> NKey(items[i])]
        best == FoldLeftDomain(LAMBDA b, i : IF b = 0 THEN 0
                                  ELSE LET c == KCmp(ks[i], ks[b]) IN
                                       IF c = 2 THEN 0 ELSE IF c = sgn THEN i ELSE b, 1, ks) IN
    IF items = << >> THEN RW
    ELSE IF \E i \in DOMAIN ks : ks[i].x THEN RX
    ELSE IF best = 0 THEN RW ELSE R0(items[best])

(* ------------------------------ comparison ------------------------------ *)
LenZip(a, b) == MinI(IF IsInf(a) THEN 1000 ELSE VLen(a), IF IsInf(b) THEN 1000 ELSE VLen(b))
ZItem(v, i) == IF v.t = "L" THEN v.v[i] ELSE S(IntS(Lo(v) + i - 1))
LenCmp(a, b) == IF IsInf(a) THEN 1 ELSE IF IsInf(b) THEN -1 ELSE SgnI(VLen(a) - VLen(b))
RECURSIVE NEq(_, _), NLt(_, _), NLtFrom(_, _, _, _), HasNX(_)
HasNX(v) == CASE v.t = "S" -> IsNone(Num(v)) [] v.t = "L" -> (\E i \in DOMAIN v.v : HasNX(v.v[i])) [] OTHER -> TooBig(v) /\ ~IsInf(v)
NEq(a, b) == CASE IsS(a) /\ IsS(b) -> NCmp(Num(a), Num(b)) = 0
               [] IsR(a) /\ IsR(b) -> a = b
               [] IsLR(a) /\ IsLR(b) -> /\ ~IsInf(a) /\ ~IsInf(b) /\ VLen(a) = VLen(b)
                                        /\ \A i \in 1..VLen(a) : NEq(ZItem(a, i), ZItem(b, i))
               [] OTHER -> a = b
\* Ranges: by lower bound, then upper bound, no upper bound being greatest
RgCmp(a, b) == IF Lo(a) # Lo(b) THEN SgnI(Lo(a) - Lo(b))
               ELSE IF a.hi = b.hi THEN 0
               ELSE IF a.hi = << >> THEN 1 ELSE IF b.hi = << >> THEN -1
               ELSE SgnI(a.hi[1] - b.hi[1])
\* decided by the first differing items, else by length (sgn: the length comparison wanted)
NLtFrom(a, b, i, ok) == IF i > LenZip(a, b) THEN LenCmp(a, b) \in ok
                        ELSE IF NLt(ZItem(a, i), ZItem(b, i)) THEN TRUE
                        ELSE IF NLt(ZItem(b, i), ZItem(a, i)) THEN FALSE
                        ELSE NLtFrom(a, b, i + 1, ok)
NLt(a, b) == CASE IsS(a) /\ IsS(b) -> NCmp(Num(a), Num(b)) < 0
               [] IsR(a) /\ IsR(b) -> RgCmp(a, b) < 0
               [] IsLR(a) /\ IsLR(b) -> NLtFrom(a, b, 1, {-1})
               [] OTHER -> FALSE
NLe(a, b) == CASE IsS(a) /\ IsS(b) -> NCmp(Num(a), Num(b)) <= 0
               [] IsR(a) /\ IsR(b) -> RgCmp(a, b) <= 0
               [] IsLR(a) /\ IsLR(b) -> NLtFrom(a, b, 1, {-1, 0})
               [] OTHER -> a = b
NRel(a, f(_, _)) == IF HasNX(a[1]) \/ HasNX(a[2]) THEN RX
                    ELSE IF IsLR(a[1]) /\ IsLR(a[2]) /\ (IsInf(a[1]) # IsInf(a[2])) /\ (IsL(a[1]) \/ IsL(a[2]))
                    THEN [v |-> SB(f(a[1], a[2])), w |-> 2, m |-> << >>]
                    ELSE R0(SB(f(a[1], a[2])))
RECURSIVE SEq(_, _), SLt(_, _), SLtFrom(_, _, _, _)
SEq(a, b) == IF a.t \in {"S", "P"} /\ b.t \in {"S", "P"}
             THEN (IF IsS(a) THEN a.s ELSE a.raw) = (IF IsS(b) THEN b.s ELSE b.raw)
             ELSE IF IsL(a) /\ IsL(b)
             THEN Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : SEq(a.v[i], b.v[i])
             ELSE a = b
SNe(a, b) == LET RECURSIVE Ne(_, _)
                 Ne(x, y) == IF IsS(x) /\ IsS(y) THEN x.s # y.s
                             ELSE IF IsL(x) /\ IsL(y)
                             THEN Len(x.v) # Len(y.v) \/ \E i \in DOMAIN x.v : Ne(x.v[i], y.v[i])
                             ELSE x # y IN Ne(a, b)
SLtFrom(a, b, i, ok) == IF i > MinI(Len(a.v), Len(b.v)) THEN SgnI(Len(a.v) - Len(b.v)) \in ok
                        ELSE IF SLt(a.v[i], b.v[i]) THEN TRUE
                        ELSE IF SLt(b.v[i], a.v[i]) THEN FALSE
                        ELSE SLtFrom(a, b, i + 1, ok)
SLt(a, b) == CASE IsS(a) /\ IsS(b) -> LtS(a.s, b.s)
               [] IsL(a) /\ IsL(b) -> SLtFrom(a, b, 1, {-1})
               [] OTHER -> FALSE
SLe(a, b) == CASE IsS(a) /\ IsS(b) -> ~LtS(b.s, a.s)
               [] IsL(a) /\ IsL(b) -> SLtFrom(a, b, 1, {-1, 0})
               [] OTHER -> a = b
RECURSIVE NoCodeV(_)
NoCodeV(v) == CASE v.t = "S" -> NoCode(v.s) [] v.t = "L" -> (\E i \in DOMAIN v.v : NoCodeV(v.v[i])) [] OTHER -> FALSE

(* ------------------------------- helpers -------------------------------- *)
\* list(v) of a sequence value: infinite Ranges raise an error
Listable(v) == ~IsInf(v) /\ ~TooBig(v)
ToPat(v) == IF IsP(v) THEN v ELSE Pat(v.s, {})
CAT(a, b) == IF IsS(a) /\ IsS(b) THEN R0(S(a.s \o b.s))
             ELSE IF a.t \in {"S", "P"} /\ b.t \in {"S", "P"}
             THEN R0(Pat(ToPat(a).raw \o ToPat(b).raw, ToPat(a).fl \cup ToPat(b).fl))
             ELSE RW
CatR(r, b) == Then(r, CAT(r.v, b))                    \* r: accumulated result
RECURSIVE Join(_, _)
\* JOIN of a sequence of items with sep: << >> or << Scalar or Pattern >>
Join(items, sep) ==
    IF \E i \in DOMAIN items : TooBig(items[i]) THEN RX
    ELSE IF items = << >> THEN R0(S(""))
    ELSE LET one(it) == IF IsLR(it) THEN Join(Items(it), sep) ELSE R0(it) IN
         FoldLeftDomain(LAMBDA acc, i :
                     LET r == one(items[i]) IN
                     IF Bad(acc.v) THEN acc ELSE IF Bad(r.v) THEN r
                     ELSE IF i = 1 THEN r
                     ELSE LET a1 == IF sep = << >> THEN acc ELSE CatR(Then(r, acc), sep[1]) IN
                          CatR(Then(r, a1), r.v),
                   R0(Nil), items)
JoinChars(items) == S(Concat([i \in DOMAIN items |-> items[i].s]))   \* of one-character Scalars
IsSPN(v) == v.t \in {"S", "P", "N"}
AsList(v) == IF IsSPN(v) THEN L(<< v >>) ELSE v

RECURSIVE RegexOf(_)
\* REGEX: Scalar, List or Range to a Pattern
RegexOf(v) == CASE v.t = "P" -> R0(v)
                [] v.t = "S" -> R0(Pat(WrapRx(EscapeRx(v.s)), {}))
                [] v.t = "R" -> IF TooBig(v) THEN RX
                                ELSE LET it == Items(v) IN
                                     R0(Pat(WrapRx(JoinS([i \in DOMAIN it |-> EscapeRx(it[i].s)], "|")), {}))
                [] v.t = "L" -> LET rs == [i \in DOMAIN v.v |-> RegexOf(v.v[i])] IN
                                IF AnyBad(rs) THEN R0(BadOf(rs))
                                ELSE [v |-> Pat(WrapRx(JoinS([i \in DOMAIN rs |-> IF IsP(rs[i].v) THEN rs[i].v.raw ELSE ""], "|")), {}),
                                      w |-> WAll(rs), m |-> << >>]
                [] OTHER -> RW
Flip(p, f) == Pat(p.raw, IF f \in p.fl THEN p.fl \ {f} ELSE p.fl \cup {f})
\* run f on the parsed regex of pattern p and subject s
WithRx(p, s, f(_)) == LET rx == RxParse(p.raw) IN
                      IF NoCode(s) \/ NoCode(p.raw) THEN RX
                      ELSE IF rx.x = "F" THEN RF ELSE IF rx.x # "" THEN RX ELSE f(rx)
RxSub(p, s, repl(_)) == WithRx(p, s, LAMBDA rx :
    LET ms == AllMatches(rx, s, p.fl) IN R0(S(SubWith(s, ms, [k \in DOMAIN ms |-> repl(ms[k])]))))

\* strip a regex repeatedly from one end
RECURSIVE RxStripEnd(_, _, _)
RxStripEnd(rx, s, fl) == LET ms == AllMatches(rx, s, fl)
                         t == SubWith(s, ms, [k \in DOMAIN ms |-> ""]) IN
                     IF t = s THEN s ELSE RxStripEnd(rx, t, fl)
RxStrip(p, s, left, right) ==
    LET a == RxParse("\\A(?:" \o p.raw \o ")")
        b == RxParse("(?:" \o p.raw \o ")\\Z")
        bad == {IF left THEN a.x ELSE "", IF right THEN b.x ELSE ""} IN
    IF p.raw = "" THEN R0(S(s))
    ELSE IF NoCode(s) \/ "X" \in bad THEN RX ELSE IF "F" \in bad THEN RF
    ELSE LET t == IF left THEN RxStripEnd(a, s, p.fl) ELSE s IN
         R0(S(IF right THEN RxStripEnd(b, t, p.fl) ELSE t))
StripWs == Blanks
RECURSIVE Strip(_, _, _, _)
\* LSTRIP, RSTRIP, STRIP; extra is << >> or << value >>
Strip(v, extra, left, right) ==
    IF extra # << >> /\ IsN(extra[1]) THEN R0(v)
    ELSE IF extra # << >> /\ IsB(extra[1]) THEN RW
    ELSE IF IsLR(v)
    THEN IF TooBig(v) THEN RX
         ELSE LET it == Items(v) IN Comb([i \in DOMAIN it |-> Strip(it[i], extra, left, right)])
    ELSE IF ~IsS(v) THEN RW
    ELSE IF extra = << >>
    THEN R0(S(LET t == IF left THEN LStripS(v.s, StripWs) ELSE v.s IN
              IF right THEN RStripS(t, StripWs) ELSE t))
    ELSE LET e == extra[1] IN
         IF IsS(e) THEN R0(S(LET cs == SetOf(e.s)
                                 t == IF left THEN LStripS(v.s, cs) ELSE v.s IN
                             IF right THEN RStripS(t, cs) ELSE t))
         ELSE IF IsP(e) THEN RxStrip(e, v.s, left, right)
         ELSE IF TooBig(e) THEN RX
         ELSE FoldLeft(LAMBDA acc, x : IF Bad(acc.v) THEN acc
                                       ELSE Then(acc, Strip(acc.v, << x >>, left, right)), R0(v), Items(e))

\* rounding to a multiple of a precision
RoundTo(a, f(_, _)) ==
    LET prec == IF Len(a) = 1 THEN N1 ELSE IF IsS(a[2]) THEN NAbs(Num(a[2])) ELSE N0 IN
    IF ~IsS(a[1]) \/ (Len(a) = 2 /\ ~IsS(a[2])) THEN RW
    ELSE IF IsNone(prec) THEN RX
    ELSE IF NZero(prec) THEN R0(a[1])
    ELSE LET x == Num(a[1])
             r == IF IsNone(x) THEN NX ELSE f(x, prec) IN
         IF IsBigZ(r) /\ (\E i \in DOMAIN a : Dotted(a[i])) THEN RX ELSE Exact(a, RN(r))
RoundFloor(x, p) == NMul(QFloor(x, p), p)
RoundCeil(x, p) == NMul(QCeil(x, p), p)
RoundTrunc(x, p) == NMul(QTrunc(x, p), p)
RoundNear(x, p) == IF IsZ(x) /\ IsZ(p) THEN NMul(ZNear(x, p), p)
                   ELSE LET r == FRemainder(x, p) IN
                        IF IsNone(r) THEN NX
                        ELSE IF p = N1 THEN (IF r.n > 0 THEN NFloor(x) ELSE NCeil(x)) ELSE FAdd(x, NNeg(r))

RECURSIVE BAnd(_, _)
BAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF x = -1 THEN y ELSE IF y = -1 THEN x
              ELSE 2 * BAnd(x \div 2, y \div 2) + (x % 2) * (y % 2)
\* the same for numbers of any size, twelve bits at a time
RECURSIVE ZBits(_, _)
ZBits(x, y) == IF ~IsNX(x) /\ ~IsNX(y) THEN NInt(BAnd(x.n, y.n))
               ELSE LET b == NInt(4096) IN
                    NAdd(NMul(b, ZBits(NFloorDiv(x, b), NFloorDiv(y, b))), NInt(BAnd(NMod(x, b).n, NMod(y, b).n)))
\* the two operands as integers
Z2(a, f(_, _)) == IF IsS(a[1]) /\ IsS(a[2])
                  THEN LET x == IntV(a[1])
                           y == IntV(a[2]) IN
                       IF IsNone(x) \/ IsNone(y) THEN RX ELSE RN(f(x, y))
                  ELSE RW
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
NPow(x, y) ==       \* x ** y (neither 0 to a negative power, nor a negative number to a fractional one)
    IF IsNone(y) \/ IsNone(x) THEN NX
    ELSE IF IsZ(y) /\ y.n >= 0
    THEN IF y.d # 0 \/ y.n > 1000
         THEN IF x.d = 0 /\ x.n \in {0, 1, -1}
              THEN IF x.n = -1 /\ BEven(Mag(y)) THEN N1 ELSE x
              ELSE IF IsZ(x) THEN NX ELSE FPow(IF x.n < 0 /\ ~BEven(Mag(y)) THEN -1 ELSE 1, x, y)
         ELSE IF IsZ(x) THEN NPowI(x, y.n)
         ELSE FPow(IF x.n < 0 /\ y.n % 2 = 1 THEN -1 ELSE 1, x, y)
    ELSE IF NZero(x) THEN IF y.n > 0 THEN N0 ELSE NX
    ELSE FPow(IF x.n < 0 /\ ~BEven(Mag(y)) THEN -1 ELSE 1, x, y)
TooLarge(x, y) == ~(IsZ(x) /\ IsZ(y) /\ y.n >= 0) /\ PowLarge(x, y)
DigitCh == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
RECURSIVE BaseS(_, _)
BaseS(n, b) == IF n < b THEN At(DigitCh, n + 1) ELSE BaseS(n \div b, b) \o At(DigitCh, (n % b) + 1)
RECURSIVE BaseDigits(_, _)
BaseDigits(n, b) == IF n = 0 THEN << >> ELSE Append(BaseDigits(n \div b, b), n % b)
\* the same for a magnitude of any size (b below the base of its limbs)
RECURSIVE BigDigits(_, _)
BigDigits(x, b) == IF x = << >> THEN << >> ELSE LET r == BDivMod(x, << b >>) IN Append(BigDigits(r.q, b), BInt(r.r))
DigitsOf(x, b) == IF IsBigZ(x) THEN BigDigits(x.b, b) ELSE BaseDigits(AbsI(x.n), b)
DigitVal(c) == LET p == FindFrom(DigitCh, UpC(c), 1) IN IF c = "" THEN 99 ELSE IF p = 0 THEN 99 ELSE p - 1
\* text in the given base to int: [ok, n]
FromBase(s0, b) ==
    LET s1 == StripS(ReplaceS(s0, "_", " "), StripWs)
        neg == StartsAt(s1, 1, "-")
        s2 == IF neg \/ StartsAt(s1, 1, "+") THEN From(s1, 2) ELSE s1
        pre == CASE b = 16 -> {"0x", "0X"} [] b = 8 -> {"0o", "0O"} [] b = 2 -> {"0b", "0B"} [] OTHER -> {}
        s3 == IF \E p \in pre : StartsAt(s2, 1, p) THEN From(s2, 3) ELSE s2
        ok == s3 # "" /\ \A i \in 1..Len(s3) : DigitVal(At(s3, i)) < b
        n == FoldLeft(LAMBDA acc, c : NAdd(NMul(acc, NInt(b)), NInt(DigitVal(c))), N0, Chars(s3)) IN
    [ok |-> ok, n |-> IF ~ok THEN N0 ELSE IF neg THEN NNeg(n) ELSE n]

RECURSIVE Perms(_), Combos(_, _), Product(_)
Perms(s) == IF s = << >> THEN << << >> >>
            ELSE FoldLeftDomain(LAMBDA acc, i :
                   LET rest == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
                       ps == Perms(rest) IN
                   acc \o [k \in DOMAIN ps |-> << s[i] >> \o ps[k]], << >>, s)
Combos(s, n) == IF n = 0 THEN << << >> >> ELSE IF Len(s) < n THEN << >>
                ELSE LET w == Combos(Tail(s), n - 1) IN
                     [k \in DOMAIN w |-> << s[1] >> \o w[k]] \o Combos(Tail(s), n)
Product(ss) == IF ss = << >> THEN << << >> >>
               ELSE LET r == Product(Tail(ss)) IN
                    FoldLeft(LAMBDA acc, x : acc \o [k \in DOMAIN r |-> << x >> \o r[k]], << >>, ss[1])
Seqs(ss) == R0(L([k \in DOMAIN ss |-> L(ss[k])]))
Fixed(sc, ss) == IF sc THEN R0(L([k \in DOMAIN ss |-> JoinChars(ss[k])])) ELSE Seqs(ss)
Grid(a, cell(_, _)) ==
    LET b == IF Len(a) = 1 THEN << a[1], a[1] >> ELSE a IN
    IF ~IsS(b[1]) \/ ~IsS(b[2]) THEN RW
    ELSE LET r == IntV(b[1])
             c == IntV(b[2]) IN
         IF IsNX(r) \/ IsNX(c) THEN RX
         ELSE IF r.n > 60 \/ c.n > 60 \/ (r.n > 0 /\ r.n * MaxI(c.n, 0) > 625) THEN RX
         ELSE R0(L([i \in 1..MaxI(r.n, 0) |-> L([j \in 1..MaxI(c.n, 0) |-> cell(i, j)])]))
Capital(s) == IF s = "" THEN "" ELSE TitleC(At(s, 1)) \o LoS(From(s, 2))
TitleS(s) == Concat([i \in 1..Len(s) |->
               IF i > 1 /\ IsLetter(At(s, i - 1)) THEN LoC(At(s, i)) ELSE TitleC(At(s, i))])
Letters1(v, f(_)) == CASE v.t = "S" -> IF NoCode(v.s) THEN RX ELSE R0(S(f(v.s)))
                       [] v.t \in {"R", "N"} -> R0(v)
                       [] OTHER -> RW
\* chunk boundaries 0 = b0 < b1 < ... as slices of v
Chunks(v, bs) == R0(L([k \in 1..(Len(bs) - 1) |-> GetSlice(v, << bs[k] >>, << bs[k + 1] >>)]))
\* Python's slice assignment s[lo:hi] = new on sequences
Splice(s, lo, hi, new) ==
    LET n == Len(s)
        a == IF lo = << >> THEN 0 ELSE Clamp(lo[1], n)
        b == IF hi = << >> THEN n ELSE Clamp(hi[1], n)
        e == MaxI(a, b) IN
    SubSeq(s, 1, a) \o new \o SubSeq(s, e + 1, n)
Iterable(v) == v.t \in {"S", "L", "R", "P", "N"}       \* Python-iterable
\* result[index] = new for index << i >> or slice << lo, hi >>; F: a Python exception
\* (Z when the index cannot be taken modulo an empty length)
SetItem(v, ix, new, fm) ==
    IF Len(ix) = 1
    THEN IF VLen(v) = 0 THEN RW
         ELSE LET p == 1 + (ix[1] % VLen(v)) IN
              IF IsS(v) THEN R0(S(SubSeq(v.s, 1, p - 1) \o Str(new, fm) \o From(v.s, p + 1)))
              ELSE R0(L([v.v EXCEPT ![p] = new]))
    ELSE IF IsS(v)
    THEN LET n == Len(v.s)
             a == IF ix[1] = << >> THEN 0 ELSE Clamp(ix[1][1], n)
             b == IF ix[2] = << >> THEN n ELSE Clamp(ix[2][1], n) IN
         R0(S(SubSeq(v.s, 1, a) \o Str(new, fm) \o From(v.s, MaxI(a, b) + 1)))
    ELSE IF ~Iterable(new) THEN RF
    ELSE IF TooBig(new) THEN RX
    ELSE R0(L(Splice(v.v, ix[1], ix[2], Items(new))))
ZipShort(ls) ==      \* ls: sequence of sequences
    LET n == IF ls = << >> THEN 0
             ELSE FoldLeft(LAMBDA a, q : MinI(a, Len(q)), Len(ls[1]), ls) IN
    [k \in 1..n |-> [j \in DOMAIN ls |-> ls[j][k]]]
ZipLong(ls, fill) ==
    LET n == FoldLeft(LAMBDA a, q : MaxI(a, Len(q)), 0, ls) IN
    [k \in 1..n |-> [j \in DOMAIN ls |-> IF k <= Len(ls[j]) THEN ls[j][k] ELSE fill]]
ItemSeqs(vs) == [i \in DOMAIN vs |-> Items(vs[i])]
\* the argument(s) of a zip-like operation as a sequence of values
ZArgs(a) == IF Len(a) = 2 THEN a ELSE Items(a[1])

IxOf(v) == \* what an index value means: << i >>, << lo, hi >>, or << >> if neither
    IF IsS(v) THEN LET n == IntV(v) IN IF IsNX(n) THEN << >> ELSE << n.n >>
    ELSE IF IsR(v) THEN << v.lo, v.hi >> ELSE << >>
\* the index as int, for bases that accept one
At1(v, ix) == IF Len(ix) = 1 THEN GetItem(v, ix[1]) ELSE GetSlice(v, ix[1], ix[2])

\* Range.index and friends: position of item, from position k on; -1 if absent
IndexIn(v, it, k) ==
    CASE v.t = "S" -> IF ~IsS(it) THEN -2 ELSE IF k > Len(v.s) THEN -1 ELSE FindFrom(v.s, it.s, k + 1) - 1
      [] v.t = "L" -> LET hit == {j \in (k + 1)..Len(v.v) : v.v[j] = it} IN
                      IF hit = {} THEN -1 ELSE (CHOOSE j \in hit : \A h \in hit : j <= h) - 1
      [] OTHER -> IF ~IsS(it) THEN -2 ELSE -1
RangeHas(v, x) == NCmp(NInt(Lo(v)), x) <= 0 /\ (IsInf(v) \/ NCmp(x, NInt(v.hi[1])) < 0)

(* --------------------------- the operations ----------------------------- *)
RECURSIVE P(_, _, _)
\* map P(fn, <<item>> \o rest) over the items of an iterable
Each(fn, it, mk(_), fm) == IF TooBig(it) THEN RX
                           ELSE LET xs == Items(it) IN Comb([i \in DOMAIN xs |-> P(fn, mk(xs[i]), fm)])

AtVal(a, fm) ==
    LET v == a[1]
        r == IF Len(a) = 2 THEN a[2] ELSE S("0")
        ix == IxOf(r) IN
    IF r.t \in {"B", "N"} THEN RW
    ELSE IF IsP(r)
    THEN IF IsS(v) THEN WithRx(r, v.s, LAMBDA rx :
              LET ms == AllMatches(rx, v.s, r.fl) IN
              RM1(L([k \in DOMAIN ms |-> S(MText(ms[k]))]), ms))
         ELSE IF IsLR(v) THEN Each("AT", v, LAMBDA x : << x, r >>, fm)
         ELSE RW
    ELSE IF ~IsIter(v) THEN RW
    ELSE IF IsL(r) THEN Each("AT", r, LAMBDA x : << v, x >>, fm)
    ELSE IF ix = << >> THEN RX
    ELSE IF ~IsInf(v) /\ VLen(v) = 0 THEN RW
    ELSE R0(At1(v, ix))

SliceOp(fn, a, dflt, lo(_), hi(_), fm) ==
    LET r == IF Len(a) = 2 THEN a[2] ELSE S(dflt) IN
    IF IsLR(r) THEN Each(fn, r, LAMBDA x : << a[1], x >>, fm)
    ELSE IF ~IsIter(a[1]) \/ ~IsS(r) THEN RW
    ELSE LET n == IntV(r) IN IF IsNX(n) THEN RX ELSE R0(GetSlice(a[1], lo(n.n), hi(n.n)))

ChopGroup(fn, a, fm) ==
    LET r == IF Len(a) = 2 THEN a[2] ELSE S("2") IN
    IF IsLR(r) THEN Each(fn, r, LAMBDA x : << a[1], x >>, fm)
    ELSE IF ~IsIter(a[1]) \/ ~IsS(r) THEN RW
    ELSE LET c == Num(r) IN
    IF IsNX(c) THEN RX ELSE IF NZero(c) THEN RW
    ELSE IF IsInf(a[1]) THEN RF
    ELSE LET n == VLen(a[1])
             \* k-th boundary, from the near end, is (k * num) / den, rounded down
             num == IF fn = "CHOP" THEN MulI(n, 2^c.d) ELSE AbsI(c.n)
             den == IF fn = "CHOP" THEN AbsI(c.n) ELSE 2^c.d
             cnt == IF n = 0 THEN 0 ELSE (n * den + num - 1) \div num
             off(k) == MinI((k * num) \div den, n) IN
         IF n > 500 \/ num > 1000000 \/ den > 1000000 THEN RX
         ELSE IF cnt > 500 THEN RX
         ELSE IF c.n > 0
         THEN R0(L([k \in 1..cnt |-> GetSlice(a[1], << off(k - 1) >>, << off(k) >>)]))
         ELSE R0(L([k \in 1..cnt |-> GetSlice(a[1], << n - off(k) >>, << n - off(k - 1) >>)]))

FromDigits(a) ==
    LET b == IF Len(a) = 1 THEN NInt(2) ELSE IF IsS(a[2]) THEN Num(a[2]) ELSE N0 IN
    IF Len(a) = 2 /\ ~IsS(a[2]) THEN RW
    ELSE IF ~IsIter(a[1]) THEN RW
    ELSE IF IsInf(a[1]) THEN RF ELSE IF TooBig(a[1]) THEN RX
    ELSE LET ds == Items(a[1]) IN
         IF \E i \in DOMAIN ds : ~IsS(ds[i]) THEN RW
         ELSE IF IsNX(b) \/ Len(ds) > 40 THEN RX
         ELSE Exact(ds \o Tail(a), RN(FoldLeftDomain(LAMBDA acc, i : NAdd(acc, NMul(Num(ds[Len(ds) + 1 - i]), NPowI(b, i - 1))), N0, ds)))

ReplaceV(a, fm) ==   \* REPLACE without functions
    LET fix(v) == IF IsR(v) THEN L(Items(v)) ELSE v
        lhs == fix(a[1])
        old0 == fix(a[2])
        new == fix(a[3])
        old == IF IsS(old0) /\ IsP(new) THEN RegexOf(old0).v ELSE old0 IN
    IF \E i \in 1..3 : TooBig(a[i]) THEN RX
    ELSE IF ~IsIter(lhs) \/ ~(IsIter(old) \/ IsP(old)) THEN RW
    ELSE IF IsB(new) THEN RX
    ELSE IF IsL(lhs) THEN Each("REPLACE", lhs, LAMBDA x : << x, old, new >>, fm)
    ELSE IF IsL(old)
    THEN LET n == IF IsL(new) THEN Len(new.v) ELSE 0 IN
         FoldLeftDomain(LAMBDA acc, i : IF Bad(acc.v) THEN acc
                     ELSE Then(acc, P("REPLACE", << acc.v, old.v[i],
                            IF ~IsL(new) THEN new ELSE IF i <= n THEN new.v[i] ELSE Nil >>, fm)),
                   R0(lhs), old.v)
    ELSE IF IsP(old)
    THEN IF IsP(new)
         THEN LET rp == ReplPieces(new.raw, 1, "", << >>) IN
              WithRx(old, lhs.s, LAMBDA rx :
                IF rp.x = "X" THEN RX
                ELSE IF rp.x = "F" THEN (IF AllMatches(rx, lhs.s, old.fl) = << >> THEN RX ELSE RF)
                ELSE IF \E k \in DOMAIN rp.p : "g" \in DOMAIN rp.p[k] /\ rp.p[k].g > rx.n
                THEN (IF AllMatches(rx, lhs.s, old.fl) = << >> THEN RX ELSE RF)
                ELSE LET ms == AllMatches(rx, lhs.s, old.fl) IN
                     R0(S(SubWith(lhs.s, ms, [k \in DOMAIN ms |-> ReplText(ms[k], rp.p)]))))
         ELSE RxSub(old, lhs.s, LAMBDA m : IF IsN(new) THEN "" ELSE Str(new, fm))
    ELSE R0(S(ReplaceS(lhs.s, old.s, IF IsN(new) THEN "" ELSE Str(new, fm))))

ReplaceAtV(a, fm) ==
    LET lhs == a[1]
        ix == a[2]
        new == a[3] IN
    IF ~IsIter(lhs) \/ ~IsIter(ix) THEN IF IsN(ix) THEN R0(lhs) ELSE RW
    ELSE IF IsInf(lhs) THEN RW ELSE IF TooBig(lhs) THEN RX
    ELSE LET base == IF IsR(lhs) THEN L(Items(lhs)) ELSE lhs IN
    IF IsL(ix)
    THEN FoldLeftDomain(LAMBDA acc, i : IF Bad(acc.v) THEN acc
                   ELSE LET nv == IF IsL(new) THEN GetItem(new, i - 1) ELSE new IN
                        IF Bad(nv) THEN R0(nv)
                        ELSE Then(acc, P("REPLACEAT", << acc.v, ix.v[i], nv >>, fm)),
                 R0(base), ix.v)
    ELSE LET k == IxOf(ix) IN
         IF k = << >> THEN RX ELSE SetItem(base, k, new, fm)

RemoveV(a, fm) ==
    LET l == a[1]
        r == a[2] IN
    IF IsS(l)
    THEN CASE IsS(r) -> R0(S(ReplaceS(l.s, r.s, "")))
           [] IsP(r) -> RxSub(r, l.s, LAMBDA m : "")
           [] IsIter(r) -> IF TooBig(r) THEN RX
                ELSE LET q == FoldLeft(LAMBDA acc, x : IF Bad(acc.v) THEN acc
                                          ELSE Then(acc, P("REMOVE", << acc.v, x >>, fm)), R0(l), Items(r)) IN
                     IF Bad(q.v) THEN q ELSE WithV(q, S(Str(q.v, fm)))
           [] IsN(r) -> R0(l)
           [] OTHER -> RW
    ELSE IF ~IsIter(l) THEN RW
    ELSE IF IsInf(l) THEN RF ELSE IF TooBig(l) THEN RX
    ELSE R0(L(SelectSeq(Items(l), LAMBDA x : x # r)))

Find(a, all, fm) ==
    LET v == a[1]
        it == a[2]
        fn == IF all THEN "FINDALL" ELSE "FIND" IN
    IF IsLR(it) /\ v.t \in {"S", "R"}
    THEN IF IsInf(it) THEN RW ELSE Each(fn, it, LAMBDA x : << v, x >>, fm)
    ELSE IF IsP(it) /\ IsS(v)
    THEN WithRx(it, v.s, LAMBDA rx :
           LET ms == IF all THEN AllMatches(rx, v.s, it.fl) ELSE FirstMatch(rx, v.s, it.fl) IN
           IF all THEN RM1(L([k \in DOMAIN ms |-> SI(ms[k].b - 1)]), ms)
           ELSE IF ms = << >> THEN R0(Nil) ELSE RM1(SI(ms[1].b - 1), ms))
    ELSE IF IsL(v) \/ (IsS(it) /\ IsIter(v))
    THEN IF IsR(v)
         THEN LET x == Num(it)
                  n == IntV(it) IN
              IF IsNX(x) \/ IsNX(n) THEN RX
              ELSE LET hit == RangeHas(v, x) /\ n = x
                       pos == SI(n.n - Lo(v)) IN
                   IF all THEN R0(L(IF hit THEN << pos >> ELSE << >>))
                   ELSE R0(IF hit THEN pos ELSE Nil)
         ELSE LET RECURSIVE From1(_)
                  From1(k) == LET j == IndexIn(v, it, k) IN
                              IF j < 0 THEN << >> ELSE << SI(j) >> \o From1(j + 1) IN
              IF all THEN R0(L(From1(0)))
              ELSE LET j == IndexIn(v, it, 0) IN R0(IF j < 0 THEN Nil ELSE SI(j))
    ELSE RW

InOp(a, fm) ==
    LET n == a[1]
        h == a[2] IN
    IF IsLR(n) /\ IsS(h) THEN Each("IN", n, LAMBDA x : << x, h >>, fm)
    ELSE IF IsP(n) /\ IsS(h)
    THEN WithRx(n, h.s, LAMBDA rx : LET ms == AllMatches(rx, h.s, n.fl) IN RM1(SI(Len(ms)), ms))
    ELSE IF IsN(n) /\ h.t \in {"S", "R"} THEN R0(Nil)
    ELSE CASE IsS(h) -> IF IsS(n) THEN R0(SI(CountS(h.s, n.s))) ELSE R0(S(""))
           [] IsL(h) -> R0(SI(Len(SelectSeq(h.v, LAMBDA x : x = n))))
           [] IsR(h) -> IF ~IsS(n) THEN R0(S("0"))
                        ELSE IF IsNX(Num(n)) THEN RX ELSE R0(SB(RangeHas(h, Num(n))))
           [] OTHER -> R0(S("0"))
NotIn(a, fm) ==
    LET n == a[1]
        h == a[2] IN
    IF IsLR(n) /\ IsS(h) THEN Each("NOTIN", n, LAMBDA x : << x, h >>, fm)
    ELSE IF IsP(n) /\ IsS(h)
    THEN WithRx(n, h.s, LAMBDA rx : R0(SB(FirstMatch(rx, h.s, n.fl) = << >>)))
    ELSE CASE IsS(h) -> R0(SB(~(IsS(n) /\ Occurs(n.s, h.s))))
           [] IsL(h) -> R0(SB(\A i \in DOMAIN h.v : h.v[i] # n))
           [] IsR(h) -> IF ~IsS(n) THEN R0(S("1"))
                        ELSE IF IsNX(Num(n)) THEN RX ELSE R0(SB(~RangeHas(h, Num(n))))
           [] IsP(h) -> R0(SB(~(IsS(n) /\ Len(n.s) = 1 /\ Occurs(n.s, h.raw))))
           [] IsN(h) -> R0(S("1"))
           [] OTHER -> RF

\* which of the two is the regex, for operators that take a string and a regex in either order
StrRegex(a) == IF IsP(a[1]) /\ IsS(a[2]) THEN << a[2], a[1] >>
               ELSE IF IsS(a[2]) THEN << a[1], RegexOf(a[2]).v >> ELSE a
FullMatchV(a, fm) ==
    LET q == StrRegex(a)
        s == q[1]
        r == q[2] IN
    IF IsLR(s) /\ IsP(r)
    THEN IF TooBig(s) THEN RX
         ELSE LET res == FoldLeft(LAMBDA acc, x : IF Bad(acc.v) \/ acc.v = S("0") THEN acc
                             ELSE Then(acc, P("FULLMATCH", << r, x >>, fm)), R0(S("1")), Items(s)) IN res
    ELSE IF IsS(s) /\ IsP(r)
    THEN WithRx(r, s.s, LAMBDA rx : LET ms == WholeMatch(rx, s.s, r.fl) IN RM1(SB(ms # << >>), ms))
    ELSE RWv(S("0"))
FirstMatchV(a, fm) ==
    LET q == StrRegex(a) IN
    IF IsS(q[1]) /\ IsP(q[2])
    THEN WithRx(q[2], q[1].s, LAMBDA rx : LET ms == FirstMatch(rx, q[1].s, q[2].fl) IN
                IF ms = << >> THEN R0(Nil) ELSE RM1(S(MText(ms[1])), ms))
    ELSE RW

SplitV(a) ==
    LET v == a[1]
        sep == IF Len(a) = 2 THEN a[2] ELSE S("") IN
    IF ~(sep.t \in {"S", "P"}) THEN RW
    ELSE IF ~IsS(v) THEN RW
    ELSE IF IsS(sep)
    THEN IF sep.s = "" THEN R0(L(Items(v)))
         ELSE LET ps == SplitS(v.s, sep.s) IN R0(L([k \in DOMAIN ps |-> S(ps[k])]))
    ELSE IF sep.raw = "" THEN R0(L(Items(v)))
    ELSE WithRx(sep, v.s, LAMBDA rx :
           LET ms == AllMatches(rx, v.s, sep.fl)
               n == Len(ms)
               piece(k) == S(SubSeq(v.s, IF k = 1 THEN 1 ELSE ms[k - 1].e, (IF k > n THEN Len(v.s) + 1 ELSE ms[k].b) - 1))
               gs(k) == [g \in 1..rx.n |-> S(MGroup(ms[k], g))] IN
           IF \E k \in DOMAIN ms : \E g \in 1..rx.n : ms[k].c[g] = << >> THEN RX
           ELSE R0(L(FoldLeftDomain(LAMBDA acc, k : acc \o << piece(k) >> \o gs(k), << >>, ms) \o << piece(n + 1) >>)))
SplitAt(a) ==
    LET v == a[1]
        r == a[2]
        xs == IF IsS(r) THEN << r >> ELSE IF IsLR(r) THEN Items(r) ELSE << >> IN
    IF IsR(r) /\ TooBig(r) THEN RX
    ELSE IF IsL(r) /\ (\E i \in DOMAIN xs : ~IsS(xs[i])) THEN RW
    ELSE IF ~IsIter(v) \/ ~IsIter(r) THEN RW
    ELSE IF IsInf(v) THEN RF
    ELSE IF \E i \in DOMAIN xs : IsNX(IntV(xs[i])) THEN RX
    ELSE LET n == VLen(v)
             at == {IntV(xs[i]).n : i \in DOMAIN xs}
             cut == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i \in at \/ i - n \in at)
             st == << 0 >> \o cut IN
         IF n > 500 THEN RX
         ELSE R0(L([k \in DOMAIN st |-> IF k < Len(st) THEN GetSlice(v, << st[k] >>, << st[k + 1] >>)
                                        ELSE GetSlice(v, << st[k] >>, << >>)]))

Translit(a, fm) ==
    LET v == a[1]
        o == a[2]
        n == a[3] IN
    IF IsLR(v) THEN Each("TRANSLITERATE", v, LAMBDA x : << x, o, n >>, fm)
    ELSE IF ~IsS(v) \/ ~IsIter(o) \/ ~IsIter(n) THEN RW
    ELSE IF IsInf(o) /\ IsInf(n) THEN RW
    ELSE LET k == LenZip(o, n)
             one(q, i) == IF IsS(q) THEN At(q.s, i) ELSE ""
             item(q, i) == IF IsS(q) THEN S(At(q.s, i)) ELSE ZItem(q, i)
             okO == [i \in 1..k |-> IsS(item(o, i))]
             okN == [i \in 1..k |-> item(n, i).t \in {"S", "N"}]
             warn == IF \E i \in 1..k : ~okO[i] \/ ~okN[i] THEN 1 ELSE 0
             from(i) == IF IsS(o) THEN Ord(At(o.s, i))
                        ELSE LET x == Num(item(o, i)) IN IF IsNX(x) THEN -9 ELSE IF x.d # 0 THEN -3 ELSE x.n
             to(i) == IF IsS(n) THEN At(n.s, i)
                      ELSE IF IsN(item(n, i)) THEN ""
                      ELSE LET x == Num(item(n, i)) IN
                           IF IsNX(x) THEN "?X" ELSE IF Occurs(".", item(n, i).s) \/ ~(x.n \in DOMAIN CharOf) THEN "?X"
                           ELSE CharOf[x.n]
             last(c) == LET h == {i \in 1..k : okO[i] /\ okN[i] /\ from(i) = Ord(c)} IN
                        IF h = {} THEN 0 ELSE CHOOSE i \in h : \A j \in h : j <= i
             cs == Chars(v.s)
             rep == [p \in DOMAIN cs |-> LET i == last(cs[p]) IN IF i = 0 THEN cs[p] ELSE to(i)] IN
         IF k > 200 \/ NoCodeV(v) \/ NoCodeV(o) THEN RX
         ELSE IF \E i \in 1..k : okO[i] /\ from(i) = -9 THEN RX
         ELSE IF \E p \in DOMAIN rep : rep[p] = "?X" THEN RX
         ELSE [v |-> S(Concat(rep)), w |-> IF IsInf(o) \/ IsInf(n) THEN WOr(warn, 2) ELSE warn, m |-> << >>]

Trim(a, fm) ==
    LET v == a[1]
        e == IF Len(a) = 1 THEN S("1") ELSE a[2] IN
    IF IsR(v) THEN Each("TRIM", v, LAMBDA x : << x >> \o Tail(a), fm)
    ELSE IF IsN(e) THEN R0(v)
    ELSE IF ~(e.t \in {"S", "R"}) THEN RW
    ELSE IF ~IsS(v) THEN RW
    ELSE LET n == IF IsS(e) THEN IntV(e) ELSE N0
             fr == MaxI(IF IsS(e) THEN n.n ELSE Lo(e), 0)
             bk == MaxI(IF IsS(e) THEN n.n ELSE IF e.hi = << >> THEN 0 ELSE e.hi[1], 0)
             k == MaxI(Len(v.s) - bk, 0) IN
         IF IsNX(n) THEN RX ELSE R0(S(SubSeq(v.s, fr + 1, k)))

Weave(a) ==
    LET unary == Len(a) = 1
        ls0 == IF unary THEN (IF IsLR(a[1]) /\ ~TooBig(a[1]) THEN Items(a[1]) ELSE << >>) ELSE a
        ls == [i \in DOMAIN ls0 |-> IF IsN(ls0[i]) THEN S("") ELSE ls0[i]]
        n == FoldLeft(LAMBDA m, v : MaxI(m, VLen(v)), 0, ls)
        items == FoldLeft(LAMBDA acc, k : acc \o FoldLeft(LAMBDA b, v : IF k <= VLen(v) THEN Append(b, GetItem(v, k - 1)) ELSE b, << >>, ls),
                          << >>, [k \in 1..n |-> k]) IN
    IF unary /\ IsS(a[1]) THEN R0(a[1])
    ELSE IF unary /\ ~IsLR(a[1]) THEN RW
    ELSE IF unary /\ TooBig(a[1]) THEN RX
    ELSE IF \E i \in DOMAIN ls : ~IsIter(ls[i]) THEN RW
    ELSE IF \E i \in DOMAIN ls : IsInf(ls[i]) THEN RF
    ELSE IF \E i \in DOMAIN ls : TooBig(ls[i]) THEN RX
    ELSE IF \A i \in DOMAIN ls : IsS(ls[i]) THEN R0(JoinChars(items))
    ELSE R0(L(items))

ZipV(a, kind, fm) ==    \* kind: ZIP, CARTESIANPRODUCT
    LET vs == ZArgs(a) IN
    IF Len(a) = 1 /\ ~IsIter(a[1])
    THEN IF kind = "CARTESIANPRODUCT" /\ IsN(a[1]) THEN RW ELSE RW
    ELSE IF Len(a) = 1 /\ TooBig(a[1]) THEN RX
    ELSE IF \E i \in DOMAIN vs : ~IsIter(vs[i]) THEN RW
    ELSE IF kind = "CARTESIANPRODUCT"
    THEN IF \E i \in DOMAIN vs : IsInf(vs[i]) THEN RF
         ELSE IF FoldLeft(LAMBDA p, v : MulI(p, VLen(v)), 1, vs) > 400 THEN RX
         ELSE Seqs(Product(ItemSeqs(vs)))
    ELSE LET fin == SelectSeq(vs, LAMBDA v : ~IsInf(v))
             k == FoldLeft(LAMBDA m, v : MinI(m, VLen(v)), 1000, fin)
             seqs == [i \in DOMAIN vs |-> IF IsInf(vs[i]) THEN [j \in 1..k |-> S(IntS(Lo(vs[i]) + j - 1))] ELSE Items(vs[i])] IN
         IF vs # << >> /\ fin = << >> THEN RX
         ELSE IF \E i \in DOMAIN fin : TooBig(fin[i]) THEN RX
         ELSE [v |-> Seqs(ZipShort(seqs)).v, w |-> IF Len(fin) < Len(vs) THEN 2 ELSE 0, m |-> << >>]
ZipDefault(a) ==
    LET d == IF Len(a) = 2 THEN a[2] ELSE S("") IN
    IF ~IsIter(a[1]) THEN RW
    ELSE IF TooBig(a[1]) THEN RX
    ELSE LET vs == Items(a[1]) IN
         IF \E i \in DOMAIN vs : ~IsIter(vs[i]) THEN RW
         ELSE IF \E i \in DOMAIN vs : TooBig(vs[i]) THEN RX
         ELSE Seqs(ZipLong(ItemSeqs(vs), d))
ZipJoin(a, fm) ==
    LET v == a[1]
        ls0 == IF Len(a) = 2 THEN a
               ELSE IF IsS(v) THEN LET q == Lines(v.s) IN [i \in DOMAIN q |-> S(q[i])]
               ELSE Items(v)
        ls == [i \in DOMAIN ls0 |-> IF IsIter(ls0[i]) THEN ls0[i] ELSE S(Str(ls0[i], fm))]
        rs == LET z == ZipLong(ItemSeqs(ls), S(" ")) IN [k \in DOMAIN z |-> Join(z[k], << >>)]
        c == Comb(rs) IN
    IF Len(a) = 1 /\ ~IsIter(v) THEN RW
    ELSE IF (Len(a) = 1 /\ TooBig(v)) \/ \E i \in DOMAIN ls : TooBig(ls[i]) THEN RX
    ELSE IF Bad(c.v) \/ Len(a) = 2 \/ ~IsS(v) THEN c
    ELSE Then(c, Join(c.v.v, << S("\n") >>))

Flat1(v) == FoldLeft(LAMBDA acc, x : IF IsLR(x) THEN acc \o Items(x) ELSE Append(acc, x), << >>, Items(v))
RECURSIVE FlatAll(_), AnyTooBig(_)
FlatAll(v) == FoldLeft(LAMBDA acc, x : IF IsLR(x) THEN acc \o FlatAll(x) ELSE Append(acc, x), << >>, Items(v))
AnyTooBig(v) == TooBig(v) \/ (IsL(v) /\ \E i \in DOMAIN v.v : AnyTooBig(v.v[i]))

Mirror(a, fn) ==      \* PALINDROMIZE, REFLECT, REVERSE
    LET v == a[1]
        f(s) == IF fn = "REVERSE" THEN RevSeq(s)
                ELSE s \o RevSeq(IF fn = "REFLECT" \/ s = << >> THEN s ELSE SubSeq(s, 1, Len(s) - 1)) IN
    CASE IsS(v) -> R0(JoinChars(f(Items(v))))
      [] IsLR(v) -> IF IsInf(v) THEN RW ELSE IF TooBig(v) THEN RX ELSE R0(L(f(Items(v))))
      [] OTHER -> RW
Quad(a, fn, fm) == LET r == P(fn, a, fm) IN
                   IF IsN(r.v) \/ Bad(r.v) THEN r
                   ELSE Then(r, Each(fn, r.v, LAMBDA x : << x >>, fm))

PiNum == ToNum("3.141592653589793")
InverseOf(x) == IF IsNone(x) THEN NX ELSE FDiv(N1, x)
LogOp(a, f(_)) == NN1(a, LAMBDA x : IF x.n > 0 THEN RN(f(x)) ELSE RW)

\* --- arithmetic ---
P1(fn, a, fm) ==
    CASE fn = "ADD" ->
           LET b == IF IsR(a[1]) /\ IsS(a[2]) THEN << a[2], a[1] >> ELSE a IN
           IF IsS(b[1]) /\ IsR(b[2])
           THEN LET x == Num(b[1])
                    n == IntV(b[1]) IN
                IF IsNX(x) \/ IsNX(n) THEN RX
                ELSE IF x = n THEN R0(Rg(<< Lo(b[2]) + n.n >>, IF b[2].hi = << >> THEN << >> ELSE << b[2].hi[1] + n.n >>))
                ELSE Each("ADD", b[2], LAMBDA q : << b[1], q >>, fm)
           ELSE IF IsP(b[1]) /\ IsP(b[2])
           THEN R0(Pat(WrapRx(b[1].raw) \o WrapRx(b[2].raw), b[1].fl \cup b[2].fl))
           ELSE N2(b, LAMBDA x, y : RN(NAdd(x, y)))
      [] fn = "SUB" ->
           IF IsR(a[1]) /\ IsS(a[2])
           THEN LET n == IntV(a[2]) IN IF IsNX(n) THEN RX ELSE
                R0(Rg(<< Lo(a[1]) - n.n >>, IF a[1].hi = << >> THEN << >> ELSE << a[1].hi[1] - n.n >>))
           ELSE IF IsS(a[1]) /\ IsR(a[2]) THEN Each("SUB", a[2], LAMBDA q : << a[1], q >>, fm)
           ELSE N2(a, LAMBDA x, y : RN(NSub(x, y)))
      [] fn = "MUL" -> LET b == IF IsS(a[1]) /\ IsP(a[2]) THEN << a[2], a[1] >> ELSE a IN
           IF IsP(b[1]) /\ IsS(b[2])
           THEN LET n == IntV(b[2]) IN IF IsNX(n) THEN RX ELSE
                R0(Pat(WrapRx(b[1].raw) \o "{" \o IntS(n.n) \o "}", b[1].fl))
           ELSE N2(b, LAMBDA x, y : RN(NMul(x, y)))
      [] fn = "DIV" -> N2(a, LAMBDA x, y : IF NZero(y) THEN RW ELSE RN(NDiv(x, y)))
      [] fn = "INTDIV" -> N2(a, LAMBDA x, y : IF NZero(y) THEN RW ELSE RN(NFloorDiv(x, y)))
      [] fn = "MOD" -> N2(IF Len(a) = 1 THEN << a[1], S("2") >> ELSE a,
                          LAMBDA x, y : IF NZero(y) THEN RW ELSE RN(NMod(x, y)))
      [] fn = "POW" -> N2(IF Len(a) = 1 THEN << S("2"), a[1] >> ELSE a, LAMBDA x, y :
                          IF NZero(x) /\ y.n < 0 THEN RW
                          ELSE IF TooLarge(x, y) THEN RW
                          ELSE IF x.n < 0 /\ ~IsZ(y) THEN (IF y.d = -3 /\ y.e >= 0 THEN RX ELSE RW) ELSE RN(NPow(x, y)))
      [] fn = "POWEROFTEN" -> N2(IF Len(a) = 1 THEN << S("1"), a[1] >> ELSE a, LAMBDA x, y :
                          IF y.d # 0 \/ y.n < 0 \/ y.n > 100 THEN RX ELSE RN(NMul(x, NPowI(NInt(10), y.n))))
      [] fn = "ROOT" -> N2(a, LAMBDA x, y :
                          IF NZero(x) THEN RW ELSE
                          LET z == FDiv(N1, x) IN
                          IF IsNone(z) THEN RX
                          ELSE IF y.n < 0 /\ ~IsZ(z) THEN (IF z.d = -3 /\ z.e >= 0 THEN RX ELSE RW)
                          ELSE IF NZero(y) THEN (IF x.n < 0 THEN RW ELSE R0(SI(0)))
                          ELSE RN(FPow(IF y.n < 0 /\ ~BEven(Mag(z)) THEN -1 ELSE 1, y, z)))
      [] fn = "ABS" -> NN1(a, LAMBDA x : RN(NAbs(x)))
      [] fn = "ABSOLUTEDIFF" -> N2(a, LAMBDA x, y : RN(NAbs(NSub(x, y))))
      [] fn = "NEG" -> IF IsP(a[1]) THEN R0(Flip(a[1], "-")) ELSE NN1(a, LAMBDA x : RN(NNeg(x)))
      [] fn = "POS" -> IF IsP(a[1]) THEN R0(Pat(WrapRx(a[1].raw) \o "+", a[1].fl))
                       ELSE IF IsR(a[1]) THEN R0(a[1]) ELSE NN1(a, LAMBDA x : RN(x))
      [] fn = "INVERT" -> NN1(a, LAMBDA x : IF NZero(x) THEN RW ELSE RN(NDiv(N1, x)))
      [] fn = "HALVE" -> NN1(a, LAMBDA x : RN(QFloor(x, NInt(2))))
      [] fn = "HALVEUP" -> NN1(a, LAMBDA x : RN(QCeil(x, NInt(2))))
      [] fn = "DOUBLE" -> NN1(a, LAMBDA x : RN(NAdd(x, x)))
      [] fn = "SQUARE" -> NN1(a, LAMBDA x : RN(NMul(x, x)))
      [] fn = "SQRT" -> NN1(a, LAMBDA x : IF x.n < 0 THEN RW ELSE IF NZero(x) THEN R0(SI(0)) ELSE RN(FPow(1, x, Mk(1, 1))))
      [] fn = "SIGN" -> NN1(a, LAMBDA x : R0(SI(SgnI(x.n))))
      [] fn = "FLOOR" -> RoundTo(a, RoundFloor)
      [] fn = "CEIL" -> RoundTo(a, RoundCeil)
      [] fn = "ROUNDZERO" -> RoundTo(a, RoundTrunc)
      [] fn = "ROUNDNEAREST" -> RoundTo(a, RoundNear)
      [] fn = "BITWISEAND" -> Z2(a, ZBits)
      [] fn = "BITWISEOR" -> Z2(a, LAMBDA x, y : NAdd(NSub(x, ZBits(x, y)), y))
      [] fn = "BITWISEXOR" -> Z2(a, LAMBDA x, y : NAdd(NSub(x, ZBits(x, y)), NSub(y, ZBits(x, y))))
      [] fn = "BITWISENOT" -> IF IsS(a[1]) THEN LET n == IntV(a[1]) IN IF IsNone(n) THEN RX ELSE RN(NSub(NNeg(n), NInt(1))) ELSE RW
      [] fn = "BITLENGTH" -> IF IsS(a[1]) THEN LET n == IntV(a[1]) IN
                               IF IsNone(n) THEN RX ELSE IF IsBigZ(n) THEN R0(SI(Len(BigDigits(n.b, 2)))) ELSE R0(SI(BitLen(AbsI(n.n)))) ELSE RW
      [] fn = "TOBASE" ->
           LET b == IF Len(a) = 1 THEN NInt(2) ELSE IF IsS(a[2]) THEN IntV(a[2]) ELSE N0 IN
           IF Len(a) = 2 /\ ~IsS(a[2]) THEN RW
           ELSE IF IsNX(b) THEN RX
           ELSE IF b.n < 2 \/ b.n > 36 THEN RW
           ELSE IF ~IsS(a[1]) THEN RW
           ELSE LET n == IntV(a[1]) IN IF IsNone(n) THEN RX
                ELSE IF IsBigZ(n)
                THEN LET ds == BigDigits(n.b, b.n) IN
                     R0(S((IF n.n < 0 THEN "-" ELSE "") \o Concat([k \in DOMAIN ds |-> At(DigitCh, ds[k] + 1)])))
                ELSE R0(S((IF n.n < 0 THEN "-" ELSE "") \o BaseS(AbsI(n.n), b.n)))
      [] fn = "FROMBASE" ->
           LET b == IF Len(a) = 1 THEN NInt(2) ELSE IF IsS(a[2]) THEN IntV(a[2]) ELSE N0 IN
           IF Len(a) = 2 /\ ~IsS(a[2]) THEN RW
           ELSE IF IsNX(b) THEN RX
           ELSE IF b.n < 2 \/ b.n > 36 THEN RW
           ELSE IF ~IsS(a[1]) THEN RW
           ELSE IF NoCode(a[1].s) THEN RX
           ELSE LET r == FromBase(IF a[1].s = "" THEN "0" ELSE a[1].s, b.n) IN
                IF ~r.ok THEN RW ELSE RN(r.n)
      [] fn = "TODIGITS" ->
           IF IsLR(a[1]) THEN Each("TODIGITS", a[1], LAMBDA x : << x >> \o Tail(a), fm)
           ELSE LET b == IF Len(a) = 1 THEN NInt(2) ELSE IF IsS(a[2]) THEN IntV(a[2]) ELSE N0 IN
           IF Len(a) = 2 /\ ~IsS(a[2]) THEN RW
           ELSE IF IsNX(b) THEN RX
           ELSE IF b.n < 2 THEN RW
           ELSE IF ~IsS(a[1]) THEN RW
           ELSE LET n == IntV(a[1])
                    ds == IF IsNone(n) THEN << >> ELSE DigitsOf(n, b.n) IN
                IF IsNone(n) \/ (IsBigZ(n) /\ b.n >= LB) THEN RX ELSE R0(L([k \in DOMAIN ds |-> SI(SgnI(n.n) * ds[k])]))
      [] fn = "FROMDIGITS" -> FromDigits(a)
      [] fn = "DEGREES" -> NN1(a, LAMBDA x : RN(NMul(NDiv(x, PiNum), NInt(180))))
      [] fn = "RADIANS" -> NN1(a, LAMBDA x : RN(NMul(NDiv(x, NInt(180)), PiNum)))
      [] fn = "NATURALLOG" -> LogOp(a, FLn)
      [] fn = "BINARYLOG" -> LogOp(a, FLog2)
      [] fn = "DECIMALLOG" -> LogOp(a, FLog10)
      [] fn = "EXPONENTIAL" -> NN1(a, LAMBDA x : IF ExpLarge(x) THEN RW ELSE RN(FExp(x)))
      [] fn = "ARCTAN" -> IF Len(a) = 1 THEN NN1(a, LAMBDA x : RN(FAtan(x))) ELSE N2(a, LAMBDA x, y : RN(FAtan2(x, y)))
      [] fn = "SINE" -> NN1(a, LAMBDA x : RN(FSin(x)))
      [] fn = "COSINE" -> NN1(a, LAMBDA x : RN(FCos(x)))
      [] fn = "TANGENT" -> NN1(a, LAMBDA x : RN(FTan(x)))
      [] fn = "SECANT" -> NN1(a, LAMBDA x : RN(InverseOf(FCos(x))))
      [] fn = "COSEC" -> NN1(a, LAMBDA x : IF NZero(x) THEN RW ELSE RN(InverseOf(FSin(x))))
      [] fn = "COTAN" -> NN1(a, LAMBDA x : IF NZero(x) THEN RW ELSE RN(InverseOf(FTan(x))))
PArith == {"ADD", "SUB", "MUL", "DIV", "INTDIV", "MOD", "POW", "POWEROFTEN", "ROOT", "ABS", "ABSOLUTEDIFF",
           "NEG", "POS", "INVERT", "HALVE", "HALVEUP", "DOUBLE", "SQUARE", "SQRT", "SIGN", "FLOOR", "CEIL",
           "ROUNDZERO", "ROUNDNEAREST", "BITWISEAND", "BITWISEOR", "BITWISEXOR", "BITWISENOT", "BITLENGTH",
           "TOBASE", "FROMBASE", "TODIGITS", "FROMDIGITS", "NATURALLOG", "BINARYLOG", "DECIMALLOG", "ARCTAN",
           "SINE", "COSINE", "TANGENT", "SECANT", "COSEC", "COTAN", "DEGREES", "RADIANS", "EXPONENTIAL"}

\* --- comparison, logic, sorting ---
P2(fn, a, fm) ==
    CASE fn = "NOT" -> R0(SB(~Truthy(a[1])))
      [] fn = "NUMEQUAL" -> NRel(a, NEq)
      [] fn = "NUMNOTEQUAL" -> NRel(a, LAMBDA x, y : ~NEq(x, y))
      [] fn = "NUMLESS" -> NRel(a, NLt)
      [] fn = "NUMGREATER" -> NRel(a, LAMBDA x, y : NLt(y, x))
      [] fn = "NUMLESSEQ" -> NRel(a, NLe)
      [] fn = "NUMGREATEREQ" -> NRel(a, LAMBDA x, y : NLe(y, x))
      [] fn = "NUMCMP" -> LET r == NRel(a, NLt) IN
                          IF Bad(r.v) THEN r
                          ELSE WithV(r, IF NLt(a[2], a[1]) THEN S("1") ELSE IF NLt(a[1], a[2]) THEN S("-1") ELSE S("0"))
      [] fn \in {"STREQUAL", "STRNOTEQUAL", "STRLESS", "STRGREATER", "STRLESSEQ", "STRGREATEREQ"} ->
           IF NoCodeV(a[1]) \/ NoCodeV(a[2]) THEN RX
           ELSE R0(SB(CASE fn = "STREQUAL" -> SEq(a[1], a[2])
                        [] fn = "STRNOTEQUAL" -> SNe(a[1], a[2])
                        [] fn = "STRLESS" -> SLt(a[1], a[2])
                        [] fn = "STRGREATER" -> SLt(a[2], a[1])
                        [] fn = "STRLESSEQ" -> SLe(a[1], a[2])
                        [] OTHER -> SLe(a[2], a[1])))
      [] fn = "OBJEQUAL" -> R0(SB(a[1] = a[2]))
      [] fn = "RVALAND" -> R0(IF Truthy(a[1]) THEN a[2] ELSE a[1])
      [] fn = "RVALOR" -> R0(IF Truthy(a[1]) THEN a[1] ELSE a[2])
      [] fn = "RVALIFTE" -> R0(IF Truthy(a[1]) THEN a[2] ELSE a[3])
      [] fn \in {"LENEQUAL", "LENGREATER", "LENLESS"} ->
           IF ~IsIter(a[1]) \/ ~IsIter(a[2]) THEN RW
           ELSE LET i1 == IsInf(a[1])
                    i2 == IsInf(a[2]) IN
                R0(SB(CASE fn = "LENEQUAL" -> IF i1 \/ i2 THEN i1 /\ i2 ELSE VLen(a[1]) = VLen(a[2])
                        [] fn = "LENGREATER" -> IF i1 \/ i2 THEN i1 /\ ~i2 ELSE VLen(a[1]) > VLen(a[2])
                        [] OTHER -> IF i1 \/ i2 THEN i2 /\ ~i1 ELSE VLen(a[1]) < VLen(a[2])))
      [] fn \in {"MAX", "MIN"} -> IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
                                  ELSE Extreme(Items(a[1]), IF fn = "MAX" THEN 1 ELSE -1)
      [] fn \in {"SORTNUM", "DESCENDINGNUM"} ->
           IF ~IsIter(a[1]) THEN RW ELSE IF IsInf(a[1]) THEN RF ELSE IF TooBig(a[1]) THEN RX
           ELSE SortByKeys(Items(a[1]), Items(a[1]), fn = "DESCENDINGNUM")
      [] OTHER ->    \* SORTSTRING, DESCENDINGSTRING
           LET v == a[1]
               it == Items(v)
               so == SortByStr(it, [i \in DOMAIN it |-> Str(it[i], fm)], fn = "DESCENDINGSTRING") IN
           IF ~IsIter(v) THEN RW ELSE IF IsInf(v) THEN RF ELSE IF AnyTooBig(v) \/ NoCodeV(v) THEN RX
           ELSE IF IsS(v) THEN R0(JoinChars(so)) ELSE R0(L(so))
PCompare == {"NOT", "NUMEQUAL", "NUMNOTEQUAL", "NUMLESS", "NUMGREATER", "NUMLESSEQ", "NUMGREATEREQ", "NUMCMP",
             "STREQUAL", "STRNOTEQUAL", "STRLESS", "STRGREATER", "STRLESSEQ", "STRGREATEREQ", "OBJEQUAL",
             "RVALAND", "RVALOR", "RVALIFTE", "LENEQUAL", "LENGREATER", "LENLESS", "MAX", "MIN",
             "SORTNUM", "DESCENDINGNUM", "SORTSTRING", "DESCENDINGSTRING"}

\* --- sequences ---
P3(fn, a, fm) ==
    CASE fn = "AT" -> AtVal(a, fm)
      [] fn = "LEFTOF" -> SliceOp(fn, a, "-1", LAMBDA n : << >>, LAMBDA n : << n >>, fm)
      [] fn = "PREFIX" -> SliceOp(fn, a, "-1", LAMBDA n : << >>, LAMBDA n : << n >>, fm)
      [] fn = "RIGHTOF" -> SliceOp(fn, a, "1", LAMBDA n : << n >>, LAMBDA n : << >>, fm)
      [] fn = "SUFFIX" -> SliceOp(fn, a, "-1", LAMBDA n : << -n >>, LAMBDA n : IF n = 0 THEN << 0 >> ELSE << >>, fm)
      [] fn = "LEN" -> IF ~IsIter(a[1]) \/ IsInf(a[1]) THEN RW ELSE R0(SI(VLen(a[1])))
      [] fn \in {"APPENDELEM", "PREPENDELEM"} ->
           LET l == AsList(a[1]) IN
           IF ~IsLR(l) THEN RW ELSE IF IsInf(l) THEN RF ELSE IF TooBig(l) THEN RX
           ELSE R0(L(IF fn = "APPENDELEM" THEN Append(Items(l), a[2]) ELSE << a[2] >> \o Items(l)))
      [] fn = "APPENDLIST" ->
           LET l == AsList(a[1])
               r == AsList(a[2]) IN
           IF ~IsLR(l) \/ ~IsLR(r) THEN RW ELSE IF IsInf(l) \/ IsInf(r) THEN RF
           ELSE IF TooBig(l) \/ TooBig(r) THEN RX ELSE R0(L(Items(l) \o Items(r)))
      [] fn = "REPEATLIST" ->
           LET l == AsList(a[1]) IN
           IF ~IsLR(l) \/ ~IsS(a[2]) THEN RW ELSE IF IsInf(l) THEN RF
           ELSE LET n == IntV(a[2]) IN
                IF IsNX(n) \/ TooBig(l) THEN RX
                ELSE IF MulI(n.n, VLen(l)) > 2000 THEN RX
                ELSE LET it == Items(l)
                         k == Len(it) IN
                     R0(L([j \in 1..(MaxI(n.n, 0) * k) |-> it[1 + ((j - 1) % k)]]))
      [] fn \in {"CHOP", "GROUP"} -> ChopGroup(fn, a, fm)
      [] fn = "COMBINATIONS" ->
           IF ~IsIter(a[1]) \/ ~IsS(a[2]) THEN RW
           ELSE LET n == IntV(a[2]) IN
                IF IsNX(n) THEN RX ELSE IF n.n < 0 THEN RW
                ELSE IF IsInf(a[1]) THEN RF
                ELSE IF VLen(a[1]) > 9 THEN RX
                ELSE Fixed(IsS(a[1]), Combos(Items(a[1]), n.n))
      [] fn = "PERMUTATIONS" -> IF ~IsIter(a[1]) THEN RW ELSE IF IsInf(a[1]) THEN RF
                                ELSE IF VLen(a[1]) > 5 THEN RX ELSE Fixed(IsS(a[1]), Perms(Items(a[1])))
      [] fn \in {"ZIP", "CARTESIANPRODUCT"} -> ZipV(a, fn, fm)
      [] fn = "ZIPDEFAULT" -> ZipDefault(a)
      [] fn = "ZIPJOIN" -> ZipJoin(a, fm)
      [] fn = "COORDINATEGRID" -> Grid(a, LAMBDA i, j : L(<< SI(i - 1), SI(j - 1) >>))
      [] fn = "ONEGRID" -> Grid(a, LAMBDA i, j : S("1"))
      [] fn = "ZEROGRID" -> Grid(a, LAMBDA i, j : S("0"))
      [] fn = "IDENTITYMATRIX" -> Grid(a, LAMBDA i, j : SB(i = j))
      [] fn = "ENUMERATE" -> IF ~IsIter(a[1]) \/ IsInf(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
                             ELSE LET it == Items(a[1]) IN R0(L([i \in DOMAIN it |-> L(<< SI(i - 1), it[i] >>)]))
      [] fn \in {"FIND", "FINDALL"} -> Find(a, fn = "FINDALL", fm)
      [] fn = "IN" -> InOp(a, fm)
      [] fn = "NOTIN" -> NotIn(a, fm)
      [] fn = "FLATTEN" -> IF ~IsLR(a[1]) THEN R0(a[1]) ELSE IF TooBig(a[1]) THEN RX
                           ELSE IF \E i \in 1..VLen(a[1]) : TooBig(Items(a[1])[i]) THEN RX ELSE R0(L(Flat1(a[1])))
      [] fn = "FLATTENALL" -> IF ~IsLR(a[1]) THEN R0(a[1]) ELSE IF AnyTooBig(a[1]) THEN RX ELSE R0(L(FlatAll(a[1])))
      [] fn \in {"FILTER", "FILTERNOT"} ->   \* unary
           IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
           ELSE R0(L(SelectSeq(Items(a[1]), LAMBDA x : Truthy(x) = (fn = "FILTER"))))
      [] fn = "FILTERJOIN" -> LET r == P("FILTER", a, fm) IN
                              IF Bad(r.v) THEN r ELSE Then(r, P("JOIN", << r.v >>, fm))
      [] fn = "FILTERINDEXES" ->
           IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
           ELSE LET it == Items(a[1])
                    ix == SelectSeq([i \in DOMAIN it |-> i], LAMBDA i : Truthy(it[i])) IN
                R0(L([k \in DOMAIN ix |-> SI(ix[k] - 1)]))
      [] fn = "FILTERUNPACK" ->
           IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
           ELSE LET it == Items(a[1])
                    keep(x) == IsIter(x) /\ (IF IsInf(x) THEN Truthy(GetItem(x, 0))
                                             ELSE VLen(x) > 0 /\ Truthy(GetItem(x, 0))) IN
                [v |-> L(SelectSeq(it, keep)), w |-> IF \E i \in DOMAIN it : ~IsIter(it[i]) THEN 1 ELSE 0, m |-> << >>]
      [] fn = "INCLRANGE" ->
           IF ~(a[1].t \in {"S", "N"}) \/ ~(a[2].t \in {"S", "N"}) THEN RW
           ELSE LET x == IF IsS(a[1]) THEN IntV(a[1]) ELSE N0
                    y == IF IsS(a[2]) THEN IntV(a[2]) ELSE N0 IN
                IF IsNX(x) \/ IsNX(y) THEN RX
                ELSE R0(Rg(IF IsN(a[1]) THEN << >> ELSE << x.n >>, IF IsN(a[2]) THEN << >> ELSE << y.n + 1 >>))
      [] fn = "INCLRANGETO" -> IF IsN(a[1]) THEN R0(Rg(<< 1 >>, << >>))
                               ELSE IF ~IsS(a[1]) THEN RW
                               ELSE LET n == IntV(a[1]) IN IF IsNX(n) THEN RX ELSE R0(Rg(<< 1 >>, << n.n + 1 >>))
      [] fn = "RANGE" ->
           IF IsP(a[1]) /\ IsP(a[2])
           THEN R0(Pat(WrapRx(a[1].raw) \o "|" \o WrapRx(a[2].raw), a[1].fl \cup a[2].fl))
           ELSE IF ~(a[1].t \in {"S", "N"}) \/ ~(a[2].t \in {"S", "N"}) THEN RW
           ELSE LET x == IF IsS(a[1]) THEN IntV(a[1]) ELSE N0
                    y == IF IsS(a[2]) THEN IntV(a[2]) ELSE N0 IN
                IF IsNX(x) \/ IsNX(y) THEN RX
                ELSE R0(Rg(IF IsN(a[1]) THEN << >> ELSE << x.n >>, IF IsN(a[2]) THEN << >> ELSE << y.n >>))
      [] fn = "RANGETO" -> IF IsP(a[1]) THEN R0(Flip(a[1], ","))
                           ELSE IF IsN(a[1]) THEN R0(Rg(<< >>, << >>))
                           ELSE IF ~IsS(a[1]) THEN RW
                           ELSE LET n == IntV(a[1]) IN IF IsNX(n) THEN RX ELSE R0(Rg(<< >>, << n.n >>))
      [] fn = "RANDCHOICE" -> IF ~IsIter(a[1]) \/ IsEmptyV(a[1]) THEN RW
                              ELSE IF IsInf(a[1]) THEN RF
                              ELSE IF VLen(a[1]) = 1 THEN R0(GetItem(a[1], 0))
                              ELSE IF VLen(a[1]) > MaxAlts THEN RX ELSE R0(Hole("item", a[1]))
      [] fn = "RANDRANGE" -> IF ~(a[1].t \in {"S", "N"}) \/ ~IsS(a[2]) THEN RW
                             ELSE LET x == IF IsS(a[1]) THEN IntV(a[1]) ELSE N0
                                      y == IntV(a[2]) IN
                                  IF IsNX(x) \/ IsNX(y) THEN RX
                                  ELSE IF x.n >= y.n THEN RW ELSE IF x.n + 1 = y.n THEN R0(SI(x.n))
                                  ELSE IF y.n - x.n > MaxAlts THEN RX ELSE R0(Hole("item", Rg(<< x.n >>, << y.n >>)))
      [] fn = "RANDRANGETO" -> IF ~IsS(a[1]) THEN RW
                               ELSE LET y == IntV(a[1]) IN
                                    IF IsNX(y) THEN RX ELSE IF y.n <= 0 THEN RW ELSE IF y.n = 1 THEN R0(S("0"))
                                    ELSE IF y.n > MaxAlts THEN RX ELSE R0(Hole("item", Rg(<< 0 >>, << y.n >>)))
      [] fn = "SHUFFLE" -> IF ~IsIter(a[1]) THEN RW ELSE IF IsInf(a[1]) THEN RF
                           ELSE IF VLen(a[1]) <= 1
                           THEN R0(IF IsS(a[1]) THEN a[1] ELSE L(Items(a[1])))
                           ELSE IF VLen(a[1]) > 5 THEN RX ELSE R0(Hole("perm", a[1]))
      [] fn \in {"PALINDROMIZE", "REFLECT", "REVERSE"} -> Mirror(a, fn)
      [] fn = "QUADREFLECT" -> Quad(a, "REFLECT", fm)
      [] fn = "QUADPALINDROMIZE" -> Quad(a, "PALINDROMIZE", fm)
      [] fn = "REPLACEAT" -> ReplaceAtV(a, fm)
      [] fn = "REMOVE" -> RemoveV(a, fm)
      [] fn = "SPLITAT" -> SplitAt(a)
      [] fn = "UNIQUE" ->
           IF a[1].t \in {"R", "N"} THEN R0(a[1]) ELSE IF ~IsIter(a[1]) THEN RW
           ELSE LET it == Items(a[1])
                    un == FoldLeft(LAMBDA acc, x : IF \E i \in DOMAIN acc : acc[i] = x THEN acc ELSE Append(acc, x), << >>, it) IN
                R0(IF IsS(a[1]) THEN JoinChars(un) ELSE L(un))
      [] fn = "UNWEAVE" ->
           LET st == IF Len(a) = 1 THEN NInt(2) ELSE IF IsS(a[2]) THEN IntV(a[2]) ELSE N0
               it == Items(a[1])
               strand(k) == LET ix == SelectSeq([i \in DOMAIN it |-> i], LAMBDA i : (i - 1) % st.n = k - 1) IN
                            [j \in DOMAIN ix |-> it[ix[j]]] IN
           IF IsInf(a[1]) \/ ~IsIter(a[1]) \/ (Len(a) = 2 /\ ~IsS(a[2])) THEN RW
           ELSE IF IsNX(st) \/ TooBig(a[1]) THEN RX
           ELSE IF st.n < 1 THEN RW ELSE IF st.n > 300 THEN RX
           ELSE R0(L([k \in 1..st.n |-> IF IsS(a[1]) THEN JoinChars(strand(k)) ELSE L(strand(k))]))
      [] fn = "WEAVE" -> Weave(a)
      [] OTHER -> RX
RandFns == {"RANDCHOICE", "RANDRANGE", "RANDRANGETO", "SHUFFLE"}
PSeqs == {"AT", "LEFTOF", "PREFIX", "RIGHTOF", "SUFFIX", "LEN", "APPENDELEM", "PREPENDELEM", "APPENDLIST", "REPEATLIST",
          "CHOP", "GROUP", "COMBINATIONS", "PERMUTATIONS", "ZIP", "CARTESIANPRODUCT", "ZIPDEFAULT", "ZIPJOIN",
          "COORDINATEGRID", "ONEGRID", "ZEROGRID", "IDENTITYMATRIX", "ENUMERATE", "FIND", "FINDALL", "IN", "NOTIN",
          "FLATTEN", "FLATTENALL", "FILTER", "FILTERNOT", "FILTERJOIN", "FILTERINDEXES", "FILTERUNPACK",
          "INCLRANGE", "INCLRANGETO", "RANGE", "RANGETO", "RANDCHOICE", "RANDRANGE", "RANDRANGETO", "SHUFFLE",
          "PALINDROMIZE", "REFLECT", "REVERSE", "QUADREFLECT", "QUADPALINDROMIZE", "REPLACEAT", "REMOVE", "SPLITAT",
          "UNIQUE", "UNWEAVE", "WEAVE"}

\* --- text ---
P4(fn, a, fm) ==
    CASE fn = "CAT" -> CAT(a[1], a[2])
      [] fn = "JOIN" ->
           IF Len(a) = 2 /\ IsLR(a[2]) THEN Each("JOIN", a[2], LAMBDA x : << a[1], x >>, fm)
           ELSE IF Len(a) = 2 /\ ~(a[2].t \in {"S", "P"}) THEN RW
           ELSE IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
           ELSE Join(Items(a[1]), Tail(a))
      [] fn = "JOINWRAP" ->
           IF IsLR(a[2]) THEN Each("JOINWRAP", a[2], LAMBDA x : << a[1], x >>, fm)
           ELSE IF ~(a[2].t \in {"S", "P"}) THEN RW
           ELSE IF ~IsIter(a[1]) THEN RW ELSE IF TooBig(a[1]) THEN RX
           ELSE FoldLeft(LAMBDA acc, x :
                  LET r == IF IsLR(x) THEN Join(Items(x), << a[2] >>) ELSE R0(x) IN
                  IF Bad(acc.v) THEN acc ELSE IF Bad(r.v) THEN r
                  ELSE CatR(CatR(Then(r, acc), r.v), a[2]), R0(a[2]), Items(a[1]))
      [] fn = "WRAP" -> IF a[1].t \in {"S", "P"} /\ a[2].t \in {"S", "P"}
                        THEN CatR(CAT(a[2], a[1]), a[2]) ELSE RW
      [] fn = "ASC" -> IF IsP(a[1]) THEN R0(Flip(a[1], "A"))
                       ELSE IF ~IsS(a[1]) \/ a[1] = S("") THEN RW
                       ELSE IF HasCode(At(a[1].s, 1)) THEN R0(SI(Ord(At(a[1].s, 1)))) ELSE RX
      [] fn = "CHR" -> IF IsP(a[1]) THEN R0(Pat("(" \o a[1].raw \o ")", a[1].fl))
                       ELSE IF ~IsS(a[1]) THEN RW
                       ELSE LET n == IntV(a[1]) IN
                            IF IsNX(n) THEN RX ELSE IF n.n < 0 \/ n.n > 1114111 THEN RW
                            ELSE IF n.n \in DOMAIN CharOf THEN R0(S(CharOf[n.n])) ELSE RX
      [] fn = "DELETECHARS" -> IF IsS(a[1]) /\ IsS(a[2])
                               THEN LET cs == SetOf(a[2].s) IN
                                    R0(S(Concat(SelectSeq(Chars(a[1].s), LAMBDA c : c \notin cs))))
                               ELSE RWv(a[1])
      [] fn = "DOT" -> IF IsP(a[1]) THEN R0(Flip(a[1], ".")) ELSE R0(a[1])
      [] fn = "KLEENESTAR" -> IF IsP(a[1]) THEN R0(Pat(WrapRx(a[1].raw) \o "*", a[1].fl))
                              ELSE IF a[1].t \in {"S", "R"}
                              THEN LET r == RegexOf(a[1]) IN IF Bad(r.v) THEN r ELSE R0(Pat(r.v.raw \o "*", r.v.fl))
                              ELSE RW
      [] fn = "REGEX" -> RegexOf(a[1])
      [] fn = "FULLMATCH" -> FullMatchV(a, fm)
      [] fn = "FIRSTMATCH" -> FirstMatchV(a, fm)
      [] fn = "REPLACE" -> ReplaceV(a, fm)
      [] fn = "SPLIT" -> SplitV(a)
      [] fn = "LOWERCASE" -> Letters1(a[1], LoS)
      [] fn = "UPPERCASE" -> Letters1(a[1], UpS)
      [] fn = "SWAPCASE" -> Letters1(a[1], SwS)
      [] fn = "INITIALCAPS" -> Letters1(a[1], Capital)
      [] fn = "TITLECASE" -> Letters1(a[1], TitleS)
      [] fn = "LSTRIP" -> Strip(a[1], Tail(a), TRUE, FALSE)
      [] fn = "RSTRIP" -> Strip(a[1], Tail(a), FALSE, TRUE)
      [] fn = "STRIP" -> Strip(a[1], Tail(a), TRUE, TRUE)
      [] fn = "STR" -> IF AnyTooBig(a[1]) /\ ~IsInf(a[1]) THEN RX ELSE R0(S(Str(a[1], fm)))
      [] fn = "REPR" -> R0(S(Repr(a[1])))
      [] fn = "STRMUL" ->
           IF ~(a[1].t \in {"S", "P"}) \/ ~IsS(a[2]) THEN RW
           ELSE LET n == IntV(a[2])
                    s == IF IsS(a[1]) THEN a[1].s ELSE a[1].raw IN
                IF IsNX(n) THEN RX ELSE IF MulI(n.n, Len(s)) > 4000 THEN RX
                ELSE LET r == RepeatS(s, n.n) IN R0(IF IsS(a[1]) THEN S(r) ELSE Pat(r, a[1].fl))
      [] fn = "TRANSLITERATE" -> Translit(a, fm)
      [] fn = "TRIM" -> Trim(a, fm)
      [] OTHER -> RX
PText == {"CAT", "JOIN", "JOINWRAP", "WRAP", "ASC", "CHR", "DELETECHARS", "DOT", "KLEENESTAR", "REGEX", "FULLMATCH",
          "FIRSTMATCH", "REPLACE", "SPLIT", "LOWERCASE", "UPPERCASE", "SWAPCASE", "INITIALCAPS", "TITLECASE",
          "LSTRIP", "RSTRIP", "STRIP", "STR", "REPR", "STRMUL", "TRANSLITERATE", "TRIM"}
PFns == PArith \cup PCompare \cup PSeqs \cup PText
P(fn, a, fm) == IF fn \in PSeqs THEN P3(fn, a, fm)
                ELSE IF fn \in PText THEN P4(fn, a, fm)
                ELSE IF fn \in PCompare THEN P2(fn, a, fm)
                ELSE P1(fn, a, fm)
=============================================================================
