-------------------------------- MODULE PipNum --------------------------------
(***************************************************************************)
(* Pip numbers: integers of any size and IEEE doubles, as Python has them.  *)
(*                                                                         *)
(*   [n |-> n, d |-> d], d >= 0           the small dyadic rational n / 2^d *)
(*   [n |-> +-1, d |-> -2, b |-> m]        the integer +-m, beyond +-10^9   *)
(*   [n |-> +-1, d |-> -3, b |-> m, e |-> e]                                *)
(*                                        the double +-m * 2^e, m odd       *)
(*   NX                                   not modelled                      *)
(*                                                                         *)
(* Values that are both (3 and 3.0, 0.5) have the first form only: doubles  *)
(* and integers compute the same with them.  The third form is for doubles  *)
(* that the first cannot hold; integers beyond +-10^9 and doubles of the    *)
(* same value differ (in further arithmetic, and when printed).             *)
(***************************************************************************)
EXTENDS PipText, PipBig

LIM == 1000000000
BIG == 2000000000
DMAX == 9
AbsI(n) == IF n < 0 THEN -n ELSE n
SgnI(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
AddI(x, y) == IF AbsI(x) > LIM \/ AbsI(y) > LIM THEN BIG ELSE x + y
MulI(x, y) == IF x = 0 \/ y = 0 THEN 0
              ELSE IF AbsI(x) > LIM \/ AbsI(y) > LIM THEN BIG
              ELSE IF AbsI(x) > LIM \div AbsI(y) THEN BIG ELSE x * y
\* floor division and the modulus with the divisor's sign, as in Python
DivI(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)
ModI(x, y) == x - y * DivI(x, y)

NX == [n |-> 0, d |-> -1]
IsNone(a) == a.d = -1
\* not modelled, or (where small numbers are needed) not a small dyadic
IsNX(a) == a.d < 0
RECURSIVE NNorm(_, _)
NNorm(n, d) == IF d = 0 THEN [n |-> n, d |-> 0]
               ELSE IF n % 2 = 0 THEN NNorm(n \div 2, d - 1)
               ELSE IF d > DMAX THEN NX
               ELSE [n |-> n, d |-> d]
Mk(n, d) == IF AbsI(n) > LIM THEN NX ELSE NNorm(n, d)
NInt(n) == IF AbsI(n) > LIM THEN NX ELSE [n |-> n, d |-> 0]
N0 == NInt(0)
N1 == NInt(1)
NNeg(a) == IF IsNone(a) THEN NX ELSE [a EXCEPT !.n = -@]
NAbs(a) == IF IsNone(a) THEN NX ELSE [a EXCEPT !.n = AbsI(@)]
NZero(a) == a.n = 0
NSgn(a) == SgnI(a.n)
Scale(a, D) == MulI(a.n, 2^(D - a.d))         \* numerator over 2^D

(* --------------------------- integers of any size ----------------------- *)
MAXLIMBS == 40
IsZ(a) == a.d \in {0, -2}
IsBigZ(a) == a.d = -2
Mag(a) == IF a.d < -1 THEN a.b ELSE BOf(AbsI(a.n))
ZMk(sgn, m) == IF BSmall(m) /\ BInt(m) <= LIM THEN [n |-> sgn * BInt(m), d |-> 0]
               ELSE IF Len(m) > MAXLIMBS THEN NX ELSE [n |-> sgn, d |-> -2, b |-> m]
ZAdd(a, b) == LET x == Mag(a)
                  y == Mag(b)
                  c == BCmp(x, y) IN
              IF NSgn(a) * NSgn(b) >= 0 THEN ZMk(IF a.n < 0 \/ b.n < 0 THEN -1 ELSE 1, BAdd(x, y))
              ELSE IF c >= 0 THEN ZMk(NSgn(a), BSub(x, y)) ELSE ZMk(NSgn(b), BSub(y, x))
ZMul(a, b) == ZMk(NSgn(a) * NSgn(b), BMul(Mag(a), Mag(b)))
ZFloorDiv(a, b) == LET r == BDivMod(Mag(a), Mag(b)) IN
                   IF NSgn(a) * NSgn(b) >= 0 THEN ZMk(1, r.q)
                   ELSE ZMk(-1, IF r.r = << >> THEN r.q ELSE BAdd(r.q, << 1 >>))

(* ------------------------------- doubles -------------------------------- *)
\* powers of two and of ten
POW2MAX == 1200
Pow2T == FoldLeft(LAMBDA acc, i : Append(acc, BMulLimb(acc[i], 2)), << << 1 >> >>, [i \in 1..POW2MAX |-> i])
Pow2(k) == Pow2T[k + 1]
B10(j) == BShift(<< 10^(j % 4) >>, j \div 4)
RECURSIVE BitsIn(_, _, _)
BitsIn(x, lo, hi) == IF lo = hi THEN lo              \* the least k with x < 2^k
                     ELSE LET m == (lo + hi) \div 2 IN
                          IF BCmp(x, Pow2(m)) < 0 THEN BitsIn(x, lo, m) ELSE BitsIn(x, m + 1, hi)
BBits(x) == BitsIn(x, MaxI(0, 13 * Len(x) - 13), MinI(POW2MAX, 14 * Len(x)))
RECURSIVE Odds(_, _)
\* m * 2^e with m odd
Odds(m, e) == IF m[1] % 2 = 1 THEN [m |-> m, e |-> e]
              ELSE LET k == IF m[1] % 16 = 0 THEN 16 ELSE IF m[1] % 4 = 0 THEN 4 ELSE 2 IN
                   Odds(BDivMod(m, << k >>).q, e + (IF k = 16 THEN 4 ELSE IF k = 4 THEN 2 ELSE 1))
\* the number that the double sgn * m * 2^e is (m of at most 53 bits)
RECURSIVE FMk(_, _, _), RoundQ(_, _, _), RoundR(_, _, _, _)
FMk(sgn, m, e) ==
    LET o == Odds(m, e)
        top == BBits(o.m) + o.e IN
    IF top > 1024 \/ top < -1000 THEN NX           \* infinite, or denormal
    ELSE IF o.e <= 0 /\ o.e >= -DMAX /\ BSmall(o.m) /\ BInt(o.m) <= LIM THEN [n |-> sgn * BInt(o.m), d |-> -o.e]
    ELSE IF o.e > 0 /\ top <= 30 /\ MulI(BInt(o.m), 2^o.e) <= LIM THEN [n |-> sgn * BInt(o.m) * 2^o.e, d |-> 0]
    ELSE [n |-> sgn, d |-> -3, b |-> o.m, e |-> o.e]
\* sgn * m * 2^e rounded to a double, half to even
RoundQ(sgn, m, e) ==
    LET bits == BBits(m) IN
    IF bits <= 53 THEN FMk(sgn, m, e)
    ELSE IF bits >= POW2MAX THEN NX
    ELSE LET k == bits - 53
             r == BDivMod(m, Pow2(k))
             c == BCmp(r.r, Pow2(k - 1)) IN
         FMk(sgn, IF c > 0 \/ (c = 0 /\ ~BEven(r.q)) THEN BAdd(r.q, << 1 >>) ELSE r.q, e + k)
\* sgn * (x / y) * 2^e rounded to a double
RoundR(sgn, x, y, e) ==
    LET k == 56 - (BBits(x) - BBits(y)) IN
    IF AbsI(k) >= POW2MAX THEN NX
    ELSE LET r == BDivMod(IF k > 0 THEN BMul(x, Pow2(k)) ELSE x, IF k < 0 THEN BMul(y, Pow2(-k)) ELSE y) IN
         RoundQ(sgn, BAdd(BAdd(r.q, r.q), IF r.r = << >> THEN << >> ELSE << 1 >>), e - k - 1)
\* the exponent of a number as Mag * 2^Exp
Exp(a) == IF a.d >= 0 THEN -a.d ELSE IF a.d = -3 THEN a.e ELSE 0
\* conversion to a double
ToF(a) == IF a.d = -2 THEN RoundQ(a.n, a.b, 0) ELSE a
\* magnitudes over a common power of two
Common(a, b) == LET e == MinI(Exp(a), Exp(b)) IN
                [ok |-> Exp(a) - e < POW2MAX /\ Exp(b) - e < POW2MAX, e |-> e]
Over(a, e) == IF Exp(a) = e THEN Mag(a) ELSE BMul(Mag(a), Pow2(Exp(a) - e))
RECURSIVE FAdd(_, _), FMul(_, _), FDiv(_, _), FFmod(_, _), FRemainder(_, _)
FAdd(a0, b0) ==
    LET a == ToF(a0)
        b == ToF(b0) IN
    IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF NZero(a) THEN b ELSE IF NZero(b) THEN a
    ELSE LET c == Common(a, b) IN
    IF ~c.ok THEN NX
    ELSE LET x == Over(a, c.e)
             y == Over(b, c.e)
             o == BCmp(x, y) IN
         IF NSgn(a) * NSgn(b) > 0 THEN RoundQ(NSgn(a), BAdd(x, y), c.e)
         ELSE IF o = 0 THEN N0
         ELSE IF o > 0 THEN RoundQ(NSgn(a), BSub(x, y), c.e) ELSE RoundQ(NSgn(b), BSub(y, x), c.e)
FMul(a0, b0) ==
    LET a == ToF(a0)
        b == ToF(b0) IN
    IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF NZero(a) \/ NZero(b) THEN N0
    ELSE RoundQ(NSgn(a) * NSgn(b), BMul(Mag(a), Mag(b)), Exp(a) + Exp(b))
FDiv(a0, b0) ==                \* b # 0; the quotient of two integers is rounded only once
    LET z == IsZ(a0) /\ IsZ(b0)
        a == IF z THEN a0 ELSE ToF(a0)
        b == IF z THEN b0 ELSE ToF(b0) IN
    IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF NZero(a) THEN N0
    ELSE RoundR(NSgn(a) * NSgn(b), Mag(a), Mag(b), Exp(a) - Exp(b))
\* magnitude of the remainder of |a| / |b|, with the sign of a, and its oddness
FRem(a, b) == LET c == Common(a, b)
                  r == IF c.ok THEN BDivMod(Over(a, c.e), Over(b, c.e)) ELSE [q |-> << >>, r |-> << >>] IN
              [ok |-> c.ok, q |-> r.q, r |-> r.r, e |-> c.e, m |-> IF c.ok THEN Over(b, c.e) ELSE << >>]
FFmod(a, b) == LET f == FRem(a, b) IN
               IF ~f.ok THEN NX ELSE IF f.r = << >> THEN N0 ELSE RoundQ(NSgn(a), f.r, f.e)
\* x - n * y for the integer n nearest to x / y (the even one of two)
FRemainder(a0, b0) ==
    LET a == ToF(a0)
        b == ToF(b0) IN
    IF IsNone(a) \/ IsNone(b) THEN NX ELSE
    LET f == FRem(a, b)
        c == BCmp(BAdd(f.r, f.r), f.m) IN
    IF ~f.ok THEN NX ELSE IF f.r = << >> THEN N0
    ELSE IF c > 0 \/ (c = 0 /\ ~BEven(f.q)) THEN RoundQ(-NSgn(a), BSub(f.m, f.r), f.e)
    ELSE RoundQ(NSgn(a), f.r, f.e)
\* the largest integer not above a number
NFloor(a) ==
    IF a.d = -3
    THEN IF a.e >= 0 THEN (IF a.e > 600 THEN NX ELSE ZMk(a.n, BMul(a.b, Pow2(a.e))))
         ELSE IF BBits(a.b) + a.e <= 0 THEN NInt(IF a.n < 0 THEN -1 ELSE 0)
         ELSE LET q == BDivMod(a.b, Pow2(-a.e)).q IN ZMk(a.n, IF a.n < 0 THEN BAdd(q, << 1 >>) ELSE q)
    ELSE IF IsNX(a) THEN a ELSE NInt(a.n \div 2^a.d)
NCeil(a) == NNeg(NFloor(NNeg(a)))
NTrunc(a) == IF a.n < 0 THEN NCeil(a) ELSE NFloor(a)

(* ------------------------------ arithmetic ------------------------------ *)
RECURSIVE NAdd(_, _), NMul(_, _), NCmp(_, _), NDiv(_, _), NFloorDiv(_, _), NMod(_, _)
NAdd(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF IsZ(a) /\ IsZ(b) /\ (IsNX(a) \/ IsNX(b)) THEN ZAdd(a, b)
    ELSE IF IsNX(a) \/ IsNX(b) THEN FAdd(a, b)
    ELSE LET D == MaxI(a.d, b.d)
             r == AddI(Scale(a, D), Scale(b, D))
             s == Mk(r, D) IN
         IF D = 0 /\ AbsI(r) > LIM THEN ZAdd(a, b) ELSE IF IsNone(s) THEN FAdd(a, b) ELSE s
NSub(a, b) == NAdd(a, NNeg(b))
\* the exact product, if a small one or an integer
NMulE(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF IsNX(a) \/ IsNX(b) THEN IF IsZ(a) /\ IsZ(b) THEN ZMul(a, b) ELSE NX
    ELSE LET r == MulI(a.n, b.n) IN
         IF a.d = 0 /\ b.d = 0 /\ AbsI(r) > LIM THEN ZMul(a, b) ELSE Mk(r, a.d + b.d)
NMul(a, b) == LET r == NMulE(a, b) IN
              IF IsNone(a) \/ IsNone(b) THEN NX ELSE IF IsNone(r) /\ ~(IsZ(a) /\ IsZ(b)) THEN FMul(a, b) ELSE r
\* comparison of the values: -1, 0, 1 (only for modelled numbers)
NCmpMag(a, b) == LET x == BBits(Mag(a)) + Exp(a)
                     y == BBits(Mag(b)) + Exp(b)
                     e == MinI(Exp(a), Exp(b)) IN
                 IF x # y THEN SgnI(x - y) ELSE BCmp(Over(a, e), Over(b, e))
NCmp(a, b) == IF a = b THEN 0
              ELSE IF NSgn(a) # NSgn(b) THEN SgnI(NSgn(a) - NSgn(b))
              ELSE IF a.d = 0 /\ b.d = 0 THEN SgnI(a.n - b.n)
              ELSE IF a.d = -2 /\ b.d = -2 THEN NSgn(a) * BCmp(a.b, b.b)
              ELSE NSgn(a) * NCmpMag(a, b)
NLtN(a, b) == NCmp(a, b) < 0
\* Python's % and // (b # 0)
NSmallDiv(a, b) == LET D == MaxI(a.d, b.d)
                       x == Scale(a, D)
                       y == Scale(b, D) IN
                   IF IsNX(a) \/ IsNX(b) THEN NX
                   ELSE IF AbsI(x) > LIM \/ AbsI(y) > LIM THEN NX ELSE NInt(DivI(x, y))
FMod(a, b) == LET r == FFmod(a, b) IN
              IF IsNone(r) THEN NX ELSE IF r.n # 0 /\ NSgn(r) # NSgn(b) THEN FAdd(r, b) ELSE r
FFloorDiv(a, b) ==
    LET r == FFmod(a, b)
        v == FDiv(FAdd(a, NNeg(r)), b)
        w == IF r.n # 0 /\ NSgn(r) # NSgn(b) THEN FAdd(v, NInt(-1)) ELSE v
        f == ToF(NFloor(w))
        g == FAdd(w, NNeg(f)) IN
    IF IsNone(r) \/ IsNone(v) \/ IsNone(w) \/ IsNone(f) \/ IsNone(g) THEN NX
    ELSE IF NCmp(g, [n |-> 1, d |-> 1]) > 0 THEN FAdd(f, N1) ELSE f
NFloorDiv(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF IsZ(a) /\ IsZ(b) THEN (IF IsNX(a) \/ IsNX(b) THEN ZFloorDiv(a, b) ELSE NInt(DivI(a.n, b.n)))
    ELSE LET q == NSmallDiv(a, b) IN
         IF ~IsNone(q) THEN q
         ELSE LET x == ToF(a)
                  y == ToF(b) IN IF IsNone(x) \/ IsNone(y) THEN NX ELSE FFloorDiv(x, y)
NMod(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX
    ELSE IF IsZ(a) /\ IsZ(b) THEN NSub(a, NMul(NFloorDiv(a, b), b))
    ELSE LET q == NSmallDiv(a, b)
             s == IF IsNone(q) THEN NX ELSE NSub(a, NMul(q, b)) IN
         IF ~IsNone(s) THEN s
         ELSE LET x == ToF(a)
                  y == ToF(b) IN IF IsNone(x) \/ IsNone(y) THEN NX ELSE FMod(x, y)
RECURSIVE TwoAdic(_)
TwoAdic(n) == IF n % 2 # 0 THEN 0 ELSE 1 + TwoAdic(n \div 2)
\* a / b for b # 0; NX when the quotient is not a small dyadic rational
NDivE(a, b) == IF IsNX(a) \/ IsNX(b) THEN NX ELSE IF a.n = 0 THEN N0 ELSE
    LET k == TwoAdic(b.n)
        odd == SgnI(b.n) * (AbsI(b.n) \div 2^k)
        e == b.d - a.d - k IN
    IF AbsI(a.n) % AbsI(odd) # 0 THEN NX
    ELSE LET q == SgnI(odd) * SgnI(a.n) * (AbsI(a.n) \div AbsI(odd)) IN
         IF e >= 0 THEN Mk(MulI(q, 2^MinI(e, 30)), 0) ELSE IF -e > 30 THEN NX ELSE Mk(q, -e)
NDiv(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX
              ELSE LET r == NDivE(a, b) IN IF IsNone(r) THEN FDiv(a, b) ELSE r
RECURSIVE NPowI(_, _)
\* exact powers
NPowI(a, k) == IF k = 0 THEN N1 ELSE IF IsNone(a) THEN NX
               ELSE LET h == NPowI(a, k \div 2)
                        s == NMulE(h, h) IN IF k % 2 = 0 THEN s ELSE NMulE(s, a)
\* the integer below, above, nearest to a / b: exact for integers
QFloor(a, b) == IF IsNone(a) \/ IsNone(b) THEN NX ELSE IF IsZ(a) /\ IsZ(b) THEN NFloorDiv(a, b) ELSE NFloor(NDiv(a, b))
QCeil(a, b) == NNeg(QFloor(NNeg(a), b))
QTrunc(a, b) == IF NSgn(a) * NSgn(b) < 0 THEN QCeil(a, b) ELSE QFloor(a, b)
ZNear(a, b) ==                 \* integers, b > 0
    LET q == QFloor(a, b)
        r == NSub(a, NMul(q, b))
        c == NCmp(NAdd(r, r), b) IN
    IF c < 0 \/ (c = 0 /\ BEven(Mag(q))) THEN q ELSE NAdd(q, N1)

(* ------------------------------- notation ------------------------------- *)
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN At("0123456789", n + 1) ELSE Dig(n \div 10) \o At("0123456789", (n % 10) + 1)
IntS(n) == IF n < 0 THEN "-" \o Dig(-n) ELSE Dig(n)
PadZ(s, w) == RepeatS("0", w - Len(s)) \o s
RECURSIVE BigS(_, _)
BigS(m, i) == IF i = 0 THEN "" ELSE (IF i = Len(m) THEN Dig(m[i]) ELSE PadZ(Dig(m[i]), 4)) \o BigS(m, i - 1)
\* the decimal point goes after the first p of the digits: Python's repr
\* of a double, less a fractional part .0
FixS(ds, p) ==
    IF p > 16 \/ p <= -4
    THEN At(ds, 1) \o (IF Len(ds) > 1 THEN "." \o From(ds, 2) ELSE "")
         \o "e" \o (IF p > 0 THEN "+" ELSE "-") \o PadZ(Dig(AbsI(p - 1)), 2)
    ELSE IF p <= 0 THEN "0." \o RepeatS("0", -p) \o ds
    ELSE IF p >= Len(ds) THEN ds \o RepeatS("0", p - Len(ds))
    ELSE SubSeq(ds, 1, p) \o "." \o From(ds, p + 1)
\* the shortest decimal that reads back as the double a > 0 (and of those the
\* nearest, the even one of two); "" where this does not say which
FloatS(a) ==
    LET num == IF Exp(a) > 0 THEN BMul(Mag(a), Pow2(Exp(a))) ELSE Mag(a)
        den == IF Exp(a) < 0 THEN Pow2(-Exp(a)) ELSE << 1 >>
        \* v >= 10^k
        above(k) == IF k >= 0 THEN BCmp(num, BMul(den, B10(k))) >= 0 ELSE BCmp(BMul(num, B10(-k)), den) >= 0
        est == ((BBits(Mag(a)) + Exp(a) - 1) * 30103) \div 100000
        dp == IF above(est + 1) THEN est + 2 ELSE IF above(est) THEN est + 1 ELSE est
        cand(p) == LET y == IF dp >= p THEN BMul(den, B10(dp - p)) ELSE den
                       r == BDivMod(IF dp < p THEN BMul(num, B10(p - dp)) ELSE num, y)
                       c == BCmp(BAdd(r.r, r.r), y)
                       q == IF c > 0 \/ (c = 0 /\ ~BEven(r.q)) THEN BAdd(r.q, << 1 >>) ELSE r.q IN
                   [q |-> q, ok |-> (IF dp >= p THEN RoundQ(1, BMul(q, B10(dp - p)), 0) ELSE RoundR(1, q, B10(p - dp), 0)) = a]
        text(c, p) == LET ds == BigS(c.q, Len(c.q)) IN FixS(RStripS(ds, {"0"}), dp + Len(ds) - p)
        c15 == cand(15)
        c16 == cand(16)
        c17 == cand(17) IN
    IF c15.ok THEN text(c15, 15) ELSE IF c16.ok THEN text(c16, 16)
    ELSE IF ~c17.ok \/ Mag(a) = << 1 >> THEN ""
    ELSE text(c17, 17)
\* decimal notation of a modelled number, as Python prints it ("": unknown)
SmallS(m, d) == IF d = 0 THEN Dig(m) ELSE Dig(m \div 2^d) \o "." \o PadZ(Dig((m % 2^d) * 5^d), d)
RECURSIVE NumS(_)
NumS(a) == IF a.d = 0 THEN IntS(a.n)
           ELSE LET m == AbsI(a.n)
                    s == IF a.d = -2 THEN BigS(a.b, Len(a.b))
                         ELSE IF a.d > 0 /\ (m > 200000 \/ m * 8192 >= 2^a.d) /\ Len(SmallS(m, a.d)) <= 15
                         THEN SmallS(m, a.d) ELSE FloatS(NAbs(a)) IN
                IF a.n < 0 /\ s # "" THEN "-" \o s ELSE s

(* text to number *)
RECURSIVE DigitsVal(_, _, _)
DigitsVal(s, i, acc) == IF i > Len(s) THEN acc
                        ELSE DigitsVal(s, i + 1, acc * 10 + (Ord(At(s, i)) - 48))
\* value of a string of digits, BIG if beyond the limit
NatOf(s) == LET z == FirstNotIn(s, 1, {"0"})
                d == From(s, z) IN
            IF d = "" THEN 0 ELSE IF Len(d) > 9 THEN BIG ELSE DigitsVal(d, 1, 0)
\* the integer written by a string of digits
RECURSIVE LimbsOf(_)
LimbsOf(s) == IF Len(s) <= 4 THEN << DigitsVal(s, 1, 0) >> ELSE << DigitsVal(SubSeq(s, Len(s) - 3, Len(s)), 1, 0) >> \o LimbsOf(SubSeq(s, 1, Len(s) - 4))
ZOf(s) == LET d == From(s, FirstNotIn(s, 1, {"0"})) IN
          IF Len(d) <= 9 THEN NInt(NatOf(d)) ELSE IF Len(d) > 4 * MAXLIMBS THEN NX ELSE ZMk(1, BTrim(LimbsOf(d)))
\* Python: int of -?\d+ after leading whitespace, else 0
IntNum(s0) ==
    LET s == LStripS(s0, Blanks)
        neg == StartsAt(s, 1, "-")
        i == IF neg THEN 2 ELSE 1
        j == FirstNotIn(s, i, Digits) IN
    IF j = i THEN N0
    ELSE LET m == ZOf(SubSeq(s, i, j - 1)) IN IF neg THEN NNeg(m) ELSE m
HasExp(s, i) == /\ i + 2 <= Len(s) /\ At(s, i) = "e" /\ At(s, i + 1) \in {"+", "-"}
                /\ At(s, i + 2) \in Digits
\* the double nearest to digits * 10^k
FloatOf(ds, k) ==
    LET m == BTrim(LimbsOf(ds)) IN
    IF Len(ds) > 400 \/ AbsI(k) > 330 THEN NX
    ELSE IF m = << >> THEN N0
    ELSE IF k >= 0 THEN RoundQ(1, BMul(m, B10(k)), 0) ELSE RoundR(1, m, B10(-k), 0)
\* Scalar.toNumber
RECURSIVE ToNum(_)
ToNum(s0) ==
    LET s == LStripS(s0, Blanks)
        neg == StartsAt(s, 1, "-")
        i == IF neg THEN 2 ELSE 1
        j == FirstNotIn(s, i, Digits)
        dot == j <= Len(s) /\ At(s, j) = "." /\ (j > i \/ (j < Len(s) /\ At(s, j + 1) \in Digits))
        k == IF dot THEN FirstNotIn(s, j + 1, Digits) ELSE j
        ip == SubSeq(s, i, j - 1)
        fp == IF dot THEN RStripS(SubSeq(s, j + 1, k - 1), {"0"}) ELSE ""
        q == Len(fp)
        ex == k > i /\ HasExp(s, k)
        e == NatOf(SubSeq(s, k + 2, FirstNotIn(s, k + 2, Digits) - 1))
        m == IF dot \/ ex
             THEN LET v == NatOf(ip \o fp)
                      r == IF ex \/ q > DMAX \/ v > LIM THEN NX
                           ELSE IF v % 5^q # 0 THEN NX ELSE Mk(v \div 5^q, q) IN
                  IF ~IsNone(r) THEN r
                  ELSE FloatOf(ip \o fp, (IF ~ex THEN 0 ELSE IF At(s, k + 1) = "-" THEN -e ELSE e) - q)
             ELSE IF j = i THEN N0 ELSE ZOf(ip) IN
    IF neg THEN NNeg(m) ELSE m
=============================================================================
