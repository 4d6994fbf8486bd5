------------------------------- MODULE PipReal --------------------------------
(***************************************************************************)
(* Elementary functions of doubles.  A value is computed to some 44 decimal *)
(* places (naturals with FD limbs after the point) by a power series, and   *)
(* rounded.  The C library is trusted only to within its stated error: when *)
(* the value is so near the middle of two doubles that the library may      *)
(* round it either way, the result is not known (NX).                       *)
(***************************************************************************)
EXTENDS PipNum

FD == 12
FxOne == BShift(<< 1 >>, FD)
FxDrop(x) == IF Len(x) <= FD THEN << >> ELSE SubSeq(x, FD + 1, Len(x))
FxMul(x, y) == FxDrop(BMul(x, y))
FxDivK(x, k) == BDivMod(x, << k >>).q
FxDiv(x, y) == BDivMod(BShift(x, FD), y).q
FxLN2 == LimbsOf("693147180559945309417232121458176568075500134360")
FxPI == LimbsOf("3141592653589793238462643383279502884197169399375")
FxPIH == LimbsOf("1570796326794896619231321691639751442098584699687")
FxPIQ == LimbsOf("785398163397448309615660845819875721049292349843")
FxTAN8 == LimbsOf("414213562373095048801688724209698078569671875376")
\* |a| with FD limbs after the point
ToFx(a) == IF Exp(a) >= 0 THEN BShift(BMul(Mag(a), Pow2(Exp(a))), FD) ELSE BDivMod(BShift(Mag(a), FD), Pow2(-Exp(a))).q
\* 2^k <= |a| < 2^(k+1)
Order2(a) == BBits(Mag(a)) + Exp(a) - 1
\* signed sums
FxAddS(x, y) == IF x.s = y.s THEN [s |-> x.s, m |-> BAdd(x.m, y.m)]
                ELSE IF BCmp(x.m, y.m) >= 0 THEN [s |-> x.s, m |-> BSub(x.m, y.m)] ELSE [s |-> y.s, m |-> BSub(y.m, x.m)]
\* the double that sgn * x * 2^e rounds to, when all within 3 * 2^-g of it
\* (relative) round to the same
FxRound(sgn, x, e, g) ==
    IF x = << >> THEN N0 ELSE
    LET d == BAdd(BMulLimb(BDivMod(x, Pow2(g)).q, 3), << 0, 0, 1 >>) IN
    IF BCmp(x, BAdd(d, d)) <= 0 THEN NX ELSE
    LET lo == RoundR(sgn, BSub(x, d), FxOne, e)
        hi == RoundR(sgn, BAdd(x, d), FxOne, e) IN
    IF lo = hi THEN lo ELSE NX

(* ----------------------- exponential and logarithms --------------------- *)
\* e^r for 0 <= r < 1
FxExpS(r) == FoldLeft(LAMBDA acc, i : LET t == FxDivK(FxMul(acc.t, r), i) IN [t |-> t, s |-> BAdd(acc.s, t)],
                      [t |-> FxOne, s |-> FxOne], [i \in 1..40 |-> i]).s
\* e^v for signed v, |v| < 10^6, rounded to sgn * it; the exponent of two may leave the range
FxExp(sgn, v, g) ==
    LET q == BDivMod(v.m, FxLN2)
        k == BInt(q.q)
        s == FxExpS(q.r) IN
    IF Len(q.q) > 2 THEN NX
    ELSE IF v.s >= 0 THEN (IF k > 1100 THEN NX ELSE FxRound(sgn, s, k, g))
    ELSE IF k > 1100 THEN N0 ELSE FxRound(sgn, FxDiv(FxOne, s), -k, g)
\* the logarithm of a double a > 0: 2^e * z with sqrt(1/2) <= z < sqrt(2)
LnZ(a) == LET e == Order2(a)
              nb == BBits(Mag(a)) - 1
              z == BDivMod(BShift(Mag(a), FD), Pow2(nb)).q IN
          IF BCmp(z, BAdd(FxOne, FxTAN8)) < 0 THEN [e |-> e, z |-> z]
          ELSE [e |-> e + 1, z |-> BDivMod(BShift(Mag(a), FD), Pow2(nb + 1)).q]
\* ln z = 2 artanh((z-1)/(z+1))
FxLnZ(z) ==
    LET c == BCmp(z, FxOne)
        t == FxDiv(IF c >= 0 THEN BSub(z, FxOne) ELSE BSub(FxOne, z), BAdd(z, FxOne))
        t2 == FxMul(t, t)
        r == FoldLeft(LAMBDA acc, i : LET p == FxMul(acc.p, t2) IN [p |-> p, s |-> BAdd(acc.s, FxDivK(p, 2 * i + 1))],
                      [p |-> t, s |-> t], [i \in 1..32 |-> i]).s IN
    [s |-> IF c >= 0 THEN 1 ELSE -1, m |-> BAdd(r, r)]
FxLn(a) == LET z == LnZ(a) IN
           FxAddS([s |-> SgnI(z.e), m |-> BMul(BOf(AbsI(z.e)), FxLN2)], FxLnZ(z.z))
FLn(a0) == LET a == ToF(a0) IN IF IsNone(a) THEN NX ELSE
           LET v == FxLn(a) IN FxRound(v.s, v.m, 0, 58)
FLog2(a0) ==
    LET a == ToF(a0) IN IF IsNone(a) THEN NX ELSE
    LET z == LnZ(a)
        l == FxLnZ(z.z)
        v == FxAddS([s |-> SgnI(z.e), m |-> BShift(BOf(AbsI(z.e)), FD)], [s |-> l.s, m |-> FxDiv(l.m, FxLN2)]) IN
    FxRound(v.s, v.m, 0, 57)
\* the library computes the decimal logarithm in doubles, from that of the
\* number scaled by a power of two
L10Inv == FMk(1, LimbsOf("3911776933737095"), -53)
L10Hi == FMk(1, LimbsOf("661971961083"), -41)
L10Lo == FMk(1, LimbsOf("3658597174646171"), -93)
FLog10(a0) ==
    LET a == ToF(a0)
        k == Order2(a)
        y == NInt(IF k < 0 THEN k + 1 ELSE k)
        l == IF IsNone(a) THEN NX ELSE FLn(FMk(1, Mag(a), Exp(a) - y.n)) IN
    IF IsNone(l) THEN NX ELSE FAdd(FAdd(FMul(y, L10Lo), FMul(L10Inv, l)), FMul(y, L10Hi))
\* e^a; "large" where a double cannot hold it
ExpLarge(a) == a.n > 0 /\ NCmp(a, ToNum("709.782712893384")) > 0
FExp(a0) ==
    LET a == ToF(a0) IN
    IF IsNone(a) THEN NX ELSE IF NZero(a) THEN N1
    ELSE IF Order2(a) > 10 THEN (IF a.n < 0 THEN N0 ELSE NX)
    ELSE IF Order2(a) < -60 THEN NX
    ELSE FxExp(1, [s |-> NSgn(a), m |-> ToFx(a)], 58)
\* y * ln x, x > 0
PowLn(x, y) == LET l == FxLn(x)
                   e == Exp(y) IN
               [s |-> l.s * NSgn(y), m |-> IF e >= 0 THEN BMul(l.m, BMul(Mag(y), Pow2(e))) ELSE BDivMod(BMul(l.m, Mag(y)), Pow2(-e)).q]
\* |x| ** y for doubles x # 0 and y, with the sign sgn
PowLarge(x0, y0) ==
    LET x == ToF(NAbs(x0))
        y == ToF(y0) IN
    IF IsNone(x) \/ IsNone(y) \/ NZero(y) \/ AbsI(Order2(y)) > 50 THEN FALSE
    ELSE LET v == PowLn(x, y) IN v.s > 0 /\ BCmp(v.m, BShift(<< 710 >>, FD)) >= 0
FPow(sgn, x0, y0) ==
    LET x == ToF(NAbs(x0))
        y == ToF(y0) IN
    IF IsNone(x) \/ IsNone(y) THEN NX
    ELSE IF NZero(y) \/ x = N1 THEN (IF sgn < 0 THEN NNeg(N1) ELSE N1)
    ELSE IF y = N1 THEN (IF sgn < 0 THEN NNeg(x) ELSE x)
    ELSE IF AbsI(Order2(y)) > 50 THEN NX
    ELSE LET v == PowLn(x, y) IN
         IF Len(v.m) > FD + 1 THEN (IF v.s < 0 THEN N0 ELSE NX) ELSE FxExp(sgn, v, 58)

(* ----------------------------- trigonometry ----------------------------- *)
\* the sums of the terms of even and of odd index of a power series
FxAlt(first, step(_, _), n) ==
    LET r == FoldLeft(LAMBDA acc, i : LET t == step(acc.t, i) IN
                          [t |-> t, p |-> IF i % 2 = 0 THEN BAdd(acc.p, t) ELSE acc.p, q |-> IF i % 2 = 0 THEN acc.q ELSE BAdd(acc.q, t)],
                      [t |-> first, p |-> first, q |-> << >>], [i \in 1..n |-> i]) IN
    BSub(r.p, r.q)
\* for 0 <= r <= pi/4
FxSinS(r) == LET r2 == FxMul(r, r) IN FxAlt(r, LAMBDA t, i : FxDivK(FxMul(t, r2), (2 * i) * (2 * i + 1)), 18)
FxCosS(r) == LET r2 == FxMul(r, r) IN FxAlt(FxOne, LAMBDA t, i : FxDivK(FxMul(t, r2), (2 * i - 1) * (2 * i)), 18)
\* sine and cosine of |a|, signed (|a| below 2^30)
FxSinCos(a) ==
    LET d == BDivMod(ToFx(a), FxPIH)
        k == BLimb(d.q, 1) % 4
        low == BCmp(d.r, FxPIQ) <= 0
        r == IF low THEN d.r ELSE BSub(FxPIH, d.r)
        sr == IF low THEN FxSinS(r) ELSE FxCosS(r)
        cr == IF low THEN FxCosS(r) ELSE FxSinS(r) IN
    [s |-> [s |-> IF k >= 2 THEN -1 ELSE 1, m |-> IF k \in {0, 2} THEN sr ELSE cr],
     c |-> [s |-> IF k \in {1, 2} THEN -1 ELSE 1, m |-> IF k \in {0, 2} THEN cr ELSE sr]]
TrigOk(a) == ~IsNone(a) /\ (NZero(a) \/ (Order2(a) < 30 /\ Order2(a) > -60))
FSin(a0) == LET a == ToF(a0) IN IF ~TrigOk(a) THEN NX ELSE IF NZero(a) THEN N0
            ELSE LET v == FxSinCos(a) IN FxRound(NSgn(a) * v.s.s, v.s.m, 0, 57)
FCos(a0) == LET a == ToF(a0) IN IF ~TrigOk(a) THEN NX ELSE IF NZero(a) THEN N1
            ELSE LET v == FxSinCos(a) IN FxRound(v.c.s, v.c.m, 0, 57)
FTan(a0) == LET a == ToF(a0) IN IF ~TrigOk(a) THEN NX ELSE IF NZero(a) THEN N0
            ELSE LET v == FxSinCos(a) IN FxRound(NSgn(a) * v.s.s * v.c.s, FxDiv(v.s.m, v.c.m), 0, 56)
\* arctan t, 0 <= t <= 1
FxAtan(t) ==
    LET big == BCmp(t, FxTAN8) > 0
        u == IF big THEN FxDiv(BSub(FxOne, t), BAdd(FxOne, t)) ELSE t
        u2 == FxMul(u, u)
        n == 60
        r == FoldLeft(LAMBDA acc, i : LET t1 == FxMul(acc.t, u2)
                                          t2 == FxDivK(t1, 2 * i + 1) IN
                          [t |-> t1, p |-> IF i % 2 = 0 THEN BAdd(acc.p, t2) ELSE acc.p, q |-> IF i % 2 = 0 THEN acc.q ELSE BAdd(acc.q, t2)],
                      [t |-> u, p |-> u, q |-> << >>], [i \in 1..n |-> i])
        s == BSub(r.p, r.q) IN
    IF big THEN BSub(FxPIQ, s) ELSE s
\* |y| / |x| as [up |-> it is above 1, t |-> it, or its inverse]
FxRatio(y, x) ==
    LET e == MinI(Exp(y), Exp(x))
        u == Over(y, e)
        v == Over(x, e)
        up == BCmp(u, v) > 0 IN
    [up |-> up, t |-> IF up THEN FxDiv(v, u) ELSE FxDiv(u, v)]
\* the angle of the point (x, y)
FAtan2(y0, x0) ==
    LET y == ToF(y0)
        x == ToF(x0)
        sgn == IF y.n < 0 THEN -1 ELSE 1 IN
    IF IsNone(x) \/ IsNone(y) THEN NX
    ELSE IF NZero(y) THEN (IF x.n >= 0 THEN N0 ELSE FxRound(1, FxPI, 0, 57))
    ELSE IF NZero(x) THEN FxRound(sgn, FxPIH, 0, 57)
    ELSE IF AbsI(Order2(y) - Order2(x)) > 60 THEN NX
    ELSE LET q == FxRatio(y, x)
             w == FxAtan(q.t)
             a == IF q.up THEN BSub(FxPIH, w) ELSE w IN
         FxRound(sgn, IF x.n < 0 THEN BSub(FxPI, a) ELSE a, 0, 57)
FAtan(a) == FAtan2(a, N1)
=============================================================================
