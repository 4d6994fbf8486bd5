-------------------------------- MODULE PipBig --------------------------------
(***************************************************************************)
(* Natural numbers of any size, for TLC's own integers are 32 bits wide.   *)
(* A number is the sequence of its limbs, base 10000, the lowest first and  *)
(* the highest nonzero (zero is the empty sequence).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

LB == 10000
RECURSIVE BTrim(_)
BTrim(x) == IF x = << >> THEN x ELSE IF x[Len(x)] # 0 THEN x ELSE BTrim(SubSeq(x, 1, Len(x) - 1))
RECURSIVE BOf(_)
BOf(n) == IF n = 0 THEN << >> ELSE << n % LB >> \o BOf(n \div LB)
BLimb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
\* comparison: -1, 0, 1
RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE BCmpFrom(x, y, i - 1)
BCmp(x, y) == IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE BCmpFrom(x, y, Len(x))

BAdd(x, y) ==
    LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
        r == FoldLeft(LAMBDA acc, i : LET s == BLimb(x, i) + BLimb(y, i) + acc.c IN
                                      [l |-> Append(acc.l, s % LB), c |-> s \div LB],
                      [l |-> << >>, c |-> 0], [i \in 1..n |-> i]) IN
    IF r.c = 0 THEN r.l ELSE Append(r.l, r.c)
BSub(x, y) ==       \* x >= y
    LET r == FoldLeft(LAMBDA acc, i : LET s == x[i] - BLimb(y, i) - acc.c IN
                                      [l |-> Append(acc.l, IF s < 0 THEN s + LB ELSE s), c |-> IF s < 0 THEN 1 ELSE 0],
                      [l |-> << >>, c |-> 0], [i \in 1..Len(x) |-> i]) IN
    BTrim(r.l)
BMulLimb(x, k) ==   \* 0 <= k < LB
    IF k = 0 THEN << >>
    ELSE LET r == FoldLeft(LAMBDA acc, d : LET s == d * k + acc.c IN [l |-> Append(acc.l, s % LB), c |-> s \div LB],
                           [l |-> << >>, c |-> 0], x) IN
         IF r.c = 0 THEN r.l ELSE Append(r.l, r.c)
BShift(x, k) == IF x = << >> THEN x ELSE [i \in 1..k |-> 0] \o x
BMul(x, y) == FoldLeftDomain(LAMBDA acc, i : BAdd(acc, BShift(BMulLimb(x, y[i]), i - 1)), << >>, y)
\* the greatest q in lo..hi with y * q <= r
RECURSIVE BQuot(_, _, _, _)
BQuot(r, y, lo, hi) == IF lo = hi THEN lo
                       ELSE LET m == (lo + hi + 1) \div 2 IN
                            IF BCmp(BMulLimb(y, m), r) <= 0 THEN BQuot(r, y, m, hi) ELSE BQuot(r, y, lo, m - 1)
\* quotient and remainder, y # 0
BDivMod(x, y) ==
    LET n == Len(x)
        r == FoldLeft(LAMBDA acc, i :
               LET top == BTrim(<< x[n + 1 - i] >> \o acc.r)
                   q == IF BCmp(top, y) < 0 THEN 0
                        ELSE IF Len(y) = 1
                        THEN (BLimb(top, 2) * LB + top[1]) \div y[1]
                        ELSE BQuot(top, y, 0, LB - 1) IN
               [q |-> << q >> \o acc.q, r |-> IF q = 0 THEN top ELSE BSub(top, BMulLimb(y, q))],
             [q |-> << >>, r |-> << >>], [i \in 1..n |-> i]) IN
    [q |-> BTrim(r.q), r |-> r.r]
BEven(x) == x = << >> \/ x[1] % 2 = 0
RECURSIVE BPow(_, _)
BPow(x, k) == IF k = 0 THEN << 1 >>
              ELSE LET h == BPow(x, k \div 2)
                       s == BMul(h, h) IN IF k % 2 = 0 THEN s ELSE BMul(s, x)
\* the integer it is, if below 2 * 10^9
BSmall(x) == Len(x) <= 2 \/ (Len(x) = 3 /\ x[3] < 20)
BInt(x) == BLimb(x, 1) + LB * BLimb(x, 2) + LB * LB * BLimb(x, 3)
=============================================================================
