------------------------------- MODULE PipRegex -------------------------------
(***************************************************************************)
(* Regular expressions: parsing Pattern text to a tree, and matching by     *)
(* backtracking, as an ordered list of successes.  The modelled subset:     *)
(* characters, escapes, classes, ., ^, $, \b, groups, alternation, greedy   *)
(* and lazy repetition, and back-references, with the flags ignore-case     *)
(* "-", multiline "," and dotall ".".  Anything else is outside the model   *)
(* (result "X"); malformed expressions are errors (result "F").             *)
(***************************************************************************)
EXTENDS PipValues

RxMeta == SetOf("()[]{}?*+-|^$\\.&~# ") \cup {"\t", "\n", "\r", "\f"}
EscapeRx(s) == Concat([i \in 1..Len(s) |->
                  IF At(s, i) \in RxMeta THEN "\\" \o At(s, i) ELSE At(s, i)])
WrapRx(raw) == IF Len(raw) > 1 THEN "(?:" \o raw \o ")" ELSE raw

(* ------------------------------- parsing ------------------------------- *)
\* results: [x |-> "" | "F" | "X", i |-> next position, n |-> groups so far, e |-> tree]
RxOk(i, n, e) == [x |-> "", i |-> i, n |-> n, e |-> e]
RxErr(x) == [x |-> x, i |-> 0, n |-> 0, e |-> << >>]
ROne(cs, neg) == [r |-> "one", cs |-> cs, neg |-> neg]
SpaceSet == Blanks
ClassEsc == [c \in {"d", "D", "s", "S", "w", "W"} |->
               CASE c \in {"d", "D"} -> Digits [] c \in {"s", "S"} -> SpaceSet [] OTHER -> WordChars \cup {"w+"}]
\* ("w+" in a set: the other word characters, unless only ASCII is to match; "W+": the same, if only ASCII is)
CtrlEsc == [c \in {"n", "t", "r", "f"} |->
              CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "r" -> "\r" [] OTHER -> "\f"]
AllChars == {CharOf[n] : n \in DOMAIN CharOf}
Between(a, b) == {c \in AllChars : Ord(c) >= Ord(a) /\ Ord(c) <= Ord(b)}
NumAt(s, i) == LET j == FirstNotIn(s, i, Digits) IN [j |-> j, v |-> IF j = i THEN -1 ELSE NatOf(SubSeq(s, i, j - 1))]
\* the number of a group after the backslash at i: [j, g], where it ends (0: not modelled)
GroupAt(s, i) == LET a == NumAt(s, i + 1) IN
                 IF a.j > i + 3 \/ a.v = 99 THEN [j |-> 0, g |-> 0] ELSE [j |-> a.j, g |-> a.v]

\* one member of a class at i: [x, i, cs, lit] (lit: can start or end a range)
ClassItem(s, i) ==
    IF At(s, i) # "\\" THEN [x |-> "", i |-> i + 1, cs |-> {At(s, i)}, lit |-> TRUE]
    ELSE IF i = Len(s) THEN [x |-> "F", i |-> 0, cs |-> {}, lit |-> FALSE]
    ELSE LET d == At(s, i + 1) IN
         IF d \in DOMAIN ClassEsc
         THEN [x |-> "", i |-> i + 2, lit |-> FALSE,
               cs |-> CASE d = "W" -> (AllChars \ (WordChars \cup OtherWordChars)) \cup {"W+"}
                      [] d \in Uppers -> AllChars \ ClassEsc[d] [] OTHER -> ClassEsc[d]]
         ELSE IF d \in DOMAIN CtrlEsc THEN [x |-> "", i |-> i + 2, cs |-> {CtrlEsc[d]}, lit |-> TRUE]
         ELSE IF d \in Digits \cup {"a", "b", "v", "x", "u", "U", "N"} THEN [x |-> "X", i |-> 0, cs |-> {}, lit |-> FALSE]
         ELSE IF d \in Uppers \cup Lowers THEN [x |-> "F", i |-> 0, cs |-> {}, lit |-> FALSE]
         ELSE [x |-> "", i |-> i + 2, cs |-> {d}, lit |-> TRUE]
RECURSIVE ClassBody(_, _, _, _)
ClassBody(s, i, first, acc) ==
    IF i > Len(s) THEN [x |-> "F", i |-> 0, cs |-> {}]
    ELSE IF At(s, i) = "]" /\ ~first THEN [x |-> "", i |-> i + 1, cs |-> acc]
    ELSE IF At(s, i) = "[" \/ (\E p \in {"--", "&&", "~~", "||"} : StartsAt(s, i, p))
    THEN [x |-> "X", i |-> 0, cs |-> {}]
    ELSE LET a == ClassItem(s, i) IN
         IF a.x # "" THEN [x |-> a.x, i |-> 0, cs |-> {}]
         ELSE IF StartsAt(s, a.i, "-") /\ a.i < Len(s) /\ At(s, a.i + 1) # "]"
         THEN LET b == ClassItem(s, a.i + 1) IN
              IF b.x # "" THEN [x |-> b.x, i |-> 0, cs |-> {}]
              ELSE IF ~a.lit \/ ~b.lit THEN [x |-> "F", i |-> 0, cs |-> {}]
              ELSE LET lo == CHOOSE c \in a.cs : TRUE
                       hi == CHOOSE c \in b.cs : TRUE IN
                   IF ~HasCode(lo) \/ ~HasCode(hi) THEN [x |-> "X", i |-> 0, cs |-> {}]
                   ELSE IF Ord(lo) > Ord(hi) THEN [x |-> "F", i |-> 0, cs |-> {}]
                   ELSE ClassBody(s, b.i, FALSE, acc \cup Between(lo, hi))
         ELSE ClassBody(s, a.i, FALSE, acc \cup a.cs)

\* an assertion about what comes next or came before: length of its opening (0: none)
Look(s, i) == CASE StartsAt(s, i, "(?=") -> [n |-> 3, neg |-> FALSE, back |-> FALSE]
                [] StartsAt(s, i, "(?!") -> [n |-> 3, neg |-> TRUE, back |-> FALSE]
                [] StartsAt(s, i, "(?<=") -> [n |-> 4, neg |-> FALSE, back |-> TRUE]
                [] StartsAt(s, i, "(?<!") -> [n |-> 4, neg |-> TRUE, back |-> TRUE]
                [] OTHER -> [n |-> 0, neg |-> FALSE, back |-> FALSE]
\* how long a match can be (hi 1000: any length; x: not worked out)
RECURSIVE Width(_)
Width(e) ==
    LET W(l, h) == [lo |-> l, hi |-> h, x |-> FALSE] IN
    CASE e = << >> -> [lo |-> 0, hi |-> 0, x |-> TRUE]
      [] e # << >> /\ e.r \in {"one", "any"} -> W(1, 1)
      [] e # << >> /\ e.r \in {"bol", "eol", "bos", "eos", "wb", "ahead", "behind"} -> W(0, 0)
      [] e # << >> /\ e.r = "cat" -> FoldLeft(LAMBDA acc, y : LET v == Width(y) IN
                                       [lo |-> acc.lo + v.lo, hi |-> acc.hi + v.hi, x |-> acc.x \/ v.x], W(0, 0), e.a)
      [] e # << >> /\ e.r = "alt" -> LET v == Width(e.a[1])
                                        u == Width(e.a[2]) IN
                                    [lo |-> MinI(v.lo, u.lo), hi |-> MaxI(v.hi, u.hi), x |-> v.x \/ u.x]
      [] e # << >> /\ e.r = "grp" -> Width(e.b)
      [] e # << >> /\ e.r = "rep" -> LET v == Width(e.b) IN
                                    [lo |-> e.lo * v.lo, hi |-> IF e.hi = -1 THEN 1000 ELSE e.hi * v.hi, x |-> v.x]
      [] OTHER -> [lo |-> 0, hi |-> 0, x |-> TRUE]

RECURSIVE RAlt(_, _, _, _), RCat(_, _, _, _, _), RAtom(_, _, _, _)
\* open: the groups being parsed
RAlt(s, i, n, open) ==
    LET c == RCat(s, i, n, open, << >>) IN
    IF c.x # "" THEN c
    ELSE IF StartsAt(s, c.i, "|")
    THEN LET r == RAlt(s, c.i + 1, c.n, open) IN
         IF r.x # "" THEN r ELSE RxOk(r.i, r.n, [r |-> "alt", a |-> << c.e, r.e >>])
    ELSE c

NoQuant == [lo |-> -1, hi |-> -1, i |-> 0]
\* the quantifier at i: bounds (hi = -1: no bound) and next position
Quant(s, i) ==
    IF i > Len(s) THEN NoQuant
    ELSE LET c == At(s, i) IN
    CASE c = "*" -> [lo |-> 0, hi |-> -1, i |-> i + 1]
      [] c = "+" -> [lo |-> 1, hi |-> -1, i |-> i + 1]
      [] c = "?" -> [lo |-> 0, hi |-> 1, i |-> i + 1]
      [] c = "{" /\ ~StartsAt(s, i, "{}") ->
           LET a == NumAt(s, i + 1)
               comma == StartsAt(s, a.j, ",")
               b == IF comma THEN NumAt(s, a.j + 1) ELSE a IN
           IF ~StartsAt(s, b.j, "}") THEN NoQuant
           ELSE [lo |-> MaxI(a.v, 0), hi |-> b.v, i |-> b.j + 1]
      [] OTHER -> NoQuant
RCat(s, i, n, open, acc) ==
    IF i > Len(s) \/ At(s, i) \in {"|", ")"} THEN RxOk(i, n, [r |-> "cat", a |-> acc])
    ELSE LET a == RAtom(s, i, n, open) IN
         IF a.x # "" THEN a
         ELSE LET q == Quant(s, a.i) IN
              IF q.i = 0 THEN RCat(s, a.i, a.n, open, Append(acc, a.e))
              ELSE IF a.e.r \in {"bol", "eol", "bos", "eos", "wb"} THEN RxErr("F")
              ELSE IF a.e.r \in {"ahead", "behind"} THEN RxErr("X")
              ELSE IF q.hi # -1 /\ q.lo > q.hi THEN RxErr("F")
              ELSE IF q.lo > 50 \/ q.hi > 50 \/ StartsAt(s, q.i, "+") THEN RxErr("X")
              ELSE LET lazy == StartsAt(s, q.i, "?")
                       j == IF lazy THEN q.i + 1 ELSE q.i IN
                   IF Quant(s, j).i # 0 THEN RxErr("F")           \* multiple repeat
                   ELSE RCat(s, j, a.n, open,
                             Append(acc, [r |-> "rep", lo |-> q.lo, hi |-> q.hi,
                                          lazy |-> lazy, b |-> a.e]))
RAtom(s, i, n, open) ==
    LET c == At(s, i)
        d == IF i < Len(s) THEN At(s, i + 1) ELSE "" IN
    CASE c = "(" ->
           IF d = "?" /\ Look(s, i).n > 0
           THEN LET k == Look(s, i)
                    r == RAlt(s, i + k.n, n, open)
                    w == Width(r.e) IN
                IF r.x # "" THEN r
                ELSE IF ~StartsAt(s, r.i, ")") THEN RxErr("F")
                ELSE IF ~k.back THEN RxOk(r.i + 1, r.n, [r |-> "ahead", neg |-> k.neg, b |-> r.e])
                ELSE IF w.x THEN RxErr("X") ELSE IF w.lo # w.hi THEN RxErr("F")
                ELSE RxOk(r.i + 1, r.n, [r |-> "behind", neg |-> k.neg, b |-> r.e, w |-> w.lo])
           ELSE IF d = "?" /\ ~StartsAt(s, i, "(?:") THEN RxErr("X")
           ELSE IF d = "?"
           THEN LET r == RAlt(s, i + 3, n, open) IN
                IF r.x # "" THEN r
                ELSE IF ~StartsAt(s, r.i, ")") THEN RxErr("F")
                ELSE RxOk(r.i + 1, r.n, [r |-> "cat", a |-> << r.e >>])
           ELSE LET r == RAlt(s, i + 1, n + 1, open \cup {n + 1}) IN
                IF r.x # "" THEN r
                ELSE IF ~StartsAt(s, r.i, ")") THEN RxErr("F")
                ELSE RxOk(r.i + 1, r.n, [r |-> "grp", n |-> n + 1, b |-> r.e])
      [] c = "[" ->
           LET neg == d = "^"
               b == ClassBody(s, IF neg THEN i + 2 ELSE i + 1, TRUE, {}) IN
           IF b.x # "" THEN RxErr(b.x) ELSE RxOk(b.i, n, ROne(b.cs, neg))
      [] c = "." -> RxOk(i + 1, n, [r |-> "any"])
      [] c = "^" -> RxOk(i + 1, n, [r |-> "bol"])
      [] c = "$" -> RxOk(i + 1, n, [r |-> "eol"])
      [] c \in {"*", "+", "?"} -> RxErr("F")
      [] c = "{" /\ Quant(s, i).i # 0 -> RxErr("F")
      [] c = "\\" ->
           IF d = "" THEN RxErr("F")
           ELSE IF d \in DOMAIN ClassEsc THEN RxOk(i + 2, n, ROne(ClassEsc[d], d \in Uppers))
           ELSE IF d \in DOMAIN CtrlEsc THEN RxOk(i + 2, n, ROne({CtrlEsc[d]}, FALSE))
           ELSE IF d \in {"b", "B"} THEN RxOk(i + 2, n, [r |-> "wb", neg |-> d = "B"])
           ELSE IF d \in Digits
           THEN LET g == GroupAt(s, i) IN
                IF d = "0" \/ g.j = 0 THEN RxErr("X")
                ELSE IF g.g > n \/ g.g \in open THEN RxErr("F") ELSE RxOk(g.j, n, [r |-> "ref", n |-> g.g])
           ELSE IF d = "A" THEN RxOk(i + 2, n, [r |-> "bos"])
           ELSE IF d = "Z" THEN RxOk(i + 2, n, [r |-> "eos"])
           ELSE IF d \in SetOf("avxuUNz") THEN RxErr("X")
           ELSE IF d \in Uppers \cup Lowers THEN RxErr("F")
           ELSE RxOk(i + 2, n, ROne({d}, FALSE))
      [] OTHER -> RxOk(i + 1, n, ROne({c}, FALSE))

\* [x |-> "" | "F" | "X", e |-> tree, n |-> number of groups]
RxParse(raw) == LET r == RAlt(raw, 1, 0, {}) IN
                IF r.x # "" THEN [x |-> r.x, e |-> << >>, n |-> 0]
                ELSE IF r.i <= Len(raw) THEN [x |-> "X", e |-> << >>, n |-> 0]
                ELSE [x |-> "", e |-> r.e, n |-> r.n]

(* ------------------------------ matching ------------------------------- *)
\* Positions are 1-based; a state is [i |-> position, c |-> captures], where a
\* capture is << >> or << from, to >> (to exclusive).  RM gives all the ways to
\* match, in order of preference.
Folds(ch, fl) == "-" \in fl /\ ~("A" \in fl /\ Ord(ch) > 127)
FoldS(s, fl) == Concat([i \in 1..Len(s) |-> IF Folds(At(s, i), fl) THEN LoC(At(s, i)) ELSE At(s, i)])
CharHit(e, ch, fl) ==
    LET hit == \/ ch \in e.cs
               \/ ch \in OtherWordChars /\ (IF "A" \in fl THEN "W+" ELSE "w+") \in e.cs
               \/ Folds(ch, fl) /\ (UpC(ch) \in e.cs \/ LoC(ch) \in e.cs) IN
    IF e.neg THEN ~hit ELSE hit
IsWordAt(s, i, fl) == i >= 1 /\ i <= Len(s) /\ At(s, i) \in (IF "A" \in fl THEN WordChars ELSE WordChars \cup OtherWordChars)
FlatMap(f(_), ss) == FoldLeft(LAMBDA acc, x : acc \o f(x), << >>, ss)

RECURSIVE RM(_, _, _, _), RRep(_, _, _, _, _, _)
RM(e, s, st, fl) ==
    LET i == st.i IN
    CASE e.r = "one" -> IF i <= Len(s) /\ CharHit(e, At(s, i), fl) THEN << [st EXCEPT !.i = i + 1] >> ELSE << >>
      [] e.r = "any" -> IF i <= Len(s) /\ (At(s, i) # "\n" \/ "." \in fl) THEN << [st EXCEPT !.i = i + 1] >> ELSE << >>
      [] e.r = "bol" -> IF i = 1 \/ ("," \in fl /\ At(s, i - 1) = "\n") THEN << st >> ELSE << >>
      [] e.r = "bos" -> IF i = 1 THEN << st >> ELSE << >>
      [] e.r = "eos" -> IF i = Len(s) + 1 THEN << st >> ELSE << >>
      [] e.r = "eol" -> IF \/ i = Len(s) + 1 \/ (i = Len(s) /\ At(s, i) = "\n")
                           \/ ("," \in fl /\ i <= Len(s) /\ At(s, i) = "\n") THEN << st >> ELSE << >>
      [] e.r = "ahead" -> LET rs == RM(e.b, s, st, fl) IN
                          IF (rs = << >>) # e.neg THEN << >>
                          ELSE IF e.neg THEN << st >> ELSE << [rs[1] EXCEPT !.i = i] >>
      [] e.r = "behind" -> LET rs == IF i - e.w < 1 THEN << >> ELSE RM(e.b, s, [st EXCEPT !.i = i - e.w], fl) IN
                           IF (rs = << >>) # e.neg THEN << >>
                           ELSE IF e.neg THEN << st >> ELSE << [rs[1] EXCEPT !.i = i] >>
      [] e.r = "wb" -> IF (IsWordAt(s, i - 1, fl) # IsWordAt(s, i, fl)) # e.neg THEN << st >> ELSE << >>
      [] e.r = "cat" -> FoldLeft(LAMBDA sts, x : FlatMap(LAMBDA y : RM(x, s, y, fl), sts), << st >>, e.a)
      [] e.r = "alt" -> RM(e.a[1], s, st, fl) \o RM(e.a[2], s, st, fl)
      [] e.r = "grp" -> LET rs == RM(e.b, s, st, fl) IN
                        [k \in DOMAIN rs |-> [rs[k] EXCEPT !.c[e.n] = << i, rs[k].i >>]]
      [] e.r = "ref" -> IF st.c[e.n] = << >> THEN << >>
                        ELSE LET t == SubSeq(s, st.c[e.n][1], st.c[e.n][2] - 1)
                                 u == SubSeq(s, i, MinI(i + Len(t) - 1, Len(s))) IN
                             IF u = t \/ FoldS(u, fl) = FoldS(t, fl)
                             THEN << [st EXCEPT !.i = i + Len(t)] >> ELSE << >>
      [] OTHER -> RRep(e, s, st, fl, 0, 0)
\* after k repetitions, the last of which began at position last (0: none)
RRep(e, s, st, fl, k, last) ==
    LET more == IF (e.hi = -1 \/ k < e.hi) /\ (k < e.lo \/ st.i # last)
                THEN FlatMap(LAMBDA y : RRep(e, s, y, fl, k + 1, st.i), RM(e.b, s, st, fl)) ELSE << >>
        stop == IF k >= e.lo THEN << st >> ELSE << >> IN
    IF e.lazy THEN stop \o more ELSE more \o stop

St0(rx, i) == [i |-> i, c |-> [g \in 1..rx.n |-> << >>]]
\* first match at exactly position i (which, if adv, must not be empty): sequence of 0 or 1 states
MatchAt(rx, s, i, fl, adv) ==
    LET rs == RM(rx.e, s, St0(rx, i), fl)
        ok == IF adv THEN SelectSeq(rs, LAMBDA y : y.i # i) ELSE rs IN
    IF ok = << >> THEN << >> ELSE << ok[1] >>
\* a match: [b |-> begin, e |-> end (exclusive), c |-> captures, s |-> subject]
Mt(s, i, st) == [b |-> i, e |-> st.i, c |-> st.c, s |-> s]
RECURSIVE SearchFrom(_, _, _, _, _)
SearchFrom(rx, s, i, fl, adv) ==
    IF i > Len(s) + 1 THEN << >>
    ELSE LET r == MatchAt(rx, s, i, fl, adv) IN
         IF r # << >> THEN << Mt(s, i, r[1]) >> ELSE SearchFrom(rx, s, i + 1, fl, FALSE)
\* all non-overlapping matches
RECURSIVE FindIter(_, _, _, _, _)
FindIter(rx, s, i, fl, adv) ==
    LET r == SearchFrom(rx, s, i, fl, adv) IN
    IF r = << >> THEN << >> ELSE r \o FindIter(rx, s, r[1].e, fl, r[1].b = r[1].e)
AllMatches(rx, s, fl) == FindIter(rx, s, 1, fl, FALSE)
FirstMatch(rx, s, fl) == SearchFrom(rx, s, 1, fl, FALSE)
WholeMatch(rx, s, fl) ==
    LET rs == SelectSeq(RM(rx.e, s, St0(rx, 1), fl), LAMBDA y : y.i = Len(s) + 1) IN
    IF rs = << >> THEN << >> ELSE << Mt(s, 1, rs[1]) >>
MText(m) == SubSeq(m.s, m.b, m.e - 1)
MGroup(m, g) == IF m.c[g] = << >> THEN "" ELSE SubSeq(m.s, m.c[g][1], m.c[g][2] - 1)

\* replace every match: pieces of s between matches and reps[k] for match k
SubWith(s, ms, reps) ==
    LET n == Len(ms)
        piece(k) == SubSeq(s, IF k = 1 THEN 1 ELSE ms[k - 1].e, (IF k > n THEN Len(s) + 1 ELSE ms[k].b) - 1) IN
    Concat([k \in 1..(n + 1) |-> piece(k) \o (IF k > n THEN "" ELSE reps[k])])

(* A Pattern used as a replacement: & is the whole match, \1 a group, \& an
   ampersand, \\ a backslash.  Pieces: [l |-> text] or [g |-> group] (0: all);
   the result is [x, p]. *)
RECURSIVE ReplPieces(_, _, _, _)
ReplPieces(s, i, lit, acc) ==
    IF i > Len(s) THEN [x |-> "", p |-> acc \o << [l |-> lit] >>]
    ELSE LET c == At(s, i)
             d == IF i < Len(s) THEN At(s, i + 1) ELSE "" IN
    IF c = "&" THEN ReplPieces(s, i + 1, "", acc \o << [l |-> lit], [g |-> 0] >>)
    ELSE IF c # "\\" THEN ReplPieces(s, i + 1, lit \o c, acc)
    ELSE IF d = "&" THEN ReplPieces(s, i + 2, lit \o "&", acc)
    ELSE IF d = "\\"
    THEN IF i + 2 <= Len(s) /\ At(s, i + 2) = "&" THEN [x |-> "X", p |-> << >>]
         ELSE ReplPieces(s, i + 2, lit \o "\\", acc)
    ELSE IF d \in Digits \ {"0"}
    THEN LET g == GroupAt(s, i) IN
         IF g.j = 0 THEN [x |-> "X", p |-> << >>]
         ELSE ReplPieces(s, g.j, "", acc \o << [l |-> lit], [g |-> g.g] >>)
    ELSE IF d \in DOMAIN CtrlEsc THEN ReplPieces(s, i + 2, lit \o CtrlEsc[d], acc)
    ELSE IF d = "" THEN [x |-> "F", p |-> << >>]
    ELSE IF d \in Uppers \cup Lowers \cup {"0"} THEN [x |-> IF d \in SetOf("abvg0") THEN "X" ELSE "F", p |-> << >>]
    ELSE ReplPieces(s, i + 1, lit \o "\\", acc)
ReplText(m, ps) == Concat([k \in DOMAIN ps |->
                     IF "l" \in DOMAIN ps[k] THEN ps[k].l
                     ELSE IF ps[k].g = 0 THEN MText(m) ELSE MGroup(m, ps[k].g)])
=============================================================================
