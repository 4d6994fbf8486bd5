------------------------------- MODULE PipText -------------------------------
(***************************************************************************)
(* Text.  Pip source code, Pip Scalars and Pip output are all TLA+ strings. *)
(* This module gives the character-level vocabulary: characters, codes,     *)
(* classification, case, searching, splitting, replacing and comparing.     *)
(* ASCII characters, and some others (Others), have a code here; the code   *)
(* of any other character is -1, and what needs one says so (see NoCode).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

At(s, i) == SubSeq(s, i, i)             \* the i-th character (1-based)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
From(s, i) == SubSeq(s, i, Len(s))

\* characters beyond ASCII, of two or three bytes each, some with case, some letters without
Others == (176 :> "°") @@ (201 :> "É") @@ (209 :> "Ñ") @@ (223 :> "ß") @@ (233 :> "é") @@ (241 :> "ñ") @@ (923 :> "Λ") @@ (955 :> "λ")
          @@ (1071 :> "Я") @@ (1103 :> "я") @@ (8364 :> "€") @@ (20013 :> "中")
CharOf == [n \in {9, 10, 12, 13} \cup 32..126 \cup DOMAIN Others |->
             CASE n = 9 -> "\t" [] n = 10 -> "\n" [] n = 12 -> "\f" [] n = 13 -> "\r"
               [] n > 126 -> Others[n]
               [] OTHER -> SubSeq(Ascii, n - 31, n - 31)]
OrdFn == [c \in {CharOf[n] : n \in DOMAIN CharOf} |->
             CHOOSE n \in DOMAIN CharOf : CharOf[n] = c]
HasCode(c) == c \in DOMAIN OrdFn
Ord(c) == IF c \in DOMAIN OrdFn THEN OrdFn[c] ELSE -1
NoCode(s) == \E i \in 1..Len(s) : ~HasCode(At(s, i))

SetOf(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
Uppers == SetOf("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
Lowers == SetOf("abcdefghijklmnopqrstuvwxyz")
Digits == SetOf("0123456789")
Blanks == {" ", "\t", "\n", "\r", "\f"}
WordChars == Uppers \cup Lowers \cup Digits \cup {"_"}
OtherWordChars == SetOf("ÉéÑñßΛλЯя中")

\* (these, as opposed to Uppers and Lowers, are all the letters with case)
UpFn == [c \in Lowers \cup SetOf("éñλя") |-> CASE c = "é" -> "É" [] c = "ñ" -> "Ñ" [] c = "λ" -> "Λ" [] c = "я" -> "Я"
                                              [] OTHER -> CharOf[OrdFn[c] - 32]]
LoFn == [c \in {UpFn[d] : d \in DOMAIN UpFn} |-> CHOOSE d \in DOMAIN UpFn : UpFn[d] = c]
IsLetter(c) == c \in DOMAIN UpFn \cup DOMAIN LoFn \cup {"ß"}
UpC(c) == IF c \in DOMAIN UpFn THEN UpFn[c] ELSE IF c = "ß" THEN "SS" ELSE c
TitleC(c) == IF c = "ß" THEN "Ss" ELSE UpC(c)
LoC(c) == IF c \in DOMAIN LoFn THEN LoFn[c] ELSE c
SwC(c) == IF c \in DOMAIN LoFn THEN LoFn[c] ELSE UpC(c)
\* how many bytes the text is in UTF-8
Bytes(s) == FoldLeft(LAMBDA n, c : n + (IF Ord(c) < 128 THEN 1 ELSE IF Ord(c) < 2048 THEN 2 ELSE 3), 0, Chars(s))
MapC(f(_), s) == FoldLeftDomain(LAMBDA a, i : a \o f(At(s, i)), "", Chars(s))
UpS(s) == Concat([i \in 1..Len(s) |-> UpC(At(s, i))])
LoS(s) == Concat([i \in 1..Len(s) |-> LoC(At(s, i))])
SwS(s) == Concat([i \in 1..Len(s) |-> SwC(At(s, i))])
RevS(s) == Concat([i \in 1..Len(s) |-> At(s, Len(s) + 1 - i)])

\* First index >= i whose character satisfies / does not satisfy; Len+1 if none
RECURSIVE FirstIn(_, _, _)
FirstIn(s, i, set) == IF i > Len(s) THEN i
                      ELSE IF At(s, i) \in set THEN i ELSE FirstIn(s, i + 1, set)
RECURSIVE FirstNotIn(_, _, _)
FirstNotIn(s, i, set) == IF i > Len(s) THEN i
                         ELSE IF At(s, i) \notin set THEN i ELSE FirstNotIn(s, i + 1, set)
LastNotIn(s, set) ==                      \* 0 if none
    LET ok == {i \in 1..Len(s) : At(s, i) \notin set} IN
    IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : j <= i

LStripS(s, set) == From(s, FirstNotIn(s, 1, set))
RStripS(s, set) == SubSeq(s, 1, LastNotIn(s, set))
StripS(s, set) == RStripS(LStripS(s, set), set)

StartsAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p

\* Position of the first occurrence of p in s at or after i, 0 if none.
\* As in Python, the empty string occurs everywhere, including after the end.
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                     ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
                     ELSE FindFrom(s, p, i + 1)
Occurs(p, s) == FindFrom(s, p, 1) > 0

\* Non-overlapping occurrences (Python's str.count)
RECURSIVE CountFrom(_, _, _)
CountFrom(s, p, i) == LET j == FindFrom(s, p, i) IN
                      IF j = 0 THEN 0 ELSE 1 + CountFrom(s, p, j + Len(p))
CountS(s, p) == IF p = "" THEN Len(s) + 1 ELSE CountFrom(s, p, 1)

\* Python's str.split with a nonempty separator
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, p, i) == LET j == FindFrom(s, p, i) IN
                      IF j = 0 THEN << From(s, i) >>
                      ELSE << SubSeq(s, i, j - 1) >> \o SplitFrom(s, p, j + Len(p))
SplitS(s, p) == SplitFrom(s, p, 1)

JoinS(ss, sep) == IF ss = << >> THEN ""
                  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

\* the words of s
SplitWS(s) == SelectSeq(SplitS(MapC(LAMBDA c : IF c \in Blanks THEN " " ELSE c, s), " "), LAMBDA w : w # "")

\* Python's str.replace
ReplaceS(s, p, r) ==
    IF p = "" THEN r \o Concat([i \in 1..Len(s) |-> At(s, i) \o r])
    ELSE JoinS(SplitS(s, p), r)

RECURSIVE RepeatS(_, _)
RepeatS(s, n) == IF n <= 0 \/ s = "" THEN ""
                 ELSE IF n = 1 THEN s
                 ELSE LET h == RepeatS(s, n \div 2) IN
                      IF n % 2 = 0 THEN h \o h ELSE h \o h \o s

\* Lexicographic comparison by character code
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(b) THEN FALSE
                   ELSE IF i > Len(a) THEN TRUE
                   ELSE IF At(a, i) = At(b, i) THEN LtFrom(a, b, i + 1)
                   ELSE Ord(At(a, i)) < Ord(At(b, i))
LtS(a, b) == LtFrom(a, b, 1)

Lines(s) == SplitS(s, "\n")
=============================================================================
