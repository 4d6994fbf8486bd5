------------------------------ MODULE PipCommand ------------------------------
(***************************************************************************)
(* The command line: splitting a line into words, and what the words ask    *)
(* for.                                                                     *)
(***************************************************************************)
EXTENDS PipText

Gap == "\f"     \* in the prescribed output: any text

(* ------------------------- a line and its words -------------------------- *)
\* Words are parted by spaces; '...' and "..." keep theirs, and may be empty.
\* (A word whose quote is not closed is dropped.)
\* q: the quote we are in or "";  b: the word so far;  in: whether there is one
RECURSIVE QuotedFrom(_, _, _, _, _, _)
QuotedFrom(tx, i, q, b, in, acc) ==
    IF i > Len(tx) THEN acc
    ELSE LET c == At(tx, i) IN
         IF c \in {"'", "\""}
         THEN IF q = "" THEN QuotedFrom(tx, i + 1, c, b, TRUE, acc)
              ELSE IF q = c THEN QuotedFrom(tx, i + 1, "", b, TRUE, acc)
              ELSE QuotedFrom(tx, i + 1, q, b \o c, TRUE, acc)
         ELSE IF c = " " /\ q = ""
         THEN QuotedFrom(tx, i + 1, "", "", FALSE, IF in THEN Append(acc, b) ELSE acc)
         ELSE QuotedFrom(tx, i + 1, q, b \o c, TRUE, acc)
SplitWords(tx) == QuotedFrom(tx \o " ", 1, "", "", FALSE, << >>)

(* -------------------------------- options -------------------------------- *)
LongOpts == << << "help", "h" >>, << "debug", "d" >>, << "execute", "e" >>, << "file", "f" >>, << "stdin", "i" >>, << "repl", "R" >>,
               << "lines", "l" >>, << "newline", "n" >>, << "repr", "p" >>, << "reprlines", "P" >>, << "readlines", "r" >>, << "space", "s" >>,
               << "spacelines", "S" >>, << "verbose", "v" >>, << "version", "V" >>, << "warnings", "w" >>, << "exec-args", "x" >> >>
Letters == {LongOpts[j][2] : j \in DOMAIN LongOpts}
WithText == {"e", "f"}                          \* options that are followed by a text
CodeSources == {"e", "f", "i", "R"}             \* at most one of these is given,
ListFormats == {"l", "n", "p", "P", "s", "S"}   \* and one of these
Clash(seen, o) == \E g \in {CodeSources, ListFormats} : o \in g /\ seen \cap (g \ {o}) # {}

\* What a word is: [k, o, has, x]: "opt" (with letter o and, if has, text x attached),
\* "arg", "bad" (ambiguous), "unk" (looks like an option); lg: written with --
Word(kk, o, has, xx, lg) == [k |-> kk, o |-> o, has |-> has, x |-> xx, lg |-> lg]
NegNumber(w) == LET t == From(w, 2)
                    d == FirstNotIn(t, 1, Digits) IN
                \/ t # "" /\ d > Len(t)
                \/ At(t, d) = "." /\ d < Len(t) /\ FirstNotIn(t, d + 1, Digits) > Len(t)
OtherWord(w) == IF NegNumber(w) \/ Occurs(" ", w) THEN Word("arg", "", FALSE, "", FALSE) ELSE Word("unk", "", FALSE, "", FALSE)
LongWord(w) ==
    LET e == FindFrom(w, "=", 1)
        name == SubSeq(w, 3, IF e = 0 THEN Len(w) ELSE e - 1)
        rest == IF e = 0 THEN "" ELSE From(w, e + 1)
        exact == {j \in DOMAIN LongOpts : LongOpts[j][1] = name}
        some == {j \in DOMAIN LongOpts : StartsAt(LongOpts[j][1], 1, name)}
        hits == IF exact # {} THEN exact ELSE some IN
    IF hits = {} THEN OtherWord(w)
    ELSE IF Cardinality(hits) > 1 THEN Word("bad", "", FALSE, "", TRUE)
    ELSE Word("opt", LongOpts[CHOOSE j \in hits : TRUE][2], e # 0, rest, TRUE)
ShortWord(w) ==
    LET o == At(w, 2) IN
    IF o \notin Letters THEN OtherWord(w)
    ELSE IF Len(w) = 2 THEN Word("opt", o, FALSE, "", FALSE)
    ELSE IF At(w, 3) = "=" THEN Word("opt", o, TRUE, From(w, 3), FALSE)
    ELSE Word("opt", o, TRUE, From(w, 3), FALSE)
WordAt(w) == IF w = "" \/ At(w, 1) # "-" \/ Len(w) = 1 THEN Word("arg", "", FALSE, "", FALSE)
             ELSE IF At(w, 2) = "-" THEN LongWord(w) ELSE ShortWord(w)

\* options in one word: << letters taken, text for the last or None >>
\* st: "" | "err" | "more" (the text is the next word) | "extra" (an unknown letter)
RECURSIVE Cluster(_, _, _)
Cluster(o, rest, taken) ==     \* rest: what follows letter o in the word
    IF o \in WithText
    THEN IF rest = "" THEN [st |-> "more", os |-> Append(taken, o), x |-> ""]
         ELSE [st |-> "text", os |-> Append(taken, o), x |-> IF At(rest, 1) = "=" THEN From(rest, 2) ELSE rest]
    ELSE IF rest = "" THEN [st |-> "", os |-> Append(taken, o), x |-> ""]
    ELSE IF At(rest, 1) \in {"=", "-"} THEN [st |-> "err", os |-> taken, x |-> ""]
    ELSE IF At(rest, 1) \notin Letters THEN [st |-> "extra", os |-> Append(taken, o), x |-> ""]
    ELSE Cluster(At(rest, 1), From(rest, 2), Append(taken, o))
Taken(wd) == IF ~wd.has THEN [st |-> IF wd.o \in WithText THEN "more" ELSE "", os |-> << wd.o >>, x |-> ""]
             ELSE IF wd.lg THEN [st |-> IF wd.o \in WithText THEN "text" ELSE "err", os |-> << wd.o >>, x |-> wd.x]
             ELSE Cluster(wd.o, wd.x, << >>)

\* r: [st, seen, ec, fc, args, pos, extra]; st: "" | "usage" | "help"
Fresh == [st |-> "", seen |-> {}, ec |-> "", fc |-> "", args |-> << >>, pos |-> FALSE, extra |-> FALSE]
RECURSIVE TakeAll(_, _, _)
TakeAll(r, os, tx) ==      \* the options os, the last of which has text tx
    IF os = << >> \/ r.st # "" THEN r
    ELSE LET o == os[1] IN
         IF o = "h" THEN [r EXCEPT !.st = "help"]
         ELSE IF Clash(r.seen, o) THEN [r EXCEPT !.st = "usage"]
         ELSE TakeAll([r EXCEPT !.seen = @ \cup {o}, !.ec = IF o = "e" THEN tx ELSE @, !.fc = IF o = "f" THEN tx ELSE @], Tail(os), tx)
\* where the words that are no options end
RECURSIVE ArgsEnd(_, _)
ArgsEnd(ws, i) == IF i > Len(ws) \/ ws[i] = "--" THEN i
                  ELSE IF WordAt(ws[i]).k = "arg" THEN ArgsEnd(ws, i + 1) ELSE i
DropDash(ws) == LET j == {i \in DOMAIN ws : ws[i] = "--"} IN
                IF j = {} THEN ws ELSE LET m == CHOOSE i \in j : \A n \in j : i <= n IN SubSeq(ws, 1, m - 1) \o SubSeq(ws, m + 1, Len(ws))
RECURSIVE WordsFrom(_, _, _)
WordsFrom(ws, i, r) ==
    IF r.st # "" THEN r
    ELSE IF i > Len(ws) THEN IF r.extra THEN [r EXCEPT !.st = "usage"] ELSE r
    ELSE LET j == ArgsEnd(ws, i) IN
         IF j > i \/ ws[i] = "--"      \* arguments: all in one place
         THEN LET e == IF j <= Len(ws) /\ ws[j] = "--" THEN Len(ws) + 1 ELSE j IN
              WordsFrom(ws, e, IF r.pos THEN [r EXCEPT !.extra = TRUE]
                               ELSE [r EXCEPT !.pos = TRUE, !.args = DropDash(SubSeq(ws, i, e - 1))])
         ELSE LET wd == WordAt(ws[i])
                  tk == Taken(wd) IN
              IF wd.k = "unk" THEN WordsFrom(ws, i + 1, [r EXCEPT !.extra = TRUE])
              ELSE CASE tk.st = "err" -> [r EXCEPT !.st = "usage"]
                     [] tk.st = "more" -> IF i = Len(ws) \/ ws[i + 1] = "--" \/ WordAt(ws[i + 1]).k # "arg" THEN [r EXCEPT !.st = "usage"]
                                          ELSE WordsFrom(ws, i + 2, TakeAll(r, tk.os, ws[i + 1]))
                     [] OTHER -> WordsFrom(ws, i + 1, TakeAll([r EXCEPT !.extra = @ \/ tk.st = "extra"], tk.os, tk.x))
Before(ws) == LET j == {i \in DOMAIN ws : ws[i] = "--"} IN
              IF j = {} THEN DOMAIN ws ELSE {i \in DOMAIN ws : \A n \in j : i < n}
ParseWords(ws) == IF \E i \in Before(ws) : WordAt(ws[i]).k = "bad" THEN [Fresh EXCEPT !.st = "usage"]
                  ELSE WordsFrom(ws, 1, Fresh)
================================================================================
