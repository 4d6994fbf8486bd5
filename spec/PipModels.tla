------------------------------- MODULE PipModels -------------------------------
(***************************************************************************)
(* Models of whole runs: for a property (IOEnv.PROP), the invocations made  *)
(* by choosing from some tables in every way, and a law that each of their  *)
(* runs obeys.  TLC carries all of them out; each is printed, to be         *)
(* replayed on the implementation.                                          *)
(*   C01  two tokens and what is between them, read verbosely               *)
(*   C03  programs broken off at every place, as entries of a session       *)
(*   C21  programs that read, on arguments and input given in several ways  *)
(*   C22  sessions of up to three entries                                   *)
(*   C24  command lines of up to three words, as such and asked for         *)
(***************************************************************************)
EXTENDS PipRun, Json, IOUtils

CONSTANTS K, Limit

VARIABLES chosen, stepnum
mvars == << chosen, stepnum, invocation, phase, machine, source, pending, argvals, outcome >>

BaseInv == [kind |-> "prog", src |-> "", args |-> << >>, fm |-> "p", sh |-> TRUE, i |-> FALSE, r |-> FALSE, x |-> FALSE, inp |-> << >>,
          ver |-> IOEnv.VER, help |-> IOEnv.HELP, runs |-> 1, reals |-> << >>, vb |-> FALSE, ask |-> FALSE, entry |-> "main",
          words |-> << >>, file |-> "", code |-> FALSE, form |-> "none"]

(* ------------------------------- C01 ------------------------------------- *)
Tokens == SetToSeq(OpTexts) \o
    << "x", "a", "_", "$0", "$1", "$_", "$__", "$ab", "$`", "$]", "\\a", "\\g", "PI", "AZ", "B", "XW", "QQ",
       "0", "7", "12", "1.5", "\"\"", "\"a b\"", "\"'\"", "`x`", "`\\``", "`\\\\`", "''", "'a", "'\"", "'  ", "\\\"q\\\"", "\\\"a\\b\\\"",
       "(", ")", "[", "]", "{", "}", ";", "$", "\\$", "F", "I", "L", "LR", "T", "W", "WG", "EL" >>
Gaps == << " ", "\n", "\t", "  c ;\"\n", "\n;c  '\n", "{;c \"}\n;} ", " \n ", "" >>
(* ------------------------------- C03 ------------------------------------- *)
Whole == << "x:[1 2 3];P x", "I x {P 1} EL {P 2}", "I 0 P 1 EI 1 P 2 EL P 3", "F i ,3 P i", "F [i k] l {P i;P k}", "L 3 {P \"ab\"}", "LR `a.` \"abac\" {P $0}",
            "W x<3 {U x}", "T x>3 {U x}", "f:{a+b*2};(f 1 2)", "x ? 1 (2 3)", "(x y)@<z", "x@[1 2]:[3 4]", "[a b]:[b a]", "$+[1 2 3]", "\\$*:,5",
            "-*[1 2]", "P(\"a;b\".'c)", "{a ? `x` \"y\"} M [1 2 0]", "WG", "x ? y ? 1 2 3", "P \\\"a\\(x)b\\\"", "Y [[1];[2 ()]]", "x==y<z!=3", "f:{ }  c", "U x;D y;x::y",
            "{;c;}P 1", "S M {[a;b]} FI \"ab\" , 3", "P P P x", "x@1@2.:3", "((1;2);3)", "R \"a\" \"b\"" >>
(* ------------------------------- C21 ------------------------------------- *)
Readers == << "q", "P q", "RPq", "a", "RPg", "RPb", "[q q]", "q.a", "x:q;x.x", "W q P 1", "\\a.\\b", "RP[\\g a #g]", "a:q;g", "P a;q", "g@1", "Fig P i", "I q P q", "q?q q", "q|q", "L2 O q", "c", "WG", "RPe",
              "{q}M[1 2]", "({RPg}q a)" >>
ArgLists == << << >>, << "5" >>, << "a b", "" >>, << "-1", "[1 2]", "x" >>, << "1", "2", "3", "4", "5", "6" >> >>
Inputs == << << >>, << "7" >>, << "", "x y" >>, << "[3]", "q", "9" >> >>
Ways21 == << "plain", "readlines", "code", "codelines", "stdin" >>
(* ------------------------------- C22 ------------------------------------- *)
Entries == << "x", "x:3", "x+:1", "[1 2]", "$_", "[$__ $___]", "()", "P 5", "(", "1)", "{a", "}", "\"ab", "f:{x:a l:a a*2}", "(f 4)", "f", "5/0", "V\")\"", "l", ")", "3;4", ";w", ";x", ";h", ";w on", "", "q", "{(fa)V\"(\"}8",
              "a:6 a", "a", "({a:9 5/()}1)", "F i,2P i" >>
(* ------------------------------- C24 ------------------------------------- *)
Flagged == << "-p", "-P", "-S", "-l", "-w", "-v", "-d", "-r", "-x", "-i", "-R", "-V", "-pw", "-vs", "-se", "-e", "--execute=[1 [2 a]]", "--repr", "--rep", "--space", "--lin", "-f", "code.pip", "none.pip", "q", "[a[7 8]]", "5/0", "3+", "--", "-5",
              "a b", "", "-z", "-h", "-er", "--file=code.pip", "-pS", "--ex", "-w5", "-" >>
CLInput == << "[[q 1] a]", "P x", "k" >>

Axes(id) == CASE id = "C01" -> << Len(Tokens), Len(Gaps), Len(Tokens), 1, 1 >>
              [] id = "C03" -> << Len(Whole), 36, 1, 1, 1 >>
              [] id = "C21" -> << Len(Readers), Len(Readers), Len(ArgLists), Len(Inputs), Len(Ways21) >>
              [] id = "C22" -> << Len(Entries), Len(Entries), Len(Entries) + 1, 1, 1 >>
              [] id = "C24" -> << Len(Flagged), Len(Flagged) + 1, Len(Flagged) + 1, 2, 1 >>
              [] OTHER -> << 0, 0, 0, 0, 0 >>
\* an index one too large: nothing
Chosen(ch, js, tab) == FlattenSeq([n \in DOMAIN js |-> IF ch[js[n]] > Len(tab) THEN << >> ELSE << tab[ch[js[n]]] >>])
Quoted(w) == IF Occurs("'", w) THEN "\"" \o w \o "\"" ELSE "'" \o w \o "'"
Make(id, ch) ==
    CASE id = "C01" -> [BaseInv EXCEPT !.src = "{" \o Tokens[ch[1]] \o Gaps[ch[2]] \o Tokens[ch[3]] \o "\n}", !.vb = TRUE]
      [] id = "C03" -> [BaseInv EXCEPT !.kind = "repl", !.inp = << SubSeq(Whole[ch[1]], 1, ch[2]), From(Whole[ch[1]], ch[2] + 1), "x" >>]
      [] id = "C21" ->
           LET w == Ways21[ch[5]]
               p == Readers[ch[1]] \o ";" \o Readers[ch[2]]
               base == [BaseInv EXCEPT !.src = p, !.inp = Inputs[ch[4]]] IN
           CASE w = "plain" -> [base EXCEPT !.args = ArgLists[ch[3]]]
             [] w = "readlines" -> [base EXCEPT !.r = TRUE, !.args = ArgLists[ch[3]]]
             [] w = "code" -> [base EXCEPT !.x = TRUE, !.args = ArgLists[ch[3]]]
             [] w = "codelines" -> [base EXCEPT !.x = TRUE, !.r = TRUE, !.args = ArgLists[ch[3]]]
             [] OTHER -> [base EXCEPT !.src = "", !.i = TRUE, !.inp = << Readers[ch[1]], Readers[ch[2]] >>, !.args = ArgLists[ch[3]]]
      [] id = "C22" -> [BaseInv EXCEPT !.kind = "repl", !.fm = "", !.inp = Chosen(ch, << 1, 2, 3 >>, Entries)]
      [] id = "C24" ->
           LET ws == Chosen(ch, << 1, 2, 3 >>, Flagged)
               base == [BaseInv EXCEPT !.kind = "cmd", !.fm = "", !.sh = FALSE, !.file = "[a[q 2]]"] IN
           IF ch[4] = 1 THEN [base EXCEPT !.words = ws, !.inp = CLInput]
           ELSE [base EXCEPT !.inp = << JoinS([j \in DOMAIN ws |-> Quoted(ws[j])], " ") >> \o CLInput]
      [] OTHER -> BaseInv

(* -------------------------------- laws ----------------------------------- *)
\* tokens that are apart are read as such
TwoTokens(ch) == LET src == invocation.src
                     s == Scan(src)
                     t1 == Tokens[ch[1]]
                     t2 == Tokens[ch[3]] IN
                 (s.x = "" /\ Gaps[ch[2]] # "" /\ t1 \notin {"$", ";"} /\ t2 # ";" /\ \A tk \in {t1, t2} : ~Occurs("  ", tk) \* (nor a comment)
                     /\ ~(t1 = "\\" \/ t2 = "\\"))
                 => [j \in DOMAIN s.toks |-> s.toks[j].x] = << "{", t1, t2, "}", "" >>
\* a program broken off between tokens is not malformed
BrokenOff(ch) == LET w == Whole[ch[1]]
                     front == SubSeq(w, 1, ch[2])
                     cut == Scan(front)
                     toks == Scan(w).toks
                     k == Len(cut.toks) - 1 IN
                 (cut.x = "" /\ k < Len(toks) /\ Front(cut.toks) = SubSeq(toks, 1, k)) => Read(front).x # "bad"
\* the session survives every line
Survives == /\ outcome = "ok"
            /\ LET n == Len(machine.out) IN SubSeq(machine.out, n - 4, n) = "Bye!\n"
            /\ machine.sc[2] = << >>
\* (what is asked for comes to the same as what is given)
Meant(ws) == ParseWords(ws)
Split(w) == IF Len(w) > 2 /\ WordAt(w).k = "opt" /\ ~WordAt(w).lg /\ SetOf(From(w, 2)) \subseteq (Letters \ WithText)
            THEN [j \in 1..(Len(w) - 1) |-> "-" \o At(w, j + 1)] ELSE << w >>
Letter(w) == IF Len(w) > 2 /\ WordAt(w).k = "opt" /\ WordAt(w).lg /\ ~WordAt(w).has THEN "-" \o WordAt(w).o ELSE w
OneByOne(ws) == FlattenSeq([j \in DOMAIN ws |-> IF \E n \in DOMAIN ws : ws[n] = "--" /\ n <= j THEN << ws[j] >> ELSE Split(Letter(ws[j]))])
SameMeaning(ch) == LET ws == Chosen(ch, << 1, 2, 3 >>, Flagged) IN
                   /\ SplitWords(JoinS([j \in DOMAIN ws |-> Quoted(ws[j])], " ")) = ws
                   /\ Meant(ws).st = "" => Meant(OneByOne(ws)) = Meant(ws)
                   /\ Meant(ws).st = "" => Cardinality(Meant(ws).seen \cap CodeSources) <= 1 /\ Cardinality(Meant(ws).seen \cap ListFormats) <= 1
Lawful(id, ch) == CASE id = "C01" -> TwoTokens(ch)
                    [] id = "C03" -> BrokenOff(ch) /\ Survives
                    [] id = "C22" -> Survives
                    [] id = "C24" -> SameMeaning(ch) /\ outcome \in {"ok", "fatal", "usage"}
                    [] OTHER -> outcome \in {"ok", "fatal"}

Mod1 == atoi(IOEnv.MOD)
RECURSIVE Mixed(_, _)
Mixed(ch, i) == IF i > Len(ch) THEN 0 ELSE (ch[i] + 67 * Mixed(ch, i + 1)) % 65521
Picked(id, ch) == /\ Mixed(ch, 1) % Mod1 = atoi(IOEnv.OFF) % Mod1
                  /\ id = "C03" => ch[2] <= Len(Whole[ch[1]])
                  /\ id = "C24" => (ch[2] > Len(Flagged) => ch[3] > Len(Flagged))
MInit ==
    /\ stepnum = 0
    /\ \E n1 \in 1..Axes(IOEnv.PROP)[1], n2 \in 1..Axes(IOEnv.PROP)[2], n3 \in 1..Axes(IOEnv.PROP)[3],
          n4 \in 1..Axes(IOEnv.PROP)[4], n5 \in 1..Axes(IOEnv.PROP)[5] :
          /\ chosen = << n1, n2, n3, n4, n5 >>
          /\ Picked(IOEnv.PROP, chosen)
          /\ InitWith(Make(IOEnv.PROP, chosen))
MStep(k) ==
    \/ /\ phase \notin {"end", "judged"} /\ stepnum < Limit /\ Next(k) /\ stepnum' = stepnum + 1 /\ UNCHANGED chosen
    \/ /\ phase \notin {"end", "judged"} /\ stepnum >= Limit /\ End(machine, "oom") /\ stepnum' = stepnum + 1 /\ UNCHANGED chosen
    \/ /\ phase = "end" /\ phase' = "judged" /\ stepnum' = stepnum + 1
       /\ PrintT("BEHAVIOUR" \o ToJson([inv |-> Make(IOEnv.PROP, chosen), oc |-> outcome, out |-> machine.out, rd |-> machine.rd, sg |-> Segs]))
       /\ UNCHANGED << chosen, invocation, machine, source, pending, argvals, outcome >>
MNext == << MStep(K) >>_mvars
MView == << chosen, stepnum, machine.rng.log >>
LawOfRuns == (phase = "end" /\ outcome # "oom") => Lawful(IOEnv.PROP, chosen)
MOutGrows == [][OutGrows]_mvars
================================================================================
