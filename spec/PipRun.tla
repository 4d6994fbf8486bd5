-------------------------------- MODULE PipRun --------------------------------
(***************************************************************************)
(* One run of the interpreter, from the command line to its end: the        *)
(* invocation, the reading of the program and its arguments, the execution, *)
(* and the read-eval-print loop.  What the user can observe is              *)
(*   machine.out  everything written to standard output                     *)
(*   machine.rd   how much of it was written when each input line was read  *)
(*   Segs         whether anything was reported (on the error stream)       *)
(*                before, between and after the readings                    *)
(*   outcome      how the run ended: "ok" or "fatal" ("oom": not modelled)  *)
(*                                                                         *)
(* The invocation is a record:                                              *)
(*   kind  "prog" or "repl"                                                 *)
(*   src   the code, unless read from standard input                        *)
(*   args  the arguments given, text                                        *)
(*   fm    the list format flag, "" or a letter                             *)
(*   sh    whether warnings are shown                                       *)
(*   i     whether the code is read from standard input                     *)
(*   r     whether the arguments are read from standard input               *)
(*   x     whether the arguments are code                                   *)
(*   inp   the lines of standard input                                      *)
(*   ver, help  the version and help text of the read-eval-print loop       *)
(*   runs  how often the program is run (the outputs follow each other)     *)
(*   reals numbers, as text, that r may yield (of the many that it can)     *)
(*   vb    whether what is being done is shown (sizes, tokens, tree)        *)
(*   ask   whether we are asking for the command line and the program       *)
(*   entry "main" (the command line), or "run" (the Python function)        *)
(* With kind "cmd" the rest is to be found from                             *)
(*   words  the words of the command line                                   *)
(*   file   the content of the file called code.pip (there is no other)     *)
(* and, for the function,                                                   *)
(*   code   whether it is given the code src                                *)
(*   form   how it is given the command line: "none", "list" (words), or    *)
(*          "text" (the first of words)                                     *)
(***************************************************************************)
EXTENDS PipMachine, PipCommand

VARIABLES invocation, phase, machine, source, pending, argvals, outcome
vars == << invocation, phase, machine, source, pending, argvals, outcome >>
\* phase    what the run is doing
\* source   the text read so far; pending: statements or arguments still to do
\* argvals  the argument values so far
\* (None of these names is a parameter anywhere: TLC would then not evaluate
\* the constants whose definitions use it in advance.)

\* Actions are given k, the number of machine steps that make one step here.
\* (All of them have this parameter because TLC's preprocessing of definitions
\* without parameters takes long when there are many; for the same reason a
\* value is bound by \E x \in {value} rather than by LET x == value.)

\* the end of a run: the last, or the program is run once more.  Only the
\* output (and whether anything was reported) and what is known of the random
\* numbers is kept.
Afresh(mm) == [Blank("", FALSE, << >>) EXCEPT !.out = mm.out, !.w = mm.w,
                                              !.rng = [mm.rng EXCEPT !.hist = << >>, !.tape = << >>]]
End(mm, how) == IF invocation.runs > 1 /\ how # "oom"
                THEN /\ phase' = "start" /\ machine' = Afresh(mm) /\ outcome' = how
                     /\ invocation' = [invocation EXCEPT !.runs = @ - 1]
                     /\ source' = "" /\ pending' = << >> /\ argvals' = << >>
                ELSE /\ phase' = "end" /\ machine' = mm /\ outcome' = how
                     /\ UNCHANGED << invocation, source, pending, argvals >>
\* (the function says that something is wrong, and returns)
Fatal(mm) == End(Report(mm), IF invocation.entry = "run" THEN "ok" ELSE "fatal")

InitWith(c) == /\ invocation = c /\ phase = "start" /\ source = "" /\ pending = << >> /\ argvals = << >> /\ outcome = ""
               /\ machine = Blank("", FALSE, << >>)

(* --------------------------- the command line ---------------------------- *)
Talking(c) == IF c.entry = "main" THEN c.words = << >> ELSE ~c.code /\ c.form = "none"
Welcome == "=== Welcome to Pip, version " \o invocation.ver \o " ===\nEnter command-line args, terminated by newline (-h for help, -R for repl):\n"
Greet(k) ==        \* nothing is given: the command line is asked for
    /\ phase = "start" /\ invocation.kind = "cmd" /\ ~invocation.ask /\ Talking(invocation)
    /\ LET m0 == Put([machine EXCEPT !.inp = invocation.inp], Welcome) IN
       IF m0.inp = << >> THEN End(Reading(m0), "ok")
       ELSE /\ machine' = Reading(m0)
            /\ invocation' = [invocation EXCEPT !.ask = TRUE, !.words = SplitWords(m0.inp[1]), !.inp = Tail(@)]
            /\ UNCHANGED << phase, source, pending, argvals, outcome >>
GivenWords(c) == CASE c.ask -> c.words
                   [] c.entry = "main" \/ c.form = "list" -> c.words
                   [] c.form = "text" -> SplitWords(c.words[1])
                   [] OTHER -> << >>
\* what the options o ask for, in the terms of an invocation
Format(o) == IF o.seen \cap {"p", "d"} # {} THEN "p" ELSE IF "P" \in o.seen THEN "P" ELSE IF "s" \in o.seen THEN "s"
             ELSE IF "S" \in o.seen THEN "S" ELSE IF "n" \in o.seen THEN "n" ELSE IF "l" \in o.seen THEN "l" ELSE ""
Asked(o) == [invocation EXCEPT !.kind = "prog", !.fm = Format(o), !.sh = o.seen \cap {"w", "d"} # {}, !.vb = o.seen \cap {"v", "d"} # {},
                               !.r = "r" \in o.seen, !.x = "x" \in o.seen, !.args = o.args]
Become(c, mm) == invocation' = c /\ machine' = mm /\ UNCHANGED << phase, source, pending, argvals, outcome >>
FromFile(c, name, mm) ==
    LET m1 == IF c.ask THEN Put(mm, "Reading " \o name \o "\n") ELSE mm IN
    IF name = "code.pip" THEN Become([c EXCEPT !.src = c.file], m1) ELSE Fatal(m1)
Obey(k) ==         \* the options say what is to be done
    /\ phase = "start" /\ invocation.kind = "cmd" /\ (invocation.ask \/ ~Talking(invocation))
    /\ \E o \in {ParseWords(GivenWords(invocation))} :
       LET c == Asked(o) IN
       CASE o.st = "usage" -> End(Report(machine), "usage")
         [] o.st = "help" -> End(Put(machine, Gap), "ok")
         [] o.st = "" /\ "V" \in o.seen -> End(Put(machine, "Pip " \o invocation.ver \o " (updated " \o Gap \o ")\n"), "ok")
         [] o.st = "" /\ "V" \notin o.seen /\ "R" \in o.seen -> Become([c EXCEPT !.kind = "repl"], machine)
         [] OTHER ->
              CASE c.code -> Become(c, machine)
                [] ~c.code /\ "e" \in o.seen -> Become([c EXCEPT !.src = o.ec], machine)
                [] ~c.code /\ "f" \in o.seen -> FromFile(c, o.fc, machine)
                [] ~c.code /\ "i" \in o.seen -> Become([c EXCEPT !.i = TRUE], machine)
                [] OTHER -> IF c.ask THEN Become([c EXCEPT !.i = TRUE], Put(machine, "Enter your program, terminated by Ctrl-D or Ctrl-Z:\n"))
                            ELSE IF o.args # << >> THEN FromFile([c EXCEPT !.args = Tail(@)], o.args[1], machine)
                            ELSE End(Put(machine, "Type " \o Gap \o " -h for usage information.\n"), "ok")

(* ------------------------------ programs -------------------------------- *)
RECURSIVE ReadAll(_)
ReadAll(mm) == IF mm.inp = << >> THEN Reading(mm) ELSE ReadAll(Reading(mm))
Plural(n, what) == ToString(n) \o " " \o what
\* what is shown of a program being read: how long it is, its tokens, its tree
Showing(mm, src, rd) ==
    IF ~invocation.vb THEN mm
    ELSE LET m1 == Put(mm, Plural(Bytes(src), "bytes (UTF-8), ") \o Plural(Len(src), "characters\n\n"))
             toks == Front(Scan(src).toks) IN
         IF rd.st = "scan" THEN m1
         ELSE Put(m1, JoinS([j \in DOMAIN toks |-> toks[j].x], " ") \o "\n\n" \o (IF rd.x = "" THEN Gap \o "\n\n" ELSE ""))
ReadSrc(k) ==      \* the program and (text of the) arguments are read
    /\ phase = "start" /\ invocation.kind = "prog"
    /\ LET m0 == [machine EXCEPT !.fm = invocation.fm, !.sh = invocation.sh, !.inp = invocation.inp]
           src == IF invocation.i THEN JoinS(invocation.inp, "\n") ELSE invocation.src
           m1 == IF invocation.i THEN ReadAll(m0) ELSE m0 IN
       \E rd \in {Read(src)} :
       LET m2 == Showing(IF rd.w THEN Report(m1) ELSE m1, src, rd)
           m3 == IF invocation.r THEN ReadAll(m2) ELSE m2
           given == IF invocation.r THEN m1.inp ELSE invocation.args IN
       IF NoCode(src) THEN End(m2, "oom")
       ELSE IF rd.x # "" THEN Fatal(m2)
       ELSE /\ machine' = m3
            /\ phase' = IF invocation.x THEN "arg" ELSE "go"
            /\ source' = src
            /\ pending' = IF invocation.x THEN given ELSE rd.e
            /\ argvals' = IF invocation.x THEN << >> ELSE [j \in DOMAIN given |-> S(given[j])]
            /\ UNCHANGED << invocation, outcome >>
ReadArg(k) ==      \* an argument that is code is read
    /\ phase = "arg" /\ pending # << >>
    /\ \E rd \in {Read(pending[1])} :
       LET m1 == IF rd.w THEN Report(machine) ELSE machine IN
       IF NoCode(pending[1]) THEN End(m1, "oom")
       ELSE IF rd.x # "" \/ rd.e = << >> THEN Fatal(m1)
       ELSE IF rd.e[1].k = "cmd" THEN Fatal(m1)
       ELSE /\ machine' = Ev([m1 EXCEPT !.k = << [f |-> "top"], << >> >>], rd.e[1])
            /\ phase' = "argrun" /\ pending' = Tail(pending)
            /\ UNCHANGED << invocation, source, argvals, outcome >>
ArgsDone(k) ==
    /\ phase = "arg" /\ pending = << >>
    /\ phase' = "go" /\ pending' = Read(source).e
    /\ UNCHANGED << invocation, machine, source, argvals, outcome >>
Go(k) ==
    /\ phase = "go" /\ phase' = "run"
    /\ machine' = Begin(IF invocation.ask THEN Put(machine, "Executing...\n") ELSE machine, pending, argvals)
    /\ UNCHANGED << invocation, source, pending, argvals, outcome >>
(* ------------------------- read-eval-print loop -------------------------- *)
Header == "Pip " \o invocation.ver \o "\nType ;help for more information.\n"
Open(k) ==
    /\ phase = "start" /\ invocation.kind = "repl"
    /\ machine' = [machine EXCEPT !.fm = invocation.fm, !.sh = invocation.sh, !.inp = invocation.inp, !.out = @ \o Header]
    /\ phase' = "prompt"
    /\ UNCHANGED << invocation, source, pending, argvals, outcome >>
Bye(mm) == End(Put(mm, "Bye!\n"), "ok")
\* what happens once the code read is complete (or bad)
IsCommand(src) == StartsAt(src, 1, ";") /\ StripS(From(src, 2), Blanks) # ""
CmdWords(src) == SplitWS(LoS(From(src, 2)))
Starts(w, s) == Len(s) <= Len(w) /\ StartsAt(w, 1, s)
Quits(src) == IsCommand(src) /\ LET w == CmdWords(src)[1] IN Starts("quit", w) \/ Starts("exit", w) \/ w = "x"
DoCommand(mm, src) ==
    IF ~IsCommand(src) THEN mm
    ELSE LET ws == CmdWords(src)
             set(b) == Report([mm EXCEPT !.sh = b]) IN
         CASE Starts("help", ws[1]) -> Put(mm, invocation.help)
           [] ~Starts("help", ws[1]) /\ Starts("warnings", ws[1]) ->
                CASE ws = << ws[1], "on" >> -> set(TRUE)
                  [] ws = << ws[1], "off" >> -> set(FALSE)
                  [] Len(ws) = 1 -> set(~mm.sh)
                  [] OTHER -> mm
           [] OTHER -> mm
ReadLine(k) ==
    /\ phase \in {"prompt", "more"}
    /\ LET m0 == Put(machine, IF phase = "prompt" THEN ">> " ELSE ".. ")
           m1 == Reading(m0)
           src == (IF phase = "prompt" THEN "" ELSE source) \o m0.inp[1] \o "\n" IN
       \E rd \in {IF m0.inp = << >> THEN [x |-> "inc", w |-> FALSE, e |-> << >>] ELSE Read(src)} :
       LET m2 == IF rd.w THEN Report(m1) ELSE m1 IN
       IF m0.inp = << >> THEN Bye(m1)
       ELSE IF NoCode(src) THEN End(m1, "oom")
       ELSE IF rd.x = "inc"
       THEN /\ machine' = m2 /\ phase' = "more" /\ source' = src
            /\ UNCHANGED << invocation, pending, argvals, outcome >>
       ELSE IF rd.x # ""
       THEN /\ machine' = Report(m2) /\ phase' = "prompt"
            /\ UNCHANGED << invocation, source, pending, argvals, outcome >>
       ELSE IF Quits(src) THEN Bye(m2)
       ELSE /\ machine' = DoCommand(m2, src) /\ phase' = "stmt" /\ source' = src /\ pending' = rd.e
            /\ UNCHANGED << invocation, argvals, outcome >>
NextStmt(k) ==
    /\ phase = "stmt"
    /\ IF pending = << >> THEN phase' = "prompt" /\ UNCHANGED << invocation, machine, source, pending, argvals, outcome >>
       ELSE /\ phase' = "stmtrun"
            /\ machine' = LET st == pending[1] IN
                    IF st.k = "cmd" THEN Command([machine EXCEPT !.k = << >>], st)
                    ELSE Ev([machine EXCEPT !.k = << [f |-> "top"], << >> >>], st)
            /\ UNCHANGED << invocation, source, pending, argvals, outcome >>

(* ------------------------------ execution -------------------------------- *)
\* (Given a parameter for the same reason as the actions.)
Reals(k) == {SN(x) : x \in {y \in {ToNum(invocation.reals[j]) : j \in DOMAIN invocation.reals} :
                               ~IsNone(y) /\ ~NLtN(y, N0) /\ NLtN(y, N1)}}
RECURSIVE BaseScope(_)
BaseScope(sc) == IF sc[2] = << >> THEN sc ELSE BaseScope(sc[2])
ArgValue(mm) == /\ machine' = mm /\ phase' = "arg" /\ argvals' = Append(argvals, mm.c)
                /\ UNCHANGED << invocation, source, pending, outcome >>
StmtDone(mm) == IF pending[1].k # "cmd" /\ AnyTooBig(mm.c) /\ ~IsInf(mm.c) THEN End(mm, "oom")
                ELSE /\ machine' = IF pending[1].k = "cmd" THEN mm ELSE History(Put(mm, Repr(mm.c) \o "\n"), mm.c)
                     /\ phase' = "stmt" /\ pending' = Tail(pending)
                     /\ UNCHANGED << invocation, source, argvals, outcome >>
StmtFatal(mm) ==        \* the rest of the line is dropped, and the scope restored
    /\ machine' = Report([mm EXCEPT !.sc = BaseScope(@)]) /\ phase' = "stmt" /\ pending' = << >>
    /\ UNCHANGED << invocation, source, argvals, outcome >>
Execute(k) ==
    /\ phase \in {"argrun", "run", "stmtrun"}
    /\ \E m1 \in {Run(machine, k)} :
       CASE m1.md = "oom" -> End(m1, "oom")
         [] m1.md = "need" /\ Reals(k) = {} -> End(machine, "oom")
         [] m1.md = "need" -> \E d \in Draws(machine, RealHole, Reals(k)) :
                                machine' = TapeDraw(Ways(machine, Draws(machine, RealHole, Reals(k))), d) /\ UNCHANGED << invocation, phase, source, pending, argvals, outcome >>
         [] m1.md = "draw" -> \E d \in Draws(m1, FirstHole(m1.c), Alternatives(FirstHole(m1.c))) :
                                machine' = FillDraw(Ways(m1, Draws(m1, FirstHole(m1.c), Alternatives(FirstHole(m1.c)))), d) /\ UNCHANGED << invocation, phase, source, pending, argvals, outcome >>
         [] m1.md = "fatal" -> IF phase = "stmtrun" THEN StmtFatal(m1) ELSE Fatal(m1)
         [] m1.md = "done" -> (CASE phase = "argrun" -> ArgValue(m1) [] phase = "stmtrun" -> StmtDone(m1)
                                 [] OTHER -> End(m1, "ok"))
         [] OTHER -> machine' = m1 /\ UNCHANGED << invocation, phase, source, pending, argvals, outcome >>

Next(k) == \/ Greet(k) \/ Obey(k) \/ ReadSrc(k) \/ ReadArg(k) \/ ArgsDone(k) \/ Go(k)
           \/ Open(k) \/ ReadLine(k) \/ NextStmt(k) \/ Execute(k)

Segs == Append(machine.sg, machine.w)

(* ------------------------------ invariants ------------------------------- *)
RECURSIVE Depth(_), CountFrames(_, _)
Depth(k) == IF k = << >> THEN 0 ELSE 1 + Depth(k[2])
CountFrames(k, f) == IF k = << >> THEN 0 ELSE (IF k[1].f = f THEN 1 ELSE 0) + CountFrames(k[2], f)
\* as many local scopes as function calls in progress
ScopesMatchCalls == ~Stopped(machine) => Depth(machine.sc) = 1 + CountFrames(machine.k, "fret") + CountFrames(machine.k, "fval")
BaseScopeBetween == (phase \in {"prompt", "more", "stmt", "arg", "go"}) => machine.sc[2] = << >>
OneSegPerRead == Len(machine.sg) = Len(machine.rd)
ReadsOrdered == \A j \in DOMAIN machine.rd : machine.rd[j] <= Len(machine.out) /\ (j > 1 => machine.rd[j - 1] <= machine.rd[j])
EndsKnown == (phase = "end") => (outcome \in {"ok", "fatal", "usage", "oom"})
\* what was written stays written; what was read stays read
OutGrows == StartsAt(machine'.out, 1, machine.out) \/ phase = "start"
InputShrinks == (phase # "start") => \E j \in 0..Len(machine.inp) : machine'.inp = SubSeq(machine.inp, j + 1, Len(machine.inp))
================================================================================
