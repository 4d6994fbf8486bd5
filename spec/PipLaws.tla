-------------------------------- MODULE PipLaws --------------------------------
(***************************************************************************)
(* Laws: for each property (IOEnv.PROP) a table of small programs and what  *)
(* they must write, whatever values stand for their parameters.  TLC runs   *)
(* the specification on every instance of every law (the product of the     *)
(* domains is enumerated completely) and checks what comes out.  Each       *)
(* behaviour is also printed, to be replayed on the implementation.         *)
(*   d    the domains of the parameters, which the program finds in x, y, z *)
(*   p    the program;  o  what it writes ("*": anything)                   *)
(* The programs state the law in Pip itself, so the laws are independent of *)
(* how the specification defines the operators.                             *)
(***************************************************************************)
EXTENDS PipRun, PipLawTable, Json, IOUtils

CONSTANTS K, Limit

\* tables of the operators: every one on all values, in the ways the property
\* is about (what comes of it is for the specification to say)
HigherFns == {"MAP", "MAPCOORDS", "MAPENUMERATE", "MAPFLATTEN", "MAPJOIN", "MAPMAP", "MAPPAIRS", "MAPREGEX", "MAPSUM", "MAPUNPACK", "MAPZIP",
              "SORTKEYED", "DESCENDINGKEYED", "FILTER", "FILTERENUMERATE", "FILTERNOT", "FILTERJOIN", "FILTERINDEXES", "FILTERUNPACK"}
Changers == {"INC", "DEC", "PUSH", "PUSHBACK", "POP", "DEQUEUE", "PICK"}
Special == {"ASSIGN", "SWAP", "IFTE", "AND", "OR", "OUTPUT", "PRINT", "YANK", "YANKOUTPUT", "YANKPRINT", "EVAL", "RECURSE"} \cup RandFns
TableFns(id) == CASE id = "C07" -> Changers [] id = "C14" -> PArith [] id = "C15" -> PCompare [] id = "C16" -> HigherFns [] id = "C17" -> PSeqs
                  [] id = "C18" -> PText [] OTHER -> {}
Row(ds, prog) == << [d |-> ds, p |-> prog, o |-> "*"] >>
Plainly(t, n) == CASE n = 1 -> Row(<< "tbl" >>, "P RP(" \o t \o " x);P RPx")
                   [] n = 2 -> Row(<< "tbl", "tbl" >>, "P RP(x " \o t \o " y);P RP[x y]")
                   [] OTHER -> Row(<< "tbl", "tb3", "tb3" >>, "P RP(x " \o t \o " y z);P RP[x y z]")
Extra(id, t, n, fl) ==
    CASE id = "C07" /\ n = 2 -> Row(<< "few", "tb3" >>, "x" \o t \o ":y;P RP[x y]")
      [] id = "C07" /\ n = 1 -> Row(<< "tbl" >>, t \o ":x;P RPx")
      [] id = "C10" /\ n = 2 /\ Occurs("l", fl) -> Row(<< "tb3", "tb3" >>, "P RP([x[y x]] " \o t \o " y);P RP(y " \o t \o " [x[]])")
      [] id = "C10" /\ n = 1 /\ Occurs("l", fl) -> Row(<< "tbl", "tb3" >>, "P RP(" \o t \o " [x[y]])")
      [] id = "C11" /\ n = 2 -> Row(<< "tbl" >>, "P RP($" \o t \o " x);P RP(\\$" \o t \o " x)")
      [] id = "C11" /\ n = 1 -> Row(<< "tbl" >>, "P RP(" \o t \o "*x);P RP(" \o t \o "**[x x])")
      [] id = "C12" /\ n = 2 /\ Occurs("m", fl) -> Row(<< "tb3", "tb3" >>, "f:(_ " \o t \o " y);P RPf;P RP(f x);P RP((x " \o t \o " _)y)")
      [] id = "C12" /\ n = 1 /\ Occurs("m", fl) -> Row(<< "tbl" >>, "f:(" \o t \o " _);P RPf;P RP(f x)")
      [] OTHER -> << >>
TableLaws(id) == FlattenSeq([j \in DOMAIN OpRows |->
                     LET t == OpRows[j][1]
                         n == OpRows[j][3] IN
                     IF OpRows[j][2] \in Special THEN << >>
                     ELSE IF OpRows[j][2] \in TableFns(id) THEN Plainly(t, n) \o Extra(id, t, n, OpRows[j][7])
                     ELSE Extra(id, t, n, OpRows[j][7])])
MyLaws == LawsOf(IOEnv.PROP) \o TableLaws(IOEnv.PROP)
Params == << "x", "y", "z" >>
VARIABLES lawnum, chosen, stepnum
lvars == << lawnum, chosen, stepnum, invocation, phase, machine, source, pending, argvals, outcome >>

Prelude(ch, ds) == JoinS([j \in DOMAIN ds |-> Params[j] \o ":" \o Domains[ds[j]][ch[j]] \o ";"], "")
\* with MOD > 1, one instance in MOD is taken (the OFF-th of each)
Every == atoi(IOEnv.MOD)
RECURSIVE Mix(_, _)
Mix(ch, i) == IF i > Len(ch) THEN 0 ELSE (ch[i] + 67 * Mix(ch, i + 1)) % 65521
LInit ==
    /\ lawnum \in DOMAIN MyLaws /\ stepnum = 0
    /\ chosen \in [DOMAIN MyLaws[lawnum].d -> 1..60]
    /\ \A j \in DOMAIN chosen : chosen[j] <= Len(Domains[MyLaws[lawnum].d[j]])
    /\ (Mix(chosen, 1) + lawnum * 7) % Every = atoi(IOEnv.OFF) % Every
    /\ InitWith([kind |-> "prog", src |-> Prelude(chosen, MyLaws[lawnum].d) \o MyLaws[lawnum].p, args |-> << >>, fm |-> "p",
                 sh |-> TRUE, i |-> FALSE, r |-> FALSE, x |-> FALSE, inp |-> << >>, ver |-> "", help |-> "",
                 runs |-> 1, reals |-> << "0.0", "0.75" >>, vb |-> FALSE, ask |-> FALSE, entry |-> "main", words |-> << >>, file |-> "",
                 code |-> FALSE, form |-> "none"])
Stay == UNCHANGED << lawnum, chosen >>
LStep(k) ==
    \/ /\ phase \notin {"end", "judged"} /\ stepnum < Limit /\ Next(k) /\ stepnum' = stepnum + 1 /\ Stay
    \/ /\ phase \notin {"end", "judged"} /\ stepnum >= Limit /\ End(machine, "oom") /\ stepnum' = stepnum + 1 /\ Stay
    \/ /\ phase = "end" /\ phase' = "judged" /\ stepnum' = stepnum + 1
       /\ PrintT("BEHAVIOUR" \o ToJson([law |-> lawnum, src |-> invocation.src, oc |-> outcome, out |-> machine.out,
                                        rd |-> machine.rd, sg |-> Segs]))
       /\ UNCHANGED << lawnum, chosen, invocation, machine, source, pending, argvals, outcome >>
LNext == << LStep(K) >>_lvars
LView == << lawnum, chosen, stepnum, machine.rng.log >>
Law == (phase = "end" /\ outcome # "oom") =>
           IF MyLaws[lawnum].o = "*" THEN outcome \in {"ok", "fatal"} ELSE outcome = "ok" /\ MyLaws[lawnum].o = machine.out
LOutGrows == [][OutGrows]_lvars
================================================================================
