------------------------------- MODULE PipTrace -------------------------------
(***************************************************************************)
(* Trace validation: each case of the file CASES is an invocation together  *)
(* with what the implementation was observed to do (obs); the run that the  *)
(* specification prescribes for it is carried out step by step, and at its  *)
(* end the two are compared.  One verdict is printed per case; if random    *)
(* numbers are drawn, one for each way to draw them that explains the       *)
(* output so far (the implementation conforms if one of them is "ok").      *)
(***************************************************************************)
EXTENDS PipRun, Json, IOUtils

MaxDraws == 40
CONSTANTS K, Limit, Patience    \* steps (of K machine steps), and seconds, after which cases are given up

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES casenum, stepnum
tvars == << casenum, stepnum, invocation, phase, machine, source, pending, argvals, outcome >>

\* The output prescribed, in which Gap stands for any text
GapAt == FindFrom(machine.out, Gap, 1)
GapMore(o) == Len(o.out) - Len(machine.out)       \* how much longer it is than the Gap
SameOut(o) == IF GapAt = 0 THEN machine.out = o.out
              ELSE /\ GapMore(o) >= -1 /\ StartsAt(o.out, 1, SubSeq(machine.out, 1, GapAt - 1))
                   /\ StartsAt(o.out, GapAt + 1 + GapMore(o), From(machine.out, GapAt + 1))
SameReads(o) == o.rd = [j \in DOMAIN machine.rd |-> IF GapAt = 0 \/ machine.rd[j] < GapAt THEN machine.rd[j] ELSE machine.rd[j] + GapMore(o)]
Seg(s) == CASE s = 0 -> {0} [] s = 1 -> {1} [] OTHER -> {0, 1}
\* What is left to compare when the prescribed run could only be followed up
\* to some step: that the output up to there came first, and that the run did
\* not end in a way no run does.
Unended == {"timeout", "endless output", "died"}
Written == IF GapAt = 0 THEN machine.out ELSE SubSeq(machine.out, 1, GapAt - 1)
Begins(o) == \/ machine.rng.log # << >> \/ invocation.runs # 1
             \/ StartsAt(o.out, 1, Written)
             \/ o.oc \in Unended /\ StartsAt(Written, 1, o.out)
Verdict(o) ==       \* o: what was observed
    IF outcome = "oom" THEN IF o.oc \notin {"ok", "fatal", "usage"} \union Unended THEN "crash"
                            ELSE IF ~Begins(o) THEN "begins" ELSE "oom"
    ELSE IF outcome # o.oc THEN "outcome"
    ELSE IF ~SameOut(o) THEN "output"
    ELSE IF ~SameReads(o) THEN "reads"
    ELSE IF ~(\A j \in DOMAIN Segs : o.sg[j] \in Seg(Segs[j])) THEN "reports"
    ELSE "ok"
Report1(v) == PrintT("VERDICT" \o
    IF v \in {"ok", "oom"} THEN ToJson([id |-> casenum, n |-> stepnum, v |-> v, oc |-> outcome])
    ELSE ToJson([id |-> casenum, n |-> stepnum, v |-> v, oc |-> outcome, out |-> machine.out, rd |-> machine.rd, sg |-> Segs,
                 drew |-> machine.rng.log # << >>]))

TInit == /\ casenum \in 1..Len(Cases) /\ stepnum = 0 /\ InitWith(Cases[casenum].inv)
TooLong == stepnum >= Limit \/ Len(machine.rng.log) > MaxDraws \/ machine.rng.ways > 150 \/ Len(machine.out) > 6000 \/ TLCGet("duration") > Patience
           \/ (stepnum % 50 = 0 /\ (Depth(machine.sc) > 60 \/ Depth(machine.k) > 600))
\* random numbers were drawn that the implementation cannot have drawn
Astray == machine.rng.log # << >> /\ ~invocation.vb /\ ~StartsAt(Cases[casenum].obs.out, 1, machine.out)
\* (A definition without parameters whose operator is an action operator: TLC
\* would otherwise search through the whole specification for its level.)
TStep(k) ==
    \/ /\ phase \notin {"end", "judged"} /\ ~TooLong /\ ~Astray /\ Next(k) /\ stepnum' = stepnum + 1 /\ UNCHANGED casenum
    \/ /\ phase \notin {"end", "judged"} /\ TooLong /\ ~Astray /\ End(machine, "oom") /\ stepnum' = stepnum + 1 /\ UNCHANGED casenum
    \/ /\ phase = "end" /\ Report1(Verdict(Cases[casenum].obs))
       /\ phase' = "judged" /\ stepnum' = stepnum + 1 /\ UNCHANGED << casenum, invocation, machine, source, pending, argvals, outcome >>
TNext == << TStep(K) >>_tvars
TView == << casenum, stepnum, machine.rng.log >>
TOutGrows == [][OutGrows]_tvars
TInputShrinks == [][InputShrinks]_tvars
TEndsKnown == phase = "judged" \/ EndsKnown
================================================================================
