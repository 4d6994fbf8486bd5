------------------------------ MODULE PipMachine ------------------------------
(***************************************************************************)
(* Execution of Pip programs, as a state machine.                           *)
(*                                                                         *)
(* A machine state m is a record                                            *)
(*   md  mode: "ev" evaluate the tree c, "rt" give the result c to the top  *)
(*       frame, "nx" continue with the top frame; or stopped: "done",       *)
(*       "fatal" (a fatal error), "oom" (outside the model)                 *)
(*   c   the tree or result                                                 *)
(*   k   the stack of frames << top, rest >> or << >>                       *)
(*   g   global variables, name -> value                                    *)
(*   sc  call stack, << [fn |-> function, vars |-> locals], rest >>         *)
(*   out the output so far                                                  *)
(*   w   whether anything was reported on the error stream since the last   *)
(*       reading of a line: 0 no, 1 yes, 2 unspecified                      *)
(*   sg  the values of w when the lines were read                           *)
(*   rd  the lengths of out when the lines were read                        *)
(*   sh  whether warnings are shown                                         *)
(*   inp lines of standard input not yet read                               *)
(*   q   the values the uses of q turned out to have (<< v >> or << >>)     *)
(*   fm  the list format flag                                               *)
(*   args, main: program arguments and main function (<< >> or << f >>)     *)
(*   rng random numbers: [tape |-> values of r drawn but not used yet,      *)
(*       hist |-> the seed and the draws asked for since it was set (<< >>  *)
(*       before), memo |-> what was drawn after seeds (history -> draw),    *)
(*       log |-> all draws so far, ways |-> in how many ways those since    *)
(*       the last output could have been made, at |-> where that was]       *)
(* Drawing is left to the module that runs the machine: in mode "draw" the  *)
(* result c has holes (see PipPrims); in mode "need" another value of r is  *)
(* needed, and the step is to be taken again with it on the tape.           *)
(*                                                                         *)
(* Results of evaluation are values or lvalues                              *)
(*   [t |-> "V", nm |-> name, ls |-> lvalues, sl |-> indices, id |-> n]     *)
(* where nm = "" for a list of lvalues; indices are << i >> or << lo, hi >> *)
(* and id tells the uses of q apart.                                        *)
(***************************************************************************)
EXTENDS PipPrims

LvN(nm) == [t |-> "V", nm |-> nm, ls |-> << >>, sl |-> << >>, id |-> 0]
LvL(ls) == [t |-> "V", nm |-> "", ls |-> ls, sl |-> << >>, id |-> 0]
IsLv(r) == r.t = "V"
IsLvL(r) == r.t = "V" /\ r.nm = ""

(* ------------------------------- states --------------------------------- *)
Stop(m, md) == [m EXCEPT !.md = md, !.k = << >>]
Rt(m, v) == IF v.t = "Z" THEN [m EXCEPT !.md = "need"] ELSE IF v.t = "X" THEN Stop(m, "oom") ELSE IF v.t = "F" THEN Stop(m, "fatal")
            ELSE [m EXCEPT !.md = "rt", !.c = v]
Ev(m, n) == [m EXCEPT !.md = "ev", !.c = n]
Nx(m) == [m EXCEPT !.md = "nx"]
Push(m, f) == [m EXCEPT !.k = << f, @ >>]
Pop(m) == [m EXCEPT !.k = @[2]]
Report(m) == [m EXCEPT !.w = 1]
Wn(m) == IF m.sh THEN Report(m) ELSE m
WAdd(m, w) == IF w = 0 \/ (w = 1 /\ ~m.sh) THEN m ELSE [m EXCEPT !.w = WOr(@, w)]
\* a line (or the end) of standard input is read
Reading(m) == [m EXCEPT !.inp = IF @ = << >> THEN @ ELSE Tail(@), !.w = 0,
                        !.sg = Append(@, m.w), !.rd = Append(@, Len(m.out))]
Put(m, s) == [m EXCEPT !.out = @ \o s]
Stopped(m) == m.md \in {"done", "fatal", "oom"}

(* ------------------------------ variables -------------------------------- *)
\* letters a-g and $_, $__, ... are local, everything else is global
IsLocal(nm) == nm \in AtG \/ (StartsAt(nm, 1, "$_") /\ AllIn(From(nm, 2), {"_"}))
HasVar(m, nm) == IF IsLocal(nm) THEN nm \in DOMAIN m.sc[1].vars ELSE nm \in DOMAIN m.g
GetVar(m, nm) == IF IsLocal(nm) THEN m.sc[1].vars[nm] ELSE m.g[nm]
Upd(f, x, v) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = v] ELSE (x :> v) @@ f
SetVar(m, nm, v) == IF IsLocal(nm) THEN [m EXCEPT !.sc = << [@[1] EXCEPT !.vars = Upd(@, nm, v)], @[2] >>]
                    ELSE [m EXCEPT !.g = Upd(@, nm, v)]

Globals0 ==
    [h |-> S("100"), i |-> S("0"), k |-> S(", "), l |-> L(<< >>), m |-> S("1000"), n |-> S("\n"),
     o |-> S("1"), p |-> S("()"), s |-> S(" "), t |-> S("10"), u |-> Nil, v |-> S("-1"),
     w |-> Pat("\\s+", {}), x |-> S(""), y |-> S(""), z |-> S("abcdefghijklmnopqrstuvwxyz"),
     B |-> Blk(<< >>, Nm("b")), G |-> Blk(<< >>, Nm("g")),
     AZ |-> S("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), CZ |-> S("bcdfghjklmnpqrstvwxyz"), PA |-> S(Ascii),
     PI |-> S("3.141592653589793"), VW |-> S("aeiou"), VY |-> S("aeiouy"),
     XA |-> Pat("[a-z]", {"-"}), XC |-> Pat("[bcdfghjklmnpqrstvwxyz]", {}), XD |-> Pat("\\d", {}),
     XI |-> Pat("-?\\d+", {}), XL |-> Pat("[a-z]", {}), XN |-> Pat("-?\\d+(?:\\.\\d+)?", {}),
     XU |-> Pat("[A-Z]", {}), XV |-> Pat("[aeiou]", {}), XW |-> Pat("\\w", {}), XX |-> Pat(".", {}),
     XY |-> Pat("[aeiouy]", {})] @@ ("_" :> Blk(<< >>, Nm("a")))
ArgNames == << "\\a", "\\b", "\\c", "\\d", "\\e" >>
FnNames == << "a", "b", "c", "d", "e" >>
\* VD and VN (version data) exist but their values are not modelled
Opaque == {"VD", "VN"}
InitGlobals(args, main) ==
    LET n == MinI(Len(args), 5) IN
    ("\\g" :> L(args)) @@ ("\\f" :> IF main = << >> THEN Nil ELSE main[1])
    @@ [x \in {ArgNames[i] : i \in 1..n} |-> args[CHOOSE i \in 1..n : ArgNames[i] = x]]
    @@ Globals0
NoScope == [fn |-> << >>, vars |-> << >>]
CallScope(fn, args) ==
    LET n == MinI(Len(args), 5) IN
    [fn |-> << fn >>,
     vars |-> [x \in {FnNames[i] : i \in 1..n} |-> args[CHOOSE i \in 1..n : FnNames[i] = x]]
              @@ ("f" :> fn) @@ ("g" :> L(args))]

\* [v |-> value, m |-> state] of an lvalue (or value)
RECURSIVE Deref(_, _), DerefAll(_, _, _), Slices(_, _, _)
Slices(m, v, sl) ==
    IF sl = << >> THEN [v |-> v, m |-> m]
    ELSE IF ~IsIter(v) THEN [v |-> Nil, m |-> Wn(m)]
    ELSE LET r == At1(v, sl[1]) IN
         IF r.t = "F" THEN [v |-> Nil, m |-> Wn(m)]
         ELSE IF r.t = "X" THEN [v |-> X, m |-> m] ELSE Slices(m, r, Tail(sl))
DerefAll(m, rs, acc) ==
    IF rs = << >> THEN [v |-> L(acc), m |-> m]
    ELSE LET r == Deref(m, rs[1]) IN
         IF Bad(r.v) THEN r ELSE DerefAll(r.m, Tail(rs), Append(acc, r.v))
Deref(m, r) ==
    IF ~IsLv(r) THEN [v |-> r, m |-> m]
    ELSE IF r.nm = "" THEN DerefAll(m, r.ls, << >>)
    ELSE IF r.nm \in Opaque \/ r.nm = "PIP" THEN [v |-> X, m |-> m]
    ELSE IF r.nm = "r"
    THEN IF m.rng.tape = << >> THEN [v |-> [t |-> "Z"], m |-> m]
         ELSE Slices([m EXCEPT !.rng.tape = Tail(@)], m.rng.tape[1], r.sl)
    ELSE IF r.nm = "q"
    THEN IF m.q[r.id] # << >> THEN Slices(m, m.q[r.id][1], r.sl)
         ELSE LET v == IF m.inp = << >> THEN Nil ELSE S(m.inp[1])
                  m1 == [Reading(m) EXCEPT !.q[r.id] = << v >>] IN
              Slices(m1, v, r.sl)
    ELSE IF ~HasVar(m, r.nm) THEN [v |-> Nil, m |-> Wn(m)]
    ELSE Slices(m, GetVar(m, r.nm), r.sl)
\* a new use of an lvalue's base with one more index
Index(m, r, ix) ==      \* [v |-> lvalue, m |-> state]
    IF r.nm = "q"
    THEN [v |-> [r EXCEPT !.sl = Append(@, ix), !.id = Len(m.q) + 1], m |-> [m EXCEPT !.q = Append(@, @[r.id])]]
    ELSE [v |-> [r EXCEPT !.sl = Append(@, ix)], m |-> m]

\* v with the item at path replaced: [v, w] (see P)
RECURSIVE SetPath(_, _, _, _)
SetPath(v, path, new, fm) ==
    IF Len(path) = 1
    THEN IF v.t \in {"S", "L"} THEN LET r == SetItem(v, path[1], new, fm) IN
                                    IF r.w = 1 THEN [r EXCEPT !.v = v] ELSE r
         ELSE RF
    ELSE IF IsN(v) THEN RF
    ELSE IF ~IsIter(v) THEN RF
    ELSE LET child == At1(v, path[1])
             r == SetPath(child, Tail(path), new, fm) IN
         IF child.t = "F" THEN RWv(v) ELSE IF Bad(child) THEN R0(child)
         ELSE IF Bad(r.v) THEN r
         ELSE IF IsL(v) /\ Len(path[1]) = 1
         THEN [r EXCEPT !.v = L([v.v EXCEPT ![1 + (path[1][1] % Len(v.v))] = r.v])]
         ELSE IF v.t \in {"S", "L"} /\ VLen(v) = 0 THEN r     \* (a slice of nothing is that itself)
         ELSE [r EXCEPT !.v = v]                \* a copy was changed
RECURSIVE Assign(_, _, _), AssignAll(_, _, _, _)
\* assign value v to lvalue lv: the next state, stopped if that fails
AssignAll(m, lvs, v, i) ==       \* destructuring, from the i-th lvalue on
    LET n == IF IsInf(v) THEN Len(lvs) + 1 ELSE VLen(v) IN
    IF i > Len(lvs) THEN IF n > Len(lvs) THEN Wn(m) ELSE m
    ELSE LET m1 == IF i <= n THEN Assign(m, lvs[i], IF IsR(v) THEN SI(Lo(v) + i - 1) ELSE Items(v)[i])
                   ELSE Assign(Wn(m), lvs[i], Nil) IN
         IF Stopped(m1) THEN m1 ELSE AssignAll(m1, lvs, v, i + 1)
Assign(m, lv, v) ==
    IF Bad(v) THEN Rt(m, v)
    ELSE IF IsLvL(lv)
    THEN IF ~(v.t \in {"S", "L", "R", "P", "N"}) THEN Wn(m) ELSE AssignAll(m, lv.ls, v, 1)
    ELSE IF lv.nm = "r" /\ lv.sl = << >> THEN [m EXCEPT !.rng.hist = << v >>]
    ELSE IF lv.nm \in {"q", "r"} THEN Wn(m)
    ELSE IF lv.sl = << >> THEN SetVar(m, lv.nm, v)
    ELSE IF lv.nm \in Opaque THEN Stop(m, "oom")
    ELSE IF ~HasVar(m, lv.nm) THEN Wn(m)
    ELSE LET old == GetVar(m, lv.nm)
             r == SetPath(IF IsR(old) THEN L(Items(old)) ELSE old, lv.sl, v, m.fm) IN
         IF TooBig(old) THEN Stop(m, "oom")
         ELSE IF ~(old.t \in {"S", "L", "R"}) THEN Wn(m)
         ELSE IF Bad(r.v) THEN Rt(m, r.v)
         ELSE WAdd(SetVar(m, lv.nm, r.v), r.w)
\* the match variables after a regex match
MatchGroups(mt) == << S(MText(mt)) >> \o [g \in DOMAIN mt.c |-> IF mt.c[g] = << >> THEN Nil ELSE S(MGroup(mt, g))]
MatchNames == [d \in 0..9 |-> "$" \o IntS(d)]
SetMatch(m, mt) ==
    LET gs == MatchGroups(mt)
        pos(g, j) == IF mt.c[g] = << >> THEN S("-1") ELSE SI(mt.c[g][j] - 1) IN
    [m EXCEPT !.g =
        ("$$" :> L(Tail(gs))) @@ ("$(" :> SI(mt.b - 1)) @@ ("$)" :> SI(mt.e - 1))
        @@ ("$`" :> S(SubSeq(mt.s, 1, mt.b - 1))) @@ ("$'" :> S(From(mt.s, mt.e)))
        @@ ("$[" :> L([g \in DOMAIN mt.c |-> pos(g, 1)])) @@ ("$]" :> L([g \in DOMAIN mt.c |-> pos(g, 2)]))
        @@ [nm \in {MatchNames[d] : d \in 0..9} |->
              LET d == CHOOSE d \in 0..9 : MatchNames[d] = nm IN
              IF d + 1 <= Len(gs) THEN gs[d + 1] ELSE Nil] @@ @]
\* the result of a first-order operation
Res(m, r) == IF Bad(r.v) THEN Rt(m, r.v)
             ELSE LET m1 == WAdd(m, r.w) IN
                  Rt(IF r.m = << >> THEN m1 ELSE SetMatch(m1, r.m[Len(r.m)]), r.v)

(* ---------------------- operations on values ---------------------------- *)
Fn(o) == IF o.tx \in Pseudo THEN o.tx ELSE OpInfo[<< o.tx, o.ba >>].fn
IsOpr(a) == a.t = "O"
AsNode(a) == IF IsOpr(a) THEN a.n ELSE Val(a)
\* a new function from operator o applied to operands, some being functions
LambdaOf(o, a) ==
    LET bs == {i \in DOMAIN a : IsB(a[i])} IN
    Blk(FoldLeft(LAMBDA acc, x : IF IsB(x) THEN acc \o x.st ELSE acc, << >>, a),
        Node(o, [i \in DOMAIN a |-> IF i \in bs THEN a[i].re ELSE AsNode(a[i])]))
RECURSIVE Ap(_, _, _)
\* apply a first-order operator (without meta-operators) to values
Ap(o, a, fm) ==
    LET inf == OpInfo[<< o.tx, o.ba >>]
        ex(v) == (inf.le /\ IsL(v)) \/ (inf.re /\ IsR(v)) IN
    IF inf.lam /\ \E i \in DOMAIN a : IsB(a[i]) THEN R0(LambdaOf(o, a))
    ELSE IF ~inf.le THEN P(inf.fn, a, fm)
    ELSE IF Len(a) = 1
    THEN IF ~ex(a[1]) THEN P(inf.fn, a, fm)
         ELSE IF TooBig(a[1]) THEN RX
         ELSE LET it == Items(a[1]) IN Comb([i \in DOMAIN it |-> Ap(o, << it[i] >>, fm)])
    ELSE IF Len(a) # 2 THEN P(inf.fn, a, fm)
    ELSE LET e1 == ex(a[1])
             e2 == ex(a[2]) IN
         IF ~e1 /\ ~e2 THEN P(inf.fn, a, fm)
         ELSE IF e1 /\ ~e2
         THEN IF TooBig(a[1]) THEN RX
              ELSE LET it == Items(a[1]) IN Comb([i \in DOMAIN it |-> Ap(o, << it[i], a[2] >>, fm)])
         ELSE IF ~e1
         THEN IF TooBig(a[2]) THEN RX
              ELSE LET it == Items(a[2]) IN Comb([i \in DOMAIN it |-> Ap(o, << a[1], it[i] >>, fm)])
         ELSE IF IsInf(a[1]) /\ IsInf(a[2]) THEN RX
         ELSE IF IsInf(a[1]) \/ IsInf(a[2])      \* zipped, but it has no length
         THEN LET n == IF IsInf(a[1]) THEN VLen(a[2]) ELSE VLen(a[1])
                  at(v, i) == IF IsR(v) THEN SI(Lo(v) + i - 1) ELSE v.v[i]
                  rs == Comb([i \in 1..n |-> Ap(o, << at(a[1], i), at(a[2], i) >>, fm)]) IN
              IF Bad(rs.v) THEN rs ELSE RF
         ELSE IF TooBig(a[1]) \/ TooBig(a[2]) THEN RX
         ELSE LET p == Items(a[1])
                  q == Items(a[2])
                  n == MinI(Len(p), Len(q))
                  r == Comb([i \in 1..n |-> Ap(o, << p[i], q[i] >>, fm)]) IN
              IF Bad(r.v) THEN r
              ELSE [r EXCEPT !.v = L(r.v.v \o SubSeq(p, n + 1, Len(p)) \o SubSeq(q, n + 1, Len(q)))]
RECURSIVE ChainRun(_, _, _, _)
\* v1 op1 v2 op2 v3 ...: compared pairwise until one fails
ChainRun(a, i, acc, fm) ==
    IF i > Len(a) \/ Bad(acc.v) THEN acc
    ELSE IF ~Truthy(acc.v) THEN acc
    ELSE ChainRun(a, i + 2, Then(acc, Ap(a[i].n.o, << a[i - 1], a[i + 1] >>, fm)), fm)
OpPlus == Op("+", 2)
OpMinus == Op("-", 2)
One == S("1")

(* ------------------- operations on lvalues and values -------------------- *)
\* [v |-> result, m |-> state], for the operations taking lvalues
VM(m, v) == [v |-> v, m |-> m]
ResVM(m, r) == LET q == Res(m, r) IN IF Stopped(q) THEN VM(m, r.v) ELSE VM([q EXCEPT !.md = m.md, !.c = m.c], r.v)
WNil(m) == VM(Wn(m), Nil)
AtOp(m0, a) ==
    LET d == IF Len(a) = 1 THEN VM(m0, S("0")) ELSE Deref(m0, a[2])
        m == d.m
        r == d.v
        ix == IxOf(r) IN
    IF Bad(r) THEN d
    ELSE IF r.t \in {"N", "B"} THEN WNil(m)
    ELSE IF ~IsLv(a[1]) THEN ResVM(m, P("AT", IF Len(a) = 1 THEN a ELSE << a[1], r >>, m.fm))
    ELSE IF r.t \in {"L", "P"}
    THEN LET h == Deref(m, a[1]) IN
         IF Bad(h.v) THEN h ELSE ResVM(h.m, P("AT", << h.v, r >>, m.fm))
    ELSE IF ix = << >> THEN VM(m, X)
    ELSE IF IsLvL(a[1])
    THEN LET e == At1(L(a[1].ls), ix) IN
         IF e.t = "F" THEN WNil(m) ELSE IF IsL(e) THEN VM(m, LvL(e.v)) ELSE VM(m, e)
    ELSE Index(m, a[1], ix)
SliceLv(m0, fn, a) ==
    LET d == IF Len(a) = 1 THEN VM(m0, S(IF fn = "RIGHTOF" THEN "1" ELSE "-1")) ELSE Deref(m0, a[2])
        m == d.m
        r == d.v IN
    IF Bad(r) THEN d
    ELSE IF ~IsLv(a[1]) THEN ResVM(m, P(fn, IF Len(a) = 1 THEN a ELSE << a[1], r >>, m.fm))
    ELSE IF IsLR(r)
    THEN LET h == Deref(m, a[1]) IN
         IF Bad(h.v) THEN h ELSE ResVM(h.m, P(fn, << h.v, r >>, m.fm))
    ELSE IF ~IsS(r) THEN WNil(m)
    ELSE LET n == IntV(r)
             ix == CASE fn \in {"LEFTOF", "PREFIX"} -> << << >>, << n.n >> >>
                     [] fn = "RIGHTOF" -> << << n.n >>, << >> >>
                     [] n.n = 0 -> << << 0 >>, << 0 >> >>
                     [] OTHER -> << << -n.n >>, << >> >> IN
         IF IsNX(n) THEN VM(m, X)
         ELSE IF IsLvL(a[1])
         THEN LET e == At1(L(a[1].ls), ix) IN IF Bad(e) THEN VM(m, e) ELSE VM(m, LvL(e.v))
         ELSE Index(m, a[1], ix)
\* assign v to the lvalue a (warn if it is none) and give result res
Store(m, a, v, res) == IF IsLv(a)
                       THEN LET q == Assign(m, a, v) IN
                            IF Stopped(q) THEN VM(m, IF q.md = "oom" THEN X ELSE F) ELSE VM(q, res)
                       ELSE VM(Wn(m), res)
\* the same, except that a list of lvalues is left alone
StoreL(m, a, v, res) == IF IsLvL(a) THEN VM(m, res) ELSE Store(m, a, v, res)
IncDec(m, o, a) ==
    LET d == Deref(m, a)
        r == ResVM(d.m, Ap(o, << d.v, One >>, m.fm)) IN
    IF Bad(d.v) THEN d ELSE IF Bad(r.v) THEN r
    ELSE Store(r.m, a, r.v, IF IsLv(a) THEN a ELSE r.v)

\* take out the item at position i of a nonempty value (1-based)
TakeS(v, i) == << S(At(v.s, i)), S(SubSeq(v.s, 1, i - 1) \o From(v.s, i + 1)) >>
TakeL(v, i) == << v.v[i], L(RemoveAt(v.v, i)) >>
Take(m0, fn, a) ==
    LET ixd == IF fn = "PICK" THEN Deref(m0, a[2]) ELSE VM(m0, S("0")) IN
    IF Bad(ixd.v) THEN ixd
    ELSE IF ~IsS(ixd.v) THEN WNil(ixd.m)
    ELSE LET d == Deref(ixd.m, a[1])
             m == d.m
             v == d.v
             k == IntV(ixd.v)
             n == VLen(v)
             pos == IF fn = "DEQUEUE" THEN n ELSE 1 + (k.n % n)
             lo1 == << Lo(v) + 1 >>
             two == CASE v.t = "S" -> TakeS(v, pos)
                      [] v.t = "L" -> TakeL(v, pos)
                      [] IsInf(v) -> << SI(Lo(v)), Rg(lo1, << >>) >>
                      [] pos = n /\ fn = "DEQUEUE" -> << SI(v.hi[1] - 1), Rg(v.lo, << v.hi[1] - 1 >>) >>
                      [] pos = 1 -> << SI(Lo(v)), Rg(lo1, v.hi) >>
                      [] OTHER -> << SI(Lo(v) + pos - 1), L(RemoveAt(Items(v), pos)) >> IN
         IF Bad(v) THEN d
         ELSE IF IsNX(k) THEN VM(m, X)
         ELSE IF ~IsIter(v) THEN WNil(m)
         ELSE IF IsInf(v)
         THEN IF fn = "DEQUEUE" \/ k.n # 0 THEN WNil(m) ELSE StoreL(m, a[1], two[2], two[1])
         ELSE IF n = 0 THEN WNil(m)
         ELSE IF TooBig(v) /\ fn = "PICK" THEN VM(m, X)
         ELSE StoreL(m, a[1], two[2], two[1])
PushOp(m0, fn, a) ==
    LET id == Deref(m0, a[2])
        vd == Deref(id.m, a[1])
        it == id.v
        v == vd.v
        r == CASE v.t \in {"L", "R"} -> P(IF fn = "PUSH" THEN "PREPENDELEM" ELSE "APPENDELEM", << v, it >>, m0.fm)
               [] v.t \in {"S", "P"} -> LET s == S(Str(it, m0.fm)) IN
                                        IF fn = "PUSH" THEN CAT(s, v) ELSE CAT(v, s)
               [] v.t = "N" -> R0(L(<< it >>))
               [] OTHER -> R0(v)
        rm == ResVM(vd.m, r) IN
    IF Bad(it) THEN id ELSE IF Bad(v) THEN vd ELSE IF AnyTooBig(it) THEN VM(m0, X)
    ELSE IF Bad(rm.v) THEN rm
    ELSE StoreL(rm.m, a[1], rm.v, IF IsLv(a[1]) /\ ~IsLvL(a[1]) THEN a[1] ELSE rm.v)
Swap(m, a) ==
    LET d1 == Deref(m, a[1])
        d2 == Deref(d1.m, a[2]) IN
    IF Bad(d1.v) THEN d1 ELSE IF Bad(d2.v) THEN d2
    ELSE LET s1 == Store(d2.m, a[1], d2.v, a[1]) IN
         IF Bad(s1.v) THEN s1 ELSE Store(s1.m, a[2], d1.v, a[1])
AssignOp(m, a) == IF ~IsLv(a[1]) THEN VM(Wn(m), a[2])
                  ELSE LET d == Deref(m, a[2]) IN
                       IF Bad(d.v) THEN d ELSE Store(d.m, a[1], d.v, a[1])
YankOp(m, v) == Store(m, LvN("y"), v, LvN("y"))
PrintV(m, v, end) == IF IsN(v) THEN VM(m, v)
                     ELSE IF AnyTooBig(v) /\ ~IsInf(v) THEN VM(m, X) ELSE VM(Put(m, Str(v, m.fm) \o end), v)
ThenVM(r, f(_)) == IF Bad(r.v) THEN r ELSE f(r.m)
ListOp(m, a) == IF a # << >> /\ \A i \in DOMAIN a : IsLv(a[i]) THEN VM(m, LvL(a)) ELSE DerefAll(m, a, << >>)

\* operations handled here rather than by Ap
LvFns == {"AT", "LEFTOF", "PREFIX", "RIGHTOF", "SUFFIX", "INC", "DEC", "POP", "DEQUEUE", "PICK", "PUSH", "PUSHBACK",
          "SWAP", "ASSIGN", "YANK", "YANKOUTPUT", "YANKPRINT", "OUTPUT", "PRINT", "PAREN", "LIST", "CHAIN"}
LvApply(m, fn, o, a) ==
    CASE fn = "AT" -> AtOp(m, a)
      [] fn \in {"LEFTOF", "PREFIX", "RIGHTOF", "SUFFIX"} -> SliceLv(m, fn, a)
      [] fn = "INC" -> IncDec(m, OpPlus, a[1])
      [] fn = "DEC" -> IncDec(m, OpMinus, a[1])
      [] fn \in {"POP", "DEQUEUE", "PICK"} -> Take(m, fn, a)
      [] fn \in {"PUSH", "PUSHBACK"} -> PushOp(m, fn, a)
      [] fn = "SWAP" -> Swap(m, a)
      [] fn = "ASSIGN" -> AssignOp(m, a)
      [] fn = "YANK" -> YankOp(m, a[1])
      [] fn = "OUTPUT" -> PrintV(m, a[1], "")
      [] fn = "PRINT" -> PrintV(m, a[1], "\n")
      [] fn = "YANKOUTPUT" -> ThenVM(PrintV(m, a[1], ""), LAMBDA n : YankOp(n, a[1]))
      [] fn = "YANKPRINT" -> ThenVM(PrintV(m, a[1], "\n"), LAMBDA n : YankOp(n, a[1]))
      [] fn = "PAREN" -> VM(m, a[1])
      [] fn = "LIST" -> ListOp(m, a)
      [] fn = "CHAIN" -> ResVM(m, ChainRun(a, 2, R0(One), m.fm))

(* ------------------------- function calls, plans ------------------------- *)
Call(m, fn, args) ==
    LET m1 == [m EXCEPT !.sc = << CallScope(fn, args), @ >>] IN
    Nx(Push(Push(m1, [f |-> "fret", re |-> fn.re]), [f |-> "blk", s |-> fn.st, i |-> 1, h |-> TRUE]))

(* A higher-order operation is a plan: a tree of values and calls           *)
(*   [p |-> "v", v |-> value, w |-> warned]                                 *)
(*   [p |-> "c", fn |-> function, a |-> arguments, w |-> warned, m |-> match] *)
(*   [p |-> "l", l |-> sequence of plans]                                   *)
(* whose calls are made from left to right.  The List (or value) that       *)
(* results is then finished as the operation requires.                      *)
PlV(v) == [p |-> "v", v |-> v, w |-> 0]
PlW(v) == [p |-> "v", v |-> v, w |-> 1]
PlC(fn, a) == [p |-> "c", fn |-> fn, a |-> a, w |-> 0, m |-> << >>]
PlL(ps) == [p |-> "l", l |-> ps]
RECURSIVE PlCalls(_), PlFill(_, _, _), PlFillAll(_, _, _, _), PlW1(_), PlBad(_)
PlCalls(p) == CASE p.p = "c" -> << p >>
                [] p.p = "l" -> FoldLeft(LAMBDA acc, q : acc \o PlCalls(q), << >>, p.l)
                [] OTHER -> << >>
PlFill(p, rs, i) ==        \* << value, next i >>
    CASE p.p = "c" -> << rs[i], i + 1 >>
      [] p.p = "v" -> << p.v, i >>
      [] OTHER -> PlFillAll(p.l, rs, i, << >>)
PlFillAll(ps, rs, i, acc) ==
    IF ps = << >> THEN << L(acc), i >>
    ELSE LET r == PlFill(ps[1], rs, i) IN PlFillAll(Tail(ps), rs, r[2], Append(acc, r[1]))
PlW1(p) == IF p.p = "l" THEN FoldLeft(LAMBDA acc, q : WOr(acc, PlW1(q)), 0, p.l) ELSE p.w
PlBad(p) == CASE p.p = "l" -> (LET b == SelectSeq(p.l, LAMBDA q : PlBad(q) # << >>) IN
                               IF b = << >> THEN << >> ELSE PlBad(b[1]))
              [] p.p = "v" -> IF Bad(p.v) THEN << p.v >> ELSE << >>
              [] OTHER -> << >>

RECURSIVE MapPlan(_, _)
MapPlan(f0, it0) ==
    LET sw == IsB(it0) /\ IsIter(f0)
        f == IF sw THEN it0 ELSE f0
        it == IF sw THEN f0 ELSE it0 IN
    IF ~IsIter(it) THEN PlW(Nil)
    ELSE IF TooBig(it) THEN PlV(X)
    ELSE LET xs == Items(it) IN
         IF IsB(f) THEN PlL([i \in DOMAIN xs |-> PlC(f, << xs[i] >>)])
         ELSE IF IsL(f) THEN PlL([i \in DOMAIN f.v |-> MapPlan(f.v[i], it)])
         ELSE PlL([i \in DOMAIN xs |-> PlV(f)])
\* function and iterable, in either order
FnArgs(a) == IF IsB(a[2]) /\ IsIter(a[1]) THEN << a[2], a[1] >> ELSE a
OkArgs(a) == IsB(a[1]) /\ IsIter(a[2])
Unpack(x) == CASE x.t = "B" -> [a |-> << >>, w |-> 1]
               [] IsInf(x) -> [a |-> << >>, w |-> 1]
               [] OTHER -> [a |-> Items(x), w |-> 0]
UnpackI(x) == IF IsIter(x) THEN Unpack(x) ELSE [a |-> << >>, w |-> 1]
CallUnp(fn, u) == [PlC(fn, u.a) EXCEPT !.w = u.w]
\* [p |-> plan, fin |-> how to finish, items |-> the items it is about]
Plan(p, fin) == [p |-> p, fin |-> fin, items |-> << >>]
WPlan == Plan(PlW(Nil), "")
XPlan == Plan(PlV(X), "")
FPlan == Plan(PlV(F), "")
MapFns == {"MAP", "MAPCOORDS", "MAPENUMERATE", "MAPJOIN", "MAPMAP", "MAPPAIRS", "MAPSUM", "MAPUNPACK", "MAPFLATTEN",
           "MAPREGEX", "MAPZIP", "SORTKEYED", "DESCENDINGKEYED"}
FilterFns == {"FILTER", "FILTERNOT", "FILTERENUMERATE", "FILTERUNPACK", "FILTERINDEXES", "FILTERJOIN"}
ZipPlan(fn, p, q) ==
    IF IsInf(p) /\ IsInf(q) THEN PlV(X)
    ELSE LET n == MinI(IF IsInf(p) THEN VLen(q) ELSE VLen(p), IF IsInf(q) THEN VLen(p) ELSE VLen(q))
             at(v, i) == IF IsR(v) THEN SI(Lo(v) + i - 1) ELSE Items(v)[i] IN
         \* iterating over an infinite Range may be reported
         IF n > 300 THEN PlV(X)
         ELSE PlL([i \in 1..n |-> [PlC(fn, << at(p, i), at(q, i) >>) EXCEPT !.w = IF IsInf(p) \/ IsInf(q) THEN 2 ELSE 0]])
PlanOf(fn, a0) ==
    LET a == FnArgs(a0)
        it == a[2]
        xs == Items(it) IN
    CASE fn \in {"MAP", "MAPJOIN", "MAPSUM", "MAPFLATTEN"} ->
           Plan(MapPlan(a0[1], a0[2]), CASE fn = "MAP" -> "" [] OTHER -> fn)
      [] fn = "MAPMAP" ->
           IF ~IsIter(it) THEN WPlan ELSE IF TooBig(it) THEN XPlan
           ELSE Plan(PlL([i \in DOMAIN xs |-> MapPlan(a[1], xs[i])]), "")
      [] fn = "MAPCOORDS" ->
           LET r == a0[2]
               grid(p, q) ==
                 LET n == IntV(p)
                     k == IntV(q)
                     cell(i, j) == IF IsB(a0[1]) THEN PlC(a0[1], << SI(i - 1), SI(j - 1) >>) ELSE PlV(a0[1]) IN
                 IF IsNX(n) \/ IsNX(k) THEN XPlan ELSE IF n.n > 40 \/ k.n > 40 THEN XPlan
                 ELSE Plan(PlL([i \in 1..MaxI(n.n, 0) |-> PlL([j \in 1..MaxI(k.n, 0) |-> cell(i, j)])]), "") IN
           IF IsS(r) THEN grid(r, r)
           ELSE IF IsLR(r)
           THEN IF ~IsInf(r) /\ VLen(r) = 0 THEN WPlan
                ELSE LET p == GetItem(r, 0)
                         q == GetItem(r, 1) IN
                     IF Bad(p) \/ Bad(q) THEN XPlan ELSE IF IsS(p) /\ IsS(q) THEN grid(p, q) ELSE WPlan
           ELSE WPlan
      [] fn = "MAPENUMERATE" ->
           IF ~OkArgs(a) THEN WPlan ELSE IF IsInf(it) THEN FPlan
           ELSE Plan(ZipPlan(a[1], Rg(<< >>, << VLen(it) >>), it), "")
      [] fn = "MAPPAIRS" ->
           IF ~OkArgs(a) THEN WPlan
           ELSE LET r == GetSlice(it, << 1 >>, << >>) IN
                IF r.t = "F" THEN FPlan ELSE IF r.t = "X" THEN XPlan ELSE IF TooBig(it) THEN XPlan
                ELSE Plan(ZipPlan(a[1], it, r), "")
      [] fn = "MAPUNPACK" ->
           IF ~OkArgs(a) THEN WPlan ELSE IF TooBig(it) THEN XPlan
           ELSE IF \E i \in DOMAIN xs : TooBig(xs[i]) /\ ~IsInf(xs[i]) THEN XPlan
           ELSE Plan(PlL([i \in DOMAIN xs |-> CallUnp(a[1], Unpack(xs[i]))]), "")
      [] fn = "MAPZIP" ->
           LET b == IF IsB(a0[2]) /\ IsIter(a0[1]) THEN << a0[2], a0[1], a0[3] >> ELSE a0 IN
           IF IsB(b[1]) /\ IsIter(b[2]) /\ IsIter(b[3]) THEN Plan(ZipPlan(b[1], b[2], b[3]), "") ELSE WPlan
      [] fn = "MAPREGEX" ->
           LET b == IF IsB(a0[2]) THEN << a0[2], a0[1], a0[3] >>
                    ELSE IF IsB(a0[3]) THEN << a0[3], a0[2], a0[1] >> ELSE a0
               d == IF IsS(b[2]) /\ IsP(b[3]) THEN << b[1], b[3], b[2] >>
                    ELSE IF IsS(b[2]) THEN << b[1], RegexOf(b[2]).v, b[3] >> ELSE b IN
           IF ~(IsB(d[1]) /\ IsP(d[2]) /\ IsS(d[3])) THEN WPlan
           ELSE LET rx == RxParse(d[2].raw) IN
                IF rx.x = "F" THEN FPlan ELSE IF rx.x # "" \/ NoCode(d[3].s) THEN XPlan
                ELSE LET ms == AllMatches(rx, d[3].s, d[2].fl) IN
                     Plan(PlL([i \in DOMAIN ms |-> [PlC(d[1], MatchGroups(ms[i])) EXCEPT !.m = << ms[i] >>]]), "")
      [] fn \in {"SORTKEYED", "DESCENDINGKEYED"} ->
           LET b == IF ~IsB(a0[1]) /\ IsB(a0[2]) THEN << a0[2], a0[1] >> ELSE a0
               ys == Items(b[2]) IN
           IF ~OkArgs(b) THEN WPlan ELSE IF TooBig(b[2]) THEN XPlan
           ELSE [p |-> PlL([i \in DOMAIN ys |-> PlC(b[1], << ys[i] >>)]), fin |-> fn, items |-> ys]
      [] OTHER ->      \* FilterFns with a function
           IF ~OkArgs(a) THEN [WPlan EXCEPT !.fin = IF fn = "FILTERJOIN" THEN "MAPJOIN" ELSE ""]
           ELSE IF TooBig(it) THEN XPlan
           ELSE IF fn = "FILTERUNPACK" /\ \E i \in DOMAIN xs : TooBig(xs[i]) /\ ~IsInf(xs[i]) THEN XPlan
           ELSE [p |-> PlL([i \in DOMAIN xs |->
                        CASE fn \in {"FILTERENUMERATE", "FILTERINDEXES"} -> PlC(a[1], << SI(i - 1), xs[i] >>)
                          [] fn = "FILTERUNPACK" -> CallUnp(a[1], UnpackI(xs[i]))
                          [] OTHER -> PlC(a[1], << xs[i] >>)]),
                 fin |-> fn, items |-> xs]
\* finish: v is the value the plan gave
RECURSIVE SumUp(_, _, _, _)
SumUp(xs, i, acc, fm) == IF i > Len(xs) \/ Bad(acc.v) THEN acc
                         ELSE SumUp(xs, i + 1, Then(acc, Ap(OpPlus, << acc.v, xs[i] >>, fm)), fm)
Finish(m, fin, items, v) ==
    LET keep(b) == LET ix == SelectSeq([i \in DOMAIN items |-> i], LAMBDA i : Truthy(v.v[i]) = b) IN ix
        kept(b) == LET ix == keep(b) IN [j \in DOMAIN ix |-> items[ix[j]]] IN
    CASE fin = "" -> Rt(m, v)
      [] fin = "MAPJOIN" -> Res(m, P("JOIN", << v >>, m.fm))
      [] fin = "MAPFLATTEN" -> Res(m, P("FLATTEN", << v >>, m.fm))
      [] fin = "MAPSUM" -> Res(m, SumUp(IF IsL(v) THEN v.v ELSE << >>, 1, R0(S("0")), m.fm))
      [] fin \in {"FILTER", "FILTERENUMERATE", "FILTERUNPACK"} -> Rt(m, L(kept(TRUE)))
      [] fin = "FILTERNOT" -> Rt(m, L(kept(FALSE)))
      [] fin = "FILTERJOIN" -> Res(m, P("JOIN", << L(kept(TRUE)) >>, m.fm))
      [] fin = "FILTERINDEXES" -> LET ix == keep(TRUE) IN Rt(m, L([j \in DOMAIN ix |-> SI(ix[j] - 1)]))
      [] fin \in {"SORTKEYED", "DESCENDINGKEYED"} -> Res(m, SortByKeys(items, v.v, fin = "DESCENDINGKEYED"))
      [] OTHER -> Stop(m, "oom")
Start(m, pl) ==
    LET b == PlBad(pl.p)
        cs == PlCalls(pl.p)
        m1 == WAdd(m, PlW1(pl.p)) IN
    IF b # << >> THEN Rt(m, b[1])
    ELSE IF cs = << >> THEN Finish(m1, pl.fin, pl.items, PlFill(pl.p, << >>, 1)[1])
    ELSE Nx(Push(m1, [f |-> "calls", cs |-> cs, i |-> 1, rs |-> << >>, pl |-> pl]))

\* REPLACE where the replacements are functions
HasFn(v) == IsB(v) \/ (IsL(v) /\ \E i \in DOMAIN v.v : IsB(v.v[i]))
RepStart(m, a) ==
    LET fix(v) == IF IsR(v) THEN L(Items(v)) ELSE v
        lhs == fix(a[1])
        old0 == fix(a[2])
        new == fix(a[3])
        old == IF IsS(old0) /\ IsB(new) THEN RegexOf(old0).v ELSE old0 IN
    IF ~HasFn(a[3]) THEN Res(m, P("REPLACE", a, m.fm))
    ELSE IF \E i \in 1..3 : TooBig(a[i]) THEN Stop(m, "oom")
    ELSE IF ~IsIter(lhs) \/ ~(IsIter(old) \/ IsP(old)) THEN Rt(Wn(m), Nil)
    ELSE IF IsL(lhs) THEN Nx(Push(m, [f |-> "repl", xs |-> lhs.v, i |-> 1, rs |-> << >>, old |-> old, new |-> new]))
    ELSE IF IsL(old)
    THEN LET n == IF IsL(new) THEN Len(new.v) ELSE 0 IN
         Rt(Push(m, [f |-> "reps", i |-> 1,
                     ps |-> [j \in DOMAIN old.v |->
                        << old.v[j], IF ~IsL(new) THEN new ELSE IF j <= n THEN new.v[j] ELSE Nil >>]]), lhs)
    ELSE IF ~IsB(new) THEN Stop(m, "oom")           \* text of a List with functions in it
    ELSE LET rx == RxParse(old.raw) IN
         IF rx.x = "F" THEN Stop(m, "fatal") ELSE IF rx.x # "" \/ NoCode(lhs.s) THEN Stop(m, "oom")
         ELSE LET ms == AllMatches(rx, lhs.s, old.fl) IN
              Nx(Push(m, [f |-> "subs", s |-> lhs.s, ms |-> ms, fn |-> new, i |-> 1, rs |-> << >>]))

SendTail(m, v0, tail) == FoldLeft(LAMBDA r, ix : IF Bad(r.v) THEN r ELSE AtOp(r.m, << r.v, ix >>), VM(m, v0), tail)
Send(m0, a) ==
    LET d == Deref(m0, a[1]) IN
    IF Bad(d.v) THEN Rt(m0, d.v)
    ELSE IF IsB(d.v)
    THEN LET t == DerefAll(d.m, Tail(a), << >>) IN
         IF Bad(t.v) THEN Rt(d.m, t.v) ELSE Call(t.m, d.v, t.v.v)
    ELSE IF ~IsLv(a[1]) /\ ~IsIter(a[1]) THEN Rt(Wn(m0), Nil)
    ELSE LET r == SendTail(d.m, a[1], Tail(a)) IN Rt(r.m, r.v)
Eval(m, a) ==
    LET sw == Len(a) = 2 /\ IsB(a[Len(a)])
        code == IF sw THEN a[2] ELSE a[1]
        args == IF Len(a) = 1 THEN Nil ELSE IF sw THEN a[1] ELSE a[2]
        rd == Read(code.s \o "\n")
        m1 == IF IsS(code) /\ rd.w THEN Report(m) ELSE m
        fn == IF IsS(code) THEN BlockOf(rd.e) ELSE code IN
    IF IsS(code) /\ NoCode(code.s) THEN Stop(m, "oom")
    ELSE IF IsS(code) /\ rd.x # "" THEN Stop(m, "fatal")
    ELSE IF ~IsB(fn) THEN Rt(Wn(m), Nil)
    ELSE IF Len(a) = 1
    THEN Nx(Push(Push(m1, [f |-> "ev1", re |-> fn.re]), [f |-> "blk", s |-> fn.st, i |-> 1, h |-> FALSE]))
    ELSE IF IsB(args) THEN Stop(m, "fatal")
    ELSE IF TooBig(args) THEN Stop(m, "oom")
    ELSE Call(m1, fn, Items(args))

(* ------------------------------- randomness ----------------------------- *)
RECURSIVE HasHole(_), FirstHole(_), FillHole(_, _)
HasHole(v) == v.t = "?" \/ (v.t = "L" /\ \E i \in DOMAIN v.v : HasHole(v.v[i]))
FirstHole(v) == IF v.t = "?" THEN v ELSE FirstHole(v.v[CHOOSE i \in DOMAIN v.v : HasHole(v.v[i]) /\ \A j \in 1..(i - 1) : ~HasHole(v.v[j])])
FillHole(v, d) == IF v.t = "?" THEN d
                  ELSE LET i == CHOOSE i \in DOMAIN v.v : HasHole(v.v[i]) /\ \A j \in 1..(i - 1) : ~HasHole(v.v[j]) IN
                       L([v.v EXCEPT ![i] = FillHole(v.v[i], d)])
\* what may be drawn for a hole
Alternatives(h) ==
    LET it == Items(h.v) IN
    IF h.k = "item" THEN {it[i] : i \in DOMAIN it}
    ELSE {LET xs == [i \in DOMAIN it |-> it[f[i]]] IN IF IsS(h.v) THEN JoinChars(xs) ELSE L(xs) :
             f \in Permutations(DOMAIN it)}
\* The draws that may be made when h is asked for: after a seed was set, the
\* same as the last time the same was asked for after the same seed.
Draws(m, h, alts) ==
    LET hist == Append(m.rng.hist, h) IN
    IF m.rng.hist # << >> /\ hist \in DOMAIN m.rng.memo THEN {m.rng.memo[hist]} ELSE alts
Drew(m, h, d) ==
    LET hist == Append(m.rng.hist, h) IN
    IF m.rng.hist = << >> THEN [m EXCEPT !.rng.log = Append(@, d)]
    ELSE [m EXCEPT !.rng.log = Append(@, d), !.rng.hist = hist, !.rng.memo = Upd(@, hist, d)]
RealHole == [t |-> "?", k |-> "real", v |-> Nil]
\* (for bounding the search)
Ways(m, alts) == LET n == Cardinality(alts) IN
                 [m EXCEPT !.rng.at = Len(m.out), !.rng.ways = IF Len(m.out) > m.rng.at THEN n ELSE MinI(@, 10000) * MinI(n, 1000)]
FillDraw(m, d) == LET v == FillHole(m.c, d) IN
                  [Drew(m, FirstHole(m.c), d) EXCEPT !.c = v, !.md = IF HasHole(v) THEN "draw" ELSE "rt"]
TapeDraw(m, d) == LET q == Drew(m, RealHole, d) IN [q EXCEPT !.rng.tape = Append(@, d)]

\* an operator applied to its prepared operands (values; lvalues if it takes them)
Apply(m0, o, a) ==
    LET fn == Fn(o)
        lam == fn = "CHAIN" \/ (o.tx \notin Pseudo /\ OpInfo[<< o.tx, o.ba >>].lam)
        \* does some operand stand for a function?
        look == IF ~lam \/ ~(\E i \in DOMAIN a : IsLv(a[i]) \/ IsB(a[i])) THEN VM(m0, << >>)
                ELSE FoldLeft(LAMBDA r, x : LET d == IF IsOpr(x) THEN VM(r.m, x) ELSE Deref(r.m, x) IN
                                            [v |-> Append(r.v, d.v), m |-> d.m], VM(m0, << >>), a)
        vs == look.v
        m == look.m IN
    IF \E i \in DOMAIN vs : Bad(vs[i]) THEN Rt(m, vs[CHOOSE i \in DOMAIN vs : Bad(vs[i])])
    ELSE IF \E i \in DOMAIN vs : IsB(vs[i])
    THEN LET all == DerefAll(m, a, << >>) IN Rt(all.m, LambdaOf(o, vs))
    ELSE IF fn \in LvFns THEN LET r == LvApply(m, fn, o, a) IN Rt(r.m, r.v)
    ELSE IF fn \in MapFns \/ (fn \in FilterFns /\ Len(a) = 2) THEN Start(m, PlanOf(fn, a))
    ELSE IF fn = "REPLACE" THEN RepStart(m, a)
    ELSE IF fn = "SEND" THEN Send(m, a)
    ELSE IF fn = "EVAL" THEN Eval(m, a)
    ELSE IF fn = "RECURSE" THEN IF m.sc[1].fn = << >> THEN Stop(m, "fatal") ELSE Call(m, m.sc[1].fn[1], a)
    ELSE IF fn \in RandFns
    THEN LET r == Ap(o, a, m.fm) IN
         IF Bad(r.v) \/ ~HasHole(r.v) THEN Res(m, r) ELSE [WAdd(m, r.w) EXCEPT !.md = "draw", !.c = r.v]
    ELSE Res(m, Ap(o, a, m.fm))

(* --------------------------- meta-operators ----------------------------- *)
Plain(o) == [o EXCEPT !.as = FALSE, !.mp = FALSE, !.fd = FALSE, !.sc = FALSE]
Default(o) == LET d == IF o.tx \in Pseudo THEN "N" ELSE OpInfo[<< o.tx, o.ba >>].df IN
              IF d = "N" THEN Nil ELSE IF d = "L" THEN L(<< >>) ELSE S(From(d, 2))
\* the operator applied under a meta-operator, still itself perhaps with others
MapOp(o) == [o EXCEPT !.mp = FALSE]
FoldOp(o) == [o EXCEPT !.fd = FALSE]
ScanOp(o) == [o EXCEPT !.sc = FALSE]
Pairs(o, v, w) == IF OpAssoc(o) = "R" THEN << w, v >> ELSE << v, w >>
ChainNode(o, xs) == Node(OpChain, << Val(xs[1]) >> \o FlattenSeq([i \in 1..(Len(xs) - 1) |->
                        << [k |-> "opr", o |-> o], Val(xs[i + 1]) >>]))
Meta(m, kind, o, v) ==
    IF IsB(v) THEN Rt(m, Blk(v.st, Node(o, << v.re >>)))
    ELSE IF IsN(v) THEN Rt(m, v)
    ELSE IF ~IsIter(v) THEN Rt(Wn(m), Nil)
    ELSE IF kind = "map"
    THEN IF TooBig(v) THEN Stop(m, "oom")
         ELSE Nx(Push(m, [f |-> "mapm", o |-> MapOp(o), xs |-> Items(v), i |-> 1, rs |-> << >>]))
    ELSE IF IsInf(v) THEN Rt(Wn(m), Nil)
    ELSE IF TooBig(v) THEN Stop(m, "oom")
    ELSE LET xs == Items(v)
             no == IF kind = "fold" THEN FoldOp(o) ELSE ScanOp(o)
             ys == IF OpAssoc(no) = "R" THEN RevSeq(xs) ELSE xs IN
         IF xs = << >> THEN Rt(m, IF kind = "fold" THEN Default(o) ELSE L(<< >>))
         ELSE IF OpAssoc(no) = "C"
         THEN IF kind = "fold"
              THEN IF Len(xs) = 1 THEN Rt(m, One) ELSE Ev(m, ChainNode(no, xs))
              ELSE Rt(Push(m, [f |-> "scanc", o |-> no, xs |-> xs, i |-> 1, rs |-> << >>]), One)
         ELSE Rt(Push(m, [f |-> "accu", kind |-> kind, o |-> no, xs |-> ys, i |-> 2, rs |-> << >>]), ys[1])

(* ----------------------------- evaluation -------------------------------- *)
NeedR(o) == IF o.tx = "CHAIN" THEN TRUE ELSE IF o.tx \in Pseudo THEN FALSE ELSE OpInfo[<< o.tx, o.ba >>].rvals
NeedV(o) == IF o.tx \in Pseudo THEN o.tx # "BLOCK" ELSE OpInfo[<< o.tx, o.ba >>].vals \/ OpInfo[<< o.tx, o.ba >>].rvals
Leaf(n) == n.k \in {"nm", "lit", "val", "opr"}
LeafRes(m, n) ==
    CASE n.k = "nm" -> IF n.n = "q" THEN VM([m EXCEPT !.q = Append(@, << >>)], [LvN("q") EXCEPT !.id = Len(m.q) + 1])
                       ELSE VM(m, LvN(n.n))
      [] n.k = "lit" -> VM(m, LitValue(n))
      [] n.k = "val" -> VM(m, n.v)
      [] OTHER -> VM(m, [t |-> "O", n |-> n])
RECURSIVE EvArgs(_, _, _, _)
EvArgs(m, o, ns, acc) ==        \* evaluate the remaining operands, then apply
    LET i == Len(acc) + 1 IN
    IF i > Len(ns) THEN Apply(m, o, acc)
    ELSE IF Leaf(ns[i])
    THEN LET r == LeafRes(m, ns[i])
             d == IF NeedR(o) /\ ~IsOpr(r.v) THEN Deref(r.m, r.v) ELSE r IN
         IF Bad(d.v) THEN Rt(m, d.v) ELSE EvArgs(d.m, o, ns, Append(acc, d.v))
    ELSE Ev(Push(m, [f |-> "evs", o |-> o, ns |-> ns, acc |-> acc]), ns[i])
EvOp(m, n) ==
    LET o == n.o
        a == n.a IN
    IF o.as THEN Ev(Push(m, [f |-> "asg1", n |-> n]), a[1])
    ELSE IF o.mp THEN Ev(Push(m, [f |-> "meta", kind |-> "map", o |-> o]), a[1])
    ELSE IF o.fd THEN Ev(Push(m, [f |-> "meta", kind |-> "fold", o |-> o]), a[1])
    ELSE IF o.sc THEN Ev(Push(m, [f |-> "meta", kind |-> "scan", o |-> o]), a[1])
    ELSE CASE o.tx = "BLOCK" -> Rt(m, BlockOf(a[1].b))
           [] o.tx = "|" -> Ev(Push(m, [f |-> "or", b |-> a[2], w |-> FALSE]), a[1])
           [] o.tx = "&" -> Ev(Push(m, [f |-> "or", b |-> a[2], w |-> TRUE]), a[1])
           [] o.tx = "?" -> Ev(Push(m, [f |-> "ifte", a |-> a]), a[1])
           [] OTHER -> EvArgs(m, o, a, << >>)
EvNode(m, n) == IF n.k = "op" THEN EvOp(m, n)
                ELSE IF n.k = "cmd" THEN Stop(m, "fatal")     \* a command is no expression
                ELSE LET r == LeafRes(m, n) IN Rt(r.m, r.v)

(* ------------------------------ statements ------------------------------- *)
Body(m, code) == Nx(Push(m, [f |-> "blk", s |-> code, i |-> 1, h |-> FALSE]))
Command(m, n) ==
    LET a == n.a IN
    CASE n.c = "F" -> Ev(Push(m, [f |-> "for0", it |-> a[2], code |-> a[3].b]), a[1])
      [] n.c = "I" -> Ev(Push(m, [f |-> "if", a |-> a]), a[1])
      [] n.c = "L" -> Ev(Push(m, [f |-> "loop0", code |-> a[2].b]), a[1])
      [] n.c = "LR" -> Ev(Push(m, [f |-> "lr0", s |-> a[2], code |-> a[3].b]), a[1])
      [] n.c \in {"T", "W"} -> Ev(Push(m, [f |-> "while", want |-> (n.c = "W"), c |-> a[1], code |-> a[2].b]), a[1])
      [] OTHER -> Nx([m EXCEPT !.g = InitGlobals(m.args, m.main)])
Statement(m, n) == IF n.k = "cmd" THEN Command(m, n) ELSE Ev(m, n)
History(m, v) ==
    LET has(nm) == HasVar(m, nm)
        m1 == IF has("$_") /\ has("$__") THEN SetVar(m, "$___", GetVar(m, "$__")) ELSE m
        m2 == IF has("$_") THEN SetVar(m1, "$__", GetVar(m, "$_")) ELSE m1 IN
    SetVar(m2, "$_", v)

(* -------------------------------- frames --------------------------------- *)
\* continue with frame f (already popped from m)
NxFrame(m, f) ==
    CASE f.f = "blk" ->
           IF f.i > Len(f.s) THEN m
           ELSE LET n == f.s[f.i]
                    m1 == Push(m, [f EXCEPT !.i = @ + 1]) IN
                IF n.k = "cmd" THEN Command(m1, n) ELSE Ev(Push(m1, [f |-> "est", h |-> f.h]), n)
      [] f.f = "fret" -> Ev(Push(m, [f |-> "fval"]), f.re)
      [] f.f = "ev1" -> Ev(m, f.re)
      [] f.f = "calls" ->
           IF f.i > Len(f.cs) THEN Finish(m, f.pl.fin, f.pl.items, PlFill(f.pl.p, f.rs, 1)[1])
           ELSE LET c == f.cs[f.i]
                    m1 == IF c.m = << >> THEN m ELSE SetMatch(m, c.m[1]) IN
                Call(Push(m1, [f EXCEPT !.i = @ + 1]), c.fn, c.a)
      [] f.f = "subs" ->
           IF f.i > Len(f.ms) THEN Rt(m, S(SubWith(f.s, f.ms, f.rs)))
           ELSE Call(Push(SetMatch(m, f.ms[f.i]), [f EXCEPT !.i = @ + 1]), f.fn, MatchGroups(f.ms[f.i]))
      [] f.f = "repl" ->
           IF f.i > Len(f.xs) THEN Rt(m, L(f.rs))
           ELSE RepStart(Push(m, [f EXCEPT !.i = @ + 1]), << f.xs[f.i], f.old, f.new >>)
      [] f.f = "mapm" ->
           IF f.i > Len(f.xs) THEN Rt(m, L(f.rs))
           ELSE Ev(Push(m, [f EXCEPT !.i = @ + 1]), Node(f.o, << Val(f.xs[f.i]) >>))
      [] f.f = "while" -> Ev(Push(m, f), f.c)
      [] f.f = "for" ->
           IF ~IsInf(f.it) /\ f.i > VLen(f.it) THEN Nx(m)
           ELSE LET x == IF IsR(f.it) THEN SI(Lo(f.it) + f.i - 1) ELSE Items(f.it)[f.i]
                    m1 == Assign(m, f.lv, x) IN
                IF Stopped(m1) THEN m1 ELSE Body(Push(m1, [f EXCEPT !.i = @ + 1]), f.code)
      [] f.f = "loop" -> IF f.n <= 0 THEN Nx(m) ELSE Body(Push(m, [f EXCEPT !.n = @ - 1]), f.code)
      [] f.f = "lr" -> IF f.i > Len(f.ms) THEN Nx(m)
                       ELSE Body(Push(SetMatch(m, f.ms[f.i]), [f EXCEPT !.i = @ + 1]), f.code)
      [] OTHER -> Stop(m, "oom")

\* give result r to frame f (already popped from m)
RtFrame(m, f, r) ==
    CASE f.f = "evs" ->
           LET d == IF NeedR(f.o) THEN Deref(m, r) ELSE VM(m, r) IN
           IF Bad(d.v) THEN Rt(m, d.v) ELSE EvArgs(d.m, f.o, f.ns, Append(f.acc, d.v))
      [] f.f = "asg1" ->
           Ev(Push(m, [f |-> "asg2", lv |-> r]),
              Node([f.n.o EXCEPT !.as = FALSE], << Val(r) >> \o Tail(f.n.a)))
      [] f.f = "asg2" -> LET q == AssignOp(m, << f.lv, r >>) IN Rt(q.m, q.v)
      [] f.f = "meta" -> LET d == Deref(m, r) IN IF Bad(d.v) THEN Rt(m, d.v) ELSE Meta(d.m, f.kind, f.o, d.v)
      [] f.f = "mapm" -> LET d == Deref(m, r) IN
                         IF Bad(d.v) THEN Rt(m, d.v) ELSE Nx(Push(d.m, [f EXCEPT !.rs = Append(@, d.v)]))
      [] f.f = "accu" ->
           LET rs == Append(f.rs, r) IN
           IF f.i > Len(f.xs)
           THEN IF f.kind = "fold" THEN Rt(m, r)
                ELSE IF \E j \in DOMAIN rs : IsLv(rs[j]) THEN Stop(m, "oom")
                ELSE Rt(m, L(IF OpAssoc(f.o) = "R" THEN RevSeq(rs) ELSE rs))
           ELSE LET p == Pairs(f.o, r, f.xs[f.i]) IN
                Ev(Push(m, [f EXCEPT !.i = @ + 1, !.rs = rs]), Node(f.o, << Val(p[1]), Val(p[2]) >>))
      [] f.f = "scanc" ->
           LET rs == Append(f.rs, r) IN
           IF f.i >= Len(f.xs) THEN Rt(m, L(rs))
           ELSE Ev(Push(m, [f EXCEPT !.i = @ + 1, !.rs = rs]), ChainNode(f.o, SubSeq(f.xs, 1, f.i + 1)))
      [] f.f = "or" -> LET d == Deref(m, r) IN
                       IF Bad(d.v) THEN Rt(m, d.v)
                       ELSE IF Truthy(d.v) = f.w THEN Ev(Push(d.m, [f |-> "rv"]), f.b) ELSE Rt(d.m, d.v)
      [] f.f = "rv" -> LET d == Deref(m, r) IN Rt(d.m, d.v)
      [] f.f = "ifte" -> LET d == Deref(m, r) IN
                         IF Bad(d.v) THEN Rt(m, d.v) ELSE Ev(d.m, f.a[IF Truthy(d.v) THEN 2 ELSE 3])
      [] f.f = "fval" -> LET d == Deref(m, r) IN
                         IF Bad(d.v) THEN Rt(m, d.v) ELSE Rt([d.m EXCEPT !.sc = @[2]], d.v)
      [] f.f = "calls" -> Nx(Push(m, [f EXCEPT !.rs = Append(@, r)]))
      [] f.f = "subs" -> IF AnyTooBig(r) THEN Stop(m, "oom") ELSE Nx(Push(m, [f EXCEPT !.rs = Append(@, Str(r, m.fm))]))
      [] f.f = "repl" -> Nx(Push(m, [f EXCEPT !.rs = Append(@, r)]))
      [] f.f = "reps" -> IF f.i > Len(f.ps) THEN Rt(m, r)
                         ELSE RepStart(Push(m, [f EXCEPT !.i = @ + 1]), << r, f.ps[f.i][1], f.ps[f.i][2] >>)
      [] f.f = "est" -> LET d == Deref(m, r) IN
                        IF Bad(d.v) THEN Rt(m, d.v) ELSE Nx(IF f.h THEN History(d.m, d.v) ELSE d.m)
      [] f.f = "for0" -> Ev(Push(m, [f |-> "for1", lv |-> r, code |-> f.code]), f.it)
      [] f.f = "for1" -> LET d == Deref(m, r) IN
                         IF Bad(d.v) THEN Rt(m, d.v)
                         ELSE IF IsB(d.v) THEN Nx(Wn(d.m))
                         ELSE Nx(Push(d.m, [f |-> "for", lv |-> f.lv, it |-> d.v, i |-> 1, code |-> f.code]))
      [] f.f = "if" -> LET d == Deref(m, r) IN
                       IF Bad(d.v) THEN Rt(m, d.v) ELSE Body(d.m, f.a[IF Truthy(d.v) THEN 2 ELSE 3].b)
      [] f.f = "loop0" ->
           LET d == Deref(m, r)
               v == d.v
               n == IF IsS(v) THEN IntV(v) ELSE IF IsLR(v) /\ ~IsInf(v) THEN NInt(VLen(v)) ELSE N0 IN
           IF Bad(v) THEN Rt(m, v)
           ELSE IF IsN(v) THEN Nx(d.m)
           ELSE IF ~IsIter(v) THEN Nx(Wn(d.m))
           ELSE IF IsInf(v) THEN Stop(m, "fatal") ELSE IF IsNX(n) THEN Stop(m, "oom")
           ELSE Nx(Push(d.m, [f |-> "loop", n |-> n.n, code |-> f.code]))
      [] f.f = "while" -> LET d == Deref(m, r) IN
                          IF Bad(d.v) THEN Rt(m, d.v)
                          ELSE IF Truthy(d.v) = f.want THEN Body(Push(d.m, f), f.code) ELSE Nx(d.m)
      [] f.f = "lr0" -> LET d == Deref(m, r) IN
                        IF Bad(d.v) THEN Rt(m, d.v) ELSE Ev(Push(d.m, [f |-> "lr1", p |-> d.v, code |-> f.code]), f.s)
      [] f.f = "lr1" ->
           LET d == Deref(m, r)
               sw == IsS(f.p) /\ IsP(d.v)
               p == IF sw THEN d.v ELSE IF IsS(f.p) THEN RegexOf(f.p).v ELSE f.p
               s == IF sw THEN f.p ELSE d.v IN
           IF Bad(d.v) THEN Rt(m, d.v)
           ELSE IF ~(IsP(p) /\ IsS(s)) THEN Nx(Wn(d.m))
           ELSE LET rx == RxParse(p.raw) IN
                IF rx.x = "F" THEN Stop(m, "fatal") ELSE IF rx.x # "" \/ NoCode(s.s) THEN Stop(m, "oom")
                ELSE Nx(Push(d.m, [f |-> "lr", ms |-> AllMatches(rx, s.s, p.fl), i |-> 1, code |-> f.code]))
      [] f.f = "main" -> LET d == PrintV(m, r, "\n") IN
                         IF Bad(d.v) THEN Rt(m, d.v) ELSE Stop(d.m, "done")
      [] f.f = "top" -> LET d == Deref(m, r) IN Rt(d.m, d.v)        \* stop with the value
      [] OTHER -> Stop(m, "oom")

Step(m) ==
    CASE m.md = "ev" -> EvNode(m, m.c)
      [] m.k = << >> -> Stop(m, "done")
      [] m.md = "nx" -> NxFrame(Pop(m), m.k[1])
      [] m.md = "rt" -> RtFrame(Pop(m), m.k[1], m.c)
RECURSIVE Run(_, _)
Run(m, n) == IF n = 0 \/ Stopped(m) \/ m.md \in {"draw", "need"} THEN m ELSE Run(Step(m), n - 1)

(* -------------------------------- programs ------------------------------- *)
Blank(fm, sh, inp) == [md |-> "done", c |-> Nil, k |-> << >>, g |-> InitGlobals(<< >>, << >>), sc |-> << NoScope, << >> >>,
                   out |-> "", w |-> 0, sg |-> << >>, rd |-> << >>, sh |-> sh, inp |-> inp, q |-> << >>, fm |-> fm,
                   args |-> << >>, main |-> << >>,
                   rng |-> [tape |-> << >>, hist |-> << >>, memo |-> [x \in {} |-> Nil], log |-> << >>, ways |-> 1, at |-> 0]]
\* the program with the given (value) arguments, started from state m
Begin(m, stmts, args) ==
    LET main == BlockOf(stmts)
        m1 == [m EXCEPT !.args = args, !.main = << main >>, !.g = InitGlobals(args, << main >>)] IN
    IF stmts = << >> THEN Stop(m, "done") ELSE Call(Push(m1, [f |-> "main"]), main, args)
=============================================================================
