------------------------------ MODULE PipSyntax ------------------------------
(***************************************************************************)
(* The syntax of Pip: scanning text to tokens, parsing tokens to trees, and *)
(* writing trees and values back as text (unparse, repr, str).             *)
(*                                                                         *)
(* Trees:                                                                  *)
(*   [k |-> "nm", n |-> name]                 a name                       *)
(*   [k |-> "lit", y |-> class, x |-> text]   a literal                    *)
(*   [k |-> "op", o |-> op, a |-> operands]   an operation                 *)
(*   [k |-> "opr", o |-> op]                  a comparison inside a CHAIN  *)
(*   [k |-> "code", b |-> statements]         a block of code              *)
(*   [k |-> "cmd", c |-> text, a |-> args]    a command                    *)
(*   [k |-> "val", v |-> value]               a value (built lambdas)      *)
(* The machine adds lvalues to these: [k |-> "lv", ...], see PipMachine.    *)
(*                                                                         *)
(* An op is [tx, ba, as, mp, fd, sc]: text, arity in the table, and whether *)
(* the meta-operators : * $ \$ apply.                                      *)
(***************************************************************************)
EXTENDS PipValues, PipOpTable

OpKeys == {<< OpRows[i][1], OpRows[i][3] >> : i \in DOMAIN OpRows}
OpInfo == [key \in OpKeys |->
             LET r == OpRows[CHOOSE i \in DOMAIN OpRows :
                               OpRows[i][1] = key[1] /\ OpRows[i][3] = key[2]] IN
             [fn |-> r[2], prec |-> r[4], assoc |-> r[5], df |-> r[6],
              vals |-> Occurs("v", r[7]), rvals |-> Occurs("r", r[7]),
              le |-> Occurs("l", r[7]) \/ Occurs("e", r[7]), re |-> Occurs("e", r[7]),
              lam |-> Occurs("m", r[7])]]
OpTexts == {OpRows[i][1] : i \in DOMAIN OpRows}
Ops1 == {key[1] : key \in {q \in OpKeys : q[2] = 1}}
Ops2 == {key[1] : key \in {q \in OpKeys : q[2] = 2}}
Ops3 == {key[1] : key \in {q \in OpKeys : q[2] = 3}}
Pseudo == {"PAREN", "LIST", "BLOCK", "SEND", "CHAIN"}
TopPrec == 44
ChainPrec == 14
AssignPrec == 1
Cmds == [F |-> << "LOOPVAR", "EXPR", "CODE" >>, I |-> << "EXPR", "CODE", "ELSE" >>,
         L |-> << "EXPR", "CODE" >>, LR |-> << "EXPR", "EXPR", "CODE" >>,
         T |-> << "EXPR", "CODE" >>, W |-> << "EXPR", "CODE" >>, WG |-> << >>]

Op(tx, ba) == [tx |-> tx, ba |-> ba, as |-> FALSE, mp |-> FALSE, fd |-> FALSE, sc |-> FALSE]
OpParen == Op("PAREN", 1)
OpList == Op("LIST", 1)
OpBlock == Op("BLOCK", 1)
OpSend == Op("SEND", 1)
OpChain == Op("CHAIN", 2)
OpArity(o) == IF o.fd \/ o.sc THEN 1 ELSE o.ba
OpPrec(o) == IF o.as THEN AssignPrec
             ELSE IF o.tx = "CHAIN" THEN ChainPrec
             ELSE IF o.tx \in Pseudo THEN TopPrec ELSE OpInfo[<< o.tx, o.ba >>].prec
OpAssoc(o) == IF o.as /\ OpArity(o) > 1 THEN "R"
              ELSE IF o.tx = "CHAIN" THEN "C"
              ELSE IF o.tx \in Pseudo THEN "L" ELSE OpInfo[<< o.tx, o.ba >>].assoc
Nm(n) == [k |-> "nm", n |-> n]
Lit(y, x) == [k |-> "lit", y |-> y, x |-> x]
NilLit == Lit("nil", "()")
Node(o, a) == [k |-> "op", o |-> o, a |-> a]
Val(v) == [k |-> "val", v |-> v]
Code(b) == [k |-> "code", b |-> b]

(* ------------------------------ scanning ------------------------------- *)
Tok(c, x) == [c |-> c, x |-> x]
EndTok == Tok("end", "")
LitClasses == {"num", "str", "pat", "chr", "esc", "nil"}
NameLows == (Lowers \ {"j"}) \cup {"_"}
LowDig == Lowers \cup Digits \cup {"_"}
AtG == SetOf("abcdefg")

Eol(s, i) == LET j == FindFrom(s, "\n", i) IN IF j = 0 THEN Len(s) + 1 ELSE j

\* end (exclusive) of a `pattern` / \"escaped string\" body starting at i; 0 if unterminated
RECURSIVE PatEnd(_, _)
PatEnd(s, i) == IF i > Len(s) THEN 0
                ELSE IF At(s, i) = "`" THEN i + 1
                ELSE IF At(s, i) = "\\"
                THEN IF i + 1 > Len(s) \/ At(s, i + 1) = "\n" THEN 0 ELSE PatEnd(s, i + 2)
                ELSE PatEnd(s, i + 1)
RECURSIVE EscEnd(_, _)
EscEnd(s, i) == IF i > Len(s) THEN 0
                ELSE IF At(s, i) = "\\"
                THEN IF i + 1 > Len(s) THEN 0
                     ELSE IF At(s, i + 1) = "\"" THEN i + 2 ELSE EscEnd(s, i + 2)
                ELSE EscEnd(s, i + 1)

UpperTok(run) ==   \* split a run of capitals in twos, an odd one first
    LET n == IF run = "PIP" THEN 3 ELSE IF Len(run) % 2 = 1 THEN 1 ELSE 2
        x == SubSeq(run, 1, n) IN
    IF x = "EI" THEN [c |-> "sym", x |-> "EL", n |-> 1]
    ELSE IF x = "EL" THEN [c |-> "sym", x |-> x, n |-> 2]
    ELSE IF x \in OpTexts THEN [c |-> "op", x |-> x, n |-> n]
    ELSE IF x \in DOMAIN Cmds THEN [c |-> "cmd", x |-> x, n |-> n]
    ELSE [c |-> "nm", x |-> x, n |-> n]

NoTok == [c |-> "none", x |-> "", n |-> 1]
T3(c, s, i, j) == [c |-> c, x |-> SubSeq(s, i, j - 1), n |-> j - i]
\* the token at position i (which is not blank or comment): class, text, length
TokAt(s, i) ==
    LET c == At(s, i)
        d == IF i < Len(s) THEN At(s, i + 1) ELSE "" IN
    CASE c \in Uppers -> UpperTok(SubSeq(s, i, FirstNotIn(s, i, Uppers) - 1))
      [] c \in NameLows -> T3("nm", s, i, i + 1)
      [] c = "$" -> IF d \in Digits \cup {"]", "[", "(", ")", "$", "`", "'"} THEN T3("nm", s, i, i + 2)
                    ELSE IF d \in Lowers THEN T3("nm", s, i, FirstNotIn(s, i + 1, LowDig))
                    ELSE IF d = "_" THEN T3("nm", s, i, MinI(FirstNotIn(s, i + 1, {"_"}), i + 4))
                    ELSE T3("sym", s, i, i + 1)
      [] c = "\\" /\ d \in AtG -> T3("nm", s, i, i + 2)
      [] c = "\"" -> LET j == FindFrom(s, "\"", i + 1) IN
                     IF j = 0 THEN NoTok ELSE T3("str", s, i, j + 1)
      [] c = "`" -> LET j == PatEnd(s, i + 1) IN IF j = 0 THEN NoTok ELSE T3("pat", s, i, j)
      [] c = "'" -> IF d = "" THEN NoTok ELSE T3("chr", s, i, i + 2)
      [] c = "\\" /\ d = "\"" -> LET j == EscEnd(s, i + 2) IN
                                 IF j = 0 THEN NoTok ELSE T3("esc", s, i, j)
      [] c \in Digits -> LET j == FirstNotIn(s, i, Digits)
                             k == IF StartsAt(s, j, ".") THEN FirstNotIn(s, j + 1, Digits) ELSE j
                         IN T3("num", s, i, IF k > j + 1 THEN k ELSE j)
      [] c \in {"]", "[", "(", ")", "{", "}", ";"} -> T3("sym", s, i, i + 1)
      [] c = "\\" /\ d = "$" -> T3("sym", s, i, i + 2)
      [] OTHER -> IF (c \o d) \in OpTexts THEN [c |-> "op", x |-> c \o d, n |-> Len(c \o d)]
                  ELSE IF c \in OpTexts THEN T3("op", s, i, i + 1) ELSE NoTok

RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(s, i, toks, w) ==
    IF i > Len(s) THEN [x |-> "", toks |-> toks \o << EndTok >>, w |-> w]
    ELSE LET j == FirstNotIn(s, i, Blanks) IN
         IF j > i /\ StartsAt(s, j, ";") /\ Occurs("\n", SubSeq(s, i, j - 1))
         THEN ScanFrom(s, Eol(s, j), toks, w)               \* line of comment
         ELSE IF StartsAt(s, i, "  ") THEN ScanFrom(s, Eol(s, i), toks, w)
         ELSE IF StartsAt(s, i, "{;")
         THEN LET e == FindFrom(s, ";}", i + 2) IN
              IF e = 0 THEN [x |-> "inc", toks |-> << EndTok >>, w |-> w]
              ELSE ScanFrom(s, e + 2, toks, w)              \* block comment
         ELSE IF j > i THEN ScanFrom(s, j, toks, w)
         ELSE LET t == TokAt(s, i) IN
              IF t.c # "none" THEN ScanFrom(s, i + t.n, Append(toks, Tok(t.c, t.x)), w)
              ELSE IF At(s, i) \in {"\"", "`", "'"} \/ StartsAt(s, i, "\\\"")
              THEN [x |-> "inc", toks |-> << EndTok >>, w |-> w]
              ELSE ScanFrom(s, i + 1, toks, TRUE)           \* ignored, with a warning
Scan(code) == ScanFrom("\n" \o code \o "\n", 1, << >>, FALSE)

(* ------------------------------- parsing ------------------------------- *)
\* Parsers take the tokens T and a position i, and return
\* [x |-> "" | "inc" | "bad", i |-> next position, e |-> result]
Pok(i, e) == [x |-> "", i |-> i, e |-> e]
Perr(x) == [x |-> x, i |-> 0, e |-> << >>]
Tx(T, i) == IF i <= Len(T) THEN T[i].x ELSE ""
IsOpTok(T, i) == i <= Len(T) /\ T[i].c = "op"
IsEnd(T, i) == i >= Len(T)
SymAt(T, i, x) == i <= Len(T) /\ T[i].c = "sym" /\ T[i].x = x
SkipSemi(T, i) == IF SymAt(T, i, ";") THEN i + 1 ELSE i
ColonAt(T, i) == IsOpTok(T, i) /\ T[i].x = ":"

\* Attach operator o with its remaining operands below the right spine of tree
\* e, where precedence and associativity put it.
RECURSIVE Attach(_, _, _)
Attach(e, o, rest) ==
    LET ch == OpAssoc(o) = "C"
        root == IF ch THEN OpChain ELSE o IN
    IF /\ e.k = "op"
       /\ OpArity(e.o) \in {2, 3}
       /\ \/ OpPrec(e.o) < OpPrec(root)
          \/ OpPrec(e.o) = OpPrec(root) /\ OpAssoc(root) = "R"
    THEN [e EXCEPT !.a[Len(e.a)] = Attach(e.a[Len(e.a)], o, rest)]
    ELSE IF ch /\ e.k = "op" /\ e.o.tx = "CHAIN"
    THEN [e EXCEPT !.a = e.a \o << [k |-> "opr", o |-> o] >> \o rest]
    ELSE IF ch THEN Node(OpChain, << e, [k |-> "opr", o |-> o] >> \o rest)
    ELSE Node(o, << e >> \o rest)

RECURSIVE EscPieces(_, _, _, _)
\* pieces of an escaped string: [l |-> literal] and [n |-> name] alternating
EscPieces(s, i, lit, acc) ==
    IF i > Len(s) THEN acc \o << [l |-> lit] >>
    ELSE IF At(s, i) # "\\" \/ i = Len(s) THEN EscPieces(s, i + 1, lit \o At(s, i), acc)
    ELSE LET d == At(s, i + 1) IN
         IF d = "\\" THEN EscPieces(s, i + 2, lit \o "\\\\", acc)
         ELSE IF d \in Lowers \cup {"_"}
         THEN EscPieces(s, i + 2, "", acc \o << [l |-> lit], [n |-> d] >>)
         ELSE IF d \in Uppers
         THEN LET n == IF i + 2 <= Len(s) /\ At(s, i + 2) \in Uppers THEN 2 ELSE 1 IN
              EscPieces(s, i + 1 + n, "", acc \o << [l |-> lit], [n |-> SubSeq(s, i + 1, i + n)] >>)
         ELSE EscPieces(s, i + 1, lit \o "\\", acc)
EscOperand(tok) ==
    LET ps == EscPieces(SubSeq(tok.x, 3, Len(tok.x) - 2), 1, "", << >>) IN
    IF Len(ps) = 1 THEN Lit("esc", tok.x)
    ELSE Node(OpParen, << Node(Op("J", 1), << Node(OpList,
           [i \in DOMAIN ps |->
              IF "l" \in DOMAIN ps[i] THEN Lit("esc", "\\\"" \o ps[i].l \o "\\\"")
              ELSE Node(Op("ST", 1), << Nm(ps[i].n) >>)]) >>) >>)

RECURSIVE PStmt(_, _), PNames(_, _), PNameSeq(_, _, _), PBlock(_, _), PStmts(_, _, _),
          PExpr(_, _, _), PExprRest(_, _, _, _), POperand(_, _), PSeqTo(_, _, _, _), PArgs(_, _, _, _)

\* statements up to the end or a closing brace
PStmts(T, i, acc) ==
    IF IsEnd(T, i) \/ SymAt(T, i, "}") THEN Pok(i, acc)
    ELSE LET r == PStmt(T, i) IN
         IF r.x # "" THEN r ELSE PStmts(T, r.i, Append(acc, r.e))

PArgs(T, i, types, acc) ==
    IF types = << >> THEN Pok(i, acc)
    ELSE LET ty == types[1]
             r == IF ty = "ELSE" THEN IF SymAt(T, i, "EL") THEN PBlock(T, i + 1) ELSE Pok(i, Code(<< >>))
                  ELSE IF ty = "CODE" THEN PBlock(T, i)
                  ELSE IF ty = "LOOPVAR" THEN PNames(T, i)
                  ELSE PExpr(T, i, -1) IN
         IF r.x # "" THEN r ELSE PArgs(T, r.i, Tail(types), Append(acc, r.e))

PStmt(T, i) ==
    IF IsEnd(T, i) THEN Perr("inc")
    ELSE LET r == IF T[i].c = "cmd"
                  THEN LET q == PArgs(T, i + 1, Cmds[T[i].x], << >>) IN
                       IF q.x # "" THEN q ELSE Pok(q.i, [k |-> "cmd", c |-> T[i].x, a |-> q.e])
                  ELSE PExpr(T, i, -1) IN
         IF r.x # "" THEN r ELSE Pok(SkipSemi(T, r.i), r.e)

PNameSeq(T, i, acc) ==
    IF SymAt(T, i, "]") THEN IF acc = << >> THEN Perr("bad") ELSE Pok(i + 1, Node(OpList, acc))
    ELSE LET r == PNames(T, i) IN IF r.x # "" THEN r ELSE PNameSeq(T, r.i, Append(acc, r.e))
PNames(T, i) ==
    IF IsEnd(T, i) THEN Perr("inc")
    ELSE LET r == IF T[i].c = "nm" THEN Pok(i + 1, Nm(T[i].x))
                  ELSE IF SymAt(T, i, "[") THEN PNameSeq(T, i + 1, << >>)
                  ELSE Perr("bad") IN
         IF r.x # "" THEN r ELSE Pok(SkipSemi(T, r.i), r.e)

PBlock(T, i) ==
    IF SymAt(T, i, "{")
    THEN LET r == PStmts(T, i + 1, << >>) IN
         IF r.x # "" THEN r
         ELSE IF SymAt(T, r.i, "}") THEN Pok(r.i + 1, Code(r.e)) ELSE Perr("inc")
    ELSE LET r == PStmt(T, i) IN
         IF r.x # "" THEN r ELSE Pok(r.i, Code(<< r.e >>))

\* expressions up to the closing symbol
PSeqTo(T, i, close, acc) ==
    IF SymAt(T, i, close) THEN Pok(i + 1, acc)
    ELSE IF IsEnd(T, i) THEN Perr("inc")
    ELSE LET r == PExpr(T, i, -1) IN
         IF r.x # "" THEN r ELSE PSeqTo(T, r.i, close, Append(acc, r.e))

PExprRest(T, i, minp, e) ==
    IF IsOpTok(T, i) /\ T[i].x \in Ops2 \cup Ops3
    THEN LET ba == IF T[i].x \in Ops2 THEN 2 ELSE 3
             as == ColonAt(T, i + 1)
             o == [Op(T[i].x, ba) EXCEPT !.as = as]
             j == IF as THEN i + 2 ELSE i + 1 IN
         IF OpPrec(o) < minp THEN Pok(i, e)
         ELSE LET m == IF ba = 3 THEN PExpr(T, j, -1) ELSE Pok(j, << >>) IN
              IF m.x # "" THEN m
              ELSE LET r == POperand(T, m.i) IN
                   IF r.x # "" THEN r
                   ELSE PExprRest(T, r.i, minp,
                          Attach(e, o, (IF ba = 3 THEN << m.e >> ELSE << >>) \o << r.e >>))
    ELSE Pok(i, e)

PExpr(T, i, minp) ==
    LET r == POperand(T, i) IN
    IF r.x # "" THEN r
    ELSE LET q == PExprRest(T, r.i, minp, r.e) IN
         IF q.x # "" THEN q
         ELSE IF minp = -1 THEN Pok(SkipSemi(T, q.i), q.e) ELSE q

PUnary(T, j, o0) ==      \* optional * and : meta-operators, then the operand
    LET mp == IsOpTok(T, j) /\ T[j].x = "*"
        j1 == IF mp THEN j + 1 ELSE j
        as == ColonAt(T, j1)
        j2 == IF as THEN j1 + 1 ELSE j1
        o == [o0 EXCEPT !.mp = mp, !.as = as]
        r == PExpr(T, j2, OpPrec(o) + 1) IN
    IF r.x # "" THEN r ELSE Pok(r.i, Node(o, << r.e >>))

POperand(T, i) ==
    IF IsEnd(T, i) THEN Perr("inc")
    ELSE LET t == T[i] IN
    IF t.c = "esc" THEN Pok(i + 1, EscOperand(t))
    ELSE IF t.c = "nm" THEN Pok(i + 1, Nm(t.x))
    ELSE IF t.c \in LitClasses THEN Pok(i + 1, Lit(t.c, t.x))
    ELSE IF SymAt(T, i, "(")
    THEN LET r == PSeqTo(T, i + 1, ")", << >>) IN
         IF r.x # "" THEN r
         ELSE IF r.e = << >> THEN Pok(r.i, NilLit)
         ELSE IF Len(r.e) = 1 THEN Pok(r.i, Node(OpParen, r.e))
         ELSE Pok(r.i, Node(OpSend, r.e))
    ELSE IF SymAt(T, i, "[")
    THEN LET r == PSeqTo(T, i + 1, "]", << >>) IN
         IF r.x # "" THEN r ELSE Pok(r.i, Node(OpList, r.e))
    ELSE IF SymAt(T, i, "{")
    THEN LET r == PBlock(T, i) IN
         IF r.x # "" THEN r ELSE Pok(r.i, Node(OpBlock, << r.e >>))
    ELSE IF t.c = "op" /\ t.x \in Ops1 THEN PUnary(T, i + 1, Op(t.x, 1))
    ELSE IF SymAt(T, i, "$") \/ SymAt(T, i, "\\$")
    THEN IF IsEnd(T, i + 1) THEN Perr("inc")
         ELSE IF IsOpTok(T, i + 1) /\ T[i + 1].x \in Ops2
         THEN PUnary(T, i + 2, [Op(T[i + 1].x, 2) EXCEPT !.fd = (t.x = "$"), !.sc = (t.x = "\\$")])
         ELSE Perr("bad")
    ELSE Perr("bad")

Parse(toks) == PStmts(toks, 1, << >>)
\* Text to statements: [x, e, w]
Read(code) == LET s == Scan(code) IN
              IF s.x # "" THEN [x |-> s.x, e |-> << >>, w |-> s.w, st |-> "scan"]
              ELSE LET p == Parse(s.toks) IN
                   [x |-> p.x, e |-> p.e, w |-> s.w, st |-> "parse"]

IsExprNode(n) == n.k \in {"op", "nm", "lit"}
\* A sequence of statements as a function: the last expression is returned
BlockOf(stmts) ==
    IF stmts # << >> /\ IsExprNode(stmts[Len(stmts)])
    THEN Blk(SubSeq(stmts, 1, Len(stmts) - 1), stmts[Len(stmts)])
    ELSE Blk(stmts, Val(Nil))

LitValue(n) ==
    CASE n.y = "num" -> S(n.x)
      [] n.y = "str" -> S(SubSeq(n.x, 2, Len(n.x) - 1))
      [] n.y = "pat" -> Pat(ReplaceS(SubSeq(n.x, 2, Len(n.x) - 1), "\\`", "`"), {})
      [] n.y = "chr" -> S(At(n.x, 2))
      [] n.y = "esc" -> S(ReplaceS(SubSeq(n.x, 3, Len(n.x) - 2), "\\\\", "\\"))
      [] OTHER -> Nil

(* ------------------------------ unparsing ------------------------------ *)
OpStr(o) ==
    (IF o.fd THEN "$" ELSE IF o.sc THEN "\\$" ELSE "") \o o.tx
    \o (IF o.mp THEN IF (o.tx \o "*") \in OpTexts THEN " *" ELSE "*" ELSE "")
    \o (IF o.as THEN ":" ELSE "")

RECURSIVE UnStmts(_), UnStmt(_), UnExpr(_), UnOperand(_), Repr(_)
UnStmts(stmts) == JoinS([i \in DOMAIN stmts |-> UnStmt(stmts[i])], "; ")
UnStmt(n) ==
    IF n.k # "cmd" THEN UnExpr(n)
    ELSE LET ts == Cmds[n.c] IN
         n.c \o Concat([i \in DOMAIN ts |->
            CASE ts[i] \in {"LOOPVAR", "EXPR"} ->
                   (IF i > 1 /\ ts[i] = ts[i - 1] THEN "; " ELSE " ") \o UnExpr(n.a[i])
              [] ts[i] = "CODE" -> " {" \o UnStmts(n.a[i].b) \o "}"
              [] OTHER -> " EL {" \o UnStmts(n.a[i].b) \o "}"])
UnOperand(n) ==
    IF n.k = "opr" THEN OpStr(n.o)
    ELSE IF n.k = "op" /\ n.o.tx \notin {"PAREN", "BLOCK", "SEND", "LIST"}
    THEN "(" \o UnExpr(n) \o ")" ELSE UnExpr(n)
UnExpr(n) ==
    CASE n.k = "nm" -> n.n
      [] n.k = "lit" -> n.x
      [] n.k = "val" -> LET r == Repr(n.v) IN
                        IF r # "" /\ At(r, 1) \in {"-", "A", ",", "."} THEN "(" \o r \o ")" ELSE r
      [] n.k = "op" ->
           LET a == n.a
               tx == n.o.tx
               as == [i \in DOMAIN a |-> UnOperand(a[i])] IN
           CASE tx = "PAREN" -> "(" \o UnExpr(a[1]) \o ")"
             [] tx = "BLOCK" -> "{" \o UnStmts(a[1].b) \o "}"
             [] tx = "SEND" -> "(" \o JoinS([i \in DOMAIN a |-> UnExpr(a[i])], "; ") \o ")"
             [] tx = "LIST" -> "[" \o JoinS([i \in DOMAIN a |-> UnExpr(a[i])], "; ") \o "]"
             [] tx = "CHAIN" -> JoinS(as, " ")
             [] OpArity(n.o) = 1 -> OpStr(n.o) \o " " \o as[1]
             [] OpArity(n.o) = 2 -> as[1] \o " " \o OpStr(n.o) \o " " \o as[2]
             [] OTHER -> as[1] \o " " \o OpStr(n.o) \o " " \o as[2] \o "; " \o as[3]
      [] OTHER -> "?"
\* Source text that evaluates to the value (RP)
Repr(v) == CASE v.t = "S" -> ReprS(v.s)
             [] v.t = "L" -> "[" \o JoinS([i \in DOMAIN v.v |-> Repr(v.v[i])], ";") \o "]"
             [] v.t = "R" -> ReprR(v)
             [] v.t = "P" -> ReprP(v)
             [] v.t = "B" -> "{" \o UnStmts(Append(v.st, v.re)) \o "}"
             [] OTHER -> "()"

(* How a value is output, given the list format flag fm *)
RECURSIVE Str(_, _), Joined(_, _, _)
Joined(v, sep, fm) == JoinS([i \in DOMAIN v.v |->
                         IF IsL(v.v[i]) THEN Joined(v.v[i], sep, fm) ELSE Str(v.v[i], fm)], sep)
StrList(v, fm) ==
    LET strs == [i \in DOMAIN v.v |-> Str(v.v[i], fm)] IN
    CASE fm = "" -> Concat(strs)
      [] fm = "p" -> Repr(v)
      [] fm = "n" -> JoinS(strs, "\n")
      [] fm = "s" -> JoinS(strs, " ")
      [] fm = "P" -> JoinS([i \in DOMAIN v.v |-> Repr(v.v[i])], "\n")
      [] OTHER -> LET sep == IF fm = "l" THEN "" ELSE " " IN
                  JoinS([i \in DOMAIN v.v |->
                     IF IsL(v.v[i]) THEN Joined(v.v[i], sep, fm) ELSE strs[i]], "\n")
Str(v, fm) == CASE v.t = "S" -> v.s
                [] v.t = "P" -> v.raw
                [] v.t = "B" -> Repr(v)
                [] v.t = "N" -> ""
                [] v.t = "L" -> StrList(v, fm)
                [] v.t = "R" -> IF v.hi = << >> THEN ReprR(v) ELSE StrList(L(Items(v)), fm)
                [] OTHER -> ""
=============================================================================
