------------------------------ MODULE Grammar ------------------------------
(* The documented line forms, as the finite set of legal sequences of token *)
(* kinds, and what a legal line means.                                      *)
EXTENDS Lexer

Operand == {"LABEL", "LITERAL"}

InstrForms ==
  {<<"INSTR">>, <<"INSTR", "A">>}
  \cup {<<"INSTR", o>> : o \in Operand}
  \cup {<<"INSTR", "#", o>> : o \in Operand}
  \cup {<<"INSTR", o, ",", r>> : o \in Operand, r \in {"X", "Y"}}
  \cup {<<"INSTR", "(", o, ")">> : o \in Operand}
  \cup {<<"INSTR", "(", o, ",", "X", ")">> : o \in Operand}
  \cup {<<"INSTR", "(", o, ")", ",", "Y">> : o \in Operand}

Forms ==
  {<<>>, <<"LABEL">>, <<".END">>,
   <<"LABEL", "=", "LITERAL">>, <<"LABEL", ".EQU", "LITERAL">>,
   <<".DEFINE", "LABEL", "LITERAL">>,
   <<".ORG", "LITERAL">>, <<"*", "=", "LITERAL">>}
  \cup InstrForms
  \cup {<<"LABEL">> \o f : f \in InstrForms}

\* all beginnings of legal lines
Begins == UNION {{SubSeq(f, 1, n) : n \in 0..Len(f)} : f \in Forms}

Kinds(toks) == [i \in 1..Len(toks) |-> toks[i].k]

\* index of the first token no legal line continues with; Len+1 when the
\* line stops too early
SyntaxErrorAt(ks) ==
  LET bad == {n \in 1..Len(ks) : SubSeq(ks, 1, n) \notin Begins}
  IN IF bad = {} THEN Len(ks) + 1 ELSE CHOOSE n \in bad : \A m \in bad : n <= m

SYNTAX  == "illegal syntax"
BADBASE == "illegal base"

----------------------------------------------------------------------------
(* Parse yields [err, at, def, defAt, val, org, end, instr, shape, opd]:    *)
(*   def    "" | "addr" | "const";  name, defAt, val of the definition      *)
(*   org    -1 or the new location                                          *)
(*   end    TRUE for .END                                                   *)
(*   instr  "" or the mnemonic; shape of its operand; the operand token     *)
NoTok == Tok("", <<>>, 0, 0)
Nothing == [err |-> "", at |-> 0, def |-> "", name |-> <<>>, defAt |-> 0,
            val |-> 0, org |-> -1, end |-> FALSE, instr |-> "",
            shape |-> "none", opd |-> NoTok]

\* operand shapes by what follows the mnemonic
ShapeOf(f) ==
  CASE f = <<>> -> "none"
    [] f = <<"A">> -> "acc"
    [] Len(f) = 1 -> "plain"
    [] Len(f) = 2 -> "imm"
    [] Len(f) = 3 /\ f[1] # "(" -> IF f[3] = "X" THEN "x" ELSE "y"
    [] Len(f) = 3 -> "ind"
    [] Len(f) = 5 /\ f[5] = ")" -> "indx"
    [] Len(f) = 5 -> "indy"

ParseInstr(p, toks) ==
  LET rest == Tail(toks)
      os == SelectSeq(rest, LAMBDA t : t.k \in Operand)
  IN [p EXCEPT !.instr = toks[1].s, !.shape = ShapeOf(Kinds(rest)),
               !.opd = IF os = <<>> THEN NoTok ELSE os[1]]

Parse(toks) ==
  LET ks == Kinds(toks) IN
  IF ks \notin Forms
  THEN LET n == SyntaxErrorAt(ks) IN
       [Nothing EXCEPT !.err = IF ks # <<>> /\ ks[1] = "*" THEN BADBASE ELSE SYNTAX,
                       !.at = IF n > Len(ks) THEN 0 ELSE toks[n].at]
  ELSE IF ks = <<>> THEN Nothing
  ELSE CASE ks[1] = "INSTR" -> ParseInstr(Nothing, toks)
         [] ks[1] = ".END" -> [Nothing EXCEPT !.end = TRUE]
         [] ks[1] = ".ORG" -> [Nothing EXCEPT !.org = toks[2].v]
         [] ks[1] = "*"    -> [Nothing EXCEPT !.org = toks[3].v]
         [] ks[1] = ".DEFINE" ->
              [Nothing EXCEPT !.def = "const", !.name = toks[2].s,
                              !.defAt = toks[2].at, !.val = toks[3].v]
         [] ks[1] = "LABEL" ->
              IF Len(ks) = 3 /\ ks[2] \in {"=", ".EQU"}
              THEN [Nothing EXCEPT !.def = "const", !.name = toks[1].s,
                                   !.defAt = toks[1].at, !.val = toks[3].v]
              ELSE LET p == [Nothing EXCEPT !.def = "addr", !.name = toks[1].s,
                                            !.defAt = toks[1].at]
                   IN IF Len(ks) = 1 THEN p ELSE ParseInstr(p, Tail(toks))

----------------------------------------------------------------------------
ASSUME GrammarForms == Cardinality(Forms) = 8 + 2 * 16
ASSUME GrammarShort == \A f \in Forms : Len(f) < MaxTokens
=============================================================================
