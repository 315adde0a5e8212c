------------------------------ MODULE MCTokens ------------------------------
(* All lines of up to Depth tokens, in a small program that gives them a    *)
(* meaning: checked against the grammar, for independence of their layout,  *)
(* and printed as tests for the real program.                               *)
EXTENDS Asm, Json

CONSTANTS Depth, EmitTests

Words == <<"LBL", "LDA", "#", "(", ")", ",", "X", "Y", "A", "$12", "=", ".EQU",
           ".DEFINE", ".ORG", ".END", "*", "KN">>
WordCodes == [i \in 1..Len(Words) |-> Codes(Words[i])]
KindOf == <<"LABEL", "INSTR", "#", "(", ")", ",", "X", "Y", "A", "LITERAL", "=",
            ".EQU", ".DEFINE", ".ORG", ".END", "*", "LABEL">>

Before == <<Codes("KN = $34"), Codes("LDX #1")>>
After  == <<Codes("INY")>>

VARIABLE toks          \* the line under test, as indexes of Words
tvars == <<vars, toks>>

RECURSIVE Join(_, _, _)
Join(ts, i, sep) == IF i > Len(ts) THEN <<>>
                    ELSE (IF i = 1 THEN <<>> ELSE sep) \o WordCodes[ts[i]] \o Join(ts, i + 1, sep)
Text == Join(toks, 1, <<SP>>)
Lines == Before \o <<Text>> \o After

TInit == Init0 /\ env = [src |-> "ok", out |-> "ok", cap |-> -1, mem |-> "ample"] /\ toks = <<>>

\* the line is composed first, then the machine runs
Compose == phase = "start" /\ Len(toks) < Depth /\ \E i \in 1..Len(Words) : toks' = Append(toks, i)
           /\ UNCHANGED vars
Run == UNCHANGED toks /\ (Internal \/ (lineno < Len(Lines) /\ ReadLine(Lines[lineno + 1]))
                                   \/ (lineno = Len(Lines) /\ EndOfText))
TNext == Compose \/ Run
TSpec == TInit /\ [][TNext]_tvars /\ WF_tvars(Run)

----------------------------------------------------------------------------
Done == phase = "done"
WordKinds == [i \in 1..Len(toks) |-> KindOf[toks[i]]]
Lexed == LexLine(Text)

\* C08: the line divides into exactly the tokens it was made of ...
LexInvertsJoin == phase = "start" =>
  /\ Lexed.err = ""
  /\ Kinds(Lexed.toks) = WordKinds
  /\ \A i \in 1..Len(toks) : Lexed.toks[i].at =
       1 + FoldLeft(LAMBDA n, k : n + 1 + Len(WordCodes[k]), 0, SubSeq(toks, 1, i - 1))

\* ... and is accepted only if it is one of the forms
OnlyForms == (Done /\ verdict.st = "ok") => WordKinds \in Forms
FormsNotSyntaxErrors == (Done /\ verdict.kind \in {SYNTAX, BADBASE}) => WordKinds \notin Forms

\* C08: a line is rejected at the first token with which it leaves the grammar
ErrorPlace == (Done /\ verdict.kind \in {SYNTAX, BADBASE} /\ verdict.col >= 0) =>
  \E n \in 1..Len(toks) :
    /\ Lexed.toks[n].at = verdict.col + 1
    /\ SubSeq(WordKinds, 1, n - 1) \in Begins /\ SubSeq(WordKinds, 1, n) \notin Begins

\* C09: layout does not matter
Lower(s) == [i \in 1..Len(s) |-> Down(s[i])]
Layouts == { Lower(Text), <<TAB>> \o Text, <<SP, SP>> \o Text, Text \o <<TAB, SP>>,
             Text \o <<CR>>, Text \o <<SP, 59, 34, 58, 255>>, Text \o Codes(";LDA #1"),
             Join(toks, 1, <<TAB>>), Join(toks, 1, <<SP, TAB, SP>>) }
LayoutIrrelevant == phase = "start" => \A l \in Layouts : Shape(LexLine(l)) = Shape(Lexed)

StretchIrrelevant == phase = "start" => \A i \in 1..Len(Text) : Idle(Text, i) =>
  Same(LexLine(Copied(Text, i)), Lexed) /\ Idle(Copied(Text, i), i)

Terminates == <>(phase = "done")

----------------------------------------------------------------------------
Flat == FoldLeft(LAMBDA acc, l : acc \o l \o <<LF>>, <<>>, Lines)
Clash == Clashes(code)
Test == [text |-> Flat, env |-> env, st |-> verdict.st, kind |-> verdict.kind,
         line |-> verdict.line, col |-> verdict.col, total |-> total,
         size |-> Extent, nsyms |-> Cardinality(DOMAIN sym), clash |-> SetToSeq(Clash),
         out |-> out, echo |-> verdict.echo,
         nz |-> IF verdict.st = "ok"
                THEN SetToSeq({b \in Bytes(code, Clash) : b[2] # 0}) ELSE <<>>]
Emit == (EmitTests /\ Done) => PrintT("@T " \o ToJson(Test))
=============================================================================
