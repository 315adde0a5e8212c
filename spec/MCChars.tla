------------------------------ MODULE MCChars ------------------------------
(* Every string of up to Depth characters over a set of characters, behind  *)
(* each of several beginnings of a line, in a small program: properties of  *)
(* the division into tokens are checked on each, then the machine runs and  *)
(* the outcome is printed as a test for the real program.                   *)
EXTENDS Asm, Json

CONSTANTS Letters,     \* the characters (a string)
          Others,      \* and others (codes)
          Heads,       \* beginnings of the line (strings)
          Tails,       \* what may stand behind the string
          Depth, EmitTests

Set == {CodeOf[SubSeq(Letters, i, i)] : i \in 1..Len(Letters)} \cup Others
HeadCodes == [i \in 1..Len(Heads) |-> Codes(Heads[i])]
TailCodes == [i \in 1..Len(Tails) |-> Codes(Tails[i])]

\* characters of the parts of words, of literals and between tokens
WordLetters == "AaXxLz019_:;. \t#,$%()="
ByteLetters == "A1;,( "
ByteCodes == {NUL, 11, CR, 200, EOFB}
DigitLetters == "019aAfFgG$%;_:,). #x-"
Long62 == "L234567890123456789012345678901234567890123456789012345678901_"
WordHeads == <<"", "L", "NOP", "LDA ", "K = 3\nJMP K", "JMP ", ".", Long62, "JMP " \o Long62 \o "xy">>
ByteHeads == <<"", "L", "NOP", "LDA #5", "JMP L", ".END", "*=$10">>
DigitHeads == <<"JMP ", "LDA #", "K = ", "*=", "STA $", "STA %", "LDA 6553", "JMP (">>
SomeTails == <<"", "\nL RTS">>
NoTails == <<"">>

AfterLine == Codes("LDX #1")

VARIABLES head, text, tail        \* the line under test: head's words, text
cvars == <<vars, head, text, tail>>

\* the codes of a string in which \n separates lines
Flat0 == HeadCodes[head] \o text \o TailCodes[tail]
CutLines(t) ==
  LET ends == SelectSeq([i \in 1..Len(t) |-> i], LAMBDA i : t[i] = LF)
      stops == Append(ends, Len(t) + 1)
  IN [n \in 1..Len(stops) |-> SubSeq(t, IF n = 1 THEN 1 ELSE stops[n-1] + 1, stops[n] - 1)]
Lines == CutLines(Flat0) \o <<AfterLine>>
\* the line that holds the string
Under == LET ls == CutLines(HeadCodes[head]) IN CutLines(HeadCodes[head] \o text)[Len(ls)]

CInit == Init0 /\ env = [src |-> "ok", out |-> "ok", cap |-> -1, mem |-> "ample"] /\ text = <<>> /\ head = 0 /\ tail = 0

Choose == phase = "start" /\ head = 0 /\ head' \in 1..Len(Heads) /\ UNCHANGED <<vars, text, tail>>
Compose == phase = "start" /\ head > 0 /\ tail = 0 /\ Len(text) < Depth /\ \E c \in Set : text' = Append(text, c)
           /\ UNCHANGED <<vars, head, tail>>
End1 == phase = "start" /\ head > 0 /\ tail = 0 /\ tail' \in 1..Len(Tails) /\ UNCHANGED <<vars, head, text>>
Run == tail > 0 /\ UNCHANGED <<head, text, tail>>
       /\ (Internal \/ (lineno < Len(Lines) /\ ReadLine(Lines[lineno + 1])) \/ (lineno = Len(Lines) /\ EndOfText))
CNext == Choose \/ Compose \/ End1 \/ Run
CSpec == CInit /\ [][CNext]_cvars /\ WF_cvars(Run)

----------------------------------------------------------------------------
Done == phase = "done"
Lexed == LexLine(Under)
Composed == phase = "start" /\ head > 0 /\ tail = 0

\* where the comment begins, or the line ends
Ended == Under # <<>> /\ Under[Len(Under)] = CR
Visible == LET e == First(Under, 1, LAMBDA c : c = 59) - 1
           IN IF e = Len(Under) /\ Ended THEN e - 1 ELSE e
Without(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))
Lower(s) == [i \in 1..Len(s) |-> Down(s[i])]

\* C08: tokens stand at places of their own, on characters that are no blanks
Placed == Composed /\ Lexed.err = "" =>
  \A n \in 1..Len(Lexed.toks) :
    /\ Lexed.toks[n].at \in 1..Visible /\ ~IsBlank(Under[Lexed.toks[n].at])
    /\ n > 1 => Lexed.toks[n].at > Lexed.toks[n - 1].at

\* C08: no visible character is ignored - without it the line says something
\* else - but for the colon behind a label, and zeros and the base of a literal with one digit
LastTok(i) == Lexed.toks[CHOOSE n \in 1..Len(Lexed.toks) :
                 /\ Lexed.toks[n].at <= i
                 /\ \A m \in 1..Len(Lexed.toks) : Lexed.toks[m].at <= i => m <= n]
NothingIgnored == Composed /\ Lexed.err = "" /\ Len(Lexed.toks) <= MaxTokens =>
  \A i \in 1..Visible :
    IsBlank(Under[i]) \/ (Under[i] = 48 /\ LastTok(i).k = "LITERAL")
    \/ (Under[i] \in {36, 37} /\ LastTok(i).v <= 9)
    \/ (Under[i] = 58 /\ Lexed.toks[1].k = "LABEL")
    \/ ~Same(LexLine(Without(Under, i)), Lexed)

\* C07, C08, C10: words and numbers are read as a whole, up to a blank, a colon
\* or one of the characters , ( )
WordLike == {"INSTR", "LABEL", "A", "X", "Y", "LITERAL", ".EQU", ".DEFINE", ".ORG", ".END"}
Apart == Composed /\ Lexed.err = "" =>
  \A n \in 2..Len(Lexed.toks) : Lexed.toks[n - 1].k \in WordLike =>
    Lexed.toks[n].k \in {",", "(", ")"} \/ Under[Lexed.toks[n].at - 1] \in {SP, TAB, 58}

\* C07: a literal's value is that of its digits
LiteralExact == Composed /\ Lexed.err = "" =>
  \A n \in 1..Len(Lexed.toks) : Lexed.toks[n].k = "LITERAL" =>
    LET p == Lexed.toks[n].at
        base == CASE Under[p] = 36 -> 16 [] Under[p] = 37 -> 2 [] OTHER -> 10
        d == IF base = 10 THEN p ELSE p + 1
        e == First(Under, d, LAMBDA c : DigitVal(c) >= base)
        val[k \in d..e] == IF k = d THEN 0 ELSE val[k - 1] * base + DigitVal(Under[k - 1])
    IN Lexed.toks[n].v = val[e] /\ e > d /\ val[e] <= 65535

\* C09: case, a comment and blanks at the ends do not matter
LayoutIrrelevant == Composed =>
  \A l \in {Lower(Under), UpSeq(Under), <<TAB, SP>> \o Under} \cup
           (IF Ended THEN {} ELSE {Under \o <<SP>>, Under \o <<CR>>, Under \o <<59, 33>>}) :
    Same(LexLine(l), Lexed)

\* C09, C15: nor do more of what is idle
StretchIrrelevant == Composed => \A i \in 1..Len(Under) : Idle(Under, i) =>
  Same(LexLine(Copied(Under, i)), Lexed) /\ Idle(Copied(Under, i), i)

\* C11: a lexical error is at or before the first character behind which no
\* continuation of the line is free of it
ErrorStays == Composed /\ Lexed.err \in {ILLCHAR, ILLDIR, TOOLONG} /\ Visible = Len(Under) =>
  \A c \in {SP, 65, 48} : LexLine(Under \o <<SP, c>>).err = Lexed.err /\ LexLine(Under \o <<SP, c>>).at = Lexed.at

Terminates == (tail > 0) ~> (phase = "done")

----------------------------------------------------------------------------
Flat == FoldLeft(LAMBDA acc, l : acc \o l \o <<LF>>, <<>>, Lines)
Clash == Clashes(code)
Test == [text |-> Flat, env |-> env, st |-> verdict.st, kind |-> verdict.kind,
         line |-> verdict.line, col |-> verdict.col, total |-> total,
         size |-> Extent, nsyms |-> Cardinality(DOMAIN sym), clash |-> SetToSeq(Clash), dom |-> InDomain,
         out |-> out, echo |-> verdict.echo,
         nz |-> IF verdict.st = "ok"
                THEN SetToSeq({b \in Bytes(code, Clash) : b[2] # 0}) ELSE <<>>]
Emit == (EmitTests /\ Done) => PrintT("@T " \o ToJson(Test))
=============================================================================
