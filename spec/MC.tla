--------------------------------- MODULE MC ---------------------------------
(* Bounded exhaustive models: every program of up to Depth lines over an    *)
(* alphabet of source lines, under every condition in Envs.  TLC checks the *)
(* invariants below in every state and prints each finished behaviour as a  *)
(* test for the real program.                                               *)
EXTENDS TwoPass, Alphabets, Json, IOUtils

CONSTANTS Alphabet,   \* sequence of lines (strings)
          Depth,      \* longest program
          Envs,       \* conditions of a run
          EmitTests   \* print finished behaviours?


\* conditions of a run
Plain == {[src |-> "ok", out |-> "ok", cap |-> -1, mem |-> "ample"]}
Faults == {[src |-> s, out |-> o, cap |-> c, mem |-> "ample"] : s \in {"ok", "missing", "unreadable"},
                                            o \in {"ok", "uncreatable", "source"}, c \in -1..12}
          \cup {[src |-> "breaks", out |-> o, cap |-> -1, mem |-> "ample"] : o \in {"ok", "pipe", "flaky", "uncreatable"}}
          \cup {[src |-> s, out |-> o, cap |-> -1, mem |-> "ample"] : s \in {"ok", "missing", "unreadable"}, o \in {"pipe", "flaky"}}
          \cup {[src |-> s, out |-> o, cap |-> -1, mem |-> "scarce"] : s \in {"ok", "breaks"}, o \in {"ok", "flaky"}}

VARIABLE hist         \* the lines of the program so far, as alphabet indexes

mvars == <<vars, hist>>

Line == ([i \in 1..Len(Alphabet) |-> Codes(Alphabet[i])])
Parsed == ([i \in 1..Len(Alphabet) |->
             LET lx == LexLine(Line[i]) IN
             IF lx.err # "" THEN [Nothing EXCEPT !.err = lx.err, !.at = lx.at] ELSE Parse(lx.toks)])

MCInit == Init0 /\ env \in Envs /\ hist = <<>>

Arrive(i) == Len(hist) < Depth /\ ReadLine(Line[i]) /\ hist' = Append(hist, i)
MCEnd == EndOfText /\ UNCHANGED hist
MCInternal == Internal /\ UNCHANGED hist

MCNext == MCInternal \/ MCEnd \/ \E i \in 1..Len(Alphabet) : Arrive(i)
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(MCInternal \/ MCEnd)

----------------------------------------------------------------------------
Done == phase = "done"
Accepted == Done /\ verdict.st = "ok"
Program == [n \in 1..Len(hist) |-> Parsed[hist[n]]]

TypeOK ==
  /\ phase \in {"start", "read", "line", "code", "resolve", "close", "done"}
  /\ loc \in Nat /\ total \in Nat /\ lineno = Len(hist)
  /\ \A n \in DOMAIN sym : sym[n] \in Nat
  /\ out \in {"untouched", "created", "complete"}
  /\ (phase = "done") <=> (verdict.st # "none")

\* C01, C02, C03: whatever is assembled disassembles to a legal instruction of
\* exactly that length
Disassembles ==
  \A n \in 1..Len(code) : LET b == code[n].bytes IN
    /\ b[1] \in Opcodes /\ Size(Decode[b[1]][2]) = Len(b)
    /\ \A i \in 1..Len(b) : b[i] \in 0..255

\* C05 (and C01-C06 for whole programs): single pass = two passes
SinglePassIsTwoPass ==
  Done =>
    LET two == TwoPass(Program)
        X == Clashes(code)
        plain == env.src = "ok" /\ env.out \in {"ok", "pipe"} /\ env.cap < 0 /\ env.mem = "ample"
    IN /\ verdict.st = "ok" => two.ok
       /\ plain /\ two.ok => verdict.st = "ok"
       \* (whatever the conditions were)
       /\ verdict.st = "ok" => /\ Clashes(two.segs) = X
                    /\ Bytes(two.segs, X) = Bytes(code, X)
                    /\ sym = two.tab

\* C16
TotalIsExact == Accepted =>
  total = FoldLeft(LAMBDA acc, c : acc + Len(c.bytes), 0, code)

\* C03: with disjoint instructions, the file is the union of all segments
\* and ends with the last one
ExtentIsLast == Accepted /\ code # <<>> =>
  \E n \in 1..Len(code) : End(code[n]) = Extent /\ \A m \in 1..Len(code) : End(code[m]) <= Extent

\* C12
SuccessMeansComplete ==
  /\ Accepted <=> (Done /\ out = "complete")
  /\ Accepted => /\ env.src = "ok" \/ (env.src = "breaks" /\ hist # <<>> /\ Parsed[Last(hist)].end)
                 /\ env.out \in {"ok", "pipe", "flaky"} /\ (env.cap < 0 \/ Extent <= env.cap)
  /\ env.src = "missing" => out = "untouched"
  /\ env.out \in {"uncreatable", "source"} => out = "untouched"

\* C11: a diagnostic names a line of the program, and one that is not about a
\* pending reference names the last line read
Located ==
  verdict.st = "diag" =>
    /\ verdict.line \in 1..Len(hist)
    /\ verdict.kind \notin {UNDEFINED, RANGE, TOOBIG} => verdict.line = lineno
    /\ verdict.echo = Trim(Line[hist[verdict.line]])
    /\ verdict.col < 8 * Len(Line[hist[verdict.line]]) + 1

\* C11: no earlier line has an error of its own
FirstError ==
  verdict.st = "diag" => \A n \in 1..(lineno - 1) : Parsed[hist[n]].err = ""

\* C04
SymAppendOnly == [][\A n \in DOMAIN sym : n \in DOMAIN sym' /\ sym'[n] = sym[n]]_mvars
OneAtATime == [][Cardinality(DOMAIN sym') <= Cardinality(DOMAIN sym) + 1]_mvars

\* C05: pending references are kept in order, none is lost or changed, and
\* those already resolved stay resolved
PendKept == [][/\ Len(pend') >= Len(pend) /\ SubSeq(pend', 1, Len(pend)) = pend
               /\ ri' >= ri /\ Len(code') >= Len(code) /\ SubSeq(code', 1, Len(code)) = code]_mvars

\* C14: directives and definitions assemble nothing and only an origin or an
\* instruction moves the location
Quiet == [][(phase = "line" /\ cur.instr = "") =>
              (code' = code /\ total' = total /\ pend' = pend /\ (cur.org < 0 => loc' = loc))]_mvars

\* C14: nothing is read behind .END
EndEnds == [][(\E n \in 1..Len(hist) : Parsed[hist[n]].err = "" /\ Parsed[hist[n]].end) => hist' = hist]_mvars

\* C15
Terminates == <>(phase = "done")

----------------------------------------------------------------------------
\* Tests: program, conditions and expected outcome, one per finished behaviour
Clash == Clashes(code)
Test == [p |-> hist, env |-> env, st |-> verdict.st, kind |-> verdict.kind,
         line |-> verdict.line, col |-> verdict.col, total |-> total,
         size |-> Extent, nsyms |-> Cardinality(DOMAIN sym),
         clash |-> SetToSeq(Clash), dom |-> InDomain,
         out |-> out, echo |-> verdict.echo,
         nz |-> IF verdict.st = "ok"
                THEN SetToSeq({b \in Bytes(code, Clash) : b[2] # 0})
                ELSE <<>>]
\* (when memory is scarce, only what happens shows which behaviour it was: Conform)
Emit == (EmitTests /\ Done /\ env.mem = "ample") => PrintT("@T " \o ToJson(Test))
ASSUME EmitTests => PrintT("@A " \o ToJson(Line))
=============================================================================
