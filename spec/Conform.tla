------------------------------ MODULE Conform ------------------------------
(* Does every recorded run of the real program follow the specification?    *)
(*                                                                          *)
(* Each record holds the bytes of a source file, the conditions of the run  *)
(* and what was observed from outside.  One initial state per record; the   *)
(* machine of Asm then runs on the record's text, and Report compares its   *)
(* verdict with the observation, aspect by aspect.                          *)
EXTENDS Asm, LabelTable, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.GV_RECS)

VARIABLES rec, pos, reported       \* pos: where the next line starts
cvars == <<vars, rec, pos, reported>>

R == Recs[rec]
O == R.obs

\* physical lines: what stands between line feeds; none behind the last one
\* (nearby first: TLC writes out the range it searches)
LineEnd ==
  LET n == Len(R.text)
      near == SubSeq(R.text, pos, IF pos + 99 < n THEN pos + 99 ELSE n)
      e == First(near, 1, LAMBDA c : c = LF)
  IN IF e <= Len(near) THEN pos + e - 1 ELSE First(R.text, pos, LAMBDA c : c = LF)
MoreText == pos <= Len(R.text)
\* a byte EOFB that is the last of the text is no part of it
Unmarked(l) == LET n == Len(l) IN
  IF n > 0 /\ l[n] = EOFB /\ (n > 1 => l[n - 1] # CR) THEN SubSeq(l, 1, n - 1) ELSE l
NextLine == LET l == SubSeq(R.text, pos, LineEnd - 1)
            IN IF LineEnd > Len(R.text) THEN Unmarked(l) ELSE l

CInit ==
  /\ Init0 /\ rec \in 1..Len(Recs) /\ reported = FALSE
  /\ pos = 1 /\ env = [src |-> "?", out |-> "?", cap |-> -1, mem |-> "ample"]

\* (the environment is set up in a step of its own so that records are
\* prepared in parallel)
Setup ==
  /\ env.src = "?"
  /\ env' = [src |-> R.src, out |-> R.out, cap |-> R.cap, mem |-> R.mem]
  /\ UNCHANGED <<phase, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out, rec, pos, reported>>

\* Where the machine has a choice, the observation tells which one was made:
\* reading may fail before lines that could still be read, and a write that
\* failed may have been repeated.
Chosen ==
  /\ phase = "read" /\ env.src = "breaks" => ~MoreText \/ O.kind = NOSOURCE
  /\ env.mem = "scarce" =>
       ((verdict'.kind = NOMEMORY) <=> (phase = "start" /\ O.status # "accept"))
  /\ phase = "close" /\ env.out = "flaky" => (verdict'.st = "ok" <=> O.status = "accept")

\* What was run may have had many more copies of one character; the
\* specification's word for it is that this makes no difference.
Stretched == R.idle \in pos..(LineEnd - 1) =>
  Assert(Idle(NextLine, R.idle - pos + 1), <<"not idle", NextLine, R.idle - pos + 1>>)

Step ==
  /\ env.src # "?" /\ UNCHANGED <<rec, reported>>
  /\ \/ Internal /\ UNCHANGED pos /\ Chosen
     \/ phase = "read" /\ MoreText /\ ~(env.src = "breaks" /\ O.kind = NOSOURCE) /\ Stretched /\ ReadLine(NextLine) /\ pos' = LineEnd + 1
     \/ phase = "read" /\ ~MoreText /\ EndOfText /\ UNCHANGED pos

----------------------------------------------------------------------------
OK == verdict.st = "ok"
NonZero(S) == {p \in S : p[2] # 0}

\* what each aspect of the observation must be
Holds(a) ==
  CASE a = "term"     -> O.status \in {"accept", "reject"}
    [] a = "verdict"  -> (O.status = "accept") <=> OK
    [] a = "announce" -> O.announced <=> OK
    [] a = "image"    -> OK => LET X == Clashes(code) IN
                           {<<O.nz[i][1], O.nz[i][2]>> : i \in {j \in 1..Len(O.nz) : O.nz[j][1] \notin X}}
                             = NonZero(Bytes(code, X))
    [] a = "size"     -> OK => O.size = Extent
    [] a = "total"    -> OK => O.total = total /\ O.totalhex = total /\ O.hexdigits >= 4
    [] a = "nsyms"    -> OK => O.nsyms = LabelCount(sym)
    [] a = "ndiag"    -> O.ndiag = IF OK THEN 0 ELSE 1
    [] a = "kind"     -> verdict.st \in {"diag", "file"} => O.kind = verdict.kind
    [] a = "where"    -> verdict.st = "diag" => O.line = verdict.line /\ O.fileok
    [] a = "echo"     -> verdict.st = "diag" => O.echo = verdict.echo
    [] a = "col"      -> verdict.st = "diag" => O.col = verdict.col
    [] a = "source"   -> O.srcok
    [] a = "outfile"  -> out = "untouched" => O.outuntouched

Failing == {a \in {R.aspects[i] : i \in 1..Len(R.aspects)} : ~Holds(a)}

Report ==
  /\ phase = "done" /\ ~reported /\ reported' = TRUE
  /\ UNCHANGED <<vars, rec, pos>>
  /\ PrintT("@V " \o ToJson(
       [rec |-> rec, st |-> verdict.st, kind |-> verdict.kind, line |-> verdict.line,
        col |-> verdict.col, total |-> total, size |-> Extent,
        nsyms |-> LabelCount(sym), indomain |-> InDomain,
        fail |-> SetToSeq(IF InDomain THEN Failing ELSE Failing \cap {"term"})]))

CNext == Setup \/ Step \/ Report
CSpec == CInit /\ [][CNext]_cvars

View == <<rec, phase, lineno, ri, env.src, reported>>

\* every record must come to a verdict (the machine never gets stuck)
NotStuck == phase = "done" \/ ENABLED CNext
=============================================================================
