------------------------------ MODULE Together ------------------------------
(* Two commands at the same time in one directory.  Each is a run of the    *)
(* machine of Asm with a state of its own (a: the variables of Asm,         *)
(* b: B's); their steps interleave in any order, and they meet in the       *)
(* directory only.  Commands are independent when neither writes a file     *)
(* that the other one names; both may read the same source.  Then each      *)
(* must end as if it were alone, whatever the schedule.                     *)
EXTENDS TwoPass, Json

CONSTANTS MaxSwitches,  \* how often a command may be interrupted by the other
          EmitTests

VARIABLES bEnv, bPhase, bLineno, bLine, bCur, bLoc, bSym, bPend, bCode, bTotal, bRi, bVerdict, bOut
bvars == <<bEnv, bPhase, bLineno, bLine, bCur, bLoc, bSym, bPend, bCode, bTotal, bRi, bVerdict, bOut>>
B == INSTANCE Asm WITH env <- bEnv, phase <- bPhase, lineno <- bLineno, line <- bLine, cur <- bCur, loc <- bLoc,
                       sym <- bSym, pend <- bPend, code <- bCode, total <- bTotal, ri <- bRi, verdict <- bVerdict, out <- bOut

VARIABLES pair,   \* the two commands: [sa, oa, sb, ob]
          disk,   \* name -> contents
          turn,   \* whose steps are taken: "a" or "b"
          sched   \* where the turn changed: <<[who, at], ...>>
tvars == <<vars, bvars, pair, disk, turn, sched>>

----------------------------------------------------------------------------
Text(ls) == [kind |-> "text", lines |-> [i \in 1..Len(ls) |-> Codes(ls[i])], bytes |-> <<>>]
Binary(b) == [kind |-> "bytes", lines |-> <<>>, bytes |-> b]
Unknown == [kind |-> "any", lines |-> <<>>, bytes |-> <<>>]
Disk0 == ("s.asm" :> Text(<<"*=2", "LDA #1", "JMP L", "BEQ L", "L RTS", "*=0", "INY">>))
         @@ ("t.asm" :> Text(<<"L = $77", "INX", "LDA L", "BNE M", "M STX $1234">>))
         @@ ("e.asm" :> Text(<<"LDA #2", "JMP L", "LDA ?">>))
         @@ ("u.asm" :> Text(<<"NOP", "BNE M">>))
         @@ ("o2" :> Binary(<<79, 76, 68, 79, 76, 68, 79, 76, 68>>))
Sources == {"s.asm", "t.asm", "e.asm", "u.asm", "m.asm"}
Outputs == {"o1", "o2", "a.out", "no/dir"}
Commands == {p \in [sa : Sources, oa : Outputs, sb : Sources, ob : Outputs] :
            p.oa # p.ob /\ p.oa \notin {p.sa, p.sb} /\ p.ob \notin {p.sa, p.sb}}

Found(s, o) == [src |-> IF s \in DOMAIN Disk0 THEN "ok" ELSE "missing",
                out |-> IF o = "no/dir" THEN "uncreatable" ELSE "ok", cap |-> -1, mem |-> "ample"]
TInit ==
  /\ pair \in Commands /\ disk = Disk0 /\ turn = "a" /\ sched = <<>>
  /\ Init0 /\ env = Found(pair.sa, pair.oa)
  /\ B!Init0 /\ bEnv = Found(pair.sb, pair.ob)

\* what a command leaves in its output file
ImageOf(segs) ==
  LET n == FoldLeft(LAMBDA acc, c : IF c.at + Len(c.bytes) > acc THEN c.at + Len(c.bytes) ELSE acc, 0, segs)
  IN [i \in 1..n |-> LET S == {k \in 1..Len(segs) : segs[k].at < i /\ i <= segs[k].at + Len(segs[k].bytes)}
                     IN IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN segs[k].bytes[i - segs[k].at]]
Put(name, o, segs) ==
  disk' = CASE o = "created" -> (name :> Unknown) @@ disk
            [] o = "complete" -> (name :> Binary(ImageOf(segs))) @@ disk

\* one step of a command; the line it reads next comes from the directory
StepA ==
  /\ turn = "a" /\ phase # "done"
  /\ \/ Internal
     \/ phase = "read" /\ LET ls == disk[pair.sa].lines IN
          IF lineno < Len(ls) THEN ReadLine(ls[lineno + 1]) ELSE EndOfText
  /\ IF out' # out THEN Put(pair.oa, out', code) ELSE UNCHANGED disk
  /\ UNCHANGED <<bvars, pair, sched>>
  /\ turn' = IF phase' = "done" THEN "b" ELSE "a"
StepB ==
  /\ turn = "b" /\ bPhase # "done"
  /\ \/ B!Internal
     \/ bPhase = "read" /\ LET ls == disk[pair.sb].lines IN
          IF bLineno < Len(ls) THEN B!ReadLine(ls[bLineno + 1]) ELSE B!EndOfText
  /\ IF bOut' # bOut THEN Put(pair.ob, bOut', bCode) ELSE UNCHANGED disk
  /\ UNCHANGED <<vars, pair, sched>>
  /\ turn' = IF bPhase' = "done" THEN "a" ELSE "b"

\* interruptions at the points between which a command touches its files
Point(ph, n) == CASE ph = "start" -> "start" [] ph = "read" -> IF n = 0 THEN "open" ELSE "reading"
                  [] ph = "resolve" -> "resolving" [] ph = "close" -> "closing" [] OTHER -> ""
Switch ==
  /\ phase # "done" /\ bPhase # "done" /\ Len(sched) < MaxSwitches
  /\ LET at == IF turn = "a" THEN Point(phase, lineno) ELSE Point(bPhase, bLineno) IN
     /\ at # "" /\ sched' = Append(sched, [who |-> turn, at |-> at])
  /\ turn' = IF turn = "a" THEN "b" ELSE "a"
  /\ UNCHANGED <<vars, bvars, pair, disk>>

TNext == StepA \/ StepB \/ Switch
TSpec == TInit /\ [][TNext]_tvars /\ WF_tvars(StepA \/ StepB)

----------------------------------------------------------------------------
\* what a command comes to when it is alone in the directory as it was found
Alone(s, o) ==
  LET ps == [i \in 1..Len(Disk0[s].lines) |->
               LET lx == LexLine(Disk0[s].lines[i]) IN IF lx.err # "" THEN [Nothing EXCEPT !.err = lx.err] ELSE Parse(lx.toks)]
      two == TwoPass(ps)
  IN IF s \notin DOMAIN Disk0 \/ o = "no/dir" THEN [ok |-> FALSE, touched |-> FALSE, image |-> <<>>]
     ELSE [ok |-> two.ok, touched |-> TRUE, image |-> ImageOf(two.segs)]

EndsAlone(s, o, v) ==
  LET x == Alone(s, o) IN
  /\ v.st = "ok" <=> x.ok
  /\ IF x.ok THEN disk[o] = Binary(x.image)
     ELSE IF x.touched THEN disk[o] = Unknown
     ELSE (o \in DOMAIN disk) = (o \in DOMAIN Disk0) /\ (o \in DOMAIN disk => disk[o] = Disk0[o])
AsIfAlone ==
  /\ phase = "done" => EndsAlone(pair.sa, pair.oa, verdict)
  /\ bPhase = "done" => EndsAlone(pair.sb, pair.ob, bVerdict)

\* a step changes no file but the output of the command that takes it
OwnFileOnly == [][\A n \in DOMAIN disk \cup DOMAIN disk' :
   (n \notin DOMAIN disk \/ n \notin DOMAIN disk' \/ disk'[n] # disk[n]) => n = (IF turn = "a" THEN pair.oa ELSE pair.ob)]_tvars
BothEnd == <>(phase = "done" /\ bPhase = "done")

Result(v) == [result |-> IF v.st = "ok" THEN "ok" ELSE "rejected", kind |-> v.kind, both |-> FALSE]
Test == [pair |-> pair, sched |-> sched,
         a |-> [Result(verdict) EXCEPT !.both = env.src # "ok" /\ env.out # "ok"],
         b |-> [Result(bVerdict) EXCEPT !.both = bEnv.src # "ok" /\ bEnv.out # "ok"],
         files |-> [n \in DOMAIN disk |-> [kind |-> disk[n].kind, bytes |-> disk[n].bytes]]]
Emit == (EmitTests /\ phase = "done" /\ bPhase = "done") => PrintT("@T " \o ToJson(Test))
ASSUME EmitTests => PrintT("@A " \o ToJson(Disk0))
=============================================================================
