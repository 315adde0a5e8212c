------------------------------- MODULE Session -------------------------------
(* The command as its user meets it: a directory with some files, and one   *)
(* command line after another.  A command line is a sequence of words; it   *)
(* names a source and an output, or is wrong, or asks for information.  A   *)
(* run of the assembler is the machine of Asm, under the conditions that    *)
(* the directory determines, and ends in new contents of one file.          *)
EXTENDS Asm, Json

CONSTANTS Words,       \* words of command lines
          MaxWords,    \* longest command line composed freely from Words
          Menu,        \* and/or command lines to choose from
          MaxRuns,     \* longest history
          EmitTests

----------------------------------------------------------------------------
\* Words: what each means where an option or an argument is expected.  As the
\* argument of an output option every word is just a file name.
W(text, as, val) == [text |-> text, as |-> as, val |-> val]
SomeWords == <<
  W("s.asm", "arg", ""), W("t.asm", "arg", ""), W("m.asm", "arg", ""), W("o1", "arg", ""), W("-", "arg", ""), W("s", "arg", ""),
  W("-o", "output", ""), W("--output", "output", ""), W("--out", "output", ""),
  W("-oo1", "output to", "o1"), W("--output=o2", "output to", "o2"),
  W("--help", "info", ""), W("-V", "info", ""), W("--usage", "info", ""),
  W("-x", "bad", ""), W("--nosuch", "bad", ""), W("--", "end", "") >>
\* and such as stress the division into option, argument and name
OddWords == <<
  W("t.asm", "arg", ""), W("a b", "arg", ""), W("x=y", "arg", ""), W("no/dir", "arg", ""), W("d", "arg", ""),
  W("-o", "output", ""), W("-o=q", "output to", "=q"), W("-oV", "output to", "V"), W("-o-", "output to", "-"), W("-ono/dir", "output to", "no/dir"),
  W("--output=--", "output to", "--"), W("--output=a=b", "output to", "a=b"), W("--output=", "output to", ""), W("--o=.x", "output to", ".x"),
  W("-Vo", "info", ""), W("--version", "info", ""), W("-?", "info", ""), W("-O", "bad", ""), W("--output2", "bad", ""), W("--version=1", "bad", ""), W("--", "end", "") >>
NoWords == {}
\* (by position in Words and the names below)
Cmd(s, o) == <<W(s, "arg", ""), W("-o", "output", ""), W(o, "arg", "")>>
Histories ==
  {Cmd(s, o) : s \in {"s.asm", "t.asm", "e.asm", "u.asm", "m.asm", "d"}, o \in {"o1", "o2"}}
  \cup {<<W("s.asm", "arg", "")>>, <<W("t.asm", "arg", "")>>, <<W("e.asm", "arg", "")>>}
  \cup {Cmd("s.asm", "s.asm"), Cmd("l.asm", "s.asm"), Cmd("s.asm", "l.asm"), Cmd("h.asm", "t.asm"),
        Cmd("t.asm", "d"), Cmd("t.asm", "no/dir"), Cmd("d", "d"), Cmd("l.asm", "o1"), Cmd("h.asm", "o2"),
        Cmd("o1", "o2"), Cmd("o2", "o1"), Cmd("o2", "a.out"), <<W("a.out", "arg", ""), W("-o", "output", ""), W("o1", "arg", "")>>,
        Cmd("m.asm", "s.asm"), Cmd("e.asm", "e.asm"), Cmd("e.asm", "n.asm"), Cmd("t.asm", "s.asm"), Cmd("s.asm", "n.asm"), Cmd("s", "o1"), Cmd("t.asm", "o1.asm"), Cmd("o1", "o1.bin")}

\* Reading a command line: options first, wherever they stand, then the rest.
\* Yields [as, src, out]: as = "run", "info" or "wrong".
RECURSIVE Scan(_, _, _, _)
Scan(ws, i, args, o) ==
  IF i > Len(ws)
  THEN IF Len(args) = 1 THEN [as |-> "run", src |-> args[1], out |-> o]
       ELSE [as |-> "wrong", src |-> "", out |-> ""]
  ELSE CASE ws[i].as = "arg" -> Scan(ws, i + 1, Append(args, ws[i].text), o)
         [] ws[i].as = "output" ->
              IF i = Len(ws) THEN [as |-> "wrong", src |-> "", out |-> ""]
              ELSE Scan(ws, i + 2, args, ws[i + 1].text)
         [] ws[i].as = "output to" -> Scan(ws, i + 1, args, ws[i].val)
         [] ws[i].as = "info" -> [as |-> "info", src |-> "", out |-> ""]
         [] ws[i].as = "bad" -> [as |-> "wrong", src |-> "", out |-> ""]
         [] ws[i].as = "end" ->
              Scan(<<>>, 1, args \o [k \in 1..(Len(ws) - i) |-> ws[i + k].text], o)
Meaning(ws) == Scan(ws, 1, <<>>, "a.out")

\* The same without reading from left to right: what each word is for
RECURSIVE IsValue(_, _)
Behind(ws, i) == \E j \in 1..(i - 1) : ws[j].as = "end" /\ ~IsValue(ws, j)
IsValue(ws, i) == i > 1 /\ ws[i - 1].as = "output" /\ ~IsValue(ws, i - 1) /\ ~Behind(ws, i - 1)
IsOption(ws, i) == ws[i].as # "arg" /\ ~IsValue(ws, i) /\ ~Behind(ws, i)
IsArg(ws, i) == Behind(ws, i) \/ (ws[i].as = "arg" /\ ~IsValue(ws, i))
Declared(ws) ==
  LET P == 1..Len(ws)
      \* the first option that ends the matter
      Last1 == {i \in P : IsOption(ws, i) /\ (ws[i].as \in {"info", "bad"} \/ (ws[i].as = "output" /\ i = Len(ws)))}
      Outs == {i \in P : IsOption(ws, i) /\ ws[i].as \in {"output", "output to"}}
      Args == {i \in P : IsArg(ws, i)}
      Max1(S) == CHOOSE i \in S : \A j \in S : j <= i
      Min1(S) == CHOOSE i \in S : \A j \in S : i <= j
      none == [as |-> "wrong", src |-> "", out |-> ""]
  IN IF Last1 # {} THEN [none EXCEPT !.as = IF ws[Min1(Last1)].as = "info" THEN "info" ELSE "wrong"]
     ELSE IF Cardinality(Args) # 1 THEN none
     ELSE [as |-> "run", src |-> ws[Min1(Args)].text,
           out |-> IF Outs = {} THEN "a.out"
                   ELSE LET o == Max1(Outs) IN IF ws[o].as = "output" THEN ws[o + 1].text ELSE ws[o].val]

----------------------------------------------------------------------------
\* The directory.  files: name -> number of a file; disk: number -> contents
Text(ls) == [kind |-> "text", lines |-> ls, bytes |-> <<>>]
Binary(b) == [kind |-> "bytes", lines |-> <<>>, bytes |-> b]
Unknown == [kind |-> "any", lines |-> <<>>, bytes |-> <<>>]
Dir == [kind |-> "dir", lines |-> <<>>, bytes |-> <<>>]

C(s) == [i \in 1..Len(s) |-> Codes(s[i])]
Files0 == ("s.asm" :> 1) @@ ("l.asm" :> 1) @@ ("t.asm" :> 2) @@ ("h.asm" :> 2)
          @@ ("e.asm" :> 3) @@ ("u.asm" :> 4) @@ ("d" :> 5) @@ ("o2" :> 6)
Disk0 == <<Text(C(<<"*=2", "LDA #1", "JMP L", "L RTS">>)), Text(C(<<"INX">>)),
           Text(C(<<"LDA #2", "LDA ?">>)), Text(C(<<"NOP", "BNE M">>)), Dir,
           Binary(<<79, 76, 68, 79, 76, 68, 79, 76, 68, 79, 76, 68>>)>>
Names == DOMAIN Files0

VARIABLES files, disk, cmd, stage, job, log
svars == <<vars, files, disk, cmd, stage, job, log>>
fsvars == <<files, disk>>

Exists(n) == n \in DOMAIN files
On(n) == disk[files[n]]
SameFile(a, b) == Exists(a) /\ Exists(b) /\ files[a] = files[b]

\* what the run finds
Found(s, o) ==
  [src |-> IF ~Exists(s) THEN "missing" ELSE IF On(s).kind = "dir" THEN "unreadable" ELSE "ok",
   out |-> IF o \in {"", "no/dir", "-ono/dir"} \/ (Exists(o) /\ On(o).kind = "dir") THEN "uncreatable"
           ELSE IF SameFile(s, o) THEN "source" ELSE "ok",
   cap |-> -1, mem |-> "ample"]

\* not modelled: sources that a failed run left behind; outputs that are other
\* names of a file which is not the source
Covered1(m) ==
  m.as = "run" =>
    /\ Exists(m.src) => On(m.src).kind # "any"
    /\ Exists(m.out) /\ ~SameFile(m.src, m.out) =>
         \A n \in DOMAIN files : n # m.out => files[n] # files[m.out]

SInit ==
  /\ Init0 /\ env = [src |-> "", out |-> "", cap |-> -1, mem |-> "ample"]
  /\ files = Files0 /\ disk = Disk0 /\ cmd = <<>> /\ stage = "compose" /\ job = Meaning(<<>>) /\ log = <<>>

\* the user writes a command line ...
Write ==
  /\ stage = "compose" /\ Len(log) < MaxRuns /\ Len(cmd) < MaxWords
  /\ \E i \in 1..Len(Words) : cmd' = Append(cmd, Words[i])
  /\ UNCHANGED <<vars, fsvars, stage, job, log>>
Pick ==
  /\ stage = "compose" /\ Len(log) < MaxRuns /\ cmd = <<>> /\ cmd' \in Menu
  /\ UNCHANGED <<vars, fsvars, stage, job, log>>

\* ... and issues it
Reset(e) ==
  /\ env' = e /\ phase' = "start" /\ lineno' = 0 /\ line' = <<>> /\ cur' = Nothing /\ loc' = 0
  /\ sym' = NoLabels /\ pend' = <<>> /\ code' = <<>> /\ total' = 0 /\ ri' = 1
  /\ verdict' = NoVerdict /\ out' = "untouched"

Snapshot(f, d) == [n \in DOMAIN f |-> [kind |-> d[f[n]].kind, bytes |-> d[f[n]].bytes]]
\* (able: the source could be read and the output written; both: neither, and
\* then it is open which of the two the command complains about)
Note(result, text, image, f, d) ==
  log' = Append(log, [cmd |-> [i \in 1..Len(cmd) |-> cmd[i].text], result |-> result,
                      kind |-> verdict.kind, able |-> env.src = "ok" /\ env.out = "ok",
                      both |-> env.src \in {"missing", "unreadable"} /\ env.out \in {"uncreatable", "source"},
                      text |-> text, image |-> image, files |-> Snapshot(f, d)])
Next0 == /\ cmd' = <<>> /\ stage' = "compose"

IssueOther ==
  /\ stage = "compose" /\ Len(log) < MaxRuns /\ Meaning(cmd).as # "run" /\ (cmd # <<>> \/ Menu = NoWords)
  /\ Note(Meaning(cmd).as, <<>>, <<>>, files, disk) /\ Next0
  /\ Reset([src |-> "", out |-> "", cap |-> -1, mem |-> "ample"]) /\ UNCHANGED <<fsvars, job>>

IssueRun ==
  /\ stage = "compose" /\ Len(log) < MaxRuns
  /\ LET m == Meaning(cmd) IN
     /\ m.as = "run" /\ Covered1(m)
     /\ job' = m /\ Reset(Found(m.src, m.out)) /\ stage' = "run"
  /\ UNCHANGED <<fsvars, cmd, log>>

\* the assembler runs: the machine of Asm on the lines of the source
\* (a binary is a text like any other: its lines end with its bytes 10)
SplitLines(b) ==
  LET E == {i \in 1..Len(b) : b[i] = LF}
      ends == SetToSortSeq(E \cup (IF b # <<>> /\ b[Len(b)] # LF THEN {Len(b)} ELSE {}), LAMBDA x, y : x < y)
  IN [k \in 1..Len(ends) |-> SubSeq(b, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, IF ends[k] \in E THEN ends[k] - 1 ELSE ends[k])]
LinesOf(x) == IF x.kind = "bytes" THEN SplitLines(x.bytes) ELSE x.lines
SourceLines == LinesOf(On(job.src))
Machine ==
  /\ stage = "run" /\ phase # "done"
  /\ \/ Internal
     \/ phase = "read" /\ lineno < Len(SourceLines) /\ ReadLine(SourceLines[lineno + 1])
     \/ phase = "read" /\ lineno = Len(SourceLines) /\ EndOfText
  /\ UNCHANGED <<fsvars, cmd, stage, job, log>>

\* and ends
Image == [i \in 1..Extent |->
            LET S == {n \in 1..Len(code) : code[n].at < i /\ i <= End(code[n])}
            IN IF S = {} THEN 0 ELSE LET n == CHOOSE x \in S : TRUE IN code[n].bytes[i - code[n].at]]
Result == CASE out = "complete" -> Binary(Image) [] out = "created" -> Unknown
Commit ==
  /\ stage = "run" /\ phase = "done"
  /\ LET isNew == ~Exists(job.out)
         num == IF isNew THEN Len(disk) + 1 ELSE files[job.out]
         f == IF out = "untouched" THEN files ELSE (job.out :> num) @@ files
         d == IF out = "untouched" THEN disk
              ELSE IF isNew THEN Append(disk, Result) ELSE [disk EXCEPT ![num] = Result]
     IN /\ files' = f /\ disk' = d
        /\ Note(IF verdict.st = "ok" THEN "ok" ELSE "rejected", IF env.src = "ok" THEN SourceLines ELSE <<>>,
                IF out = "complete" THEN Image ELSE <<>>, f, d)
  /\ Next0 /\ Reset([src |-> "", out |-> "", cap |-> -1, mem |-> "ample"]) /\ UNCHANGED job

SNext == Write \/ Pick \/ IssueOther \/ IssueRun \/ Machine \/ Commit
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(Machine \/ Commit)

----------------------------------------------------------------------------
\* C17: what the words of a command line mean
MeansWhatItSays == Meaning(cmd) = Declared(cmd)

\* C17: a wrong command line and one that asks for information change nothing
OnlyRunsWrite == [][fsvars' # fsvars => stage = "run"]_svars

\* C12: a run changes at most the file named as its output, never its source,
\* and one that fails to open its source or create its output changes nothing
OnlyOutput == [][fsvars' # fsvars =>
   /\ \A n \in DOMAIN files : n \in DOMAIN files' /\ files'[n] = files[n]
   /\ \A n \in DOMAIN files : disk'[files[n]] # disk[files[n]] => SameFile(n, job.out)
   /\ DOMAIN files' \subseteq DOMAIN files \cup {job.out}
   /\ Exists(job.src) => disk'[files[job.src]] = On(job.src)]_svars

\* C12: after an announced success the named file holds the complete binary
SuccessMeansWritten == [][stage = "run" /\ stage' = "compose" =>
   /\ (log'[Len(log')].result = "ok") <=> (disk'[IF job.out \in DOMAIN files' THEN files'[job.out] ELSE 1].kind = "bytes" /\ out = "complete")
   /\ out = "untouched" => fsvars' = fsvars]_svars

\* C13: what a run yields depends on its source's contents only, not on the
\* runs before it, the names or the old contents of the output
Pure == \A i, j \in 1..Len(log) :
  log[i].text = log[j].text /\ log[i].able /\ log[j].able =>
    log[i].result = log[j].result /\ log[i].kind = log[j].kind /\ log[i].image = log[j].image

Ends == (stage = "run") ~> (stage = "compose")

Test == [log |-> log]
Emit == (EmitTests /\ stage = "compose" /\ cmd = <<>> /\ Len(log) = MaxRuns) => PrintT("@T " \o ToJson(Test))
ASSUME EmitTests => PrintT("@A " \o ToJson([files |-> Files0,
   disk |-> [i \in 1..Len(Disk0) |-> [Disk0[i] EXCEPT !.lines = [k \in 1..Len(@) |-> @[k]]]]]))
=============================================================================
