-------------------------------- MODULE Asm --------------------------------
(* The assembler as a state machine over one run of the command.            *)
(*                                                                          *)
(* The source is read once, line by line.  A line is an input of the        *)
(* machine: ReadLine(l) is enabled for the line the environment supplies    *)
(* next (an extending module says which: any line of an alphabet in the     *)
(* bounded models, the recorded file in the conformance model).             *)
EXTENDS Grammar, TLC

VARIABLES
  env,      \* what the run finds: [src, out, cap, mem]
            \*   src "ok" | "missing" | "unreadable"
            \*       | "breaks" (reading fails somewhere)
            \*   out "ok" | "uncreatable" | "source" (names the source file)
            \*       | "pipe" | "flaky" (a write may fail)
            \*   cap -1, or the number of bytes the output file can hold
            \*   mem "ample" | "scarce" (a request for memory may fail)
  phase,    \* "start" "read" "line" "code" "resolve" "close" "done"
  lineno,   \* number of the current line (1-based)
  line,     \* bytes of the current line
  cur,      \* what is left to do of the current line: Parse's record
  loc,      \* location counter
  sym,      \* name -> value: labels defined so far
  pend,     \* references to be resolved after the last line, in order
  code,     \* what has been assembled, in order: <<[at, bytes], ...>>
  total,    \* bytes assembled
  ri,       \* next pending reference to resolve
  verdict,  \* [st, kind, line, col, echo]
  out       \* output file: "untouched" "created" "complete"

vars == <<env, phase, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

----------------------------------------------------------------------------
\* Diagnostics
DUPLICATE == "no redefinition of labels"
FORWARD   == "illegal forward reference"
MODE      == "illegal addressing mode"
RANGE     == "branch offset too far away"
UNDEFINED == "label definition was not found"
NOSOURCE  == "could not be opened"
NOOUTPUT  == "assembled binary file could not be created"
NOMEMORY  == "could not allocate enough memory during assembly"

NoVerdict == [st |-> "none", kind |-> "", line |-> 0, col |-> -1, echo |-> <<>>]

\* screen column (0-based) of byte position `at` of a line, tab stops every 8
Column(l, at) ==
  FoldLeft(LAMBDA acc, c : IF c = TAB THEN 8 * (acc \div 8 + 1) ELSE acc + 1,
           0, SubSeq(l, 1, at - 1))

\* the line as echoed: without blanks and marks of the end behind it
Trim(l) ==
  LET n == Len(l)
      Gone(i) == IsBlank(l[i]) \/ l[i] \in {CR, LF, EOFB}
      k == CHOOSE j \in 0..n : (j = n \/ ~Gone(n - j)) /\ \A i \in 0..(j - 1) : Gone(n - i)
  IN SubSeq(l, 1, n - k)

Diag(kind, no, l, at) ==
  [st |-> "diag", kind |-> kind, line |-> no,
   col |-> IF at = 0 THEN -1 ELSE Column(l, at), echo |-> Trim(l)]
FileError(kind) == [NoVerdict EXCEPT !.st = "file", !.kind = kind]

----------------------------------------------------------------------------
\* Addressing modes and encoding

\* the mode an operand's syntax and value select; "" when there is none
ModeFor(m, shape, isLabel, v) ==
  CASE shape = "none" -> IF m \in Shifts THEN "ACC" ELSE "IMP"
    [] shape = "acc" -> "ACC"
    [] shape = "imm" -> IF v <= 255 THEN "IMM" ELSE ""
    [] shape = "plain" -> IF m \in Branches
                          THEN IF isLabel \/ v <= 255 THEN "REL" ELSE ""
                          ELSE IF m \in Jumps \/ v > 255 THEN "ABS" ELSE "ZP"
    [] shape = "x" -> IF m \in Jumps \/ v > 255 THEN "ABSX" ELSE "ZPX"
    [] shape = "y" -> IF m \in Jumps \/ v > 255 THEN "ABSY" ELSE "ZPY"
    [] shape = "ind" -> "IND"
    [] shape = "indx" -> IF v <= 255 THEN "INDX" ELSE ""
    [] shape = "indy" -> IF v <= 255 THEN "INDY" ELSE ""

Legal(m, mode) == mode # "" /\ Defines(m, mode)

\* a reference to a label not yet known: only branches and jumps have one,
\* and its size does not depend on the label's value
ForwardMode(m, shape) ==
  CASE shape = "plain" /\ m \in Branches -> "REL"
    [] shape = "plain" /\ m \in Jumps -> "ABS"
    [] shape = "ind" /\ m \in Jumps -> "IND"
    [] OTHER -> ""

Displacement(at, dest) == dest - (at + 2)
InRange(d) == d >= -128 /\ d <= 127
Byte(d) == IF d < 0 THEN d + 256 ELSE d

OperandBytes(mode, v) ==
  CASE Size(mode) = 1 -> <<>>
    [] Size(mode) = 2 -> <<v % 256>>
    [] Size(mode) = 3 -> <<v % 256, (v \div 256) % 256>>

Encode(m, mode, v) == <<Op[m][mode]>> \o OperandBytes(mode, v)

----------------------------------------------------------------------------
\* The label table, by its four operations.  Here it is a function from names
\* to values; LabelTable shows another one, with the same meaning.
NoLabels == [n \in {} |-> 0]
IsLabel(t, n) == n \in DOMAIN t
LabelValue(t, n) == t[n]
AddLabel(t, n, v) == t @@ (n :> v)
LabelCount(t) == Cardinality(DOMAIN t)

----------------------------------------------------------------------------
Init0 ==
  /\ phase = "start"
  /\ lineno = 0 /\ line = <<>> /\ cur = Nothing
  /\ loc = 0 /\ sym = NoLabels /\ pend = <<>> /\ code = <<>> /\ total = 0
  /\ ri = 1 /\ verdict = NoVerdict /\ out = "untouched"

Finish(v) == phase' = "done" /\ verdict' = v

FailSource ==
  /\ phase = "start" /\ env.src = "missing"
  /\ Finish(FileError(NOSOURCE))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

CanCreate == env.out \in {"ok", "pipe", "flaky"}
FailOutput ==
  /\ phase = "start" /\ env.src # "missing" /\ ~CanCreate
  /\ Finish(FileError(NOOUTPUT))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

Open ==
  /\ phase = "start" /\ env.src # "missing" /\ CanCreate
  /\ phase' = "read" /\ out' = "created"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict>>

\* A request for memory can fail at any moment; the run then ends without success
\* (it may as well manage without).
OutOfMemory ==
  /\ phase # "done" /\ env.mem = "scarce"
  /\ Finish(FileError(NOMEMORY))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

\* The next line arrives, is divided into tokens and parsed.  A null character
\* is read as a question mark; both are illegal outside comments.
Readable(l) == IF \E i \in 1..Len(l) : l[i] = NUL
               THEN [i \in 1..Len(l) |-> IF l[i] = NUL THEN 63 ELSE l[i]] ELSE l
ReadLine(text) == LET l == Readable(text) IN
  /\ phase = "read" /\ env.src \in {"ok", "breaks"}
  /\ lineno' = lineno + 1 /\ line' = l /\ phase' = "line"
  /\ LET lx == LexLine(l) IN
     cur' = IF lx.err # "" THEN [Nothing EXCEPT !.err = lx.err, !.at = lx.at]
            ELSE Parse(lx.toks)
  /\ UNCHANGED <<env, loc, sym, pend, code, total, ri, verdict, out>>

FailRead ==
  /\ phase = "read" /\ env.src \in {"unreadable", "breaks"}
  /\ Finish(FileError(NOSOURCE))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

EndOfText ==
  /\ phase = "read" /\ env.src = "ok"
  /\ phase' = "resolve"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

Reject(kind, at) ==
  /\ Finish(Diag(kind, lineno, line, at))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

\* not a legal line
RejectLine == phase = "line" /\ cur.err # "" /\ Reject(cur.err, cur.at)

EndDirective ==
  /\ phase = "line" /\ cur.err = "" /\ cur.end
  /\ phase' = "resolve"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

SetLocation ==
  /\ phase = "line" /\ cur.err = "" /\ cur.org >= 0
  /\ loc' = cur.org /\ phase' = "read"
  /\ UNCHANGED <<env, lineno, line, cur, sym, pend, code, total, ri, verdict, out>>

RejectDuplicate ==
  /\ phase = "line" /\ cur.err = "" /\ cur.def # "" /\ IsLabel(sym, cur.name)
  /\ Reject(DUPLICATE, cur.defAt)

Define ==
  /\ phase = "line" /\ cur.err = "" /\ cur.def # "" /\ ~IsLabel(sym, cur.name)
  /\ sym' = AddLabel(sym, cur.name, IF cur.def = "addr" THEN loc ELSE cur.val)
  /\ phase' = IF cur.instr = "" THEN "read" ELSE "code"
  /\ UNCHANGED <<env, lineno, line, cur, loc, pend, code, total, ri, verdict, out>>

BlankLine ==
  /\ phase = "line" /\ cur = Nothing
  /\ phase' = "read"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

UnlabelledInstruction ==
  /\ phase = "line" /\ cur.err = "" /\ cur.def = "" /\ cur.instr # ""
  /\ phase' = "code"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

\* --- the instruction of the line -------------------------------------------
IsRef == cur.opd.k = "LABEL"
Known == ~IsRef \/ IsLabel(sym, cur.opd.s)
Value == IF IsRef THEN LabelValue(sym, cur.opd.s) ELSE cur.opd.v
ModeHere == IF Known THEN ModeFor(cur.instr, cur.shape, IsRef, Value)
            ELSE ForwardMode(cur.instr, cur.shape)
IsBranchRef == cur.instr \in Branches /\ IsRef

RejectForward ==
  /\ phase = "code" /\ ~Known /\ cur.instr \notin (Branches \cup Jumps)
  /\ Reject(FORWARD, cur.opd.at)

\* a label behind the last address does not fit in an operand of two bytes
TooWide(name) == LabelValue(sym, name) >= Limit
RejectWide ==
  /\ phase = "code" /\ Known /\ IsRef /\ ~IsBranchRef /\ TooWide(cur.opd.s)
  /\ Reject(TOOBIG, cur.opd.at)

RejectMode ==
  /\ phase = "code" /\ (Known \/ cur.instr \in (Branches \cup Jumps))
  /\ ~(Known /\ IsRef /\ ~IsBranchRef /\ TooWide(cur.opd.s))
  /\ ~Legal(cur.instr, ModeHere)
  /\ Reject(MODE, 0)

RejectRange ==
  /\ phase = "code" /\ Known /\ Legal(cur.instr, ModeHere) /\ IsBranchRef
  /\ ~InRange(Displacement(loc, Value))
  /\ Reject(RANGE, cur.opd.at)

Advance(n) == loc' = loc + n /\ total' = total + n /\ phase' = "read"

Assemble ==
  /\ phase = "code" /\ Known /\ Legal(cur.instr, ModeHere)
  /\ IsRef => IF IsBranchRef THEN InRange(Displacement(loc, Value)) ELSE ~TooWide(cur.opd.s)
  /\ LET v == IF IsBranchRef THEN Byte(Displacement(loc, Value)) ELSE Value
     IN code' = Append(code, [at |-> loc, bytes |-> Encode(cur.instr, ModeHere, v)])
  /\ Advance(Size(ModeHere))
  /\ UNCHANGED <<env, lineno, line, cur, sym, pend, ri, verdict, out>>

\* the place is kept, the bytes follow when the label is known
Defer ==
  /\ phase = "code" /\ ~Known /\ Legal(cur.instr, ModeHere)
  /\ pend' = Append(pend, [at |-> loc, instr |-> cur.instr, mode |-> ModeHere,
                           name |-> cur.opd.s, no |-> lineno, line |-> line,
                           opdAt |-> cur.opd.at])
  /\ Advance(Size(ModeHere))
  /\ UNCHANGED <<env, lineno, line, cur, sym, code, ri, verdict, out>>

\* --- pending references ------------------------------------------------------
Ref == pend[ri]
RejectRef(kind) ==
  /\ Finish(Diag(kind, Ref.no, Ref.line, Ref.opdAt))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

RejectUndefined ==
  /\ phase = "resolve" /\ ri <= Len(pend) /\ ~IsLabel(sym, Ref.name)
  /\ RejectRef(UNDEFINED)

RejectRefRange ==
  /\ phase = "resolve" /\ ri <= Len(pend) /\ IsLabel(sym, Ref.name)
  /\ Ref.mode = "REL" /\ ~InRange(Displacement(Ref.at, LabelValue(sym, Ref.name)))
  /\ RejectRef(RANGE)

RejectRefWide ==
  /\ phase = "resolve" /\ ri <= Len(pend) /\ IsLabel(sym, Ref.name)
  /\ Ref.mode # "REL" /\ TooWide(Ref.name)
  /\ RejectRef(TOOBIG)

Resolve ==
  /\ phase = "resolve" /\ ri <= Len(pend) /\ IsLabel(sym, Ref.name)
  /\ IF Ref.mode = "REL" THEN InRange(Displacement(Ref.at, LabelValue(sym, Ref.name))) ELSE ~TooWide(Ref.name)
  /\ LET dest == LabelValue(sym, Ref.name)
         v == IF Ref.mode = "REL" THEN Byte(Displacement(Ref.at, dest)) ELSE dest
     IN code' = Append(code, [at |-> Ref.at, bytes |-> Encode(Ref.instr, Ref.mode, v)])
  /\ ri' = ri + 1
  /\ UNCHANGED <<env, phase, lineno, line, cur, loc, sym, pend, total, verdict, out>>

AllResolved ==
  /\ phase = "resolve" /\ ri > Len(pend)
  /\ phase' = "close"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, verdict, out>>

\* --- the end --------------------------------------------------------------------
End(c) == c.at + Len(c.bytes)
Extent == FoldLeft(LAMBDA acc, c : IF End(c) > acc THEN End(c) ELSE acc, 0, code)
\* programs within the address space of the processor
InDomain == Extent <= 65536 /\ loc <= 65536
Fits == env.cap < 0 \/ Extent <= env.cap

Close ==
  /\ phase = "close" /\ Fits
  /\ Finish([NoVerdict EXCEPT !.st = "ok"]) /\ out' = "complete"
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri>>

FailWrite ==
  /\ phase = "close" /\ (~Fits \/ env.out = "flaky")
  /\ Finish(FileError(NOOUTPUT))
  /\ UNCHANGED <<env, lineno, line, cur, loc, sym, pend, code, total, ri, out>>

----------------------------------------------------------------------------
\* everything but the arrival of a line and of the end of the text
Internal ==
  \/ FailSource \/ FailOutput \/ Open \/ FailRead
  \/ RejectLine \/ EndDirective \/ SetLocation \/ RejectDuplicate \/ Define
  \/ BlankLine \/ UnlabelledInstruction
  \/ RejectForward \/ RejectWide \/ RejectMode \/ RejectRange \/ Assemble \/ Defer
  \/ RejectUndefined \/ RejectRefRange \/ RejectRefWide \/ Resolve \/ AllResolved
  \/ Close \/ FailWrite \/ OutOfMemory

----------------------------------------------------------------------------
\* The memory image as a set of <<address, byte>>, without the addresses in X
Bytes(segs, X) ==
  UNION {{<<c.at + i - 1, c.bytes[i]>> : i \in {j \in 1..Len(c.bytes) : c.at + j - 1 \notin X}} :
            c \in {segs[n] : n \in 1..Len(segs)}}
Addrs(c) == {c.at + i - 1 : i \in 1..Len(c.bytes)}
Covered(segs) == UNION {Addrs(segs[n]) : n \in 1..Len(segs)}
\* addresses that more than one instruction occupies
Clashes(segs) ==
  IF FoldLeft(LAMBDA n, c : n + Len(c.bytes), 0, segs) = Cardinality(Covered(segs))
  THEN {}
  ELSE {a \in Covered(segs) : Cardinality({n \in 1..Len(segs) : a \in Addrs(segs[n])}) > 1}
=============================================================================
