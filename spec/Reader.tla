------------------------------- MODULE Reader -------------------------------
(* How the assembler gets its lines: the text arrives in pieces that fit     *)
(* into a buffer, which grows when a line goes on behind its end.  Only the  *)
(* lengths matter.  The invariants say that this refines Asm's reading of    *)
(* lines: each physical line is delivered once, whole, in order, the last    *)
(* one whether or not a line feed follows.                                   *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Lengths,    \* lengths a line may have (without its line feed)
          MaxLines, Base, EmitTests

VARIABLES text,       \* lengths of the lines
          last,       \* does a line feed follow the last line?
          i, off,     \* where reading stands: line and offset in it
          len, size,  \* the buffer
          got         \* what was delivered: <<line, characters>>
rvars == <<text, last, i, off, len, size, got>>

Chars(k) == text[k] + (IF k < Len(text) \/ last THEN 1 ELSE 0)
More == i <= Len(text) /\ off < Chars(i)      \* the line goes on
Min(a, b) == IF a < b THEN a ELSE b

RInit ==
  /\ text \in UNION {[1..n -> Lengths] : n \in 0..MaxLines}
  /\ last \in BOOLEAN
  /\ i = 1 /\ off = 0 /\ len = 0 /\ size = Base /\ got = <<>>

\* a piece of the line: at most what fits, with the terminator
Piece == Min(size - len - 1, Chars(i) - off)
Fill ==
  /\ More /\ Piece > 0
  /\ len' = len + Piece /\ off' = off + Piece
  /\ UNCHANGED <<text, last, i, size, got>>
Grow ==
  /\ More /\ Piece = 0 /\ size' = 2 * size
  /\ UNCHANGED <<text, last, i, off, len, got>>
\* the line is complete: its line feed has come, or the text is at its end
Deliver ==
  /\ ~More /\ len > 0
  /\ got' = Append(got, <<i, len>>) /\ i' = i + 1 /\ off' = 0 /\ len' = 0
  /\ UNCHANGED <<text, last, size>>

RNext == Fill \/ Grow \/ Deliver
RSpec == RInit /\ [][RNext]_rvars /\ WF_rvars(RNext)

----------------------------------------------------------------------------
Finished == ~More /\ len = 0
\* (an empty line without a line feed is no line)
Lines == SelectSeq([k \in 1..Len(text) |-> <<k, Chars(k)>>], LAMBDA x : x[2] > 0)

NoOverflow == len + 1 <= size
InOrder == SubSeq(Lines, 1, Len(got)) = got
AllLines == Finished => got = Lines
Ends == <>[]Finished

Emit == (EmitTests /\ Finished) => PrintT("@T " \o ToJson([lengths |-> text, last |-> last]))
=============================================================================
