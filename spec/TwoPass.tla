------------------------------ MODULE TwoPass ------------------------------
(* The reference: an assembler that first learns where every label is and   *)
(* then encodes every instruction with all values known.  It works on a     *)
(* whole program (a sequence of parsed lines) and shares with Asm only the  *)
(* instruction set and the reading of single lines.                         *)
EXTENDS Asm

\* lines up to .END
RECURSIVE Upto(_, _)
Upto(ps, n) == IF n > Len(ps) \/ ps[n].end THEN n - 1 ELSE Upto(ps, n + 1)

HasLabel(p) == p.opd.k = "LABEL"

\* --- pass 1: sizes, locations, definitions, in source order
\* a label known at this point counts with its value; an unknown one makes
\* only sense for the instructions whose size is certain
SizeIn(p, tab) ==
  IF p.instr = "" THEN 0
  ELSE IF p.instr \in Branches THEN 2
  ELSE IF p.instr \in Jumps THEN 3
  ELSE LET v == IF HasLabel(p) THEN tab[p.opd.s] ELSE p.opd.v IN
       CASE p.shape \in {"none", "acc"} -> 1
         [] p.shape \in {"imm", "indx", "indy"} -> 2
         [] OTHER -> IF v < 256 THEN 2 ELSE 3

RECURSIVE Pass1(_, _, _, _, _)
\* yields [ok, tab, at]: at[n] the location of line n's instruction
Pass1(ps, n, here, tab, at) ==
  IF n > Len(ps) THEN [ok |-> TRUE, tab |-> tab, at |-> at]
  ELSE LET p == ps[n]
           org == IF p.org >= 0 THEN p.org ELSE here
           dup == p.def # "" /\ p.name \in DOMAIN tab
           tab2 == IF p.def = "" \/ dup THEN tab
                   ELSE (p.name :> IF p.def = "addr" THEN org ELSE p.val) @@ tab
           early == p.instr # "" /\ HasLabel(p) /\ p.opd.s \notin DOMAIN tab2
                    /\ p.instr \notin Branches /\ p.instr \notin Jumps
       IN IF p.err # "" \/ dup \/ early THEN [ok |-> FALSE, tab |-> tab2, at |-> at]
          ELSE Pass1(ps, n + 1, org + SizeIn(p, tab2), tab2, Append(at, org))

\* --- pass 2: the encoding of one instruction, as the set of byte sequences
\* that a disassembler at `at` would print as this instruction ({} if illegal)
Encodings(p, at, tab) ==
  LET ref == HasLabel(p)
      v == IF ref THEN tab[p.opd.s] ELSE p.opd.v
      lo == v % 256  hi == (v \div 256) % 256
      has(mode, bytes) == IF mode \in DOMAIN Op[p.instr] THEN {<<Op[p.instr][mode]>> \o bytes} ELSE {}
      byMode(zp, abs) == IF v < 256 /\ p.instr \notin Jumps THEN has(zp, <<lo>>)
                         ELSE has(abs, <<lo, hi>>)
  IN IF ref /\ (p.opd.s \notin DOMAIN tab \/ (v >= Limit /\ p.instr \notin Branches)) THEN {}
     ELSE CASE p.shape = "none" -> has("IMP", <<>>) \cup has("ACC", <<>>)
       [] p.shape = "acc"   -> has("ACC", <<>>)
       [] p.shape = "imm"   -> IF v < 256 THEN has("IMM", <<lo>>) ELSE {}
       [] p.shape = "indx"  -> IF v < 256 THEN has("INDX", <<lo>>) ELSE {}
       [] p.shape = "indy"  -> IF v < 256 THEN has("INDY", <<lo>>) ELSE {}
       [] p.shape = "ind"   -> has("IND", <<lo, hi>>)
       [] p.shape = "x"     -> byMode("ZPX", "ABSX")
       [] p.shape = "y"     -> byMode("ZPY", "ABSY")
       [] p.shape = "plain" ->
            IF p.instr \in Branches
            THEN IF ref
                 THEN {<<Op[p.instr]["REL"], b>> : b \in
                         {x \in 0..255 : at + 2 + (IF x > 127 THEN x - 256 ELSE x) = v}}
                 ELSE IF v < 256 THEN has("REL", <<v>>) ELSE {}
            ELSE byMode("ZP", "ABS")

\* yields [ok, segs] of a program given as parsed lines
TwoPass(ps0) ==
  LET ps == SubSeq(ps0, 1, Upto(ps0, 1))
      p1 == Pass1(ps, 1, 0, [n \in {} |-> 0], <<>>)
      instrs == SelectSeq([n \in 1..Len(ps) |-> n], LAMBDA n : ps[n].instr # "")
      enc(n) == Encodings(ps[n], p1.at[n], p1.tab)
  IN IF ~p1.ok THEN [ok |-> FALSE, segs |-> <<>>, tab |-> p1.tab]
     ELSE IF \E i \in 1..Len(instrs) : Cardinality(enc(instrs[i])) # 1
          THEN [ok |-> FALSE, segs |-> <<>>, tab |-> p1.tab]
     ELSE [ok |-> TRUE, tab |-> p1.tab,
           segs |-> [i \in 1..Len(instrs) |->
                       [at |-> p1.at[instrs[i]], bytes |-> CHOOSE b \in enc(instrs[i]) : TRUE]]]
=============================================================================
