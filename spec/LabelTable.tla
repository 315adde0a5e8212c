----------------------------- MODULE LabelTable -----------------------------
(* The label table of Asm for very large programs: definitions gather in a  *)
(* small function and are merged into the large one when it is full, so     *)
(* that a definition does not copy the whole table.  MCTable checks that    *)
(* the operations mean the same as Asm's.                                   *)
EXTENDS Naturals, FiniteSets, TLC

Room == 256      \* definitions that gather before they are merged

TNone == [big |-> [n \in {} |-> 0], new |-> [n \in {} |-> 0]]
THas(t, n) == n \in DOMAIN t.new \/ n \in DOMAIN t.big
TAt(t, n) == IF n \in DOMAIN t.new THEN t.new[n] ELSE t.big[n]
TCount(t) == Cardinality(DOMAIN t.big) + Cardinality(DOMAIN t.new)
TAdd(t, n, v) ==
  LET grown == t.new @@ (n :> v)
  IN IF Cardinality(DOMAIN grown) < Room THEN [t EXCEPT !.new = grown]
     ELSE [big |-> [m \in DOMAIN t.big \cup DOMAIN grown |->
                      IF m \in DOMAIN grown THEN grown[m] ELSE t.big[m]],
           new |-> [m \in {} |-> 0]]
=============================================================================
