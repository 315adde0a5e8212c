------------------------------ MODULE MCTable ------------------------------
(* The large label table means the same as the function it stands for:     *)
(* every history of definitions, over names that come in any order.        *)
EXTENDS LabelTable

CONSTANT Names
SmallRoom == 3

VARIABLES f, t
tvars == <<f, t>>

TInit == f = [n \in {} |-> 0] /\ t = TNone
Def(n, v) == n \notin DOMAIN f /\ f' = f @@ (n :> v) /\ t' = TAdd(t, n, v)
TNext == \E n \in Names, v \in 1..2 : Def(n, v)
TSpec == TInit /\ [][TNext]_tvars

Same == /\ \A n \in Names : THas(t, n) <=> n \in DOMAIN f
        /\ \A n \in DOMAIN f : TAt(t, n) = f[n]
        /\ TCount(t) = Cardinality(DOMAIN f)
=============================================================================
