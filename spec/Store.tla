-------------------------------- MODULE Store --------------------------------
(* How the assembler keeps its labels: a table of slots in which a label     *)
(* stands at the place its hash names or at the next free one, and which is  *)
(* laid out anew, larger, when it would become more than half full.  The     *)
(* invariants say that this refines Asm's label table, a function: whatever  *)
(* the order of definitions, a name is found exactly when it was defined,    *)
(* with its value, and every search ends.                                    *)
EXTENDS Chars, FiniteSets, SequencesExt, Json

CONSTANTS Free,      \* names that are defined in any order
          Fillers,   \* a sequence of names that may be defined before
          Fills,     \* how many of them
          Depth,     \* definitions of free names
          Base,      \* slots of an empty table
          EmitTests

Hash(n) == FoldLeft(LAMBDA h, c : 33 * h + c, 5381, Codes(n))
AllNames == Free \cup {Fillers[i] : i \in 1..Len(Fillers)}
HashOf == [n \in AllNames |-> Hash(n)]

IsPrime(x) == x > 1 /\ \A d \in 2..(x - 1) : d * d > x \/ x % d # 0
NextPrime(x) == CHOOSE p \in (x + 1)..(2 * x + 2) : IsPrime(p) /\ \A q \in (x + 1)..(p - 1) : ~IsPrime(q)

VARIABLES slots,     \* 0..size-1 -> name, or "" where free
          count, f,  \* the table that it stands for: name -> value
          fill, hist
svars == <<slots, count, f, fill, hist>>

Size(s) == Cardinality(DOMAIN s)
Fresh(n) == [i \in 0..(n - 1) |-> ""]

\* the place of a name, or the free one where a search for it ends; -1: never ends
Seek(s, n) ==
  LET size == Size(s)
      h == HashOf[n] % size
      At(k) == s[(h + k) % size]
      Stop(k) == At(k) \in {"", n}
  IN IF \A k \in 0..(size - 1) : ~Stop(k) THEN -1
     ELSE (h + (CHOOSE k \in 0..(size - 1) : Stop(k) /\ \A j \in 0..(k - 1) : ~Stop(j))) % size

Place(s, n) == [s EXCEPT ![Seek(s, n)] = n]
Grown(s) ==
  FoldLeft(LAMBDA t, i : IF s[i - 1] = "" THEN t ELSE Place(t, s[i - 1]),
           Fresh(NextPrime(2 * Size(s))), [i \in 1..Size(s) |-> i])
Full(s, c) == ((c + 1) * 100) \div Size(s) > 50

SInit ==
  /\ slots = Fresh(Base) /\ count = 0 /\ f = [n \in {} |-> 0]
  /\ fill \in Fills /\ hist = <<>>

Def(n) ==
  /\ n \notin DOMAIN f
  /\ slots' = Place(IF Full(slots, count) THEN Grown(slots) ELSE slots, n)
  /\ count' = count + 1
  /\ f' = f @@ (n :> count')
  /\ hist' = Append(hist, n)
  /\ UNCHANGED fill

SNext ==
  IF count < fill THEN Def(Fillers[count + 1])
  ELSE count < fill + Depth /\ \E n \in Free : Def(n)
SSpec == SInit /\ [][SNext]_svars

----------------------------------------------------------------------------
\* vacuity guards: these are to be violated (selftest)
NeverWraps == \A n \in DOMAIN f : Seek(slots, n) >= HashOf[n] % Size(slots)
NeverGrows == Size(slots) = Base

\* a search ends, at the name exactly if it is defined
Refines == \A n \in AllNames :
  LET k == Seek(slots, n) IN k >= 0 /\ (slots[k] = n <=> n \in DOMAIN f)
Once == \A n \in DOMAIN f : Cardinality({i \in DOMAIN slots : slots[i] = n}) = 1
Counted == count = Cardinality(DOMAIN f) /\ count = Cardinality({i \in DOMAIN slots : slots[i] # ""})
Roomy == 2 * count <= Size(slots) + 1

Emit == (EmitTests /\ count = fill + Depth) => PrintT("@T " \o ToJson([names |-> hist]))
=============================================================================
