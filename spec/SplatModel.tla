------------------------------ MODULE SplatModel ------------------------------
(***************************************************************************)
(* The splatting specification on a complete lattice of positions in and   *)
(* around a small bitmap.                                                  *)
(***************************************************************************)
EXTENDS RayTrace

CONSTANTS Wm, Hm, Sub

VARIABLES e, u
Init == /\ e \in {(k * S) \div Sub : k \in -Sub..Sub * (Wm + 1)}
        /\ u \in {(k * S) \div Sub : k \in -Sub..Sub * (Hm + 1)}
Next == UNCHANGED <<e, u>>

Shares == [r \in 0..Hm - 1 |-> [c \in 0..Wm - 1 |-> Share(e, u, r, c, Wm, Hm)]]
Total == SeqSum([k \in 1..Wm * Hm |-> Shares[(k - 1) \div Wm][(k - 1) % Wm]])
\* every position inside keeps its energy, every other one contributes nothing
Conserved == Close(Total, IF Splats(e, u, Wm, Hm) THEN S ELSE 0, 3)
FourPixels == Cardinality({k \in 1..Wm * Hm : Shares[(k - 1) \div Wm][(k - 1) % Wm] > 0}) <= 4
NoNegative == \A r \in 0..Hm - 1, c \in 0..Wm - 1 : Shares[r][c] >= 0
\* the shares' mean position is the position itself
Centred ==
    Splats(e, u, Wm, Hm) =>
      /\ Close(SeqSum([k \in 1..Wm * Hm |-> ((k - 1) % Wm) * Shares[(k - 1) \div Wm][(k - 1) % Wm]]), e, 12)
      /\ Close(SeqSum([k \in 1..Wm * Hm |-> (Hm - 1 - (k - 1) \div Wm) * Shares[(k - 1) \div Wm][(k - 1) % Wm]]), u, 12)
=============================================================================
