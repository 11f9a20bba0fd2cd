------------------------------ MODULE AimPoint ------------------------------
(***************************************************************************)
(* Aim-point optimization: when it ends, what it may move and how the      *)
(* constraints weigh on the loss.                                          *)
(*                                                                         *)
(* cfg as in Reconstruction.tla.  Unlike a reconstruction, the history     *)
(* holds every epoch, the last one included.                               *)
(***************************************************************************)
EXTENDS Stopping

EndsAt(cfg, T, k) == Stops(cfg, T, k) \/ T[k] <= cfg.tol \/ k = cfg.max + 1
Complete(cfg, T) == /\ Len(T) >= 1 /\ EndsAt(cfg, T, Len(T))
                    /\ \A k \in 1..(Len(T) - 1) : ~EndsAt(cfg, T, k)

\* a motor that starts within its limits stays there; one that starts outside is not moved
Start(lo, hi, x0) == lo <= x0 /\ x0 <= hi
MayBe(lo, hi, x0, x, tol) == IF Start(lo, hi, x0) THEN x >= lo - tol /\ x <= hi + tol ELSE AbsV(x - x0) <= tol
Range2(lo, hi, x0) == LET a == x0 - lo
                          b == hi - x0
                          m == IF a < b THEN a ELSE b
                      IN  MaxV(m, 0)

\* augmented Lagrangian of one constraint whose violations in the epochs are d(1), d(2), ...
\* (rho and the result in units of one; Times multiplies two of them)
Penalty(Times(_, _), lam, rho, d) == Times(lam, MaxV(d, 0)) + Times(rho, Times(MaxV(d, 0), MaxV(d, 0))) \div 2
Weight(Times(_, _), lam, rho, d) == MaxV(0, lam + Times(rho, d))
RECURSIVE WeightAt(_, _, _, _)
WeightAt(Times(_, _), rho, d(_), k) == IF k = 1 THEN 0 ELSE Weight(Times, WeightAt(Times, rho, d, k - 1), rho, d(k - 1))
=============================================================================
