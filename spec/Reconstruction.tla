--------------------------- MODULE Reconstruction ---------------------------
(***************************************************************************)
(* The epoch loop of a reconstruction and the bookkeeping around it.       *)
(*                                                                         *)
(* cfg: that of early stopping (Stopping.tla) with tol (tolerance) and     *)
(* max (number of the last epoch, counted from 0).                         *)
(***************************************************************************)
EXTENDS Stopping, Split

\* why the loop ends with the k-th epoch (from 1), given the losses of all epochs
Converged(cfg, T, k) == T[k] <= cfg.tol
Stopped(cfg, T, k) == Stops(cfg, T, k)
Exhausted(cfg, k) == k = cfg.max + 1
EndsAt(cfg, T, k) == Stopped(cfg, T, k) \/ Converged(cfg, T, k) \/ Exhausted(cfg, k)

\* number of epochs, and whether the losses T (of the epochs that were run) are a complete run
Complete(cfg, T) == /\ Len(T) >= 1 /\ EndsAt(cfg, T, Len(T))
                    /\ \A k \in 1..(Len(T) - 1) : ~EndsAt(cfg, T, k)
\* an epoch in which training is stopped early is not part of the history
History(cfg, T) == IF Stopped(cfg, T, Len(T)) THEN SubSeq(T, 1, Len(T) - 1) ELSE T

\* data[g][h]: does heliostat h of group g have calibration data?
HasData(data, g) == \E h \in 1..Len(data[g]) : data[g][h] = 1
Trained(data) == SelectSeq([g \in 1..Len(data) |-> g], LAMBDA g : HasData(data, g))
ActiveOf(row) == SelectSeq([h \in 1..Len(row) |-> h], LAMBDA h : row[h] = 1)
=============================================================================
