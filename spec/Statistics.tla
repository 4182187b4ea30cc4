----------------------------- MODULE Statistics -----------------------------
(* Loss statistics of one hour at one forecast level, from the residual margins
   m (whole MW, negative for a loss).  Class "T": the pool has a surplus, so the
   loss is due to transmission; class "G": it has a deficit.  With an exact
   balance either class is accepted. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE TotalOf(_, _)
TotalOf(f, n) == IF n = 0 THEN 0 ELSE f[n] + TotalOf(f, n - 1)
PoolBalance(m) == TotalOf(m, Len(m))
Classes(m) == IF PoolBalance(m) > 0 THEN {"T"} ELSE IF PoolBalance(m) < 0 THEN {"G"} ELSE {"T", "G"}
Losses(m) == [a \in 1..Len(m) |-> IF m[a] < 0 THEN 1 ELSE 0]
Energies(m) == [a \in 1..Len(m) |-> IF m[a] < 0 THEN -m[a] ELSE 0]
AnyLoss(m) == \E a \in 1..Len(m) : m[a] < 0
ZeroOf(m) == [a \in 1..Len(m) |-> 0]
LossIn(m, cl, c) == IF c = cl THEN Losses(m) ELSE ZeroOf(m)
=============================================================================
