------------------------------ MODULE Contracts -----------------------------
(* Firm contracts: a sequence of records with fr, to (areas), d1, d2 (first and
   last day, 1-based, both included) and mw. *)
EXTENDS Integers, Sequences

RECURSIVE Net(_, _, _)
Net(cs, a, day) ==
  IF cs = <<>> THEN 0
  ELSE LET c == Head(cs)
           on == day >= c.d1 /\ day <= c.d2
       IN  (IF on /\ c.fr = a THEN c.mw ELSE 0) - (IF on /\ c.to = a THEN c.mw ELSE 0)
           + Net(Tail(cs), a, day)
NetAll(cs, na, day) == [a \in 1..na |-> Net(cs, a, day)]
RECURSIVE Total(_, _)
Total(f, n) == IF n = 0 THEN 0 ELSE f[n] + Total(f, n - 1)
(* over the pool contracts cancel *)
Cancels(cs, na, day) == Total(NetAll(cs, na, day), na) = 0
=============================================================================
