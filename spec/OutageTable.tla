---------------------------- MODULE OutageTable -----------------------------
(* The capacity outage probability table of a set of units.  A unit is
   <<capacity, p, f, part>>: capacity (in 1/2 MW) lost when it fails fully
   (probability f/den), part percent of it when it fails partly (p/den).
   Capacities are rounded to steps of 10 MW.  A distribution maps each possible
   outage (in steps) to its probability times den^k, in limbs. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Arith

(* nearest step, in steps; half a step is rounded up.  x in 1/200 MW *)
Steps(x) == (x + 1100) \div 2000
FullLoss(u) == Steps(u[1] * 100)
PartLoss(u) == Steps((FullLoss(u) * 2000 * u[4]) \div 100)

Nothing == [x \in {0} |-> SOf(1)]
At(D, x) == IF x \in DOMAIN D THEN D[x] ELSE SOf(0)
(* the distribution after one more unit *)
Add(D, u, den) ==
  LET p == u[2]  f == u[3]  k == FullLoss(u)  j == PartLoss(u)
  IN [x \in DOMAIN D \cup {y + j : y \in DOMAIN D} \cup {y + k : y \in DOMAIN D} |->
        SAdd(SMul(SOf(den - p - f), At(D, x)), SAdd(SMul(SOf(p), At(D, x - j)), SMul(SOf(f), At(D, x - k))))]
RECURSIVE Distribution(_, _)
Distribution(us, den) == IF us = <<>> THEN Nothing ELSE TLCEval(Add(Distribution(SubSeq(us, 1, Len(us) - 1), den), us[Len(us)], den))
RECURSIVE PowS(_, _)
PowS(d, n) == IF n = 0 THEN SOf(1) ELSE SMul(SOf(d), PowS(d, n - 1))
RECURSIVE SumS(_, _)
SumS(D, S) == IF S = {} THEN SOf(0) ELSE LET x == CHOOSE y \in S : TRUE IN SAdd(D[x], SumS(D, S \ {x}))
(* probability that at least x steps are on outage *)
AtLeast(D, x) == SumS(D, {y \in DOMAIN D : y >= x})
(* the same for all x up to the largest: the sum of the previous entry and the steps just below *)
RECURSIVE TailFrom(_, _, _)
TailFrom(D, x, acc) == IF x < 0 THEN acc ELSE TailFrom(D, x - 1, Append(acc, SAdd(acc[Len(acc)], At(D, x))))
Largest(D) == CHOOSE x \in DOMAIN D : \A y \in DOMAIN D : y <= x
Tails(D) == LET n == Largest(D)  s == TLCEval(TailFrom(D, n, <<SOf(0)>>)) IN [x \in 0..n |-> s[n - x + 2]]
Possible(D) == {x \in DOMAIN D : D[x][1] # 0}
=============================================================================
