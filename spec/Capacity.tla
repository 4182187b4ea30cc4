------------------------------ MODULE Capacity ------------------------------
(* Capacities of areas from capacities of units.  All powers are integers in
   units of 1/K MW.  loc[u] is the area of unit u, own[a][u] the share of area
   a in unit u in quarters. *)
EXTENDS Integers, Sequences, FiniteSets

K == 1024

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
RECURSIVE SumN(_, _)
SumN(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumN(f, n - 1)

(* available capacity: state in quarters, rating in MW, 1 when not on outage *)
Avail(state, rating, inService) ==
  [u \in 1..Len(state) |-> state[u] * (K \div 4) * rating[u] * inService[u]]
Located(av, loc, na) == [a \in 1..na |-> SumOver(av, {u \in 1..Len(av) : loc[u] = a})]
Owned(av, own, na) == [a \in 1..na |-> SumN([u \in 1..Len(av) |-> own[a][u] * (av[u] \div 4)], Len(av))]
Transfer(av, loc, own, na) ==
  [a \in 1..na |-> Located(av, loc, na)[a] - Owned(av, own, na)[a]]
(* shares of every unit add up to one *)
FullyOwned(own, na, nu) == \A u \in 1..nu : SumN([a \in 1..na |-> own[a][u]], na) = 4
=============================================================================
