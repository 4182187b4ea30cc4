---------------------------- MODULE HourDecision ----------------------------
(* How one hour is classified at one load forecast level.  cap, load: by area in
   1/K MW; links: sequence of <<from, to, forward MW, backward MW>> (capacities
   in the current state of the line, whole MW, at most one line per pair of
   areas).  Margins are whole MW, rounded towards zero. *)
EXTENDS Integers, Sequences, FiniteSets, Arith

HMin(a, b) == IF a <= b THEN a ELSE b
Margins(cap, load, k) == [a \in 1..Len(cap) |-> Trunc(cap[a] - load[a], k)]
Short(m) == {a \in 1..Len(m) : m[a] < 0}
RECURSIVE HSum(_, _)
HSum(f, S) == IF S = {} THEN 0
              ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + HSum(f, S \ {x})
(* what area s can get from its neighbours directly *)
HelpBy(l, m, s) == IF l[1] = s /\ m[l[2]] > 0 THEN HMin(m[l[2]], l[4])
                   ELSE IF l[2] = s /\ m[l[1]] > 0 THEN HMin(m[l[1]], l[3])
                   ELSE 0
Help(links, m, s) == HSum([i \in 1..Len(links) |-> HelpBy(links[i], m, s)], 1..Len(links))

Outcome(cap, load, links, k) ==
  LET m == Margins(cap, load, k)
      sh == Short(m)
  IN  IF sh = {} THEN "none"
      ELSE IF Cardinality(sh) = Len(m) THEN "all"
      ELSE IF Cardinality(sh) = 1 /\
              Help(links, m, CHOOSE a \in sh : TRUE) >= -m[CHOOSE a \in sh : TRUE] THEN "helped"
      ELSE "study"
=============================================================================
