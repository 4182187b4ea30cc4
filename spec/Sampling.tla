------------------------------ MODULE Sampling ------------------------------
(* Random number streams and the states drawn from them.  A stream is an integer
   below 2^31; a draw multiplies it.  Probabilities are given as integer limits
   on the same scale: a unit with limits <<a, b>> is full below a, derated from
   a to below b, out from b on; a line with limits <<a1, .., a5>> is in the first
   state i with stream <= ai, or else in state 6.  Close to a
   limit, never further than Slack, the outcome is left open (the code scales with
   a rounded constant). *)
EXTENDS Integers, Sequences, Arith

DrawMultiplier == 65539
SeedMultiplier == 9649599
Slack == 64

NextDraw(s) == AddMod(MulMod(s % 32768, 65536), MulMod(s, 3))
NextSeed(s) == MulMod(s, SeedMultiplier)

(* the streams of n components seeded one after another from s *)
RECURSIVE SeedChain(_, _)
SeedChain(s, n) == IF n = 0 THEN <<>>
                   ELSE LET x == NextSeed(s) IN <<x>> \o SeedChain(x, n - 1)

(* a number is scaled with a constant that is a little too large *)
Near(s, lim) == s - lim <= 1 + s \div 33554432 /\ lim - s <= 1 + s \div 33554432
Below(s, lim) == s < lim \/ Near(s, lim)
Above(s, lim) == s >= lim \/ Near(s, lim)

(* states as quarters of full capacity, with d the quarters when derated *)
UnitStates(s, lim, d) ==
  (IF Below(s, lim[1]) THEN {4} ELSE {})
  \cup (IF Above(s, lim[1]) /\ Below(s, lim[2]) THEN {d} ELSE {})
  \cup (IF Above(s, lim[2]) THEN {0} ELSE {})

LineStates(s, lim) ==
  {i \in 1..5 : (i = 1 \/ Above(s, lim[i - 1])) /\ Below(s, lim[i])} \cup
  (IF Above(s, lim[5]) THEN {6} ELSE {})
=============================================================================
