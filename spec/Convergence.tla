---------------------------- MODULE Convergence -----------------------------
(* When a simulation stops.  xs is the sequence of yearly values of the index
   the user selected (integers in limbs, see Arith, in any unit), test a fraction <<p, q>>:
   standard error of the mean of xs < (p/q) * mean.  With n values, sum S and sum
   of squares Q that is q^2 (n Q - S^2) < p^2 n S^2.  Values that agree to one
   part in 10^8 are left open, since the code computes with rounded numbers. *)
EXTENDS Integers, Sequences, Arith

FirstYears == 5

RECURSIVE SSumL(_)
SSumL(xs) == IF xs = <<>> THEN SOf(0) ELSE SAdd(Head(xs), SSumL(Tail(xs)))
RECURSIVE SSqL(_)
SSqL(xs) == IF xs = <<>> THEN SOf(0) ELSE SAdd(SMul(Head(xs), Head(xs)), SSqL(Tail(xs)))

(* n yearly values with sum S and sum of squares Q *)
Spread(n, S, Q, q) == SMul(SMul(SOf(q), SOf(q)), SAdd(SMul(SOf(n), Q), SNeg(SMul(S, S))))
Allowed(n, S, p) == SMul(SMul(SOf(p), SOf(p)), SMul(SOf(n), SMul(S, S)))

Fraction(p, q) == IF p = 0 THEN <<25, 1000>> ELSE <<p, q>>
TestsSum(n, S, Q, test, lo) ==
  /\ n >= FirstYears
  /\ S[1] = 1
  /\ LET f == Fraction(test[1], test[2])
         e == 100000000
     IN  SCmp(SMul(SOf(e), Spread(n, S, Q, f[2])),
              SMul(SOf(IF lo THEN e - 1 ELSE e + 1), Allowed(n, S, f[1]))) < 0
Tests(xs, test, lo) == TestsSum(Len(xs), SSumL(xs), SSqL(xs), test, lo)
MustStop(xs, test) == Tests(xs, test, TRUE)
MayStop(xs, test) == Tests(xs, test, FALSE)
=============================================================================
