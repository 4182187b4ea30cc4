-------------------------- MODULE ConvergenceTrace --------------------------
(* Sequences of yearly values put to the program's convergence test directly.
   A line "start" names the test and the number of years asked for, a line
   "year" the value of that year (an integer in units of 10^-4, in limbs) and
   the answer. *)
EXTENDS TraceKit, Convergence

VARIABLES l, n, S, Q, cfg
vars == <<l, n, S, Q, cfg>>

T == Trace
Zero == SOf(0)
Init == l = 1 /\ n = 0 /\ S = Zero /\ Q = Zero /\ cfg = 0

Clauses(r, k, sum, sq, c) ==
  LET must == k >= c.years \/ TestsSum(k, sum, sq, c.test, TRUE)
      may == k >= c.years \/ TestsSum(k, sum, sq, c.test, FALSE)
  IN << <<"C14.answer", r.stop \in {0, 1}>>,
        <<"C14.stops-when-converged", must => r.stop = 1>>,
        <<"C14.does-not-stop-early", r.stop = 1 => may>>,
        <<"C01.stops-after-the-years-asked-for", k >= c.years => r.stop = 1>> >>

Next ==
  /\ l <= Len(T)
  /\ l' = l + 1
  /\ LET r == T[l]
     IN IF r.ev = "start" THEN n' = 0 /\ S' = Zero /\ Q' = Zero /\ cfg' = r
        ELSE /\ n' = n + 1
             /\ S' = SAdd(S, r.x)
             /\ Q' = SAdd(Q, SMul(r.x, r.x))
             /\ UNCHANGED cfg
             /\ Tell(l, Broken(Clauses(r, n', S', Q', cfg)))
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
