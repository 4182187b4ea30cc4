------------------------------ MODULE TraceKit ------------------------------
(* What all trace specifications share.  A trace is a file of JSON lines named
   by the environment variable TRACE, recorded from the real code.  A trace
   specification consumes one line per step and prints, for each line that the
   specification does not allow, the names of the clauses it breaks; it then
   goes on from the logged state, so that the rest of the trace is checked too.
   Clause names start with the id of the property they belong to. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* names of the clauses that do not hold in a sequence of <<name, holds>> *)
Broken(cs) == {cs[i][1] : i \in {j \in 1..Len(cs) : ~cs[j][2]}}
Tell(l, names) == \A n \in names : PrintT(<<"FAIL", l, n>>)

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================
