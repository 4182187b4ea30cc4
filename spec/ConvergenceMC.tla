--------------------------- MODULE ConvergenceMC ---------------------------
(* The rule of Convergence on every short history of yearly values, next to the
   form in which a program can carry it: the total so far and the sum of the
   squared yearly differences, one year at a time. *)
EXTENDS Convergence, TLC

CONSTANTS Values, Years, TestSet

VARIABLES xs, last, ssq, stopped
vars == <<xs, last, ssq, stopped>>

Tests3 == {<<25, 1000>>, <<1, 10>>, <<1, 4>>, <<2, 5>>}

Init == xs = <<>> /\ last = 0 /\ ssq = 0 /\ stopped = [t \in TestSet |-> 0]

(* what the program does with the total of all years so far *)
Answer(n, sum, sq, t) ==
  /\ n >= FirstYears
  /\ sum # 0
  /\ (n * sq - sum * sum) * t[2] * t[2] < n * sum * sum * t[1] * t[1]

Year == \E v \in Values :
  LET total == last + v
      d == total - last
      sq == ssq + d * d
  IN /\ Len(xs) < Years
     /\ xs' = Append(xs, v)
     /\ last' = total
     /\ ssq' = sq
     /\ stopped' = [t \in TestSet |-> IF stopped[t] = 0 /\ Answer(Len(xs'), total, sq, t) THEN Len(xs') ELSE stopped[t]]
Spec == Init /\ [][Year]_vars

L(s) == [i \in 1..Len(s) |-> SOf(s[i])]
Must(s, t) == MustStop(L(s), t)
May(s, t) == MayStop(L(s), t)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

(* the carried total and squares stand for the whole history *)
Carries == last = SumOf(xs) /\ ssq = SumOf([i \in 1..Len(xs) |-> xs[i] * xs[i]])
(* and lead to the rule's answer *)
Agrees == \A t \in TestSet :
  /\ Answer(Len(xs), last, ssq, t) => May(xs, t)
  /\ Must(xs, t) => Answer(Len(xs), last, ssq, t)
NeverEarly == \A t \in TestSet : stopped[t] = 0 \/ stopped[t] >= FirstYears
(* nothing lost: the run goes on to its last year *)
NoLossNoStop == (\A i \in 1..Len(xs) : xs[i] = 0) => \A t \in TestSet : stopped[t] = 0
(* every year alike: there is nothing to wait for *)
AllAlike == (Len(xs) >= FirstYears /\ xs[1] # 0 /\ \A i \in 1..Len(xs) : xs[i] = xs[1]) =>
               \A t \in TestSet : stopped[t] = FirstYears
(* a wider test stops no later *)
Monotone == \A t, u \in TestSet : (t[1] * u[2] <= u[1] * t[2] /\ stopped[t] # 0) => (stopped[u] # 0 /\ stopped[u] <= stopped[t])
(* neither the order of the years nor the unit matters *)
Rotated == Tail(xs) \o <<Head(xs)>>
OrderAndUnit == xs # <<>> => \A t \in TestSet :
  /\ Must(xs, t) = Must(Rotated, t)
  /\ Must(xs, t) = Must([i \in 1..Len(xs) |-> 7 * xs[i]], t)
(* no test given is the same as 2.5 % *)
Default == Must(xs, <<0, 1>>) = Must(xs, <<25, 1000>>)
=============================================================================
