----------------------------- MODULE EventList -----------------------------
(* The list of future events as a user of the simulator sees it: a bag of
   events, each with a time (in half hours) and a kind.  Two operations:
   schedule an event, take an event of least time.  The order of events of
   equal time is left open.  A bag is a function from events to counts. *)
EXTENDS Integers, FiniteSets, Bags, Sequences

(* kinds *)
HourK == 1
WeekK == 2
SeasonK == 3
YearK == 4

Ev(t, k) == <<t, k>>
EvTime(e) == e[1]
EvKind(e) == e[2]

EmptyList == EmptyBag
Schedule(list, e) == list (+) SetToBag({e})
IsNext(list, e) == /\ BagIn(e, list)
                   /\ \A f \in BagToSet(list) : EvTime(e) <= EvTime(f)
Taken(list, e) == list (-) SetToBag({e})
NextTime(list) == LET S == {EvTime(f) : f \in BagToSet(list)}
                  IN  CHOOSE t \in S : \A u \in S : t <= u

(* the bag of a sequence of events *)
RECURSIVE BagOfSeq(_)
BagOfSeq(s) == IF s = <<>> THEN EmptyBag
               ELSE BagOfSeq(Tail(s)) (+) SetToBag({Head(s)})

Sorted(s) == \A i \in 1..(Len(s) - 1) : EvTime(s[i]) <= EvTime(s[i + 1])
=============================================================================
