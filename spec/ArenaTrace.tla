----------------------------- MODULE ArenaTrace -----------------------------
(* Histories of taking and scheduling events recorded from the real code,
   checked against EventList.  Each line carries the whole list as found by
   following the links from the first event (ok is false when that does not
   end), and the number of events the code believes to be pending. *)
EXTENDS TraceKit, EventList

VARIABLES l, list
vars == <<l, list>>

T == Trace
Init == l = 1 /\ list = EmptyList

Logged(r) == [i \in 1..Len(r.list) |-> Ev(r.list[i][1], r.list[i][2])]

Clauses(r, before) ==
  LET now == BagOfSeq(Logged(r))
      e   == Ev(r.t, r.k)
      want == CASE r.ev = "start" -> now
                [] r.ev = "file" -> Schedule(before, e)
                [] r.ev = "take" -> Taken(before, e)
  IN << <<"C02.links", r.ok>>,
        <<"C02.taken-was-pending", r.ev = "take" => BagIn(e, before)>>,
        <<"C02.taken-in-order", r.ev = "take" =>
              \A f \in BagToSet(before) : r.t <= EvTime(f)>>,
        <<"C02.list-is-exactly-what-is-pending", now = want>>,
        <<"C02.sorted", Sorted(Logged(r))>>,
        <<"C02.count", r.n = BagCardinality(want)>> >>

Next == /\ l <= Len(T)
        /\ Tell(l, Broken(Clauses(T[l], list)))
        /\ list' = BagOfSeq(Logged(T[l]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
