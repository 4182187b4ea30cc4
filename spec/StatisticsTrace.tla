-------------------------- MODULE StatisticsTrace ---------------------------
(* The program's statistics of single hours, by area and for the pool, against
   Statistics.  A line has the margins of the areas at one load level, and what
   the call added to the loss counts and energies of both classes. *)
EXTENDS TraceKit, Statistics

VARIABLES l
T == Trace
Init == l = 1

None(m) == [a \in 1..Len(m) |-> 0]
AreaAs(r, c) == /\ r.area.LOLT = IF c = "T" THEN Losses(r.m) ELSE None(r.m)
                /\ r.area.LOLG = IF c = "G" THEN Losses(r.m) ELSE None(r.m)
                /\ r.area.MGNT = IF c = "T" THEN Energies(r.m) ELSE None(r.m)
                /\ r.area.MGNG = IF c = "G" THEN Energies(r.m) ELSE None(r.m)
Lost(m) == TotalOf(Energies(m), Len(m))
Clauses(r) ==
  IF r.ev \notin {"hour", "peak"} THEN <<>> ELSE
  << <<"C12.areas-of-an-hour", \E c \in Classes(r.m) : AreaAs(r, c)>>,
     <<"C12.pool-count-of-an-hour", \E c \in Classes(r.m) : r.pool.LOLT = (IF c = "T" THEN 1 ELSE 0) /\ r.pool.LOLG = (IF c = "G" THEN 1 ELSE 0)>>,
     <<"C12.pool-energy-of-an-hour", \E c \in Classes(r.m) : r.pool.MGNT = (IF c = "T" THEN Lost(r.m) ELSE 0)
                                                          /\ r.pool.MGNG = (IF c = "G" THEN Lost(r.m) ELSE 0)>>,
     <<"C12.other-levels-unchanged", r.rest>>,
     <<"C12.margins-unchanged", r.kept>> >>

Next == l <= Len(T) /\ l' = l + 1 /\ Tell(l, Broken(Clauses(T[l])))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
