--------------------------- MODULE SamplingTrace ----------------------------
(* The program's draws called directly.  A line "seeds" has the streams of so
   many units and lines seeded one after another; "units" and "lines" one draw
   of a set of components with the streams before and after it; "shared" the
   states that one of the alternative samplers gave components that draw, one
   after another, from one source whose numbers (in units of 2^-31) are given;
   "sums" the capacities of areas (in 1/4096 MW) for units of which any share
   (in 1/1024) belongs to any area. *)
EXTENDS TraceKit, Sampling
Cap == INSTANCE Capacity

VARIABLES l
T == Trace
Init == l = 1

Drawn(r) == \A i \in 1..Len(r.was) : r.now[i] = NextDraw(r.was[i])
Units(r, s) == Len(r.pct) = Len(s) /\ \A i \in 1..Len(s) : r.pct[i] \in UnitStates(s[i], r.lim[i], r.der[i])
Lines(r, s) == Len(r.st) = Len(s) /\ \A i \in 1..Len(s) : r.st[i] \in LineStates(s[i], r.lim[i])
(* the capacity that counts is that of the state, none while in maintenance *)
Given(r) == Len(r.av) = Len(r.pct) /\ \A i \in 1..Len(r.pct) : 4 * r.av[i] = r.pct[i] * r.cap[i] * r.on[i]

At(r, a) == 1024 * Cap!SumOver(r.av, {u \in 1..Len(r.av) : r.loc[u] = a})
Of(r, a) == Cap!SumN([u \in 1..Len(r.av) |-> r.own[a][u] * r.av[u]], Len(r.av))

Clauses(r) ==
  CASE r.ev = "seeds" ->
         LET all == SeedChain(r.seed, r.nu + r.nl)
         IN << <<"C05.units-seeded", Len(r.g) >= r.nu /\ \A i \in 1..r.nu : r.g[i] = all[i]>>,
               <<"C05.lines-seeded", Len(r.l) >= r.nl /\ \A i \in 1..r.nl : r.l[i] = all[r.nu + i]>> >>
    [] r.ev = "units" -> << <<"C05.unit-streams-advance-once", Drawn(r)>>,
                            <<"C05.unit-states", Units(r, r.now)>>, <<"C05.capacity-of-the-state", Given(r)>> >>
    [] r.ev = "lines" -> << <<"C05.line-streams-advance-once", Drawn(r)>>, <<"C05.line-states", Lines(r, r.now)>> >>
    [] r.ev = "shared-units" -> << <<"C05.units-sharing-a-source", Units(r, r.from)>>, <<"C05.capacity-of-the-state", Given(r)>> >>
    [] r.ev = "sums" ->
         LET areas == 1..Len(r.own)
         IN << <<"C06.capacity-located", Len(r.located) = Len(r.own) /\ \A a \in areas : r.located[a] = At(r, a)>>,
               <<"C06.capacity-owned", Len(r.owned) = Len(r.own) /\ \A a \in areas : r.owned[a] = Of(r, a)>>,
               <<"C06.transfers-by-ownership", Len(r.moved) = Len(r.own) /\ \A a \in areas : r.moved[a] = At(r, a) - Of(r, a)>>,
               <<"C06.transfers-cancel", Cap!SumN(r.moved, Len(r.moved)) = 0>> >>
    [] r.ev = "shared-lines" -> << <<"C05.lines-sharing-a-source", Lines(r, r.from)>> >>

Next == l <= Len(T) /\ l' = l + 1 /\ Tell(l, Broken(Clauses(T[l])))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
