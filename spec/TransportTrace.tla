---------------------------- MODULE TransportTrace ----------------------------
(* Transmission studies recorded from the real code (single calls and whole
   simulations), decided by Transport.  Each line is one study with its inputs
   (capacities located in the areas, loads, scheduled transfers, line states),
   its results (flows, shortages or spare capacities) and certificates added by
   harness/certify.py.  The certificates are not believed: what they prove is
   computed here.

   In a study the scheduled transfers are carried first, as far as the network
   allows and needs of the areas call for; jf = 0 says that nothing is short
   then.  Otherwise the shortages are minimised: over the whole network when
   losses are shared (nls = 0), over what the schedule leaves of it when each
   area serves its own load first (nls = 1). *)
EXTENDS TraceKit, Transport

VARIABLE l
T == Trace
Tol == 40         \* 0.01 MW in shortages and exports
FTol == 20        \* 0.005 MW in flows

Areas(r) == 1..r.n
Balance(r) == [a \in Areas(r) |-> r.gen[a] - r.load[a]]
(* exports implied by the results *)
Total(r) == [a \in Areas(r) |-> IF r.jf = 0 THEN Balance(r)[a] - r.sadj[a] ELSE Balance(r)[a] + r.sadj[a]]
NetFlow(r) == [a \in Areas(r) |-> NetOf(r.lines, r.flow, a)]
First(r) == IF r.jf = 0 THEN Total(r)
            ELSE [a \in Areas(r) |-> Total(r)[a] - NetFlow(r)[a]]
Lost(r) == [a \in Areas(r) |-> IF r.jf = 0 THEN 0 ELSE TMax(0, r.sadj[a])]

Planned(r) == OwnFirst(r.n, r.lines, r.lim, r.lim, Schedule1(r.gen, r.load, r.tr))
Final(r) ==
  IF r.nls = 0 THEN Sharing(r.n, r.lines, r.lim, r.gen, r.load)
  ELSE LET e == First(r)
       IN OwnFirst(r.n, LeftLines(r.lines, r.cert.flow1), [a \in Areas(r) |-> TMax(0, r.lim[a] - e[a])],
                   [a \in Areas(r) |-> TMax(0, r.lim[a] + e[a])], [a \in Areas(r) |-> Balance(r)[a] - e[a]])

TwoSteps(r) == r.jf = 1 /\ r.nls = 1
Numbers(r) == \A a \in Areas(r) : Abs(r.sadj[a]) < 2000000000

C09(r) ==
  LET c == r.cert IN <<
    <<"C09.flows-carry-exports",
      IF TwoSteps(r) THEN Carried(r.n, r.lines, c.thf.v, c.thf.d, NetFlow(r), FTol) /\ FlowsAre(r.lines, c.thf.v, c.thf.d, r.flow, FTol)
      ELSE Carried(r.n, r.lines, c.thx.v, c.thx.d, Total(r), FTol) /\ FlowsAre(r.lines, c.thx.v, c.thx.d, r.flow, FTol)>>,
    <<"C09.exports-carried", Carried(r.n, r.lines, c.thx.v, c.thx.d, Total(r), FTol)>>,
    <<"C09.schedule-carried", TwoSteps(r) => Carried(r.n, r.lines, c.th1.v, c.th1.d, First(r), FTol)>>,
    <<"C09.line-capacity", LinesWithin(r.lines, c.thx.v, c.thx.d, FTol)>>,
    <<"C09.area-limit", AreasWithin(r.n, Total(r), r.lim, r.lim, FTol)>>,
    <<"C09.generation", \A a \in Areas(r) : LET used == r.load[a] - Lost(r)[a] + Total(r)[a]
                                            IN used <= r.gen[a] + Tol /\ used >= -Tol>>,
    <<"C09.lost-load",   \* without loss sharing, scheduled exports count as load
      \A a \in Areas(r) : Lost(r)[a] <= r.load[a] + Tol + (IF TwoSteps(r) THEN TMax(0, First(r)[a]) ELSE 0)>>,
    <<"C09.schedule-line-capacity", TwoSteps(r) => LinesWithin(r.lines, c.th1.v, c.th1.d, FTol)>>,
    <<"C09.schedule-area-limit", TwoSteps(r) => AreasWithin(r.n, First(r), r.lim, r.lim, FTol)>> >>

C10(r) ==
  LET c == r.cert
      e == First(r)
      lost == Plus(Lost(r), r.n)
  IN <<
    <<"C10.schedule-as-asked", (r.jf = 0 \/ TwoSteps(r)) => InBoxes(Planned(r), e, Tol)>>,
    <<"C10.schedule-carried-in-full", (r.jf = 0 \/ TwoSteps(r)) => Least(Planned(r), c.m1, Shortage(Planned(r), e), Tol, 1)>>,
    <<"C10.no-needless-loss",
      \/ r.jf = 0 \/ lost <= Tol
      \/ /\ (r.nls = 1 => FlowsAre(r.lines, c.th1.v, c.th1.d, c.flow1, 2))
         /\ Least(Final(r), c.m, lost, Tol, 4)>>,
    <<"C10.no-hidden-loss", r.jf = 0 => \A a \in Areas(r) : r.sadj[a] >= -1>> >>

Fraction(r) == \A a \in Areas(r) :   \* equal[a] is the same fraction of every load
  LET sl == Plus(r.load, r.n)  sg == Plus(r.gen, r.n)
      d == SSub(SMul(SOf(r.cert.equal[a]), SOf(sl)), SMul(SOf(r.load[a]), SOf(sl - sg)))
  IN SLe(d, SOf(sl)) /\ SLe(SNeg(d), SOf(sl))
(* every area may lose this fraction, well within all limits *)
EqualPossible(r) ==
  LET e == [a \in Areas(r) |-> Balance(r)[a] + r.cert.equal[a]]
  IN Plus(r.load, r.n) > Plus(r.gen, r.n) /\ Fraction(r) /\ Carried(r.n, r.lines, r.cert.the.v, r.cert.the.d, e, 2 * r.n)
     /\ LinesWithin(r.lines, r.cert.the.v, r.cert.the.d, -FTol) /\ AreasWithin(r.n, e, r.lim, r.lim, -FTol)

C11(r) ==
  LET e == First(r) IN <<
    <<"C11.own-shortage-only", TwoSteps(r) => \A a \in Areas(r) : Lost(r)[a] <= TMax(0, e[a] - Balance(r)[a]) + Tol>>,
    <<"C11.equal-fractions", (r.jf = 1 /\ r.nls = 0 /\ EqualPossible(r)) =>
                                \A a \in Areas(r) : Abs(Lost(r)[a] - r.cert.equal[a]) <= Tol>> >>

(* the network equations hold for what a study accepts, islands included *)
C23(r) == << <<"C23.study-solves-network", Carried(r.n, r.lines, r.cert.thx.v, r.cert.thx.d, Total(r), FTol)>>,
             <<"C23.flows-solve-network", FlowsAre(r.lines, r.cert.thf.v, r.cert.thf.d, r.flow, FTol)>> >>

Clauses(r) ==
  IF r.ev # "study" THEN <<>>
  ELSE IF r.cert.none \/ ~Numbers(r) THEN << <<"C09.numbers", FALSE>> >>
  ELSE C09(r) \o C10(r) \o C11(r) \o C23(r)

Init == l = 1
Next == /\ l <= Len(T)
        /\ l' = l + 1
        /\ Tell(l, Broken(Clauses(T[l])))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(T) + 1
=============================================================================
