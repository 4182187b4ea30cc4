------------------------------ MODULE InputsMC -------------------------------
(* What the operators of Inputs mean, on all small instances: maxima by halving
   are maxima, weeks partition the days, seasons of days agree with seasons of
   hours, outages of a unit are the weeks from its first to its last, shares
   and net contracts add up.  The machine only walks through the instances. *)
EXTENDS Inputs, TLC, Calendar
CONSTANTS MaxLen, MaxVal, MaxContracts
VARIABLES seq, span, conts, seas, own
vars == <<seq, span, conts, seas, own>>

N == 3                      \* areas
Names == <<"B", "A", "C">>
Days == {1, 2, 365}
Contract == [fr : {"A", "B", "C"}, to : {"A", "B", "C"}, d1 : Days, d2 : Days, mw : {1, 10}]
Sane(x) == x.fr # x.to /\ x.d1 <= x.d2
Area(k) == [name |-> Names[k], peak |-> 100, fu |-> 0]
Unit(nm, loc) == [name |-> nm, loc |-> loc, cap |-> <<10, 20, 30, 40>>, dfor |-> 0, fo |-> 0, der |-> 0]
Cfg == [areas |-> [k \in 1..N |-> Area(k)], units |-> <<Unit("U1", "A"), Unit("U2", "C")>>, lines |-> <<>>,
        contracts |-> conts, owned |-> own, mc |-> [weeks |-> seas]]

Init == /\ seq \in {<<v>> : v \in 0..MaxVal}
        /\ span \in {<<b, d>> : b \in {0, 1, 2, 26, 51, 52}, d \in {0, 1, 2, 8}}
        /\ conts = <<>> /\ own = <<>>
        /\ seas \in {<<1, 2, 3>>, <<13, 26, 39>>, <<1, 30, 51>>, <<49, 50, 51>>}
Next == \/ /\ Len(seq) < MaxLen /\ conts = <<>> /\ own = <<>> /\ span = <<0, 0>> /\ seas = <<13, 26, 39>>
           /\ \E v \in 0..MaxVal : seq' = Append(seq, v)
           /\ UNCHANGED <<span, conts, seas, own>>
        \/ /\ seq = <<0>> /\ span = <<1, 1>> /\ seas = <<13, 26, 39>> /\ Len(conts) < MaxContracts /\ own = <<>>
           /\ \E x \in Contract : Sane(x) /\ conts' = Append(conts, x)
           /\ UNCHANGED <<seq, span, seas, own>>
        \/ /\ seq = <<0>> /\ span = <<1, 1>> /\ conts = <<>> /\ own = <<>>
           /\ \E p \in {<<1000, 0, 0>>, <<500, 250, 250>>, <<0, 0, 1000>>}, nm \in {"U1", "U2"} : own' = <<[name |-> nm, pct |-> p]>>
           /\ UNCHANGED <<seq, span, conts, seas>>
Spec == Init /\ [][Next]_vars

MaximumIsMaximum ==
  \A a, b \in 1..Len(seq) : a <= b => /\ \A i \in a..b : Highest(seq, a, b) >= seq[i]
                                     /\ \E i \in a..b : Highest(seq, a, b) = seq[i]
ASSUME \A d \in 1..365 : Cardinality({w \in 1..52 : d \in WeekDays(w)}) = 1
OutageWeeks ==
  LET S == Span(span[1], span[2])
  IN /\ S \subseteq 1..52
     /\ (span[1] = 0 \/ span[2] = 0) => S = {}
     /\ (span[1] > 0 /\ span[2] > 0) => /\ span[1] \in S /\ Cardinality(S) = IF span[1] + span[2] - 1 > 52 THEN 53 - span[1] ELSE span[2]
                                        /\ \A w \in S : w = span[1] \/ (w - 1) \in S
SeasonsAgree == LET c == Cfg
                    cal == [hy |-> 8760, hd |-> 24, q |-> [i \in 1..3 |-> 168 * seas[i]]]
                IN \A d \in 1..365 : \A h \in {24 * d - 24, 24 * d - 1} :
                     SeasonOfDay(c, d) = SeasonOf(cal, h)
ContractsCancel == \A d \in Days \cup {4, 364} : Upto([a \in 1..N |-> NetSent(Cfg, a, d)], N) = 0
ContractsByHand ==
  \A d \in Days \cup {4, 364} : \A a \in 1..N :
    NetSent(Cfg, a, d) =
      Upto([k \in 1..Len(conts) |-> IF d \notin conts[k].d1..conts[k].d2 THEN 0
                                    ELSE IF conts[k].fr = Names[a] THEN conts[k].mw
                                    ELSE IF conts[k].to = Names[a] THEN -conts[k].mw ELSE 0], Len(conts))
SharesAddUp == \A u \in 1..2 : Upto([a \in 1..N |-> Shares(Cfg)[a][u]], N) = 1000
InstalledAddsUp ==
  \A d \in {1, 365} : Upto([a \in 1..N |-> Installed(Cfg, a, d)], N) =
     Upto([u \in 1..2 |-> 1000 * Cfg.units[u].cap[SeasonOfDay(Cfg, d)]], 2)
=============================================================================
