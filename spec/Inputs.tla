------------------------------- MODULE Inputs -------------------------------
(* The model that a folder of input files describes.  c is the folder as rows:
   c.areas, c.units, c.lines, c.contracts, c.owned (sequences in the order of
   the files) and the options c.mc.  Units of the integers: powers of units,
   contracts and peaks in 1/2 MW, rates of outages and probabilities in 10^-9,
   admittances in 1/10, uncertainty, deratings and shares in 1/10 percent.
   Everything is found by name; the position of a row only gives its number. *)
EXTENDS Integers, Sequences, FiniteSets

Pos(seq, P(_)) == CHOOSE i \in 1..Len(seq) : P(seq[i])
AreaNo(c, name) == Pos(c.areas, LAMBDA a : a.name = name)
NA(c) == Len(c.areas)  NU(c) == Len(c.units)  NL(c) == Len(c.lines)

(* limits of the drawn number (in 10^-9): full below the first, derated below the second *)
UnitLimits(c) == [u \in 1..NU(c) |-> <<1000000000 - c.units[u].dfor - c.units[u].fo, 1000000000 - c.units[u].fo>>]
UnitDerated(c) == [u \in 1..NU(c) |-> 1000 - c.units[u].der]
UnitArea(c) == [u \in 1..NU(c) |-> AreaNo(c, c.units[u].loc)]
UnitRates(c) == [u \in 1..NU(c) |-> c.units[u].cap]
(* shares: by location unless the unit has a row of its own *)
Rows(seq, name) == {i \in 1..Len(seq) : seq[i].name = name}
Shares(c) == [a \in 1..NA(c) |-> [u \in 1..NU(c) |->
   IF Rows(c.owned, c.units[u].name) # {}
   THEN c.owned[CHOOSE i \in Rows(c.owned, c.units[u].name) : TRUE].pct[a]
   ELSE IF UnitArea(c)[u] = a THEN 1000 ELSE 0]]

LineEnds(c) == [i \in 1..NL(c) |-> <<AreaNo(c, c.lines[i].fr), AreaNo(c, c.lines[i].to)>>]
RECURSIVE Cumulated(_, _)
Cumulated(st, k) == IF k = 0 THEN 0 ELSE st[k][4] + Cumulated(st, k - 1)
LineLimits(c) == [k \in 1..6 |-> [i \in 1..NL(c) |-> Cumulated(c.lines[i].st, k)]]
(* a line that is out keeps a negligible admittance and capacity *)
AlmostNone(x, y, small) == IF x = 0 THEN y = small ELSE y = x
LineNumber(c, a, b) ==
  LET S == {i \in 1..NL(c) : LineEnds(c)[i] = <<a, b>>} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

(* power sent from a to b on a day *)
RECURSIVE SentIn(_, _, _, _)
SentIn(cs, a, b, day) ==
  IF cs = <<>> THEN 0
  ELSE LET x == Head(cs)
       IN (IF x.fr = a /\ x.to = b /\ x.d1 <= day /\ day <= x.d2 THEN x.mw ELSE 0) + SentIn(Tail(cs), a, b, day)
Sent(c, a, b, day) == SentIn(c.contracts, c.areas[a].name, c.areas[b].name, day)
RECURSIVE Upto(_, _)
Upto(f, n) == IF n = 0 THEN 0 ELSE f[n] + Upto(f, n - 1)
NetSent(c, a, day) == Upto([b \in 1..NA(c) |-> Sent(c, a, b, day) - Sent(c, b, a, day)], NA(c))

(* season starts, in half hours *)
SeasonStarts(c) == [i \in 1..3 |-> 2 * 168 * c.mc.weeks[i] + 1]
Uncertain(c) == \E a \in 1..NA(c) : c.areas[a].fu # 0
Levels(c) == IF Uncertain(c) THEN 5 ELSE 1
(* forecast levels of an area in 1/2000 of its load: highest load first *)
Forecast(f) == <<2000 + 5 * f, 2000 + 2 * f, 2000, 2000 - 2 * f, 2000 - 5 * f>>

----------------------------------------------------------------------------
(* weeks of planned outages of a unit with predetermined outages *)
Span(b, d) == IF b = 0 THEN {} ELSE {w \in 1..52 : b <= w /\ w < b + d}
OutWeeks(u) == Span(u.b1, u.d1) \cup Span(u.b2, u.d2)
(* weeks allowed for automatic ones *)
Allowed(win, forb) == (win[1]..win[2]) \ (forb[1]..forb[2])

----------------------------------------------------------------------------
(* maxima of loads: f is the sequence of a year's hours *)
RECURSIVE Highest(_, _, _)
Highest(f, a, b) == IF a = b THEN f[a]
                    ELSE LET k == (a + b) \div 2  x == Highest(f, a, k)  y == Highest(f, k + 1, b)
                         IN IF x >= y THEN x ELSE y
DayOf(f, d) == Highest(f, 24 * d - 23, 24 * d)
(* a week has seven days, and the last one of the year also the 365th *)
WeekDays(w) == (7 * w - 6)..(IF w = 52 THEN 365 ELSE 7 * w)
SeasonOfDay(c, d) == 1 + Cardinality({i \in 1..3 : SeasonStarts(c)[i] < 2 * 24 * d})
(* installed capacity of area a on day d, in 1/2000 MW *)
Installed(c, a, d) ==
  Upto([u \in 1..NU(c) |-> Shares(c)[a][u] * c.units[u].cap[SeasonOfDay(c, d)]], NU(c)) - 1000 * NetSent(c, a, d)
=============================================================================
