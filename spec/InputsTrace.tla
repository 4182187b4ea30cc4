---------------------------- MODULE InputsTrace -----------------------------
(* What the real program makes of input folders, against Inputs and
   OutageTable.  Lines:
   model         what the simulation is started with
   derates, auto line derating cards; units with automatic maintenance
   load          the hourly loads of an area (in 1/128 MW) against its profile
   withcontracts what contracts add to the loads while peaks are looked for
   peaks         peaks (in 1/128 MW), and installed capacities (in 1/2000 MW)
   table         a capacity outage table *)
EXTENDS TraceKit, Inputs, OutageTable
VARIABLE l
T == Trace

Listed(g, w) == [i \in 1..g.jp[w][1] |-> g.jp[w][i + 1] + 1]
ListedOnce(g, w) == \A i, j \in 1..g.jp[w][1] : i # j => g.jp[w][i + 1] # g.jp[w][j + 1]
Countable(g, w) == g.jp[w][1] >= 0 /\ g.jp[w][1] < Len(g.jp[w])
Fixed(c) == {u \in 1..NU(c) : c.units[u].pa = 1}

PairFlow(g, a, b, day) ==    \* megawatts from a to b on a day, as the program stores them
  LET S == {i \in 1..Len(g.flow) : g.flow[i].fr = a /\ g.flow[i].to = b}
      On(i) == {k \in 1..Len(g.flow[i].runs) : g.flow[i].runs[k][1] <= day /\ day <= g.flow[i].runs[k][2]}
  IN IF S = {} THEN 0
     ELSE LET i == CHOOSE x \in S : TRUE IN IF On(i) = {} THEN 0 ELSE g.flow[i].runs[CHOOSE k \in On(i) : TRUE][3]

ModelClauses(c, g) == <<
  <<"C17.unit-outage-rates", g.probg = UnitLimits(c)>>,
  <<"C17.unit-deratings", g.derate = UnitDerated(c)>>,
  <<"C17.unit-locations", g.loc = UnitArea(c)>>,
  <<"C17.unit-capacities", g.rates = UnitRates(c)>>,
  <<"C17.unit-shares", g.own = Shares(c)>>,
  <<"C17.line-ends", g.ends = LineEnds(c)>>,
  <<"C17.line-probabilities", NL(c) > 0 => g.probl = LineLimits(c)>>,
  <<"C17.line-capacities", \A i \in 1..NL(c) : \A k \in 1..6 :
       AlmostNone(c.lines[i].st[k][2], g.cap[i][k], 1) /\ AlmostNone(c.lines[i].st[k][3], g.capr[i][k], 1)>>,
  <<"C17.line-admittances", \A i \in 1..NL(c) : \A k \in 1..6 : AlmostNone(c.lines[i].st[k][1], g.adm[i][k], -5)>>,
  <<"C17.line-between-areas", \A a, b \in 1..NA(c) : g.lineno[a][b] = LineNumber(c, a, b)>>,
  <<"C17.contracts", \A a, b \in 1..NA(c) : \A d \in 1..365 : PairFlow(g, a, b, d) = Sent(c, a, b, d)>>,
  <<"C17.season-starts", g.seasons = <<1>> \o SeasonStarts(c) /\ (g.qtr # <<>> => g.qtr = SeasonStarts(c))>>,
  <<"C17.forecast-levels", g.nf = Levels(c) /\ \A a \in 1..NA(c) : g.fct[a] = Forecast(c.areas[a].fu)>>,
  <<"C17.base-level", g.norr = IF Uncertain(c) THEN 3 ELSE 1>>,
  <<"C17.flow-limits", \A a \in 1..NA(c) : g.lims[a] = <<c.areas[a].lim, c.areas[a].lim>>>>,
  <<"C17.area-names", g.names = [a \in 1..NA(c) |-> c.areas[a].name]>>,
  <<"C17.area-peaks", g.peaks = [a \in 1..NA(c) |-> c.areas[a].peak]>>,
  <<"C17.steps", g.step = c.mc.step /\ g.freq = c.mc.freq /\ g.indx = IF c.mc.step = 24 THEN 1 ELSE 0>>,
  <<"C17.years", g.finish = 8760 * c.mc.fin>>,
  <<"C17.energy-bins", g.lstep = c.mc.maxe \div 20>>,
  <<"C17.sharing-mode", g.nls = c.mc.ls>>,
  <<"C17.convergence-options", /\ <<g.where, g.when, g.stat, g.type, g.cvt>> = <<c.mc.where, c.mc.when, c.mc.kvs, c.mc.kvt, c.mc.cvt>>
                               /\ g.loc1 = c.mc.kvl>>,
  <<"C17.snapshot-interval", g.inn = c.mc.inn /\ g.innt = c.mc.inn>>,
  <<"C17.print-options", g.ioi = c.mc.ii /\ g.ioj = c.mc.ij>>,
  <<"C19.weeks", Len(g.jp) = 52 /\ \A w \in 1..52 : Countable(g, w)>>,
  <<"C19.listed-once", \A w \in 1..Len(g.jp) : Countable(g, w) => ListedOnce(g, w)>>,
  <<"C19.predetermined-outages", \A w \in 1..Len(g.jp) : Countable(g, w) =>
       Range(Listed(g, w)) \cap Fixed(c) = {u \in Fixed(c) : w \in OutWeeks(c.units[u])}>>,
  <<"C19.known-units", \A w \in 1..Len(g.jp) : Countable(g, w) => Range(Listed(g, w)) \subseteq 1..NU(c)>> >>

LoadClauses(r) ==
  LET m == Highest(r.raw, 1, Len(r.raw))
  IN << <<"C18.hours", Len(r.got) = 8760 /\ Len(r.raw) = 8760>>,
        <<"C18.profile", \A h \in 1..8760 : Abs(r.got[h] * m - 64 * r.raw[h] * r.peak) <= m>> >>

(* what contracts add to the load of area a in each hour, in 1/2 MW *)
Runs(r, a) == \A k \in 1..Len(r.diff[a]) : LET x == r.diff[a][k] IN
                \A d \in 1..365 : (x[1] <= 24 * d /\ 24 * d - 23 <= x[2]) => x[3] = NetSent(r.c, a, d)

PeakClauses(r) ==
  LET c == r.c  na == c.na
      slack == IF r.exact THEN 0 ELSE 2
      net == TLCEval([a \in 1..na |-> [d \in 1..365 |-> IF c.contracts = <<>> THEN 0 ELSE 64 * NetSent(c, a, d)]])
      D == TLCEval([a \in 1..na |-> [d \in 1..365 |-> DayOf(r.load[a], d) + net[a][d]]])
      At0(a, h) == r.load[a][h] + net[a][(h + 23) \div 24]
      year == TLCEval([a \in 1..na |-> Highest(D[a], 1, 365)])
      pool == TLCEval([h \in 1..8760 |-> Upto([a \in 1..na |-> r.load[a][h]], na)])
      poolDay == TLCEval([d \in 1..365 |-> DayOf(pool, d)])
      In(h, d) == 24 * d - 23 <= h /\ h <= 24 * d
      PeakDays(a) == {d \in 1..365 : D[a][d] >= year[a] - slack}
  IN << <<"C18.daily-peaks", r.dy # <<>> => \A a \in 1..na : Len(r.dy[a]) = 365 /\ \A d \in 1..365 : Abs(r.dy[a][d] - D[a][d]) <= slack>>,
        <<"C18.hours-of-daily-peaks", r.mh # <<>> => \A a \in 1..na : Len(r.mh[a]) = 365 /\ \A d \in 1..365 :
             In(r.mh[a][d], d) /\ At0(a, r.mh[a][d]) >= D[a][d] - slack>>,
        <<"C18.weekly-peaks", r.wk # <<>> => \A a \in 1..na : Len(r.wk[a]) = 52 /\ \A w \in 1..52 :
             Abs(r.wk[a][w] - Highest(D[a], 7 * w - 6, IF w = 52 THEN 365 ELSE 7 * w)) <= slack>>,
        <<"C18.day-of-annual-peak", r.md # <<>> => \A a \in 1..na : r.md[a] \in PeakDays(a)>>,
        <<"C18.hours-of-pool-peaks", Len(r.ph) = 365 /\ \A d \in 1..365 : In(r.ph[d], d) /\ pool[r.ph[d]] >= poolDay[d] - slack * na>>,
        <<"C21.installed-capacity", r.inst # <<>> => \A a \in 1..na : \E d \in PeakDays(a) : r.inst[a] = Installed(c, a, d)>> >>

(* the table starts at one, falls, and states the exact probabilities (up to the
   probabilities below one billionth that are cut off) *)
TableClauses(r) ==
  LET D == TLCEval(Distribution(r.units, r.den))
      tails == TLCEval(Tails(D))
      Upward(x) == IF x \in DOMAIN tails THEN tails[x] ELSE SOf(0)
      given == {r.rows[i][1] : i \in 1..Len(r.rows)}
      k == Len(r.units)
      one == PowS(r.den, k)
      rows == r.rows
      P(i) == IF rows[i][2] = <<>> THEN SOf(0) ELSE <<1, rows[i][2]>>
      billion == SMul(SOf(100000), SOf(10000))
      Near(a, b) == LET d == SMul(SAdd(a, SNeg(b)), billion)  tol == SMul(SOf(2 * k + 1), one)
                    IN SCmp(d, tol) <= 0 /\ SCmp(SNeg(d), tol) <= 0
      Small(a) == SCmp(SMul(a, billion), SMul(SOf(2 * k + 1), one)) <= 0
  IN << <<"C20.starts-at-one", Len(rows) >= 1 /\ rows[1][1] = 0 /\ P(1) = one>>,
        <<"C20.steps-of-ten", \A i \in 1..Len(rows) : rows[i][1] % 10 = 0>>,
        <<"C20.increasing-outages", \A i \in 1..(Len(rows) - 1) : rows[i][1] < rows[i + 1][1]>>,
        <<"C20.decreasing-probabilities", \A i \in 1..(Len(rows) - 1) : SCmp(P(i), P(i + 1)) >= 0>>,
        <<"C20.exact-probabilities", \A i \in 1..Len(rows) : Near(P(i), Upward(rows[i][1] \div 10))>>,
        <<"C20.all-outages", \A x \in Possible(D) : 10 * x \in given \/ Small(Upward(x))>> >>

Clauses(r) ==
  CASE r.ev = "model" -> ModelClauses(r.c, r.got)
    [] r.ev = "derates" -> << <<"C17.line-derating-cards", r.used > 0>> >>
    [] r.ev = "auto" -> << <<"C19.automatic-outages", Len(r.weeks) = r.d /\ Range(r.weeks) \subseteq Allowed(r.win, r.forb)>> >>
    [] r.ev = "load" -> LoadClauses(r)
    [] r.ev = "withcontracts" -> << <<"C18.contracts-in-peaks", r.diff # <<>> => \A a \in 1..r.c.na : Runs(r, a)>> >>
    [] r.ev = "peaks" -> PeakClauses(r)
    [] r.ev = "table" -> TableClauses(r)
    [] OTHER -> <<>>

Init == l = 1
Next == /\ l <= Len(T)
        /\ l' = l + 1
        /\ Tell(l, Broken(Clauses(T[l])))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(T) + 1
=============================================================================
