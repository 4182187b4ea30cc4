------------------------------ MODULE SimTrace -------------------------------
(* Whole simulations recorded from the real program, event by event, from the
   input files to the report, checked against the specification: every event,
   random draw, capacity, transfer, decision, count, total, stop and snapshot is
   computed here from the description of the system alone.  Only the results of
   transmission studies are taken over from the program (spec/Transport.tla
   decides about these).
   Lines: cfg (a system, begins a run), inputs, ev (an event), resume (continues
   the run before from a snapshot), end. *)
EXTENDS TraceKit, Calendar, Sampling, Capacity, Contracts, HourDecision, Statistics, Convergence, YearRollup, Report

VARIABLES l,
          s      \* state of the simulation that the specification predicts
vars == <<l, s>>
T == Trace

C(ci) == T[ci]

StartDraw == [some |-> FALSE, loc |-> <<>>, tj |-> <<>>, st |-> <<>>, tr |-> <<>>]

(* streams at the start *)
Streams0(c) == SeedChain(c.seed, Len(c.units))
LineStreams0(c) == SeedChain(Streams0(c)[Len(c.units)], Len(c.lines))

Start(ci) ==
  LET c == C(ci)
  IN [ci |-> ci, list |-> BagOfSeq(InitialEvents(c.cal)), now |-> 0,
      g |-> Streams0(c), ln |-> LineStreams0(c), draw |-> StartDraw,
      plnd |-> [u \in 1..Len(c.units) |-> 1], last |-> -1,
      cnt |-> ZeroAnnual(c.na, c.nf), days |-> <<>>, y |-> 0, xs |-> <<>>,
      tot |-> ZeroTotals(c.na, c.nf), hist |-> ZeroHist(c.na), sq |-> ZeroSquares(c.na),
      nextSnap |-> c.interval, snaps |-> <<>>, stop |-> "no", reports |-> 0, in |-> 0, text |-> 0, resumed |-> FALSE, same |-> 0, sus |-> <<>>, final |-> <<>>]

----------------------------------------------------------------------------
(* loads and peaks *)
LoadAt(c, h, n) == [a \in 1..c.na |-> c.areas[a].load[h + 1] * c.areas[a].fct[IF c.nf = 1 THEN 1 ELSE n]]
PoolLoad(c, h) == SumN([a \in 1..c.na |-> c.areas[a].load[h + 1]], c.na)
RECURSIVE BestHour(_, _, _, _)
BestHour(c, h, last, best) ==
  IF h > last THEN best
  ELSE BestHour(c, h + 1, last, IF PoolLoad(c, h) > PoolLoad(c, best) THEN h ELSE best)
PeakHour(c, day) == BestHour(c, day * 24 + 1, day * 24 + 23, day * 24)

Rates(c, sea) == [u \in 1..Len(c.units) |-> c.units[u].cap[sea]]
Outage(c, wk) == [u \in 1..Len(c.units) |-> IF wk \in Range(c.units[u].weeks) THEN 0 ELSE 1]
Locs(c) == [u \in 1..Len(c.units) |-> c.units[u].area]
LinksIn(c, st) == [i \in 1..Len(c.lines) |->
                     <<c.lines[i].fr, c.lines[i].to, c.lines[i].cap[st[i]], c.lines[i].capr[st[i]]>>]
InK(f) == [a \in DOMAIN f |-> f[a] * K]

(* the draw of this hour: r is the line, rating and outage status as used *)
Drawn(c, r, gs, ls, day) ==
  LET q == IF r.q # <<>> THEN r.q
           ELSE [u \in 1..Len(c.units) |-> CHOOSE x \in UnitStates(gs[u], c.units[u].lim, c.units[u].der) : TRUE]
      st == IF r.st # <<>> \/ Len(c.lines) = 0 THEN r.st
            ELSE [i \in 1..Len(c.lines) |-> CHOOSE x \in LineStates(ls[i], c.lines[i].lim) : TRUE]
      av == Avail(q, r.rating, r.plnd)
      loc == Located(av, Locs(c), c.na)
      own == Owned(av, c.own, c.na)
  IN [some |-> TRUE, loc |-> loc, tj |-> [a \in 1..c.na |-> loc[a] - own[a]], own |-> own, st |-> st,
      tr |-> NetAll(c.contracts, c.na, day + 1)]

(* levels of the forecast, highest load first; result: losses by level, and
   which of the logged studies fit *)
RECURSIVE Levels(_, _, _, _, _, _)
Levels(c, d, h, n, studies, acc) ==
  IF n > c.nf THEN [acc EXCEPT !.rest = studies]
  ELSE LET load == LoadAt(c, h, n)
           out == Outcome(d.loc, load, LinksIn(c, d.st), K)
       IN CASE out \in {"none", "helped"} -> [acc EXCEPT !.rest = studies]
            [] out = "all" ->
                 Levels(c, d, h, n + 1, studies, [acc EXCEPT !.loss = Append(@, <<n, Margins(d.loc, load, K)>>)])
            [] out = "study" ->
                 IF studies = <<>> THEN [acc EXCEPT !.missing = TRUE]
                 ELSE LET x == Head(studies)
                          good == /\ x.cap = d.loc /\ x.load = load /\ x.st = d.st
                                  /\ x.tr = InK(d.tr) /\ x.tj = d.tj /\ x.nls = c.nls
                          acc2 == [acc EXCEPT !.inputs = @ /\ good, !.made = @ + 1]
                      IN IF x.jf = 0 \/ ~AnyLoss(x.m) THEN [acc2 EXCEPT !.rest = Tail(studies)]
                         ELSE Levels(c, d, h, n + 1, Tail(studies), [acc2 EXCEPT !.loss = Append(@, <<n, x.m>>)])
NoLevels == [loss |-> <<>>, missing |-> FALSE, inputs |-> TRUE, rest |-> <<>>, made |-> 0]

(* what one level with residual margins m adds, as <<statistic, class, kind,
   level, row, value>>, with the classes for the areas, for the losses and for
   the energy of the pool *)
Entries(m, n, w, ca, cl, cm, na) ==
  LET sh == {a \in 1..na : m[a] < 0}
  IN  {<<"L", ca, w, n, a, 1>> : a \in sh} \cup {<<"M", ca, w, n, a, -m[a]>> : a \in sh}
      \cup {<<"L", cl, w, n, na + 1, 1>>, <<"M", cm, w, n, na + 1, TotalOf(Energies(m), na)>>}
LevelPart(diff, n, w) == {diff[i] : i \in {j \in 1..Len(diff) : diff[j][4] = n /\ diff[j][3] = w}}
FitsLevel(diff, n, m, w, na) ==
  \E ca, cl, cm \in Classes(m) : LevelPart(diff, n, w) = Entries(m, n, w, ca, cl, cm, na)
LossAt(loss, n) == {i \in 1..Len(loss) : loss[i][1] = n}
HourlyFits(diff, loss, c) ==
  \A n \in 1..c.nf : IF LossAt(loss, n) = {} THEN LevelPart(diff, n, "H") = {}
                     ELSE FitsLevel(diff, n, loss[CHOOSE i \in LossAt(loss, n) : TRUE][2], "H", c.na)
PeakFits(diff, loss, c, pk) ==
  \A n \in 1..c.nf : IF LossAt(loss, n) = {} \/ ~pk THEN LevelPart(diff, n, "P") = {}
                     ELSE FitsLevel(diff, n, loss[CHOOSE i \in LossAt(loss, n) : TRUE][2], "P", c.na)
(* area losses by level, whatever their class *)
AreaLosses(diff, c) == {<<diff[i][4], diff[i][5], diff[i][6]>> :
                         i \in {j \in 1..Len(diff) : diff[j][1] = "M" /\ diff[j][3] = "H" /\ diff[j][5] <= c.na}}
WantLosses(loss, c) == UNION {{<<loss[i][1], a, -loss[i][2][a]>> : a \in {b \in 1..c.na : loss[i][2][b] < 0}} : i \in 1..Len(loss)}

RECURSIVE AddDiff(_, _, _)
AddDiff(cnt, diff, i) ==
  IF i = 0 THEN cnt
  ELSE LET x == diff[i]
           k == x[1] \o x[2] \o x[3]
       IN  [AddDiff(cnt, diff, i - 1) EXCEPT ![k][x[5]][x[4]] = @ + x[6]]

----------------------------------------------------------------------------
(* each kind of event gives its clauses and the state after it *)
ListClauses(r, c) ==
  LET e == Ev(r.t, r.k)
      left == BagOfSeq([i \in 1..Len(r.list) |-> Ev(r.list[i][1], r.list[i][2])])
  IN << <<"C01.taken-event-was-pending", BagIn(e, s.list)>>,
        <<"C01.taken-event-is-the-next", \A f \in BagToSet(s.list) : r.t <= EvTime(f)>>,
        <<"C01.time-order", r.t >= s.now>>,
        <<"C01.last-hour-before-year-end", r.k = YearK => ~BagIn(Ev(r.t, HourK), s.list)>>,
        <<"C01.each-event-schedules-its-successor", left = Taken(s.list, e)>>,
        <<"C02.list-holds-exactly-the-pending-events", left = Taken(s.list, e)>>,
        <<"C02.sorted", Sorted(r.list)>>,
        <<"C14.runs-on-after-convergence", s.stop # "must" \/ s.y >= c.years>>,
        <<"C01.nothing-after-the-end",
          \/ s.stop # "must" /\ s.y < c.years
          \/ s.resumed /\ r.k \in {WeekK, SeasonK} /\ r.t <= 2 * (c.years * c.cal.hy + 1)>> >>
ListAfter(r, c) ==
  Schedule(BagOfSeq([i \in 1..Len(r.list) |-> Ev(r.list[i][1], r.list[i][2])]), Successor(c.cal, Ev(r.t, r.k)))

HourStep(r, c) ==
  LET h == HourOfYear(c.cal, r.t)
      day == h \div 24
      peak == PeakHour(c, day)
      drawing == DrawsIn(c.cal, h)
      gs == IF drawing THEN [u \in 1..Len(s.g) |-> NextDraw(s.g[u])] ELSE s.g
      ls == IF drawing THEN [u \in 1..Len(s.ln) |-> NextDraw(s.ln[u])] ELSE s.ln
      d == IF drawing THEN Drawn(c, r, gs, ls, day) ELSE s.draw
      lh == LoadHour(c.cal, h, peak)
      res == Levels(c, d, lh, 1, r.studies, NoLevels)
      isPeak == lh = peak
      clauses == <<
        <<"C01.hour-of-the-year", s.days = <<>> \/ h = s.days[1] + c.cal.step>>,
        <<"C01.loads-of-the-hour", Range(r.ld) \subseteq {LoadAt(c, lh, n) : n \in 1..c.nf}>>,
        <<"C08.loads-of-the-hour", Range(r.ld) \subseteq {LoadAt(c, lh, n) : n \in 1..c.nf}>>,
        <<"C01.first-hour", s.days = <<>> => h = c.cal.step - 1>>,
        <<"C03.rating-of-the-season", r.rating = Rates(c, SeasonOf(c.cal, h))>>,
        <<"C04.outage-of-the-week", s.y = 0 => r.plnd = Outage(c, (h \div 168) + 1)>>,
        <<"C04.outage-status", r.plnd = s.plnd>>,
        <<"C05.drawn-when-due", r.nd >= 0 => r.nd = (IF drawing THEN 1 ELSE 0)>>,
        <<"C05.unit-streams", r.g = gs>>,
        <<"C05.line-streams", r.ln = ls>>,
        <<"C05.unit-states", (drawing /\ r.q # <<>>) =>
             \A u \in 1..Len(gs) : r.q[u] \in UnitStates(gs[u], c.units[u].lim, c.units[u].der)>>,
        <<"C05.line-states", (drawing /\ r.st # <<>>) =>
             \A u \in 1..Len(ls) : r.st[u] \in LineStates(ls[u], c.lines[u].lim)>>,
        <<"C06.located", (drawing /\ r.loc # <<>>) => r.loc = d.loc>>,
        <<"C06.owned", (drawing /\ r.own # <<>>) => r.own = d.own>>,
        <<"C06.transfer", (drawing /\ r.tj # <<>>) => r.tj = d.tj>>,
        <<"C06.transfers-cancel", (drawing /\ r.tj # <<>> /\ FullyOwned(c.own, c.na, Len(c.units))) => SumN(r.tj, c.na) = 0>>,
        <<"C06.study-capacities", res.inputs \/ \A i \in 1..res.made : r.studies[i].cap = d.loc /\ r.studies[i].tj = d.tj>>,
        <<"C07.transfers-of-the-day", (drawing /\ r.tr # <<>>) => r.tr = InK(d.tr)>>,
        <<"C07.transfers-cancel", r.tr # <<>> => SumN(r.tr, c.na) = 0>>,
        <<"C07.study-transfers", res.inputs \/ \A i \in 1..res.made : r.studies[i].tr = InK(d.tr)>>,
        <<"C08.study-made-when-needed", ~res.missing /\ res.rest = <<>> >>,
        <<"C08.study-inputs", res.inputs>>,
        <<"C08.losses", AreaLosses(r.diff, c) = WantLosses(res.loss, c)>>,
        <<"C12.hourly-counts", HourlyFits(r.diff, res.loss, c)>>,
        <<"C12.peak-counts", PeakFits(r.diff, res.loss, c, isPeak)>> >>
  IN [clauses |-> clauses,
      next |-> [s EXCEPT !.list = ListAfter(r, c), !.now = r.t, !.g = r.g, !.ln = r.ln, !.draw = d,
                         !.last = h, !.days = <<h>>,
                         !.cnt = IF r.diff = <<>> THEN @ ELSE AddDiff(@, r.diff, Len(r.diff))]]

WeekStep(r, c) ==
  LET wk == WeekAfter(c.cal, s.last)
  IN [clauses |-> << <<"C04.outages-of-the-week-entered", r.plnd = Outage(c, wk)>> >>,
      next |-> [s EXCEPT !.list = ListAfter(r, c), !.now = r.t, !.plnd = r.plnd]]

SeasonStep(r, c) ==
  [clauses |-> << <<"C03.rating-after-season-change", r.rating = Rates(c, SeasonOf(c.cal, (r.t \div 2) % 8760))>> >>,
   next |-> [s EXCEPT !.list = ListAfter(r, c), !.now = r.t]]

SameMatrix(x, y, eq(_, _)) == \A a \in 1..Len(y) : \A n \in 1..Len(y[a]) : eq(x[a][n], y[a][n])

YearStep(r, c) ==
  LET ys == WithSums(r.before, c.na, c.nf)
      tot == AddYear(s.tot, ys, c.na, c.nf)
      hist == AddHist(s.hist, ys, c.na, c.nf, c.lstep)
      sq == AddSquares(s.sq, ys, c.na, c.nf)
      y == s.y + 1
      xs == Append(s.xs, IndexOf(ys, c.kv, c.na, c.nf))
      may == MayStop(xs, c.test)
      stop == IF y >= c.years \/ MustStop(xs, c.test) THEN "must" ELSE IF may THEN "may" ELSE "no"
      snapNow == y = s.nextSnap \/ y = c.years
      ns == IF y = s.nextSnap THEN s.nextSnap + c.interval ELSE s.nextSnap
      next == [s EXCEPT !.list = ListAfter(r, c), !.now = r.t, !.cnt = ZeroAnnual(c.na, c.nf), !.days = <<>>,
                        !.y = y, !.xs = xs, !.tot = tot, !.hist = hist, !.sq = sq, !.nextSnap = ns, !.stop = stop,
                        !.reports = @ + r.reports,
                        !.final = IF r.report # <<>> /\ ~s.resumed THEN r.report ELSE @]
      clauses == <<
        <<"C01.year-is-complete", s.days # <<>> /\ s.days[1] = c.cal.hy - 1>>,
        <<"C01.year-number", r.y = y>>,
        <<"C01.report-at-the-end", IF stop = "must" THEN r.reports = 1 ELSE IF stop = "no" THEN r.reports = 0 ELSE r.reports <= 1>>,
        <<"C12.counts-at-the-end-of-the-year", r.before = s.cnt>>,
        <<"C13.totals", \A k \in TotalKeys : SameMatrix(r.tot[k], tot[k], Exactly)>>,
        <<"C13.weighted-totals", \A k \in TotalKeys : \A a \in 1..(c.na + 1) : Close(r.wt[k][a], Weighted(tot[k][a], c.nf))>>,
        <<"C13.squares", SameMatrix(r.sq, sq, Close)>>,
        <<"C13.distributions", r.hist = hist>>,
        <<"C13.counts-restart", r.left = 0>>,
        <<"C14.stops-when-converged", (stop = "must" /\ y < c.years) => r.reports = 1>>,
        <<"C14.does-not-stop-early", stop = "no" => r.reports = 0>>,
        <<"C14.the-selected-index-is-tested", r.sums = <<>> \/ Close(r.sums[1], SSumL(xs))>>,
        <<"C15.snapshot-on-time", r.snap = snapNow>>,
        <<"C16.yearly-table-printed", (r.table # <<>>) <=> (c.ij = 1)>> >>
        \o (IF r.table = <<>> THEN <<>> ELSE TableClauses(r.table, ys, c.na, c.nf, c.cal.step))
        \o (IF r.report = <<>> THEN <<>>
            ELSE ReportClauses(r.report[1], tot, sq, hist, y, c.na, c.nf, c.cal.step, c.lstep, s.sus, c.names)
                 \o << <<"C15.same-report", s.resumed => r.report = s.final>> >>)
      fin == [next EXCEPT !.stop = IF stop = "may" THEN (IF r.reports > 0 THEN "must" ELSE "no") ELSE stop]
  IN [clauses |-> clauses,
      next |-> [fin EXCEPT !.snaps = IF r.snap THEN Append(@, [y |-> y, at |-> l, s |-> [fin EXCEPT !.snaps = <<>>]]) ELSE @]]

EvStep(r) ==
  LET c == C(s.ci)
      st == CASE r.k = HourK -> HourStep(r, c)
              [] r.k = WeekK -> WeekStep(r, c)
              [] r.k = SeasonK -> SeasonStep(r, c)
              [] r.k = YearK -> YearStep(r, c)
      same == IF c.same = 0 THEN <<>>
              ELSE << <<"C22.same-input-same-event", r = T[l - c.same]>>, <<"C05.same-seed-same-run", r = T[l - c.same]>> >>
      (* a continued run repeats the uninterrupted one line by line *)
      again == IF s.same = 0 THEN <<>> ELSE << <<"C15.goes-on-as-the-uninterrupted-run", r = T[s.same]>> >>
  IN [clauses |-> ListClauses(r, c) \o st.clauses \o same \o again,
      next |-> IF s.same = 0 THEN st.next ELSE [st.next EXCEPT !.same = @ + 1]]

InputsStep(r) ==
  LET c == C(s.ci)
  IN [clauses |-> << <<"C22.inputs-unchanged", r.when = "end" => (s.in # 0 => r.d = T[s.in].d)>>,
                     <<"C22.same-input-same-data", c.same > 0 => r = T[l - c.same]>> >>,
      next |-> IF r.when = "start" THEN [s EXCEPT !.in = l, !.sus = r.sus] ELSE s]

EndStep(r) ==
  LET c == C(s.ci)
  IN [clauses |-> << <<"C01.one-report", r.crashed \/ (r.reports = 1 /\ s.reports + s.text = 1)>>,
                     <<"C01.ends-when-it-should", r.crashed \/ s.stop = "must" \/ s.y >= c.years>>,
                     <<"C14.ends-when-it-should", r.crashed \/ s.stop = "must" \/ s.y >= c.years>> >>
                 \o (IF r.report = <<>> THEN <<>>
                     ELSE ReportClauses(r.report[1], s.tot, s.sq, s.hist, s.y, c.na, c.nf, c.cal.step, c.lstep, s.sus, c.names)
                          \o << <<"C15.same-report", s.resumed => r.report = s.final>> >>),
      next |-> IF r.report # <<>> /\ ~s.resumed THEN [s EXCEPT !.final = r.report] ELSE s]

ResumeStep(r) ==
  LET ok == \E i \in 1..Len(s.snaps) : s.snaps[i].y = r.y
      i == CHOOSE j \in 1..Len(s.snaps) : s.snaps[j].y = r.y
      t == s.snaps[i].s
  IN [clauses |-> << <<"C15.snapshot-exists", ok>> >>,
      next |-> IF ok THEN [t EXCEPT !.snaps = s.snaps, !.resumed = TRUE, !.final = s.final, !.last = C(s.ci).cal.hy - 1, !.reports = 0,
                                    !.text = IF t.stop = "must" THEN 1 ELSE 0,
                                !.same = IF t.stop = "must" \/ t.y >= C(s.ci).years THEN 0 ELSE s.snaps[i].at + 1,
                                    !.draw = StartDraw]
               ELSE s]

(* the process died during the save after year r.y, with the snapshot of year
   r.prev in place; found: year of the complete snapshot found then, 0 none, -1 damaged *)
CrashStep(r) ==
  [clauses |-> << <<"C15.interrupted-save-leaves-a-snapshot", r.found \in {r.prev, r.y}>>,
                  <<"C15.finished-save-is-kept", ~r.died => r.found = r.y \/ r.plan # "call=1000000">> >>,
   next |-> s]

Step(r) ==
  CASE r.ev = "cfg" -> [clauses |-> <<>>, next |-> Start(l)]
    [] r.ev = "ev" -> EvStep(r)
    [] r.ev = "inputs" -> InputsStep(r)
    [] r.ev = "end" -> EndStep(r)
    [] r.ev = "crash" -> CrashStep(r)
    [] r.ev = "resume" -> ResumeStep(r)

Init == l = 1 /\ s = [ci |-> 0]
Next == /\ l <= Len(T)
        /\ LET x == Step(T[l])
           IN  Tell(l, Broken(x.clauses)) /\ s' = x.next
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
