----------------------------- MODULE Simulation -----------------------------
(* The whole simulation: the event loop, the calendar, component states drawn
   hourly or daily, seasons and planned outages, counting of losses, the
   roll-up at the end of each year, the convergence test, snapshots, and
   interruptions followed by a new start from the last snapshot.
   Component states are abstracted to one random stream; whether an hour has a
   loss is a function of the stream, the season and the planned outages.
   One action per event handler of the program, plus the two halves of saving a
   snapshot, the end of the event loop, Crash and Resume. *)
EXTENDS Integers, Sequences, FiniteSets, Calendar, Convergence

CONSTANTS Confs,        \* configurations: sets of records with
                        \*   cal   the calendar
                        \*   out   weeks in which the outage table lists the unit
                        \*   test  <<p, q>> of the convergence test
                        \*   s0    the first random number
          Horizon,      \* years at most
          Interval,     \* years between two snapshots
          Crashes       \* interruptions at most

VARIABLES conf,         \* the configuration of this run; never changes
          list, now, stream, season, onOutage, lastHour,
          visited,      \* hours of the current year simulated so far (sequence)
          count,        \* losses in the current year
          years,        \* yearly losses so far
          total, nextSnap, snap, partial, stopped, reports, alive, crashed,
          seasonSeen, outageSeen   \* season and outage status used, by hour
vars == <<conf, list, now, stream, season, onOutage, lastHour, visited, count, years, total, nextSnap,
          snap, partial, stopped, reports, alive, crashed, seasonSeen, outageSeen>>

InLimbs(xs) == [i \in 1..Len(xs) |-> SOf(xs[i])]
NoSnap == [none |-> TRUE]
Mod == 31
NextStream(s) == (s * 11 + 7) % Mod
(* the loss of an hour, in an arbitrary but fixed way *)
LossOf(s, sea, out) == IF (s + sea * 3 + (IF out THEN 9 ELSE 0)) % 4 = 0 THEN 1 ELSE 0

Init ==
  /\ conf \in Confs
  /\ list = BagOfSeq(InitialEvents(conf.cal)) /\ now = 0
  /\ stream = conf.s0 /\ season = 0 /\ onOutage = FALSE /\ lastHour = 0
  /\ visited = <<>> /\ count = 0 /\ years = <<>> /\ total = 0
  /\ nextSnap = Interval /\ snap = NoSnap /\ partial = FALSE
  /\ stopped = FALSE /\ reports = 0 /\ alive = TRUE /\ crashed = 0
  /\ seasonSeen = <<>> /\ outageSeen = <<>>

(* an event may be taken when nothing is due earlier; the last hour of a year
   comes before the end of the year, which has the same time *)
Due(e) == /\ alive /\ ~stopped /\ ~partial
          /\ IsNext(list, e)
          /\ EvTime(e) <= 2 * (Horizon * conf.cal.hy + 1)
          /\ EvKind(e) = YearK => ~BagIn(Ev(EvTime(e), HourK), list)

HourEvent(e) ==
  /\ EvKind(e) = HourK /\ Due(e)
  /\ LET h == HourOfYear(conf.cal, EvTime(e))
         s == IF DrawsIn(conf.cal, h) THEN NextStream(stream) ELSE stream
     IN  /\ stream' = s
         /\ lastHour' = h
         /\ visited' = Append(visited, h)
         /\ seasonSeen' = Append(seasonSeen, season)
         /\ outageSeen' = Append(outageSeen, onOutage)
         /\ count' = count + LossOf(s, season, onOutage)
  /\ now' = EvTime(e) /\ list' = After(conf.cal, list, e)
  /\ UNCHANGED <<conf, season, onOutage, years, total, nextSnap, snap, partial, stopped, reports, alive, crashed>>

WeekEvent(e) ==
  /\ EvKind(e) = WeekK /\ Due(e)
  /\ onOutage' = (WeekAfter(conf.cal, IF now = 0 THEN -1 ELSE lastHour) \in conf.out)
  /\ now' = EvTime(e) /\ list' = After(conf.cal, list, e)
  /\ UNCHANGED <<conf, stream, season, lastHour, visited, count, years, total, nextSnap, snap, partial, stopped,
                 reports, alive, crashed, seasonSeen, outageSeen>>

SeasonEvent(e) ==
  /\ EvKind(e) = SeasonK /\ Due(e)
  /\ season' = (season % 4) + 1
  /\ now' = EvTime(e) /\ list' = After(conf.cal, list, e)
  /\ UNCHANGED <<conf, stream, onOutage, lastHour, visited, count, years, total, nextSnap, snap, partial, stopped,
                 reports, alive, crashed, seasonSeen, outageSeen>>

(* the year-end: roll-up, convergence test, beginning of a snapshot or report *)
YearEvent(e) ==
  /\ EvKind(e) = YearK /\ Due(e)
  /\ years' = Append(years, count)
  /\ total' = total + count
  /\ count' = 0
  /\ visited' = <<>> /\ seasonSeen' = <<>> /\ outageSeen' = <<>>
  /\ stopped' = (MustStop(InLimbs(years'), conf.test) \/ Len(years') >= Horizon)
  /\ partial' = (Len(years') = nextSnap \/ Len(years') = Horizon)
  /\ now' = EvTime(e) /\ list' = After(conf.cal, list, e)
  /\ UNCHANGED <<conf, stream, season, onOutage, lastHour, nextSnap, snap, reports, alive, crashed>>

(* a snapshot becomes visible at once, when it is complete *)
SaveSnapshot ==
  /\ alive /\ partial
  /\ partial' = FALSE
  /\ nextSnap' = IF Len(years) = nextSnap THEN nextSnap + Interval ELSE nextSnap
  /\ snap' = [none |-> FALSE, list |-> list, now |-> now, stream |-> stream, onOutage |-> onOutage,
              years |-> years, total |-> total, nextSnap |-> nextSnap', stopped |-> stopped]
  /\ UNCHANGED <<conf, list, now, stream, season, onOutage, lastHour, visited, count, years, total, stopped, reports,
                 alive, crashed, seasonSeen, outageSeen>>

Report ==
  /\ alive /\ stopped /\ ~partial /\ reports = 0
  /\ reports' = 1
  /\ UNCHANGED <<conf, list, now, stream, season, onOutage, lastHour, visited, count, years, total, nextSnap, snap,
                 partial, stopped, alive, crashed, seasonSeen, outageSeen>>

(* interruption at any point before the report; everything but the snapshot is lost *)
Crash ==
  /\ alive /\ reports = 0 /\ crashed < Crashes
  /\ alive' = FALSE /\ crashed' = crashed + 1
  /\ UNCHANGED <<conf, list, now, stream, season, onOutage, lastHour, visited, count, years, total, nextSnap, snap,
                 partial, stopped, reports, seasonSeen, outageSeen>>

(* continue from the snapshot: the season counter is not saved, a year starts
   with its first season; the hour is not saved, a year starts with hour 0 *)
Resume ==
  /\ ~alive /\ snap # NoSnap
  /\ alive' = TRUE
  /\ list' = snap.list /\ now' = snap.now /\ stream' = snap.stream /\ onOutage' = snap.onOutage
  /\ years' = snap.years /\ total' = snap.total /\ nextSnap' = snap.nextSnap /\ stopped' = snap.stopped
  /\ season' = 0 /\ lastHour' = conf.cal.hy - 1 /\ visited' = <<>> /\ count' = 0 /\ partial' = FALSE
  /\ seasonSeen' = <<>> /\ outageSeen' = <<>>
  /\ UNCHANGED <<conf, snap, reports, crashed>>

Next == \/ \E e \in BagToSet(list) : HourEvent(e) \/ WeekEvent(e) \/ SeasonEvent(e) \/ YearEvent(e)
        \/ SaveSnapshot \/ Report \/ Crash \/ Resume
Fair == WF_vars(\E e \in BagToSet(list) : HourEvent(e) \/ WeekEvent(e) \/ SeasonEvent(e) \/ YearEvent(e))
        /\ WF_vars(SaveSnapshot) /\ WF_vars(Report) /\ WF_vars(Resume)
Spec == Init /\ [][Next]_vars /\ Fair

----------------------------------------------------------------------------
(* an independent account of what a run must give: plain iteration over hours *)
RECURSIVE Plain(_, _, _, _)
(* Plain(s, out, k, acc): stream s and outage status before the k-th step (from 0) *)
Plain(s, out, k, acc) ==
  LET n == conf.cal.hy \div conf.cal.step
      y == k \div n
      h == (k % n) * conf.cal.step + conf.cal.step - 1
      absHour == k * conf.cal.step
      (* the weekly steps that precede this hour set the status for the hour
         that follows them *)
      wk == {j \in absHour..(absHour + conf.cal.step - 1) : j % conf.cal.hw = 0}
      out2 == IF wk = {} THEN out
              ELSE ((((CHOOSE j \in wk : \A i \in wk : i <= j) % conf.cal.hy) \div conf.cal.hw) + 1) \in conf.out
      s2 == IF DrawsIn(conf.cal, h) THEN NextStream(s) ELSE s
      yr == LossOf(s2, SeasonOf(conf.cal, h), out2)
      acc2 == IF k % n = 0 THEN Append(acc, yr)
              ELSE [acc EXCEPT ![Len(acc)] = @ + yr]
      stop == (k % n = n - 1) /\ (Len(acc2) >= Horizon \/ MustStop(InLimbs(acc2), conf.test))
  IN  IF stop THEN acc2 ELSE Plain(s2, out2, k + 1, acc2)

HoursInOrder == \A i \in 1..Len(visited) : visited[i] = i * conf.cal.step - 1
YearComplete == [][years' # years /\ Len(years') > Len(years) => Len(visited) = conf.cal.hy \div conf.cal.step]_vars
RightSeason == \A i \in 1..Len(visited) : seasonSeen[i] = SeasonOf(conf.cal, visited[i])
RightOutage == Len(years) = 0 => \A i \in 1..Len(visited) :
                  outageSeen[i] = (((visited[i] \div conf.cal.hw) + 1) \in conf.out)
TotalsAreSums == total = SumTo(years, Len(years))
OneReport == reports <= 1
NoEarlyStop == stopped => Len(years) = Horizon \/ Len(years) >= FirstYears
RightResult == reports = 1 => years = Plain(conf.s0, FALSE, 0, <<>>)
(* an interrupted run can always go on, once a snapshot was taken, and reports *)
Finishes == <>(reports = 1 \/ (~alive /\ snap = NoSnap))
TimeForward == [][alive /\ alive' => now' >= now]_vars
SnapshotsOnTime == snap # NoSnap => Len(snap.years) % Interval = 0 \/ Len(snap.years) = Horizon
=============================================================================
