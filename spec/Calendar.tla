------------------------------ MODULE Calendar ------------------------------
(* The calendar of the simulation and the four kinds of events.  Times are in
   half hours, so that the events which fall between two hours (season and week
   changes) have integer times.  A calendar is a record
     hy   hours in a year          hd  hours in a day
     hw   hours in a week          nw  weeks in the outage table
     q    <<hours at which the 2nd, 3rd and 4th season begin>>
     step hours between two hourly events (1, or hd for daily peaks only)
     freq hours between two draws of component states
   The hour that ends at time 2(h+1) of a year is hour h (0-based). *)
EXTENDS EventList

(* the events present at the start of a simulation *)
InitialEvents(c) ==
  << Ev(1, SeasonK), Ev(2 * c.q[1] + 1, SeasonK), Ev(2 * c.q[2] + 1, SeasonK),
     Ev(2 * c.q[3] + 1, SeasonK), Ev(2 * c.hy, YearK), Ev(1, WeekK),
     Ev(2 * c.step, HourK) >>

(* each event schedules its own successor *)
Successor(c, e) ==
  LET t == EvTime(e) k == EvKind(e)
  IN  CASE k = HourK   -> Ev(t + 2 * c.step, k)
        [] k = WeekK   -> Ev(t + 2 * c.hw, k)
        [] k = SeasonK -> Ev(t + 2 * c.hy, k)
        [] k = YearK   -> Ev(t + 2 * c.hy, k)

After(c, list, e) == Schedule(Taken(list, e), Successor(c, e))

HourOfYear(c, t) == ((t \div 2) - 1) % c.hy
DayOfYear(c, t) == HourOfYear(c, t) \div c.hd
YearsDone(c, t) == ((t \div 2) + 1) \div c.hy
(* season (1..4) of an hour of the year *)
SeasonOf(c, h) == 1 + Cardinality({i \in 1..3 : c.q[i] <= h})
(* 1-based week of the hour that follows hour h; there may be none in the table *)
WeekAfter(c, h) == (((h + 1) % c.hy) \div c.hw) + 1
(* new component states are drawn in this hour *)
DrawsIn(c, h) == c.step >= c.freq \/ h % c.freq = 0
(* the simulation looks at the load of this hour: the hour itself, or the hour
   of the pool peak of the day when only daily peaks are simulated *)
LoadHour(c, h, pk) == IF c.step = c.hd THEN pk ELSE h
=============================================================================
