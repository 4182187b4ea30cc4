---------------------------- MODULE SimulationMC ----------------------------
EXTENDS Simulation
(* small calendars: 12 hours a year in days of 2 and weeks of 5 (not a divisor,
   as 168 is no divisor of 8760), hourly steps, daily draws or daily steps *)
CalHourly == [hy |-> 12, hd |-> 2, hw |-> 5, nw |-> 2, q |-> <<3, 6, 8>>, step |-> 1, freq |-> 1]
CalDailyDraws == [hy |-> 12, hd |-> 2, hw |-> 5, nw |-> 2, q |-> <<3, 6, 8>>, step |-> 1, freq |-> 2]
CalDailyPeak == [hy |-> 12, hd |-> 2, hw |-> 4, nw |-> 3, q |-> <<4, 8, 8>>, step |-> 2, freq |-> 2]
With(c, qs) == {[c EXCEPT !.q = x] : x \in qs}
Make(cals, outs, tests, ss) ==
  {[cal |-> c, out |-> o, test |-> t, s0 |-> s] : c \in cals, o \in outs, t \in tests, s \in ss}
Cals == {CalHourly, CalDailyDraws, CalDailyPeak}
ConfsQuick == Make(Cals, {{}, {1}, {2}}, {<<30, 100>>, <<1, 1000>>}, {1, 2})
(* all season boundaries (in whole hours after a start of a week or not) *)
Bounds == {<<a, b, c>> : a \in {2, 4, 5}, b \in {5, 6, 8}, c \in {8, 10}}
ConfsThorough == Make(UNION {With(c, Bounds) : c \in {CalHourly, CalDailyDraws}} \cup {CalDailyPeak},
                      {{}, {1}, {2}, {1, 2}}, {<<30, 100>>, <<15, 100>>, <<1, 1000>>}, 0..9)
=============================================================================
