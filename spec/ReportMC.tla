------------------------------- MODULE ReportMC -------------------------------
(* What the judgements about printed numbers mean, on all small instances: a
   ratio is accepted when it is printed rounded to the granularity, and a
   deviation when it is the standard error of the mean of some years over their
   mean; and the tables of a history of years agree with each other. *)
EXTENDS Report, TLC
CONSTANTS MaxNum, MaxDen, MaxYears, Values
VARIABLES num, den, xs
vars == <<num, den, xs>>
Init == num = 0 /\ den = 0 /\ xs = <<>>
Next == \/ xs = <<>> /\ den < MaxDen /\ den' = den + 1 /\ UNCHANGED <<num, xs>>
        \/ xs = <<>> /\ num < MaxNum /\ num' = num + 1 /\ UNCHANGED <<den, xs>>
        \/ num = 0 /\ den = 0 /\ Len(xs) < MaxYears /\ \E v \in Values : xs' = Append(xs, v) /\ UNCHANGED <<num, den>>
Spec == Init /\ [][Next]_vars

(* printed with k = 100 and granularity 10, that is to one digit *)
Shown(g) == {p \in {g * i : i \in 0..((100 * (MaxNum + 1)) \div g)} : Prints(p, 100, g, SOf(num), SOf(den))}
Nearest(g, p) == 2 * NAbs(p * den - 100 * num) <= g * den
RatiosAreRounded == \A g \in {1, 10} :
   IF num = 0 \/ den = 0 THEN Shown(g) = {0}
   ELSE /\ Cardinality(Shown(g)) \in {1, 2}
        /\ \A p \in {g * i : i \in 0..((100 * (MaxNum + 1)) \div g)} : Nearest(g, p) => p \in Shown(g)
        /\ \A p \in Shown(g) : NAbs(p * den - 100 * num) * 100 <= 51 * g * den + 100 * den

(* deviations, in thousandths of a percent, shown in whole percents: g = 1000 *)
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Squares(s) == SumOf([i \in 1..Len(s) |-> s[i] * s[i]])
Spread == Len(xs) * Squares(xs) - SumOf(xs) * SumOf(xs)       \* y^2 times the variance
Percents == {p \in 0..101 : Deviation(1000 * p, 1000, SOf(SumOf(xs)), SOf(Squares(xs)), Len(xs))}
DeviationsAreRounded ==
  xs # <<>> =>
    IF SumOf(xs) = 0 THEN Percents = {0}
    ELSE /\ Percents # {} /\ Cardinality(Percents) <= 2
         (* 100 sqrt(Spread / y) / sum lies within half a percent of p, or hardly more *)
         /\ \A p \in 0..101 :
              LET Sq(x) == SMul(SOf(x), SOf(x))
                  s2 == SMul(SOf(Len(xs)), Sq(SumOf(xs)))
                  sp == SMul(SOf(40000), SOf(Spread))
              IN ((p = 0 \/ SCmp(SMul(Sq(2 * p - 1), s2), sp) <= 0) /\ SCmp(sp, SMul(Sq(2 * p + 1), s2)) <= 0) => p \in Percents
EqualYearsDoNotDeviate == (xs # <<>> /\ \A i \in 1..Len(xs) : xs[i] = xs[1]) => Percents = {0}

(* a history of years with xs losses of area 1 in the first half of the bins *)
RECURSIVE Hist(_, _)
Hist(i, lstep) == IF i = 0 THEN ZeroHist(1)
                  ELSE AddHist(Hist(i - 1, lstep), [LSH |-> <<<<xs[i]>>>>, LSP |-> <<<<xs[i] \div 2>>>>, MSH |-> <<<<7 * xs[i]>>>>], 1, 1, lstep)
RECURSIVE Moment(_, _)
Moment(f, b) == IF b = 0 THEN 0 ELSE (b - 1) * f[b] + Moment(f, b - 1)
RECURSIVE Mass(_, _)
Mass(f, b) == IF b = 0 THEN 0 ELSE f[b] + Mass(f, b - 1)
DistributionsAddUp ==
  \A h \in HistNames : \A lstep \in {1, 5} : Mass(Hist(Len(xs), lstep)[h][1], 22) = Len(xs)
(* without overflow the distribution of losses gives back their sum *)
DistributionKeepsTheMean ==
  (\A i \in 1..Len(xs) : xs[i] < 21) => Moment(Hist(Len(xs), 1)["HL"][1], 22) = SumOf(xs)
=============================================================================
