------------------------------- MODULE Report -------------------------------
(* What the tables of results state.  Printed numbers come as integers: numbers
   of the rows and of the summary in thousandths, probabilities of the
   distributions in ten-thousandths.  A row is <<area (0: pool), level (0:
   weighted over levels), class (1: G, 2: T, 3: both), numbers...>>. *)
EXTENDS Integers, Sequences, FiniteSets, Arith, YearRollup

NAbs(x) == IF x < 0 THEN -x ELSE x
Wrong == 2000000011          \* a number that could not be read

(* p (in units of 1/k) is num/den printed with a granularity of g of these units *)
Prints(p, k, g, num, den) ==
  /\ NAbs(p) < Wrong
  /\ IF den[1] = 0 \/ num[1] = 0 THEN p = 0
     ELSE SCmp(SMul(SOf(2000), SAbs(SAdd(SMul(SOf(p), den), SNeg(SMul(SOf(k), num))))),
               SMul(SOf(1000 * g + 20), den)) <= 0

ClassName == <<"G", "T", "S">>
(* the numbers of one row: losses and energies of all hours and of peak hours,
   over yy years (in the unit of these numbers) *)
RowStates(v, lh, mh, lp, mp, yy, step) ==
  IF step = 24
  THEN Len(v) = 2 /\ Prints(v[1], 1000, 10, lp, yy) /\ Prints(v[2], 1000, 10, mp, lp)
  ELSE /\ Len(v) = 5
       /\ Prints(v[1], 1000, 10, lh, yy) /\ Prints(v[2], 1000, 10, mh, lh) /\ Prints(v[3], 1000, 1000, mh, yy)
       /\ Prints(v[4], 1000, 10, lp, yy) /\ Prints(v[5], 1000, 10, mp, lp)

RowKeys(na, levels) == (0..na) \X levels \X (1..3)
Row(rows, k) == rows[CHOOSE i \in 1..Len(rows) : <<rows[i][1], rows[i][2], rows[i][3]>> = k]
RowsComplete(rows, keys) ==
  /\ Len(rows) = Cardinality(keys)
  /\ {<<rows[i][1], rows[i][2], rows[i][3]>> : i \in 1..Len(rows)} = keys
AreaOf(k, na) == IF k[1] = 0 THEN na + 1 ELSE k[1]
LevelRow(rows, k, tot, na, y, step) ==
  LET r == Row(rows, k)  c == ClassName[k[3]]  a == AreaOf(k, na)
      X(s, w) == tot[s \o c \o w][a][k[2]]
  IN  RowStates(SubSeq(r, 4, Len(r)), X("L", "H"), X("M", "H"), X("L", "P"), X("M", "P"), SOf(y), step)
WeightedRow(rows, k, tot, na, nf, y, step) ==
  LET r == Row(rows, k)  c == ClassName[k[3]]  a == AreaOf(k, na)
      X(s, w) == Weighted(tot[s \o c \o w][a], nf)
  IN  RowStates(SubSeq(r, 4, Len(r)), X("L", "H"), X("M", "H"), X("L", "P"), X("M", "P"), SOf(10000 * y), step)

(* rows of a table: levels are those listed besides the weighted one *)
RowsClauses(p, rows, tot, na, nf, levels, y, step) ==
  LET keys == RowKeys(na, levels \cup {0})
      whole == RowsComplete(rows, keys)
  IN << <<p \o "rows", whole>>,
        <<p \o "area-rows", whole => \A k \in {x \in keys : x[1] > 0 /\ x[2] > 0} : LevelRow(rows, k, tot, na, y, step)>>,
        <<p \o "area-weighted-rows", whole => \A k \in {x \in keys : x[1] > 0 /\ x[2] = 0} : WeightedRow(rows, k, tot, na, nf, y, step)>>,
        <<p \o "pool-rows", whole => \A k \in {x \in keys : x[1] = 0 /\ x[2] > 0} : LevelRow(rows, k, tot, na, y, step)>>,
        <<p \o "pool-weighted-rows", whole => \A k \in {x \in keys : x[1] = 0 /\ x[2] = 0} : WeightedRow(rows, k, tot, na, nf, y, step)>> >>

(* percent deviation p: the standard error of the mean over the mean.  w is the
   sum, q the sum of squares of the yearly values in y years *)
Deviation(p, g, w, q, y) ==
  /\ NAbs(p) < Wrong
  /\ IF w[1] = 0 THEN p = 0
     ELSE LET spread == SAdd(SMul(q, SOf(y)), SNeg(SMul(w, w)))
              want == SMul(SMul(SOf(100000), SOf(400000)), spread)     \* 4 * 10^10 * spread
              scale == SMul(SOf(y), SMul(w, w))
              Sq(x) == SMul(SOf(x), SOf(x))
          IN  /\ SCmp(want, SMul(Sq(2 * p + g + 1), scale)) <= 0
              /\ (2 * p - g - 1 <= 0 \/ SCmp(SMul(Sq(2 * p - g - 1), scale), want) <= 0)

(* a row of the summary: peak and installed capacity (in 1/1024 MW), reserve,
   averages with deviations.  tot: weighted sums; sq: sums of squares (LSH, MSH, LSP) *)
SummaryRow(v, peak, inst, wl, wm, wp, sq, y, step) ==
  /\ Len(v) = (IF step = 24 THEN 5 ELSE 9)
  /\ Prints(v[1], 1000, 1000, SOf(peak), SOf(1024)) /\ Prints(v[2], 1000, 1000, SOf(inst), SOf(1024))
  /\ Prints(v[3], 1000, 100, SMul(SOf(100), SAdd(SOf(inst), SNeg(SOf(peak)))), SOf(peak))
  /\ IF step = 24
     THEN Prints(v[4], 1000, 1, wp, SOf(10000 * y)) /\ Deviation(v[5], 1, wp, sq[3], y)
     ELSE /\ Prints(v[4], 1000, 1, wl, SOf(10000 * y)) /\ Deviation(v[5], 1, wl, sq[1], y)
          /\ Prints(v[6], 1000, 1000, wm, SOf(10000 * y)) /\ Deviation(v[7], 1000, wm, sq[2], y)
          /\ Prints(v[8], 1000, 1, wp, SOf(10000 * y)) /\ Deviation(v[9], 1, wp, sq[3], y)

RECURSIVE AddUp(_, _)
AddUp(f, n) == IF n = 0 THEN 0 ELSE f[n] + AddUp(f, n - 1)

(* a distribution: per bin number, observations and probability of peak losses,
   of hourly losses, limit, observations and probability of energy *)
DistRow(r, b, hist, a, y, lstep) ==
  /\ Len(r) = 8
  /\ r[1] = b - 1 /\ r[6] = (b - 1) * lstep
  /\ r[2] = hist["DP"][a][b] /\ r[4] = hist["HL"][a][b] /\ r[7] = hist["EU"][a][b]
  /\ Prints(r[3], 10000, 10, SOf(r[2]), SOf(y)) /\ Prints(r[5], 10000, 10, SOf(r[4]), SOf(y))
  /\ Prints(r[8], 10000, 1, SOf(r[7]), SOf(y))

(* the final report rep after y years; sus is <<peak, installed>> of each area *)
ReportClauses(rep, tot, sq, hist, y, na, nf, step, lstep, sus, names) ==
  LET W(k, a) == Weighted(tot[k][a], nf)
      peaks == [a \in 1..na |-> sus[a][1]]  insts == [a \in 1..na |-> sus[a][2]]
  IN << <<"C16.years", rep.years = y>> >>
     \o RowsClauses("C16.", rep.rows, tot, na, nf, IF nf = 1 THEN {} ELSE 1..nf, y, step)
     \o << <<"C16.summary-rows", Len(rep.sum) = na + 1>>,
           <<"C16.summary-areas", Len(rep.sum) = na + 1 => \A a \in 1..na :
               /\ rep.sum[a].name = names[a]
               /\ SummaryRow(rep.sum[a].v, peaks[a], insts[a], W("LSH", a), W("MSH", a), W("LSP", a), sq[a], y, step)>>,
           <<"C16.summary-pool", Len(rep.sum) = na + 1 =>
               SummaryRow(rep.sum[na + 1].v, AddUp(peaks, na), AddUp(insts, na),
                          W("LSH", na + 1), W("MSH", na + 1), W("LSP", na + 1), sq[na + 1], y, step)>>,
           <<"C16.distributions", /\ Len(rep.dist) = na
                                  /\ \A a \in 1..na : rep.dist[a].area = a /\ Len(rep.dist[a].rows) = 22
                                       /\ \A b \in 1..22 : DistRow(rep.dist[a].rows[b], b, hist, a, y, lstep)>> >>

(* the table of one year: its counts *)
TableClauses(rows, ys, na, nf, step) ==
  LET t == [k \in TotalKeys |-> [a \in 1..(na + 1) |-> [n \in 1..nf |-> SOf(ys[k][a][n])]]]
  IN RowsClauses("C16.yearly-table-", rows, t, na, nf, 1..nf, 1, step)
=============================================================================
