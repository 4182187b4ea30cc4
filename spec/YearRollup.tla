----------------------------- MODULE YearRollup ------------------------------
(* The roll-up at the end of a year.  The counts of a year are a record of
   matrices [row][level]; the rows are the areas and, last, the pool.  Its fields
   name statistic (L: losses, M: energy), class (G, T) and kind (H: all hours,
   P: hours of daily pool peak).  Totals have class S (G and T together) too.
   Values that can exceed 32 bits are signed numbers in limbs. *)
EXTENDS Integers, Sequences, Arith

AnnualKeys == {"LGH", "LGP", "LTH", "LTP", "MGH", "MGP", "MTH", "MTP"}
SumKeys == {"LSH", "LSP", "MSH", "MSP"}
TotalKeys == AnnualKeys \cup SumKeys
GOf == [LSH |-> "LGH", LSP |-> "LGP", MSH |-> "MGH", MSP |-> "MGP"]
TOf == [LSH |-> "LTH", LSP |-> "LTP", MSH |-> "MTH", MSP |-> "MTP"]

Weights(nf) == IF nf = 1 THEN <<10000>> ELSE <<668, 2417, 3830, 2417, 668>>
NoErrorLevel(nf) == IF nf = 1 THEN 1 ELSE 3

ZeroAnnual(na, nf) == [k \in AnnualKeys |-> [r \in 1..(na + 1) |-> [n \in 1..nf |-> 0]]]
(* the counts of a year with the sums of both classes *)
WithSums(y, na, nf) ==
  [k \in TotalKeys |->
     IF k \in AnnualKeys THEN y[k]
     ELSE [r \in 1..(na + 1) |-> [n \in 1..nf |-> y[GOf[k]][r][n] + y[TOf[k]][r][n]]]]

ZeroTotals(na, nf) == [k \in TotalKeys |-> [r \in 1..(na + 1) |-> [n \in 1..nf |-> SOf(0)]]]
AddYear(tot, ys, na, nf) ==
  [k \in TotalKeys |-> [r \in 1..(na + 1) |-> [n \in 1..nf |-> SAdd(tot[k][r][n], SOf(ys[k][r][n]))]]]

(* forecast-weighted value, in ten-thousandths *)
RECURSIVE WSum(_, _, _)
WSum(row, w, n) == IF n = 0 THEN SOf(0) ELSE SAdd(SMul(SOf(w[n]), row[n]), WSum(row, w, n - 1))
Weighted(row, nf) == WSum(row, Weights(nf), nf)
WeightedInt(row, nf) == WSum([n \in 1..nf |-> SOf(row[n])], Weights(nf), nf)

(* bins of the frequency distributions (1..22), for counts and for energies *)
CountBin(x) == IF x + 1 > 22 THEN 22 ELSE x + 1
EnergyBin(x, lstep) == IF (x \div lstep) + 1 > 22 THEN 22 ELSE (x \div lstep) + 1
BinOf(name, ys, a, e, lstep) ==
  CASE name = "HL" -> CountBin(ys["LSH"][a][e])
    [] name = "DP" -> CountBin(ys["LSP"][a][e])
    [] name = "EU" -> EnergyBin(ys["MSH"][a][e], lstep)
HistNames == {"HL", "DP", "EU"}
ZeroHist(na) == [h \in HistNames |-> [a \in 1..na |-> [b \in 1..22 |-> 0]]]
AddHist(hist, ys, na, nf, lstep) ==
  [h \in HistNames |-> [a \in 1..na |->
     [hist[h][a] EXCEPT ![BinOf(h, ys, a, NoErrorLevel(nf), lstep)] = @ + 1]]]

(* squares of the weighted yearly values (hourly losses, energy, peak losses),
   in units of 10^-8 *)
SquareKeys == <<"LSH", "MSH", "LSP">>
ZeroSquares(na) == [r \in 1..(na + 1) |-> [j \in 1..3 |-> SOf(0)]]
AddSquares(sq, ys, na, nf) ==
  [r \in 1..(na + 1) |-> [j \in 1..3 |->
     LET w == WeightedInt(ys[SquareKeys[j]][r], nf) IN SAdd(sq[r][j], SMul(w, w))]]

(* agreement up to rounding: one part in 10^9, or two units *)
SAbs(x) == <<x[1] * x[1], x[2]>>
Close(x, y) ==
  /\ x[1] \in {-1, 0, 1}
  /\ LET d == SAbs(SAdd(x, SNeg(y)))
     IN \/ SCmp(d, SOf(2)) <= 0
        \/ SCmp(SMul(SOf(1000000000), d), SAbs(y)) <= 0
Exactly(x, y) == x[1] = y[1] /\ x[2] = y[2]

(* the yearly value of the index chosen for the convergence test *)
IndexKey(kv) == (IF kv.stat = 1 THEN "LS" ELSE "MS") \o (IF kv.when = 1 THEN "H" ELSE "P")
IndexRow(kv, na) == IF kv.where = 1 THEN kv.loc ELSE na + 1
IndexOf(ys, kv, na, nf) ==
  LET row == ys[IndexKey(kv)][IndexRow(kv, na)]
  IN  IF kv.type = 1 THEN WeightedInt(row, nf) ELSE SOf(row[NoErrorLevel(nf)])
=============================================================================
