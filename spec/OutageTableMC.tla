--------------------------- MODULE OutageTableMC ----------------------------
(* Adding units one by one, in any order: the table keeps a total of one, and
   the order does not matter. *)
EXTENDS OutageTable, TLC
CONSTANTS MaxUnits, Den
VARIABLES us, D
Kinds == {<<c, p, f, r>> : c \in {20, 40, 110}, p \in 0..1, f \in 0..1, r \in {0, 50, 100}}
Init == us = <<>> /\ D = Nothing
Next == Len(us) < MaxUnits /\ \E u \in Kinds : us' = Append(us, u) /\ D' = Add(D, u, Den)
Spec == Init /\ [][Next]_<<us, D>>
Total == SumS(D, DOMAIN D) = PowS(Den, Len(us))
Nonneg == \A x \in DOMAIN D : D[x][1] >= 0
Decreasing == \A x, y \in Possible(D) : x < y => SCmp(AtLeast(D, x), AtLeast(D, y)) >= 0
Reversed == [i \in 1..Len(us) |-> us[Len(us) + 1 - i]]
AnyOrder == LET E == Distribution(Reversed, Den) IN DOMAIN E = DOMAIN D /\ \A x \in DOMAIN D : E[x] = D[x]
Mean == \* the mean outage is the sum of the mean outages of the units
  LET Sum(S) == SumS([x \in DOMAIN D |-> SMul(SOf(x), D[x])], S)
      RECURSIVE Each(_)
      Each(n) == IF n = 0 THEN 0 ELSE us[n][2] * PartLoss(us[n]) + us[n][3] * FullLoss(us[n]) + Each(n - 1)
  IN Len(us) > 0 => Sum(DOMAIN D) = SMul(SOf(Each(Len(us))), PowS(Den, Len(us) - 1))
=============================================================================
