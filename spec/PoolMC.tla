-------------------------------- MODULE PoolMC --------------------------------
(* Hours of a small pool, step by step as the program takes them: component
   states are drawn, capacities added up, forecast levels decided from the
   highest load down, losses counted, and in the peak hour counted again.  What
   the operators of Capacity, Contracts, HourDecision and Statistics mean is
   checked on all small instances: transfers cancel, a decision that needs no
   study is one that no study could change, stopping at the first level without
   loss skips no loss, and the counts are consistent with each other. *)
EXTENDS Capacity, Contracts, HourDecision, Statistics, TLC
CONSTANTS NA, NU, Loads, Caps, MaxFlow, Levels, Hours
VARIABLES stage,     \* "draw", "decide", "study", "next"
          q, plnd,   \* unit states and outage status
          load,      \* load of the areas at the highest level
          links, n, loss, hour, peak, cnt
vars == <<stage, q, plnd, load, links, n, loss, hour, peak, cnt>>

Loc == [u \in 1..NU |-> 1 + (u % NA)]
(* unit 1 belongs to two areas, the others to where they are *)
Own == [a \in 1..NA |-> [u \in 1..NU |-> IF u = 1 THEN (IF a = 1 THEN 1 ELSE IF a = 2 THEN 3 ELSE 0)
                                           ELSE IF Loc[u] = a THEN 4 ELSE 0]]
Pairs == IF NA = 2 THEN <<<<1, 2>>>> ELSE <<<<1, 2>>, <<3, 2>>, <<1, 3>>>>
Rating == [u \in 1..NU |-> IF u % 2 = 0 THEN 2 ELSE 3]
Kinds == {"LG", "LT", "MG", "MT"}
Zero == [k \in Kinds |-> [a \in 1..(NA + 1) |-> [v \in 1..Levels |-> 0]]]

Av == Avail(q, Rating, plnd)
LocCap == Located(Av, Loc, NA)
(* the loads of a level: a megawatt below the level before, where there is one *)
Less(x, d) == IF x >= d THEN x - d ELSE 0
LoadOf(v) == [a \in 1..NA |-> K * Less(load[a], v - 1)]
Out(v) == Outcome(LocCap, LoadOf(v), links, K)
Mar(v) == Margins(LocCap, LoadOf(v), K)

Init == /\ stage = "draw" /\ q = [u \in 1..NU |-> 4] /\ plnd = [u \in 1..NU |-> 1]
        /\ load = [a \in 1..NA |-> 0] /\ links = <<>> /\ n = 1 /\ loss = <<>> /\ hour = 0 /\ peak \in 0..(Hours - 1)
        /\ cnt = [H |-> Zero, P |-> Zero]
Draw == /\ stage = "draw"
        /\ q' \in [1..NU -> {0, 2, 4}]
        /\ plnd' \in {[u \in 1..NU |-> 1], [u \in 1..NU |-> IF u = 1 THEN 0 ELSE 1]}
        /\ load' \in [1..NA -> Loads]
        /\ \E f, r \in [1..Len(Pairs) -> Caps] : links' = [i \in 1..Len(Pairs) |-> <<Pairs[i][1], Pairs[i][2], f[i], r[i]>>]
        /\ stage' = "decide" /\ n' = 1 /\ loss' = <<>>
        /\ UNCHANGED <<hour, peak, cnt>>
Decide == /\ stage = "decide"
          /\ IF n > Levels \/ Out(n) \in {"none", "helped"}
             THEN stage' = "count" /\ UNCHANGED <<n, loss>>
             ELSE IF Out(n) = "all" THEN loss' = Append(loss, <<n, Mar(n)>>) /\ n' = n + 1 /\ UNCHANGED stage
             ELSE stage' = "study" /\ UNCHANGED <<n, loss>>
          /\ UNCHANGED <<q, plnd, load, links, hour, peak, cnt>>
(* what is left in the areas when the lines carry f *)
Flows == [1..Len(links) -> (-MaxFlow)..MaxFlow]
Within(f) == \A i \in 1..Len(links) : f[i] <= links[i][3] /\ -f[i] <= links[i][4]
Export(f, a) == HSum([i \in 1..Len(links) |-> IF links[i][1] = a THEN f[i] ELSE IF links[i][2] = a THEN -f[i] ELSE 0], 1..Len(links))
Rest(m, f) == [a \in 1..NA |-> m[a] - Export(f, a)]
Study == /\ stage = "study"
         /\ \E f \in Flows : /\ Within(f)
                             /\ LET r == Rest(Mar(n), f)
                                IN loss' = IF AnyLoss(r) THEN Append(loss, <<n, r>>) ELSE loss
         /\ n' = n + 1 /\ stage' = "decide"
         /\ UNCHANGED <<q, plnd, load, links, hour, peak, cnt>>
RECURSIVE Counted(_, _, _)
Counted(z, ls, i) ==
  IF i = 0 THEN z
  ELSE LET v == ls[i][1]  m == ls[i][2]
           c == CHOOSE x \in Classes(m) : x = "T" \/ Classes(m) = {"G"}
           zz == Counted(z, ls, i - 1)
       IN [k \in Kinds |-> [a \in 1..(NA + 1) |-> [w \in 1..Levels |->
             zz[k][a][w] + (IF w # v \/ k \notin {"L" \o c, "M" \o c} THEN 0
                            ELSE IF k = "L" \o c THEN (IF a = NA + 1 THEN 1 ELSE Losses(m)[a])
                            ELSE IF a = NA + 1 THEN TotalOf(Energies(m), NA) ELSE Energies(m)[a])]]]
Count == /\ stage = "count"
         /\ cnt' = [H |-> Counted(cnt.H, loss, Len(loss)),
                    P |-> IF hour = peak THEN Counted(cnt.P, loss, Len(loss)) ELSE cnt.P]
         /\ hour' = hour + 1 /\ stage' = IF hour + 1 < Hours THEN "draw" ELSE "end"
         /\ n' = 1 /\ loss' = <<>> /\ links' = <<>>
         /\ q' = [u \in 1..NU |-> 4] /\ plnd' = [u \in 1..NU |-> 1] /\ load' = [a \in 1..NA |-> 0]
         /\ UNCHANGED peak
Next == Draw \/ Decide \/ Study \/ Count
Spec == Init /\ [][Next]_vars

(* C06 *)
Drawn == stage \in {"decide", "study"}
OwnershipCancels == Drawn => SumN(Transfer(Av, Loc, Own, NA), NA) = 0
CapacityInBounds == Drawn => \A a \in 1..NA : LocCap[a] >= 0 /\ LocCap[a] <= K * SumOver(Rating, {u \in 1..NU : Loc[u] = a})
PlannedIsOut == Drawn => \A u \in 1..NU : plnd[u] = 0 => Av[u] = 0
(* C07 *)
Deal == [fr : 1..NA, to : 1..NA, d1 : 1..3, d2 : 1..3, mw : {1, 2}]
Deals == {x \in Deal : x.fr # x.to}
ASSUME \A x \in Deals : \A d \in 0..4 : \A a \in 1..NA :
         (Net(<<x>>, a, d) # 0) <=> (d \in x.d1..x.d2 /\ a \in {x.fr, x.to})
ASSUME \A x, y \in Deals : \A d \in 0..4 :
         Cancels(<<x, y>>, NA, d) /\ \A a \in 1..NA : Net(<<x, y>>, a, d) = Net(<<x>>, a, d) + Net(<<y>>, a, d)

(* C08: a short area that is helped is helped by flows the lines can carry *)
Carries(f, m) == Within(f) /\ \A a \in 1..NA : Rest(m, f)[a] >= 0
HelpIsReal == (stage = "decide" /\ n <= Levels /\ Out(n) = "helped") => \E f \in Flows : Carries(f, Mar(n))
AllShortIsHopeless == (stage = "decide" /\ n <= Levels /\ Out(n) = "all") =>
                        \A x \in 1..NA : Mar(n)[x] < 0 /\ PoolBalance(Mar(n)) = -HSum(Energies(Mar(n)), 1..NA)
(* stopping at a level without loss skips no loss at lower loads *)
LowerLevelsAreSafe == (stage = "decide" /\ n < Levels /\ Out(n) \in {"none", "helped"}) =>
                         \A v \in (n + 1)..Levels : Out(v) \in {"none", "helped"}
(* C12 *)
CountsAgree ==
  \A w \in {"H", "P"} : \A c \in {"G", "T"} : \A v \in 1..Levels :
    LET L(a) == cnt[w]["L" \o c][a][v]  M(a) == cnt[w]["M" \o c][a][v]
    IN /\ \A a \in 1..NA : L(a) <= L(NA + 1) /\ M(a) >= L(a)
       /\ L(NA + 1) <= HSum([a \in 1..NA |-> L(a)], 1..NA)
       /\ M(NA + 1) = HSum([a \in 1..NA |-> M(a)], 1..NA)
       /\ L(NA + 1) <= hour
PeaksAreHours == \A k \in Kinds : \A a \in 1..(NA + 1) : \A v \in 1..Levels : cnt.P[k][a][v] <= cnt.H[k][a][v]
OnePeak == \A c \in {"G", "T"} : \A v \in 1..Levels : cnt.P["L" \o c][NA + 1][v] <= (IF hour > peak THEN 1 ELSE 0)
ClassesExclude == (stage = "count" /\ loss # <<>>) =>
   \A i \in 1..Len(loss) : AnyLoss(loss[i][2]) /\ ("T" \in Classes(loss[i][2]) => \E a \in 1..NA : loss[i][2][a] >= 0)
LevelsInOrder == \A i \in 1..Len(loss) : \A j \in 1..Len(loss) : i < j => loss[i][1] < loss[j][1]
=============================================================================
