----------------------------- MODULE TransportMC -----------------------------
(* Weak duality of Transport on all small instances: no dispatch loses less than
   the bound of any valid multipliers; and multipliers from {0, 1} reach the
   optimum when the network is a tree with integer capacities. *)
EXTENDS Transport, FiniteSets, TLC
CONSTANTS N, MaxP, Loop
VARIABLES pr, stage
P == 0..MaxP
Pairs == IF N = 2 THEN <<<<1, 2>>>> ELSE IF Loop THEN <<<<1, 2>>, <<3, 2>>, <<1, 3>>>> ELSE <<<<1, 2>>, <<3, 2>>>>
L == Len(Pairs)
(* with b = 2 a flow is the difference of angles *)
Init == /\ stage = 0
        /\ pr \in { [n |-> N, lines |-> [k \in 1..L |-> [fr |-> Pairs[k][1], to |-> Pairs[k][2], b |-> 2, f |-> f[k], r |-> 1]],
                     o |-> [a \in 1..N |-> o], i |-> [a \in 1..N |-> 2], t |-> [a \in 1..N |-> g[a] - l[a]], cu |-> l, eu |-> g] :
                    f \in [1..L -> P], o \in {1, 2}, g \in [1..N -> P], l \in [1..N -> P] }
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED pr
Spec == Init /\ [][Next]_<<pr, stage>>

Angles == [1..N -> (-MaxP)..MaxP]
Lim(f) == [a \in DOMAIN f |-> SOf(f[a])]
One == SOf(1)
ExportOf(th) == [a \in 1..N |-> Plus([k \in 1..L |-> IF Pairs[k][1] = a THEN th[a] - th[Pairs[k][2]]
                                                     ELSE IF Pairs[k][2] = a THEN th[a] - th[Pairs[k][1]] ELSE 0], L)]
Feasible == {th \in {x \in Angles : x[1] = 0} :
              LET e == ExportOf(th)
              IN Carried(N, pr.lines, Lim(th), One, e, 0) /\ LinesWithin(pr.lines, Lim(th), One, 0)
                 /\ AreasWithin(N, e, pr.o, pr.i, 0) /\ InBoxes(pr, e, 0)}
ToInt(s) == IF s[1] = 0 THEN 0 ELSE s[1] * s[2][1]     \* small numbers
Multipliers == {m \in [y : [1..N -> {0, 1}], u : [1..L -> {0, 1}], v : [1..L -> {0, 1}], p : [1..N -> {0, 1}], q : [1..N -> {0, 1}]] :
                 ValidMultipliers(pr, [y |-> Lim(m.y), u |-> Lim(m.u), v |-> Lim(m.v), p |-> Lim(m.p), q |-> Lim(m.q), d |-> One])}
BoundOf(m) == ToInt(Bound(pr, [y |-> Lim(m.y), u |-> Lim(m.u), v |-> Lim(m.v), p |-> Lim(m.p), q |-> Lim(m.q), d |-> One]))
WeakDuality == stage = 1 => \A th \in Feasible : LET s == Shortage(pr, ExportOf(th)) IN \A m \in Multipliers : BoundOf(m) <= s
(* in a tree the least loss is integral and some cut proves it *)
Tight == (stage = 1 /\ ~Loop /\ Feasible # {}) =>
           \E th \in Feasible : \E m \in Multipliers : BoundOf(m) = Shortage(pr, ExportOf(th))
=============================================================================
