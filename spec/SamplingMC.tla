------------------------------ MODULE SamplingMC ------------------------------
(* Streams of random numbers, with the constants of the program: units and lines
   draw in any order, each from its own stream.  What a component gets at its
   k-th draw depends on the seed and on k alone; no stream dies out; and the
   states of units and lines divide the interval without gaps, overlapping only
   within the slack of a limit. *)
EXTENDS Sampling, FiniteSets, TLC
CONSTANTS Seeds, Comps, MaxDraws
VARIABLES seed, stream, count
vars == <<seed, stream, count>>

RECURSIVE Drawn(_, _)
Drawn(s, k) == IF k = 0 THEN s ELSE NextDraw(Drawn(s, k - 1))

Init == /\ seed \in Seeds
        /\ stream = SeedChain(seed, Comps)
        /\ count = [i \in 1..Comps |-> 0]
Next == \E i \in 1..Comps :
          /\ count[i] < MaxDraws
          /\ stream' = [stream EXCEPT ![i] = NextDraw(@)]
          /\ count' = [count EXCEPT ![i] = @ + 1]
          /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

OwnStream == \A i \in 1..Comps : stream[i] = Drawn(SeedChain(seed, Comps)[i], count[i])
InRange == \A i \in 1..Comps : stream[i] \in 0..Top
(* both multipliers are odd: what is not zero never becomes zero *)
Alive == seed # 0 => \A i \in 1..Comps : stream[i] # 0
SameParity == \A i \in 1..Comps : stream[i] % 2 = seed % 2
(* for odd seeds (2^30, say, gives every component the same stream) *)
SeparateStreams == \A i, j \in 1..Comps : (i # j /\ seed % 2 = 1 /\ \A k \in 1..Comps : count[k] = count[i]) => stream[i] # stream[j]
(* the product that the program forms in 32 bits *)
ByTheMultiplier == \A i \in 1..Comps : NextDraw(stream[i]) = MulMod(stream[i], DrawMultiplier)

(* limits: from never to always *)
Grid == {0, 1000, 1073741824, 2147480000, Top}
UnitLimits == {<<a, b>> : a \in Grid, b \in Grid}
LineLimits == {<<a, b, c, d, d>> : a \in Grid, b \in Grid, c \in Grid, d \in Grid}
Rising(lim) == \A i \in 1..(Len(lim) - 1) : lim[i] <= lim[i + 1]
Around(lim) == UNION {{x \in {lim[i] - Slack - 1, lim[i] - Slack, lim[i] - 1, lim[i]} \cup
                           (IF lim[i] < Top - 2 * Slack THEN {lim[i] + 1, lim[i] + Slack, lim[i] + Slack + 1} ELSE {}) : x >= 0} : i \in 1..Len(lim)}
Probe(lim) == Around(lim) \cup {stream[i] : i \in 1..Comps}
Away(s, lim) == \A i \in 1..Len(lim) : s - lim[i] > Slack \/ lim[i] - s > Slack
UnitsDivide == \A lim \in {x \in UnitLimits : Rising(x)} : \A s \in Probe(lim) :
                 LET S == UnitStates(s, lim, 2)
                 IN /\ S # {}
                    /\ Away(s, lim) => S = {IF s < lim[1] THEN 4 ELSE IF s < lim[2] THEN 2 ELSE 0}
LinesDivide == \A lim \in {x \in LineLimits : Rising(x)} : \A s \in Probe(lim) :
                 LET S == LineStates(s, lim)
                 IN /\ S # {}
                    /\ Away(s, lim) => S = {1 + Cardinality({i \in 1..5 : lim[i] < s})}
=============================================================================
