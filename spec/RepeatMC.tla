------------------------------ MODULE RepeatMC ------------------------------
(* What outlives what.  A process runs simulations one after another; each may be
   abandoned at any point, or end, or be continued from a snapshot, here or after
   other simulations have run.  Some things live as long as the process (the states
   drawn last), some as long as a run (streams, the limits of the areas and the
   matrices, which a study changes and puts back), some as long as a study (what the
   first pass has sent, which the second has to leave room for).  Whatever went
   before, the hours of a run have the outcomes that its inputs alone determine -
   they are stated below hour by hour, without any of these. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Systems,      \* records: first number, limit, sharing, hours between draws, hours between steps
          Years,        \* years of a run
          YearLength,   \* hours of a year: a multiple of the hours between draws
          MaxRuns       \* simulations taken up by the process

None == -1
M == 5                                                \* the streams run over 1..M-1
NextNumber(x) == (2 * x) % M
Number(x) == x                                        \* what is missing, drawn with this number
Admittance(x) == 10 + x                               \* the matrix with the line states drawn
Base == 10
ASSUME \A s \in Systems : YearLength % s.freq = 0 /\ YearLength % s.step = 0 /\ (s.step > 1 => s.step >= s.freq)

(* ------------------------------ what the inputs determine ----------------- *)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
(* the number in force at an hour: drawn at each step when the steps are the longer ones *)
RECURSIVE After(_, _)
After(x, k) == IF k = 0 THEN x ELSE NextNumber(After(x, k - 1))
InForce(s, h) == After(s.first, IF s.step >= s.freq THEN h \div s.step ELSE h \div s.freq)
(* a first pass sends what the limit lets through, a second what is left of the limit; nothing is
   studied when nothing is missing *)
Outcome(s, x) ==
  LET sent == Least(Number(x), s.limit)
      more == IF s.sharing THEN Least(Number(x) - sent, Most(s.limit - sent, 0)) ELSE 0
  IN IF x = 1 THEN <<"none">> ELSE <<"study", sent, more, Admittance(x)>>
Determined(s) == [k \in 1..((Years * YearLength) \div s.step) |-> Outcome(s, InForce(s, (k - 1) * s.step))]

(* ------------------------------ the process ------------------------------- *)
VARIABLES sys,      \* the system being simulated; none: idle
          at,       \* its next hour
          rng, limit, matrix,   \* of the run
          kept,     \* of the process: the states drawn last
          pass, sent, first,    \* of the study; whether the matrix has been built in this run
          outs,     \* outcomes so far
          snaps,    \* snapshots on disk
          runs
vars == <<sys, at, rng, limit, matrix, kept, pass, sent, first, outs, snaps, runs>>
Idle == [name |-> 0]
Init == /\ sys = Idle /\ at = 0 /\ rng = 0 /\ limit = 0 /\ matrix = 0
        /\ kept = None /\ pass = "no" /\ sent = 0 /\ first = TRUE
        /\ outs = <<>> /\ snaps = {} /\ runs = 0

Start(s) == /\ runs < MaxRuns
            /\ sys' = s /\ at' = 0 /\ rng' = s.first /\ limit' = s.limit /\ matrix' = 0
            /\ pass' = "draw" /\ sent' = 0 /\ first' = TRUE /\ outs' = <<>> /\ runs' = runs + 1
            /\ UNCHANGED <<kept, snaps>>
(* in a new process nothing is kept *)
Resume(sn, fresh) ==
            /\ runs < MaxRuns
            /\ sys' = sn.sys /\ at' = sn.at /\ rng' = sn.rng /\ limit' = sn.sys.limit /\ matrix' = sn.matrix
            /\ pass' = "draw" /\ sent' = 0 /\ first' = (sn.matrix = 0) /\ outs' = sn.outs /\ runs' = runs + 1
            /\ kept' = IF fresh THEN None ELSE kept
            /\ UNCHANGED snaps
(* a run leaves the process, whatever it was doing *)
Leave == /\ sys # Idle
         /\ sys' = Idle /\ pass' = "no"
         /\ at' = 0 /\ rng' = 0 /\ limit' = 0 /\ matrix' = 0 /\ sent' = 0 /\ first' = TRUE /\ outs' = <<>>
         /\ UNCHANGED <<kept, snaps, runs>>

Draw == /\ pass = "draw" /\ at < Years * YearLength
        /\ IF kept = None \/ sys.step >= sys.freq \/ at % sys.freq = 0
           THEN kept' = rng /\ rng' = NextNumber(rng)
           ELSE UNCHANGED <<kept, rng>>
        /\ pass' = IF kept' = 1 THEN "count" ELSE "first"
        /\ sent' = None
        /\ UNCHANGED <<sys, at, limit, matrix, first, outs, snaps, runs>>
(* the matrix of the lines in their first state is built at the first study *)
First == /\ pass = "first"
         /\ matrix' = (IF first THEN Base ELSE matrix) + kept
         /\ first' = FALSE
         /\ sent' = Least(Number(kept), limit)
         /\ IF sys.sharing
            THEN limit' = Most(limit - sent', 0) /\ pass' = "second"
            ELSE limit' = limit /\ pass' = "restore"
         /\ UNCHANGED <<sys, at, rng, kept, outs, snaps, runs>>
Second == /\ pass = "second"
          /\ pass' = "restore"
          /\ outs' = Append(outs, <<"study", sent, Least(Number(kept) - sent, limit), matrix>>)
          /\ UNCHANGED <<sys, at, rng, limit, matrix, kept, sent, first, snaps, runs>>
Restore == /\ pass = "restore"
           /\ limit' = sys.limit
           /\ matrix' = matrix - kept
           /\ outs' = IF sys.sharing THEN outs ELSE Append(outs, <<"study", sent, 0, matrix>>)
           /\ pass' = "next"
           /\ UNCHANGED <<sys, at, rng, kept, sent, first, snaps, runs>>
Count == /\ pass = "count"
         /\ outs' = Append(outs, <<"none">>) /\ pass' = "next"
         /\ UNCHANGED <<sys, at, rng, limit, matrix, kept, sent, first, snaps, runs>>
Advance == /\ pass = "next"
           /\ at' = at + sys.step /\ pass' = "draw"
           /\ snaps' = IF at' % YearLength = 0 /\ at' < Years * YearLength
                       THEN snaps \cup {[sys |-> sys, at |-> at', rng |-> rng, matrix |-> matrix, outs |-> outs]} ELSE snaps
           /\ UNCHANGED <<sys, rng, limit, matrix, kept, sent, first, outs, runs>>
Next == \/ \E s \in Systems : sys = Idle /\ Start(s)
        \/ \E sn \in snaps, fresh \in BOOLEAN : sys = Idle /\ Resume(sn, fresh)
        \/ Leave \/ Draw \/ First \/ Second \/ Restore \/ Count \/ Advance
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties -------------------------------- *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Repeatable == sys # Idle => Prefix(outs, Determined(sys))
Complete == (sys # Idle /\ at >= Years * YearLength) => outs = Determined(sys)
(* between studies the limits and the matrix are those of the inputs *)
PutBack == pass \in {"draw", "count", "next"} => limit = sys.limit /\ matrix \in {0, Base}
SnapshotsAreOfWholeHours == \A sn \in snaps : sn.matrix \in {0, Base} /\ Prefix(sn.outs, Determined(sn.sys))
TwoSystems == {[name |-> 1, first |-> 1, limit |-> 2, sharing |-> TRUE, freq |-> 1, step |-> 1],
               [name |-> 2, first |-> 3, limit |-> 1, sharing |-> FALSE, freq |-> 2, step |-> 1],
               [name |-> 3, first |-> 2, limit |-> 3, sharing |-> TRUE, freq |-> 2, step |-> 2]}
MoreSystems == {[name |-> 0, first |-> a, limit |-> b, sharing |-> c, freq |-> d[1], step |-> d[2]] :
                  a \in {1, 3}, b \in {0, 2, 3}, c \in BOOLEAN, d \in {<<1, 1>>, <<2, 1>>, <<4, 1>>, <<2, 2>>, <<4, 4>>, <<1, 4>>}}
=============================================================================
