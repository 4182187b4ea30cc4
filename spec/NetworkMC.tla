------------------------------ MODULE NetworkMC -------------------------------
(* All histories of line state changes on all small networks: the matrix kept
   incrementally is that of the lines in their current states, and the inverse
   kept by rank-one changes is its inverse, exactly.  A change adds the new
   admittance before it takes the old one away, as the program does. *)
EXTENDS Network, TLC
CONSTANTS N, Adm
VARIABLES nr, lines, M, Z, half      \* half: <<line, old b>> between adding and taking away
vars == <<nr, lines, M, Z, half>>
P3 == <<<<1, 2>>, <<3, 2>>, <<1, 3>>, <<2, 1>>>>
P4 == <<<<1, 2>>, <<3, 2>>, <<3, 4>>, <<1, 4>>, <<1, 3>>>>
Pairs == IF N = 3 THEN P3 ELSE P4
L == Len(Pairs)
Net(b) == [k \in 1..L |-> [fr |-> Pairs[k][1], to |-> Pairs[k][2], b |-> b[k]]]
(* adjugate and determinant from scratch, for the first state *)
RECURSIVE Det(_)
Minor(A, r, c) == [i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
Det(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE SumTo([c \in 1..Len(A) |-> (IF c % 2 = 1 THEN 1 ELSE -1) * A[1][c] * Det(Minor(A, 1, c))], Len(A))
Adjugate(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(A, j, i))]]

Init == /\ nr \in 1..N
        /\ lines \in {Net(b) : b \in [1..L -> Adm]}
        /\ Connected(N, lines)
        /\ M = Reduced(N, nr, lines)
        /\ Z = [num |-> Adjugate(M), den |-> Det(M)]
        /\ half = <<>>
Ends(k) == <<Index(N, nr, lines[k].fr), Index(N, nr, lines[k].to)>>
Add(k, b) == /\ half = <<>>
             /\ M' = AddTo(M, Ends(k)[1], Ends(k)[2], b)
             /\ Z' = Change(Z, Ends(k)[1], Ends(k)[2], b)
             /\ half' = <<k, lines[k].b, b>>
             /\ UNCHANGED <<nr, lines>>
Take == /\ half # <<>>
        /\ LET k == half[1] IN
           /\ lines' = [lines EXCEPT ![k].b = half[3]]
           /\ M' = AddTo(M, Ends(k)[1], Ends(k)[2], -half[2])
           /\ Z' = Change(Z, Ends(k)[1], Ends(k)[2], -half[2])
        /\ half' = <<>>
        /\ UNCHANGED nr
Next == (\E k \in 1..L, b \in Adm : b # lines[k].b /\ Connected(N, [lines EXCEPT ![k].b = b]) /\ Add(k, b)) \/ Take
Spec == Init /\ [][Next]_vars

MatrixIsCurrent == half = <<>> => M = Reduced(N, nr, lines)
InverseIsExact == IsInverse(M, Z) /\ Z.den > 0
(* the way there does not matter *)
SameAsFromScratch == half = <<>> => Z = [num |-> Adjugate(M), den |-> Det(M)]
=============================================================================
