------------------------------- MODULE Network --------------------------------
(* The admittance matrix of the areas without the reference area, and its
   inverse, as line admittances change one after another.
   Lines are [fr, to, b], b twice the admittance (its absolute value).  The
   program keeps the negated matrix: Entry is the matrix of positive b.
   The inverse is kept exactly as num / den, changed by the rank-one formula that
   the program uses: adding b to line (i, j) changes the inverse Z by
       - b z z' / (1 + b z[i] - b z[j]),   z = Z e_i - Z e_j
   with e = 0 for the reference area; num is the adjugate and den the determinant. *)
EXTENDS Integers, Sequences, Arith

(* areas other than the reference, in order: reduced index -> area *)
Kept(n, nr) == [i \in 1..(n - 1) |-> IF i < nr THEN i ELSE i + 1]
OrderOf(n, nr) == [i \in 1..n |-> IF i = n THEN nr ELSE Kept(n, nr)[i]]

Entry(lines, a, c) ==
  SumTo([k \in 1..Len(lines) |->
           IF a = c /\ a \in {lines[k].fr, lines[k].to} THEN lines[k].b
           ELSE IF a # c /\ {a, c} = {lines[k].fr, lines[k].to} THEN -lines[k].b ELSE 0], Len(lines))
Full(n, lines) == [a \in 1..n |-> [c \in 1..n |-> Entry(lines, a, c)]]
Reduced(n, nr, lines) == [i \in 1..(n - 1) |-> [j \in 1..(n - 1) |-> Entry(lines, Kept(n, nr)[i], Kept(n, nr)[j])]]

RECURSIVE Reach(_, _)
Reach(lines, S) ==
  LET S2 == S \cup {lines[k].to : k \in {j \in 1..Len(lines) : lines[j].b > 0 /\ lines[j].fr \in S}}
              \cup {lines[k].fr : k \in {j \in 1..Len(lines) : lines[j].b > 0 /\ lines[j].to \in S}}
  IN IF S2 = S THEN S ELSE Reach(lines, S2)
Connected(n, lines) == Reach(lines, {1}) = 1..n

(* incremental changes; i, j: reduced indices of the ends, 0 for the reference *)
Index(n, nr, a) == IF a = nr THEN 0 ELSE IF a < nr THEN a ELSE a - 1
AddTo(M, i, j, b) ==
  [x \in DOMAIN M |-> [y \in DOMAIN M |->
     M[x][y] + (IF x = y /\ x \in {i, j} THEN b ELSE 0) - (IF x # y /\ {x, y} = {i, j} THEN b ELSE 0)]]
At(M, x, i) == IF i = 0 THEN 0 ELSE M[x][i]
(* exact change of num / den *)
Change(Z, i, j, b) ==
  LET z == [x \in DOMAIN Z.num |-> At(Z.num, x, i) - At(Z.num, x, j)]
      w == (IF i = 0 THEN 0 ELSE z[i]) - (IF j = 0 THEN 0 ELSE z[j])
      d2 == Z.den + b * w
  IN [num |-> [x \in DOMAIN Z.num |-> [y \in DOMAIN Z.num |-> (Z.num[x][y] * d2 - b * z[x] * z[y]) \div Z.den]], den |-> d2]
Product(M, Z, x, y) == SumTo([k \in 1..Len(M) |-> M[x][k] * Z[k][y]], Len(M))
IsInverse(M, Z) == \A x, y \in DOMAIN M : Product(M, Z.num, x, y) = IF x = y THEN Z.den ELSE 0
=============================================================================
