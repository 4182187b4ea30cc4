---------------------------- MODULE NetworkTrace -----------------------------
(* The linear algebra of the real code against Network.  Lines:
   base   matrices made for a network (all lines in normal state)
   step   matrices after one more line state change
   solve  angles and flows for balanced injections (inj in parts of 1/unit MW)
   used   the inverse that a transmission study works with, for its line states
   study  a matrix handed to the linear programme by a study
   inv    the inverse of a general matrix (factorisation)
   Entries of inverses and angles are given in units of 1/10^12, as limbs. *)
EXTENDS TraceKit, Network
VARIABLE l
T == Trace

D12 == SMul(SOf(1000000), SOf(1000000))
Near(x, y, tol) == LET d == SAdd(x, SNeg(y)) IN SCmp(d, tol) <= 0 /\ SCmp(SNeg(d), tol) <= 0
RECURSIVE SSumTo(_, _)
SSumTo(f, n) == IF n = 0 THEN SOf(0) ELSE SAdd(f[n], SSumTo(f, n - 1))
Finite(Z) == \A i \in DOMAIN Z : \A j \in DOMAIN Z[i] : Z[i][j][1] # 9
(* M * Z = k * identity, up to tol; M integers, Z limbs *)
Identity(M, Z, one, tol) ==
  Finite(Z) /\ \A i, j \in DOMAIN M :
     Near(SSumTo([k \in DOMAIN M |-> SMul(SOf(M[i][k]), Z[k][j])], Len(M)), IF i = j THEN one ELSE SOf(0), tol)
Neg(M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> -M[i][j]]]
Tol12 == SMul(SOf(2000000), SOf(1))    \* 2e-6

(* matrices of the program: the negated matrix, twice the entries *)
Matrix(r, lines) == r.bb = Neg(Reduced(r.n, r.nr, lines))
Inverse(r, lines) == Identity(Neg(Reduced(r.n, r.nr, lines)), r.zb, SMul(SOf(2), D12), Tol12)
Flows(r) ==    \* flow of a line in 10^-9 MW, th in 10^-12: b (th_fr - th_to) / 2 with the sign of the program
  \A k \in 1..Len(r.lines) :
    LET x == SMul(SOf(-r.lines[k].b), SAdd(r.th[r.lines[k].fr], SNeg(r.th[r.lines[k].to])))
    IN Near(x, SMul(SOf(2000), r.flow[k]), SMul(SOf(2000000), SOf(10)))
NetOut(r, a) == SSumTo([k \in 1..Len(r.lines) |-> IF r.lines[k].fr = a THEN r.flow[k]
                                                  ELSE IF r.lines[k].to = a THEN SNeg(r.flow[k]) ELSE SOf(0)], Len(r.lines))

Clauses(r) ==
  CASE r.ev = "base" -> <<
         <<"C23.matrix-of-the-lines", Matrix(r, r.lines)>>,
         <<"C23.order-of-areas", r.lt = OrderOf(r.n, r.nr)>>,
         <<"C23.inverse", Inverse(r, r.lines)>> >>
    [] r.ev = "step" -> <<
         <<"C23.matrix-after-changes", Matrix(r, r.lines)>>,
         <<"C23.inverse-after-changes", Inverse(r, r.lines)>> >>
    [] r.ev = "used" -> <<
         <<"C23.inverse-used-in-study", Connected(r.n, r.lines) => Inverse(r, r.lines)>> >>
    [] r.ev = "lp" -> <<
         <<"C23.matrix-used-in-study", Matrix(r, r.lines)>> >>
    [] r.ev = "kept" -> <<
         <<"C23.matrix-kept-between-studies", Matrix(r, r.lines)>>,
         <<"C23.inverse-kept-between-studies", Connected(r.n, r.lines) => Inverse(r, r.lines)>> >>
    [] r.ev = "solve" -> <<
         <<"C23.reference-angle", r.th[r.nr][1] = 0>>,
         <<"C23.flows-of-angles", Flows(r)>>,
         <<"C23.flows-carry-injections",
           \A a \in 1..r.n : Near(SMul(SOf(r.unit), NetOut(r, a)), SMul(SOf(1000000000), SOf(r.inj[a])), SMul(SOf(1000000), SOf(1)))>>,
         <<"C23.sum-of-flows", \A a \in 1..r.n : Near(SNeg(r.sflow[a]), NetOut(r, a), SOf(100000))>> >>
    [] r.ev = "inv" -> << <<"C23.factorised-inverse", Identity(r.a, r.z, D12, Tol12)>> >>
    [] OTHER -> <<>>

Init == l = 1
Next == /\ l <= Len(T)
        /\ l' = l + 1
        /\ Tell(l, Broken(Clauses(T[l])))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter = Len(T) + 1
=============================================================================
