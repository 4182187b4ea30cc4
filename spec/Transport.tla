------------------------------ MODULE Transport ------------------------------
(* The transmission study of one hour as an optimisation problem over a linear
   (DC) network, with certificates.

   A network is a sequence of lines [fr, to, b, f, r]: b twice the admittance
   (an integer), f and r the capacities in both directions.  Powers are integers
   in units of 1/4096 MW.  A problem asks for angles th and, in each area, for a
   shortage c in 0..cu and a surplus left unused e in 0..eu with
       export(a) = t[a] + c[a] - e[a],
   flows within line capacities, export at most o[a], import at most i[a], and
   the least total shortage.

   Solutions are not searched here.  Angles and multipliers come with the trace
   as exact rationals, and the operators below decide what they prove:
   - th shows that exports are carried by the network within all limits;
   - multipliers y (balance), u, v (lines), p, q (export, import) prove a lower
     bound of the total shortage of EVERY dispatch within the limits:
       sum c >= sum c + sum y (export - t - c + e) + sum u (flow - f)
                + sum v (-flow - r) + sum p (export - o) + sum q (-export - i)
     and, when the coefficient of every angle is zero, the minimum of the right
     side over c and e is Bound below (weak duality; checked by TransportMC). *)
EXTENDS Integers, Sequences, Arith

RECURSIVE SSumTo(_, _)
SSumTo(f, n) == IF n = 0 THEN SOf(0) ELSE SAdd(f[n], SSumTo(f, n - 1))
SSub(x, y) == SAdd(x, SNeg(y))
SLe(x, y) == SCmp(x, y) <= 0
SMin0(x) == IF x[1] < 0 THEN x ELSE SOf(0)

(* 2 d flow of a line, for angles th given as numerators over d *)
Flow2(line, th) == SMul(SOf(line.b), SSub(th[line.fr], th[line.to]))
Out2(lines, fl, a) ==
  SSumTo([k \in 1..Len(lines) |->
            IF lines[k].fr = a THEN fl[k] ELSE IF lines[k].to = a THEN SNeg(fl[k]) ELSE SOf(0)], Len(lines))

Flows2(lines, th) == [k \in 1..Len(lines) |-> Flow2(lines[k], th)]
(* x (over 2 d) is at most the integer z, up to tol units *)
AtMost(x, z, d2, tol) == SLe(x, SMul(SOf(z + tol), d2))
Equals(x, z, d2, tol) == AtMost(x, z, d2, tol) /\ AtMost(SNeg(x), -z, d2, tol)

Carried(n, lines, th, d, export, tol) ==
  LET d2 == SMul(SOf(2), d)  fl == Flows2(lines, th)
  IN  d[1] = 1 /\ \A a \in 1..n : Equals(Out2(lines, fl, a), export[a], d2, tol)
LinesWithin(lines, th, d, tol) ==
  LET d2 == SMul(SOf(2), d)
  IN \A k \in 1..Len(lines) : LET x == Flow2(lines[k], th)
                              IN AtMost(x, lines[k].f, d2, tol) /\ AtMost(SNeg(x), lines[k].r, d2, tol)
FlowsAre(lines, th, d, flow, tol) ==
  LET d2 == SMul(SOf(2), d) IN \A k \in 1..Len(lines) : Equals(Flow2(lines[k], th), flow[k], d2, tol)
AreasWithin(n, export, o, i, tol) == \A a \in 1..n : export[a] <= o[a] + tol /\ -export[a] <= i[a] + tol

(* problem pr = [n, lines, o, i, t, cu, eu]; multipliers m = [y, u, v, p, q] over m.d *)
ValidMultipliers(pr, m) ==
  /\ m.d[1] = 1
  /\ \A k \in 1..Len(pr.lines) : m.u[k][1] >= 0 /\ m.v[k][1] >= 0
  /\ \A a \in 1..pr.n : m.p[a][1] >= 0 /\ m.q[a][1] >= 0
  /\ LET z == [a \in 1..pr.n |-> SAdd(m.y[a], SSub(m.p[a], m.q[a]))]
         w == [k \in 1..Len(pr.lines) |->
                 SMul(SOf(pr.lines[k].b),
                      SAdd(SSub(z[pr.lines[k].fr], z[pr.lines[k].to]), SSub(m.u[k], m.v[k])))]
     IN \A a \in 1..pr.n : Out2(pr.lines, w, a)[1] = 0
(* the bound, over m.d *)
Bound(pr, m) ==
  LET N == pr.n  L == Len(pr.lines)
      perArea == [a \in 1..N |->
        SSumTo(<<SNeg(SMul(m.y[a], SOf(pr.t[a]))),
                 SNeg(SMul(m.p[a], SOf(pr.o[a]))), SNeg(SMul(m.q[a], SOf(pr.i[a]))),
                 SMul(SMin0(SSub(m.d, m.y[a])), SOf(pr.cu[a])),
                 SMul(SMin0(m.y[a]), SOf(pr.eu[a]))>>, 5)]
      perLine == [k \in 1..L |-> SNeg(SAdd(SMul(m.u[k], SOf(pr.lines[k].f)), SMul(m.v[k], SOf(pr.lines[k].r))))]
  IN SAdd(SSumTo(perArea, N), SSumTo(perLine, L))

TMax(a, b) == IF a >= b THEN a ELSE b
TMin(a, b) == IF a <= b THEN a ELSE b
RECURSIVE Plus(_, _)
Plus(f, n) == IF n = 0 THEN 0 ELSE f[n] + Plus(f, n - 1)

Shortage(pr, export) == Plus([a \in 1..pr.n |-> TMax(0, export[a] - pr.t[a])], pr.n)
InBoxes(pr, export, tol) ==
  \A a \in 1..pr.n : export[a] <= pr.t[a] + pr.cu[a] + tol /\ export[a] >= pr.t[a] - pr.eu[a] - tol
SAbs(x) == IF x[1] < 0 THEN SNeg(x) ELSE x
Weight(pr, m) == SAdd(SSumTo([a \in 1..pr.n |-> SAdd(SAbs(m.y[a]), SAdd(m.p[a], m.q[a]))], pr.n),
                      SSumTo([k \in 1..Len(pr.lines) |-> SAdd(m.u[k], m.v[k])], Len(pr.lines)))
(* no dispatch loses less, up to tol and when every number of the problem may be
   off by rnd units: the multipliers tell how much that matters *)
Least(pr, m, total, tol, rnd) ==
  ValidMultipliers(pr, m) /\ SLe(SMul(SOf(total - tol), m.d), SAdd(Bound(pr, m), SMul(SOf(rnd), Weight(pr, m))))

----------------------------------------------------------------------------
(* Problems of a study.  Loss sharing: any area may lose load for any other.
   Own load first: surplus areas export what they do not need, deficit areas
   lose at most their own shortage. *)
Sharing(n, lines, lim, gen, load) ==
  [n |-> n, lines |-> lines, o |-> lim, i |-> lim, t |-> [a \in 1..n |-> gen[a] - load[a]], cu |-> load, eu |-> gen]
OwnFirst(n, lines, o, i, t) ==
  [n |-> n, lines |-> lines, o |-> o, i |-> i, t |-> t,
   cu |-> [a \in 1..n |-> TMax(0, -t[a])], eu |-> [a \in 1..n |-> TMax(0, t[a])]]
(* scheduled exports: imports at most as needed *)
Schedule1(gen, load, tr) == [a \in DOMAIN gen |-> TMax(tr[a], TMin(gen[a] - load[a], 0))]
(* what scheduled flows leave of the capacities *)
LeftLines(lines, flow) ==
  [k \in 1..Len(lines) |-> [lines[k] EXCEPT !.f = TMax(0, @ - flow[k]), !.r = TMax(0, @ + flow[k])]]
NetOf(lines, flow, a) ==
  Plus([k \in 1..Len(lines) |-> IF lines[k].fr = a THEN flow[k] ELSE IF lines[k].to = a THEN -flow[k] ELSE 0], Len(lines))
=============================================================================
