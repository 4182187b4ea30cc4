------------------------------- MODULE Arith --------------------------------
(* Integer arithmetic that TLC's 32-bit integers do not give directly. *)
EXTENDS Integers, Sequences

Top == 2147483647            \* 2^31 - 1

(* (x + y) mod 2^31 for 0 <= x, y < 2^31 *)
AddMod(x, y) == IF y = 0 THEN x
                ELSE IF x > Top - y THEN (x - (Top - y)) - 1
                ELSE x + y
Dbl(x) == AddMod(x, x)
(* (x * k) mod 2^31, by doubling *)
RECURSIVE MulMod(_, _)
MulMod(x, k) == IF k = 0 THEN 0
                ELSE IF k % 2 = 1 THEN AddMod(x, MulMod(Dbl(x), k \div 2))
                ELSE MulMod(Dbl(x), k \div 2)

(* division that rounds towards zero *)
Trunc(x, k) == IF x >= 0 THEN x \div k ELSE -((-x) \div k)

(* naturals as sequences of limbs of base 10000, least significant first *)
Base == 10000
RECURSIVE ToLimbs(_)
ToLimbs(x) == IF x = 0 THEN <<>> ELSE <<x % Base>> \o ToLimbs(x \div Base)
LimbAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Carry(_, _)
Carry(s, c) == IF s = <<>> THEN ToLimbs(c)
               ELSE <<(Head(s) + c) % Base>> \o Carry(Tail(s), (Head(s) + c) \div Base)
MaxI(a, b) == IF a >= b THEN a ELSE b
LAdd(a, b) == Carry([i \in 1..MaxI(Len(a), Len(b)) |-> LimbAt(a, i) + LimbAt(b, i)], 0)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* product; the column sums stay below 2^31 for up to 20 limbs *)
LMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET n == Len(a) + Len(b)
           col(k) == SumTo([i \in 1..k |-> LimbAt(a, i) * LimbAt(b, k + 1 - i)], k)
       IN  Carry([k \in 1..(n - 1) |-> col(k)], 0)
RECURSIVE Strip(_)
Strip(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
(* comparison of naturals in limbs *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF LimbAt(a, i) # LimbAt(b, i)
                       THEN IF LimbAt(a, i) < LimbAt(b, i) THEN -1 ELSE 1
                       ELSE CmpAt(a, b, i - 1)
LCmp(a, b) == CmpAt(a, b, MaxI(Len(a), Len(b)))
RECURSIVE SubB(_, _, _, _)
SubB(a, b, i, br) ==
  IF i > Len(a) THEN <<>>
  ELSE LET d == a[i] - LimbAt(b, i) - br
       IN  <<(IF d < 0 THEN d + Base ELSE d)>> \o SubB(a, b, i + 1, IF d < 0 THEN 1 ELSE 0)
(* a - b for a >= b *)
LSub(a, b) == Strip(SubB(a, b, 1, 0))

(* signed integers in limbs: <<sign, limbs>> with sign in {-1, 0, 1} *)
SOf(x) == IF x = 0 THEN <<0, <<>>>> ELSE IF x > 0 THEN <<1, ToLimbs(x)>> ELSE <<-1, ToLimbs(-x)>>
SNeg(s) == <<-s[1], s[2]>>
SAdd(s, t) ==
  IF s[1] = 0 THEN t ELSE IF t[1] = 0 THEN s
  ELSE IF s[1] = t[1] THEN <<s[1], LAdd(s[2], t[2])>>
  ELSE LET c == LCmp(s[2], t[2])
       IN IF c = 0 THEN <<0, <<>>>>
          ELSE IF c > 0 THEN <<s[1], LSub(s[2], t[2])>>
          ELSE <<t[1], LSub(t[2], s[2])>>
SMul(s, t) == IF s[1] = 0 \/ t[1] = 0 THEN <<0, <<>>>>
              ELSE <<s[1] * t[1], Strip(LMul(s[2], t[2]))>>
SCmp(s, t) == LET d == SAdd(s, SNeg(t)) IN d[1]
(* a rational number is given in JSON as <<sign, numerator limbs, denominator limbs>> *)
=============================================================================
