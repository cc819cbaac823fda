------------------------------- MODULE ModelPot -------------------------------
(***************************************************************************)
(* Nuclear models as objects whose size can be changed, and the model and   *)
(* confinement potentials of the radial bases, with exact rational values.  *)
(* obj: the current nucleus, its kind k (pt point, ga Gaussian, sp uniform  *)
(* sphere, ho shell, re regularised) and parameter p in units 1/128 (mu, R0, *)
(* R, a). A nucleus of charge Z at the distance r from its centre shows the *)
(* charge Q(k, p, r) Z: its potential is -Q Z / r.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE obj
Kinds == {"pt", "ga", "sp", "ho", "re"}
None == [k |-> "none", p |-> 0]
(* ---- rational numbers <<numerator, denominator>> in lowest terms ---- *)
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _), Pow(_, _), Digits(_, _, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2]) IN
              IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RNeg(a) == <<-a[1], a[2]>>
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
(* decimal fixed point: |q| in units 10^-e, truncated, with the sign of q *)
Digits(n, d, e) == IF e = 0 THEN n \div d ELSE 10 * (n \div d) * Pow(10, e - 1) + Digits((n % d) * 10, d, e - 1)
Fix(q, e) == IF q[1] < 0 THEN -Digits(-q[1], q[2], e) ELSE Digits(q[1], q[2], e)
Near(v, q, e) == Abs(v - Fix(q, e)) <= 2
(* ---- nuclei ---- *)
Charge(k, p, r) == CASE k = "pt" -> Q(1, 1)
                     [] k = "ho" -> IF r < p THEN Q(r, p) ELSE Q(1, 1)
                     [] k = "sp" -> IF r < p THEN Q(r * (3 * p * p - r * r), 2 * p * p * p) ELSE Q(1, 1)
(* the error function at 1/2, 1, 2, in units 10^-9 *)
Erf == [x \in {8192, 16384, 32768} |-> CASE x = 8192 -> 520499878 [] x = 16384 -> 842700793 [] x = 32768 -> 995322265]
(* mean square radius over the square of the parameter *)
MeanSquare(k) == CASE k = "sp" -> Q(3, 5) [] k = "ho" -> Q(1, 1)
Kinks(k, p, a, b) == IF k \in {"sp", "ho"} /\ a < p /\ p < b THEN <<p>> ELSE <<>>
New(k, p) == obj' = [k |-> k, p |-> p]
Resize(p) == obj.k # "none" /\ obj' = [obj EXCEPT !.p = IF obj.k = "pt" THEN obj.p ELSE p]
Refuse == UNCHANGED obj
(* ---- expectation values in the function u(r) = r (R - r) on [0, R] ---- *)
RPow(b, e, d) == Q(Pow(b, e), d)                       \* b^e / d
Prim(R, k, x) == RAdd(RAdd(RMul(Q(R * R, 1), RPow(x, k + 3, k + 3)), RMul(Q(-2 * R, 1), RPow(x, k + 4, k + 4))), RPow(x, k + 5, k + 5))
Mom(R, k, a, b) == RAdd(Prim(R, k, b), RNeg(Prim(R, k, a)))      \* integral of u^2 r^k from a to b
Expect(k, Z, P, R) == CASE k = "pt" -> RMul(Q(-Z, 1), Mom(R, -1, 0, R))
  [] k = "ho" -> RMul(Q(-Z, 1), RAdd(RMul(Q(1, P), Mom(R, 0, 0, P)), Mom(R, -1, P, R)))
  [] k = "sp" -> RMul(Q(-Z, 1), RAdd(RMul(Q(1, 2 * P), RAdd(RMul(Q(3, 1), Mom(R, 0, 0, P)), RMul(Q(-1, P * P), Mom(R, 2, 0, P)))), Mom(R, -1, P, R)))
(* integral from s to R of (r-s)^n r^2 (R-r)^2, in half units: s2 = 2 s, R2 = 2 R; substituting t = r - s, with L = R - s, the integrand is t^n times a quartic in t *)
RECURSIVE Sum(_, _, _, _)
Sum(c, L, n, j) == IF j = 0 THEN <<0, 1>> ELSE RAdd(RMul(Q(c[j], 1), RPow(L, n + j, n + j)), Sum(c, L, n, j - 1))
Shifted(n, s2, R2) == LET L == R2 - s2  s == s2
                          c == <<s * s * L * L, 2 * s * L * L - 2 * s * s * L, L * L - 4 * s * L + s * s, 2 * s - 2 * L, 1>>
                      IN IF L <= 0 THEN <<0, 1>> ELSE RMul(Q(1, Pow(2, n + 5)), Sum(c, L, n, 5))
ConfRefused(ic, n, V, s2) == \/ ic \notin 0..4
                             \/ ic = 1 /\ n < 0 /\ s2 # 0
                             \/ ic = 2 /\ n < 1
                             \/ ic = 3 /\ V < 0
                             \/ ic = 4 /\ (n < 1 \/ V <= 0)
Sign(x) == IF x < 0 THEN -1 ELSE 1
Confined(ic, n, r0, V, s2, R) ==
  CASE ic = 0 -> <<0, 1>>
    [] ic = 1 -> IF n >= 0 THEN RMul(Q(Sign(r0), Pow(Abs(r0), n)), Shifted(n, s2, 2 * R))
                 ELSE RMul(Q(Sign(r0), Pow(Abs(r0), -n)), Mom(R, n, 0, R))
    [] ic = 3 -> RMul(Q(V, 1), Shifted(0, s2, 2 * R))
(* the tabulated wave functions' element boundaries in halves *)
TableBounds == <<0, 1, 4, 12>>
Inside(a, b) == SelectSeq(TableBounds, LAMBDA x : a < x /\ x < b)
(* ---- design check ---- *)
Sizes == {1, 2, 3, 5}
MInit == obj = None
MNext == \E k \in Kinds, p \in Sizes : New(k, p) \/ Resize(p)
MSpec == MInit /\ [][MNext]_obj
Exactly == obj.k \in {"pt", "ho", "sp"}
(* closer in less charge is seen; never more than all; all of it outside; continuous at the edge *)
Bounded == Exactly => \A r \in 1..8 : LET c == Charge(obj.k, obj.p, r) IN RLeq(c, Q(1, 1)) /\ (obj.k = "pt" \/ r < obj.p \/ c = Q(1, 1))
                                      /\ RLeq(Charge(obj.k, obj.p, r), Charge(obj.k, obj.p, r + 1))
(* the potential -Q/r rises with the distance *)
Rising == Exactly => \A r \in 1..8 : RLeq(RMul(Charge(obj.k, obj.p, r + 1), Q(1, r + 1)), RMul(Charge(obj.k, obj.p, r), Q(1, r)))
Edge == obj.k \in {"ho", "sp"} => Q(obj.p * (3 * obj.p * obj.p - obj.p * obj.p), 2 * obj.p * obj.p * obj.p) = Q(1, 1)
(* a nucleus binds less than a smaller one, and the shell less than the ball of the same radius, and the point binds most *)
Order == \A P \in 1..2 : LET R == 3 IN RLeq(Expect("pt", 1, 1, R), Expect("sp", 1, P, R)) /\ RLeq(Expect("sp", 1, P, R), Expect("ho", 1, P, R))
                                       /\ RLeq(Expect("ho", 1, P, R), Expect("ho", 1, P + 1, R)) /\ RLeq(Expect("sp", 1, P, R), Expect("sp", 1, P + 1, R))
(* without a shift the general formula is the plain moment; a shift weakens the confinement *)
ShiftLaws == \A n \in 0..3, R \in 1..3 : Shifted(n, 0, 2 * R) = Mom(R, n, 0, R) /\ \A s \in 0..(2 * R - 1) : RLeq(Shifted(n, s + 1, 2 * R), Shifted(n, s, 2 * R))
KinkInside == \A a \in 0..5, b \in 0..5 : LET s == Kinks(obj.k, obj.p, a, b) IN Len(s) <= 1 /\ (Len(s) = 1 => s[1] = obj.p /\ a < s[1] /\ s[1] < b)
=============================================================================
