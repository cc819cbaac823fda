--------------------------------- MODULE Nao ----------------------------------
(***************************************************************************)
(* Radial bases of numerical orbitals over finite elements. A workspace of   *)
(* finite-element grids on [0,1] and of orbital bases, each resting on one   *)
(* grid (its position in fes) and holding orbitals u(r) = r (1-r) (a + b r).  *)
(* All one-electron matrices, orbital values and Slater integrals of such    *)
(* orbitals are exact rationals. Two bases work together only when they rest *)
(* on the same grid object. Slater and Gaussian functions have rational      *)
(* overlap squares and rational operator-to-overlap ratios.                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES fes, bases
vars == <<fes, bases>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _), Pow(_, _), Digits(_, _, _), SumTo(_, _), Fact(_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RMul(a, b) == LET g == Gcd(Abs(a[1]), b[2])  h == Gcd(Abs(b[1]), a[2]) IN
              IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RECURSIVE RPow(_, _)
RPow(a, e) == IF e = 0 THEN <<1, 1>> ELSE RMul(a, RPow(a, e - 1))
Digits(n, d, e) == IF e = 0 THEN n \div d ELSE 10 * (n \div d) * Pow(10, e - 1) + Digits((n % d) * 10, d, e - 1)
Fix(q, e) == IF q[1] < 0 THEN -Digits(-q[1], q[2], e) ELSE Digits(q[1], q[2], e)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
(* ---- polynomials: coefficient of r^(j-1) at position j ---- *)
Co(p, j) == IF j \in 1..Len(p) THEN p[j] ELSE 0
PMul(a, b) == TLCEval([j \in 1..(Len(a) + Len(b) - 1) |-> SumTo([i \in 1..j |-> Co(a, i) * Co(b, j + 1 - i)], j)])
PDer(a) == TLCEval([j \in 1..(Len(a) - 1) |-> j * a[j + 1]])
PAdd(a, b) == TLCEval([j \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> Co(a, j) + Co(b, j)])
PScale(f, a) == TLCEval([j \in 1..Len(a) |-> f * a[j]])
U(g) == <<0, g[1], g[2] - g[1], -g[2]>>
(* integral of p r^-d over [0,1] in units 10^-8, p starting at a sufficient power *)
Int8(p, d) == SumTo([j \in 1..Len(p) |-> IF p[j] = 0 THEN 0 ELSE Fix(Q(p[j], j - d), 8)], Len(p))
One(o, g, h) == CASE o = "S" -> Int8(PMul(U(g), U(h)), 0)
                  [] o = "T" -> Int8(PMul(PDer(U(g)), PDer(U(h))), 0) \div 2
                  [] o = "L" -> Int8(PMul(U(g), U(h)), 2) \div 2
                  [] o = "V" -> -Int8(PMul(U(g), U(h)), 1)
(* double integral of p(r) q(s) r<^k / r>^(k+1) *)
Slater(k, p, q) == SumTo([n \in 1..(Len(p) * Len(q)) |-> LET i == (n - 1) \div Len(q)  j == (n - 1) % Len(q)  c == p[i + 1] * q[j + 1] IN
                     IF c = 0 THEN 0 ELSE Fix(Q(c * (i + j + 2 * k + 2), (i + k + 1) * (j + k + 1) * (i + j + 1)), 8)], Len(p) * Len(q))
RECURSIVE Charge(_, _, _)
Charge(g, D, n) == IF n = 0 THEN <<0>> ELSE LET m == Len(g)  a == ((n - 1) \div m) + 1  b == ((n - 1) % m) + 1 IN
                     PAdd(PScale(D[a][b], PMul(U(g[a]), U(g[b]))), Charge(g, D, n - 1))
Two(o, k, g, h, D, i, j) ==
   IF o = "J" THEN Slater(k, PMul(U(g[i]), U(g[j])), Charge(h, D, Len(h) * Len(h)))
   ELSE SumTo([n \in 1..(Len(h) * Len(h)) |-> LET a == ((n - 1) \div Len(h)) + 1  b == ((n - 1) % Len(h)) + 1 IN
                 IF D[a][b] = 0 THEN 0 ELSE D[a][b] * Slater(k, PMul(U(g[i]), U(h[a])), PMul(U(g[j]), U(h[b])))], Len(h) * Len(h))
(* value of the orbital at r = k/16, over r, times 16^2 *)
OrbAt(g, k) == (16 - k) * (16 * g[1] + k * g[2])
(* ---- actions ---- *)
AddFE == fes' = fes + 1 /\ UNCHANGED bases
MakeRefused(f, n) == f = 0 \/ n <= 0
Make(f, n, g) == UNCHANGED fes /\ bases' = IF MakeRefused(f, n) THEN bases ELSE Append(bases, [f |-> f, g |-> g])
TwoRefused(b, c, n) == bases[b].f # bases[c].f \/ n # Len(bases[c].g)
(* ---- Slater and Gaussian primitives; exponents in halves, so z1 + z2 = s/2 ---- *)
PrimRefused(t, p, z) == \E i \in 1..2 : z[i] <= 0 \/ p[i] < (IF t = "sto" THEN 1 ELSE 0)
Mul8(a, b) == LET a1 == a \div 10000  a2 == a % 10000  b1 == b \div 10000  b2 == b % 10000 IN a1 * b1 + ((a1 * b2 + a2 * b1) \div 10000)   \* units 10^-8
RECURSIVE Pow8(_, _)
Pow8(a, e) == IF e = 0 THEN 100000000 ELSE Mul8(a, Pow8(a, e - 1))
Balance(z) == Q(4 * z[1] * z[2], (z[1] + z[2]) * (z[1] + z[2]))
RECURSIVE Prod8(_, _, _)
Prod8(x, g, n) == IF n = 0 THEN x ELSE Mul8(Prod8(x, g, n - 1), Fix(g[n], 8))
(* square of the overlap, units 10^-8 *)
StoSq(p, z) == LET s == z[1] + z[2]  lo == IF p[1] < p[2] THEN 1 ELSE 2  hi == 3 - lo
                   d == p[hi] - p[lo]
                   g == [t \in 1..d |-> Q((2 * p[lo] + t) * 4 * z[hi] * z[hi], (p[1] + p[2] + t) * s * s)]      \* ((n+m)!)^2 / ((2n)! (2m)!) (2 z/s)^(2d), factor by factor
               IN Prod8(Pow8(Fix(Balance(z), 8), 2 * p[lo] + 1), g, d)
StoInv(p, z) == Q(z[1] + z[2], 2 * (p[1] + p[2]))                                                    \* <1/r> / <1>
StoInv2(p, z) == LET s == z[1] + z[2]  m == p[1] + p[2] IN Q(s * s, 4 * m * (m - 1))                 \* <1/r^2> / <1>
StoKin(p, z) == RMul(<<1, 2>>, RAdd(RMul(Q(p[1] * p[2], 1), StoInv2(p, z)), RAdd(RMul(Q(-(p[1] * z[2] + p[2] * z[1]), 2), StoInv(p, z)), Q(z[1] * z[2], 4))))
(* two Gaussians of equal power n: fourth power of the overlap *)
GtoQuart(n, z) == Pow8(Fix(Balance(z), 8), 2 * n + 3)
GtoInv2(n, z) == Q(z[1] + z[2], 2 * n + 1)
GtoKin(n, z) == LET s == z[1] + z[2] IN RMul(<<1, 2>>, RAdd(RMul(Q((n + 1) * (n + 1), 1), GtoInv2(n, z)), RAdd(Q(-(n + 1) * s, 1), Q(z[1] * z[2] * (2 * n + 3), s))))
RECURSIVE DFact(_)
DFact(n) == IF n <= 1 THEN 1 ELSE n * DFact(n - 2)
GtoInvSq(n, z) == Q((z[1] + z[2]) * Fact(n) * Fact(n) * Pow(4, n + 1), 2 * DFact(2 * n + 1) * DFact(2 * n + 1))   \* pi <1/r>^2 / <1>^2
(* ---- extraction of orbitals per angular momentum ---- *)
ExtractRefused(nc, kp) == Len(nc) # Len(kp) \/ \E l \in 1..Len(kp) : kp[l] > nc[l]
Kept(nc, kp, l) == IF kp[l] < 0 THEN nc[l] ELSE kp[l]
RECURSIVE Ls(_, _)
Ls(kp, l) == IF l = 0 THEN <<>> ELSE IF kp[l] = 0 THEN Ls(kp, l - 1) ELSE Append(Ls(kp, l - 1), l)
(* ---- design check ---- *)
Gs == {<<1, 0>>, <<0, 1>>, <<1, -1>>, <<-1, 1>>}
MInit == fes = 0 /\ bases = <<>>
MNext == \/ fes < 2 /\ AddFE
         \/ fes > 0 /\ Len(bases) < 2 /\ \E f \in 0..fes, g \in Gs, h \in Gs : \E s \in {<<g>>, <<g, h>>} : Make(f, Len(s), s)
MSpec == MInit /\ [][MNext]_vars
Pairs == {<<bases[x].g[i], bases[y].g[j]>> : x \in 1..Len(bases), y \in 1..Len(bases), i \in {1}, j \in {1}}
Symmetric == \A p \in Pairs, o \in {"S", "T", "L", "V"} : One(o, p[1], p[2]) = One(o, p[2], p[1])
Definite == \A p \in Pairs : One("S", p[1], p[1]) > 0 /\ One("T", p[1], p[1]) > 0 /\ One("V", p[1], p[1]) < 0
(* Gauss' law bounds: higher multipoles interact less; exchange of the two charge clouds *)
Reciprocal == \A p \in Pairs, k \in 0..2 : LET a == PMul(U(p[1]), U(p[1]))  b == PMul(U(p[2]), U(p[2])) IN
                Abs(Slater(k, a, b) - Slater(k, b, a)) <= 50 /\ Slater(k, a, b) > Slater(k + 1, a, b)
(* one electron: direct and exchange integrals coincide *)
SelfCancel == \A x \in 1..Len(bases) : Len(bases[x].g) = 1 => LET g == bases[x].g IN Abs(Two("J", 1, g, g, <<<<1>>>>, 1, 1) - Two("K", 1, g, g, <<<<1>>>>, 1, 1)) <= 60
Primitives == \A n \in 1..6, m \in 1..6, z \in 1..4 : StoSq(<<n, n>>, <<z, z>>) = 100000000 /\ StoSq(<<n, m>>, <<z, 3>>) <= 100000000
Grounded == \A b \in 1..Len(bases) : bases[b].f \in 1..fes
=============================================================================
