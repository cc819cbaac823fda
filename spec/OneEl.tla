------------------------------- MODULE OneEl -------------------------------
(***************************************************************************)
(* One electron in the field of one or two nuclei: exact spectra and        *)
(* expectation values as rational numbers (in units scaled with the nuclear *)
(* charge, so that they do not depend on it).                               *)
(* seen: two-centre systems met so far, <<smaller charge, larger charge,    *)
(* distance>> reduced to coprime charges |-> what was observed, because     *)
(* scaling all charges or exchanging the nuclei must not change it.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE seen
(* a rational is <<numerator, denominator>>, denominator > 0 *)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
RMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
RAdd(a, b) == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
REq(a, b) == a[1] * b[2] = b[1] * a[2]
(* hydrogenic state (n, l, m) *)
States(N) == {<<n, l, m>> \in (1..N) \X (0..(N - 1)) \X ((1 - N)..(N - 1)) : l < n /\ Abs(m) <= l}
R2(n, l) == Q(n * n * (5 * n * n + 1 - 3 * l * (l + 1)), 2)
Radial(k, n, l) == CASE k = -2 -> Q(2, n * n * n * (2 * l + 1)) [] k = -1 -> Q(1, n * n) [] k = 0 -> Q(1, 1)
                     [] k = 1 -> Q(3 * n * n - l * (l + 1), 2) [] k = 2 -> R2(n, l)
                     [] k = 3 -> Q(n * n * (35 * n * n * (n * n - 1) - 30 * n * n * (l + 2) * (l - 1) + 3 * (l + 2) * (l + 1) * l * (l - 1)), 8)
Sin2(l, m) == IF l = 0 THEN Q(2, 3) ELSE Q(2 * (l * l + l - 1 + m * m), (2 * l - 1) * (2 * l + 3))
P2(l, m) == IF l = 0 THEN Q(0, 1) ELSE Q(l * (l + 1) - 3 * m * m, (2 * l - 1) * (2 * l + 3))
Energy2(n) == Q(-1, n * n)                         \* twice the energy
Kin(n) == Q(1, 2 * n * n)
Pot(n) == Q(-1, n * n)
Dia(n, l, m) == RMul(Q(1, 2), RMul(R2(n, l), Sin2(l, m)))      \* field of strength 2
Quad(n, l, m) == RMul(R2(n, l), P2(l, m))
(* squared dipole moment between the circular states of l and l+1: radial parts squared in units 10^-4 *)
RadialTransition == [l \in {0, 1} |-> IF l = 0 THEN 16648 ELSE 225434]
Cos2(l, m) == Q((l + 1) * (l + 1) - m * m, (2 * l + 1) * (2 * l + 3))
Slater == [k \in {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<2, 1>>, <<2, 2>>} |->
  CASE k = <<0, 0>> -> Q(5, 8) [] k = <<0, 1>> -> Q(93, 512) [] k = <<0, 2>> -> Q(793, 9216) [] k = <<2, 1>> -> Q(45, 512) [] k = <<2, 2>> -> Q(2093, 46080)]
(* spectrum of a list of angular channels up to principal quantum number N, as a sequence of principal quantum numbers *)
RECURSIVE Times(_, _), Spectrum(_, _, _)
Times(n, c) == IF c = 0 THEN <<>> ELSE <<n>> \o Times(n, c - 1)
Spectrum(ls, n, N) == IF n > N THEN <<>> ELSE Times(n, Cardinality({i \in 1..Len(ls) : ls[i] < n})) \o Spectrum(ls, n + 1, N)
(* equality of a recorded integer in units u^-1 with a rational *)
Want(q, u) == IF q[1] >= 0 THEN (u * q[1]) \div q[2] ELSE -((u * (-q[1])) \div q[2])
Near(v, q, u) == LET w == Want(q, u) IN Abs(v - w) <= 2 + Abs(w) \div 10000
(* ---- two centres ---- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Key(z1, z2, R) == LET g == Gcd(z1, z2) IN <<Min2(z1, z2) \div g, Max2(z1, z2) \div g, R>>
(* hydrogen molecule ion at the distance 2: twice the energies in units 10^-6 of the lowest states of |m| = 0, 1, 2, and of the odd sigma state *)
H2plus == [m \in 0..2 |-> CASE m = 0 -> -2205268 [] m = 1 -> -857544 [] m = 2 -> -425465]
H2plusOdd == -1335069
Observe(z1, z2, R, what) == seen' = (Key(z1, z2, R) :> what) @@ seen
(* ---- design check: the formulas satisfy the virial theorem, Kramers' relation, angular sum rules and the counting of levels ---- *)
VARIABLES vn, vl, vm
OInit == seen = <<>> /\ vn = 1 /\ vl = 0 /\ vm = 0
ONext == \E s \in States(5) : vn' = s[1] /\ vl' = s[2] /\ vm' = s[3] /\ UNCHANGED seen
OSpec == OInit /\ [][ONext]_<<seen, vn, vl, vm>>
Virial == REq(RAdd(RMul(Q(2, 1), Kin(vn)), Pot(vn)), Q(0, 1)) /\ REq(RAdd(RMul(Q(2, 1), Kin(vn)), RMul(Q(2, 1), Pot(vn))), Energy2(vn))
KramersAt(s) == LET A == RMul(Q(s + 1, vn * vn), Radial(s, vn, vl))  B == RMul(Q(-(2 * s + 1), 1), Radial(s - 1, vn, vl))
                    C == IF s = 0 THEN Q(0, 1) ELSE RMul(Q(s * ((2 * vl + 1) * (2 * vl + 1) - s * s), 4), Radial(s - 2, vn, vl))
                    AB == RAdd(A, B)
                IN REq(AB, Q(-C[1], C[2]))
Kramers == \A s \in 0..2 : KramersAt(s)
(* sum over m of 3 m^2 is l (l+1) (2l+1), so a filled shell has no quadrupole moment *)
RECURSIVE SumSq(_)
SumSq(k) == IF k = 0 THEN 0 ELSE 2 * k * k + SumSq(k - 1)
Unsold == 3 * SumSq(vl) = vl * (vl + 1) * (2 * vl + 1)
SinCos == REq(RAdd(Sin2(vl, vm), RAdd(RMul(Q(2, 3), P2(vl, vm)), Q(1, 3))), Q(1, 1))      \* sin^2 + cos^2 = 1
Degeneracy == Cardinality({s \in States(5) : s[1] = vn}) = vn * vn
=============================================================================
