-------------------------------- MODULE Gaunt --------------------------------
(***************************************************************************)
(* Angular coupling tables.  The exact integral of three spherical          *)
(* harmonics is sign * sqrt(rational / 4 pi); sign and rational are computed *)
(* here from binomials, independently of any library.  A table has ranges    *)
(* and a window on the azimuthal numbers.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE tab            \* the current table: [L, l, lp, cap], or the empty record <<>>
gvars == <<tab>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Even(x) == x % 2 = 0
(* ---- nonnegative rationals <<n, d>> in lowest terms ---- *)
Rat(n, d) == LET g == Gcd(n, d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
RMul(a, b) == LET g == Gcd(a[1], b[2]) h == Gcd(b[1], a[2]) IN
              IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>> ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RInv(a) == <<a[2], a[1]>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN LET e == b[2] \div g f == a[2] \div g IN Rat(a[1] * e + b[1] * f, a[2] * e)
RSub(a, b) == LET g == Gcd(a[2], b[2]) IN LET e == b[2] \div g f == a[2] \div g n == a[1] * e - b[1] * f IN      \* absolute difference
              Rat(Abs(n), a[2] * e)
RLe(a, b) == LET g == Gcd(a[2], b[2]) IN a[1] * (b[2] \div g) <= b[1] * (a[2] \div g)
ROne == <<1, 1>>
RZero == <<0, 1>>
RInt(n) == <<n, 1>>
(* floor(10^8 a) by long division; a < 21 and denominator below 2*10^8 *)
RECURSIVE Dig(_, _, _, _)
Dig(q, r, d, k) == IF k = 0 THEN q ELSE Dig(q * 10 + ((r * 10) \div d), (r * 10) % d, d, k - 1)
Fix8(a) == Dig(a[1] \div a[2], a[1] % a[2], a[2], 8)
RECURSIVE ISqrt(_, _, _)
ISqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET mid == (lo + hi + 1) \div 2 IN IF mid * mid <= n THEN ISqrt(n, mid, hi) ELSE ISqrt(n, lo, mid - 1)
Sqrt4(a) == ISqrt(Fix8(a), 0, 46340)              \* 10^4 sqrt(a), rounded down
(* ---- binomials, Clebsch-Gordan sums ---- *)
RECURSIVE BinR(_, _)
BinR(n, k) == IF k = 0 THEN 1 ELSE (BinR(n, k - 1) * (n - k + 1)) \div k
Bin(n, k) == IF k < 0 \/ k > n \/ n < 0 THEN 0 ELSE BinR(n, Min(k, n - k))
RECURSIVE SumK(_, _, _, _, _, _)
SumK(j1, m1, j2, m2, j, k) == IF k > j1 + j2 - j THEN 0 ELSE
   (IF Even(k) THEN 1 ELSE -1) * Bin(j1 + j2 - j, k) * Bin(j1 - j2 + j, j1 - m1 - k) * Bin(j2 - j1 + j, j2 + m2 - k) + SumK(j1, m1, j2, m2, j, k + 1)
Tri(a, b, c) == Abs(a - b) <= c /\ c <= a + b
(* <<sign, square>> of the coupling of (j1 m1)(j2 m2) to (j, m1+m2) *)
CG(j1, m1, j2, m2, j) ==
   IF ~Tri(j1, j2, j) \/ Abs(m1) > j1 \/ Abs(m2) > j2 \/ Abs(m1 + m2) > j THEN <<0, RZero>>
   ELSE LET s == SumK(j1, m1, j2, m2, j, 0) q == RInt(Abs(s)) IN
        IF s = 0 THEN <<0, RZero>>
        ELSE LET pre == RMul(RMul(Rat(Bin(2 * j1, j1 + j2 - j), Bin(2 * j1, j1 - m1)), Rat(Bin(2 * j2, j1 + j2 - j), Bin(2 * j2, j2 - m2))), RInv(RInt(Bin(j1 + j2 + j + 1, j1 + j2 - j))))
                 p2 == RMul(pre, RInv(RInt(Bin(2 * j, j - m1 - m2)))) IN
             <<Sgn(s), RMul(RMul(p2, q), q)>>
(* integral of three harmonics, m1+m2+m3 = 0: <<sign, 4 pi value^2>> *)
Triple(l1, m1, l2, m2, l3, m3) ==
   IF m1 + m2 + m3 # 0 \/ ~Even(l1 + l2 + l3) \/ ~Tri(l1, l2, l3) \/ Abs(m1) > l1 \/ Abs(m2) > l2 \/ Abs(m3) > l3 THEN <<0, RZero>>
   ELSE LET a == CG(l1, 0, l2, 0, l3) b == CG(l1, m1, l2, m2, l3) IN
        IF a[1] * b[1] = 0 THEN <<0, RZero>>
        ELSE <<a[1] * b[1] * (IF Even(m3) THEN 1 ELSE -1), RMul(RMul(Rat((2 * l1 + 1) * (2 * l2 + 1), 2 * l3 + 1), a[2]), b[2])>>
(* conj(Y_L^M) Y_l^m Y_lp^(M-m) *)
G(L, M, l, m, lp, mp) == LET t == Triple(L, -M, l, m, lp, mp) IN <<t[1] * (IF Even(M) THEN 1 ELSE -1), t[2]>>
(* ---- powers of the cosine: coupling of l and lp at the same m is R * sqrt(product of squared steps) ---- *)
C2(l, m) == IF Abs(m) >= l THEN RZero ELSE Rat(l * l - m * m, 4 * l * l - 1)     \* squared coupling of l-1 and l
RECURSIVE CosR(_, _, _, _)
CosR(n, i, j, m) ==       \* the rational factor R of cos^n between i and j
   IF i > j THEN CosR(n, j, i, m)
   ELSE IF i < Abs(m) \/ j - i > n \/ ~Even(n - (j - i)) THEN RZero
   ELSE IF n = 0 THEN ROne
   ELSE IF i = j THEN RAdd(IF i = Abs(m) THEN RZero ELSE RMul(CosR(n - 1, i, i - 1, m), C2(i, m)), RMul(CosR(n - 1, i, i + 1, m), C2(i + 1, m)))
        ELSE RAdd(CosR(n - 1, i, j - 1, m), RMul(CosR(n - 1, i, j + 1, m), C2(j + 1, m)))
RECURSIVE Steps(_, _, _)
Steps(i, j, m) == IF i >= j THEN ROne ELSE RMul(C2(i + 1, m), Steps(i + 1, j, m))
Kinds == {"cos", "cos2", "cos3", "cos4", "cos5", "sin2", "cos2sin2"}
Pow(k) == CASE k = "cos" -> 1 [] k = "cos2" -> 2 [] k = "cos3" -> 3 [] k = "cos4" -> 4 [] k = "cos5" -> 5 [] k = "sin2" -> 2 [] k = "cos2sin2" -> 4
(* <<sign, square>> *)
Signed(a, b) == IF RLe(b, a) THEN <<IF a = b THEN 0 ELSE 1, RSub(a, b)>> ELSE <<-1, RSub(b, a)>>
Coupl(k, lj, mj, li, mi) ==
   IF mi # mj \/ Abs(mi) > li \/ Abs(mj) > lj THEN <<0, RZero>>
   ELSE LET i == Min(lj, li) j == Max(lj, li)
            R == CASE k \in {"cos", "cos2", "cos3", "cos4", "cos5"} -> <<1, CosR(Pow(k), i, j, mi)>>
                   [] k = "sin2" -> Signed(IF i = j THEN ROne ELSE RZero, CosR(2, i, j, mi))
                   [] k = "cos2sin2" -> Signed(CosR(2, i, j, mi), CosR(4, i, j, mi)) IN
        IF R[2] = RZero THEN <<0, RZero>> ELSE <<R[1], RMul(RMul(R[2], R[2]), Steps(i, j, mi))>>
(* ---- coupling through cos^2: integral of conj(Y_lj) cos^2 Y_L Y_li, 10^4 sqrt(4 pi) times ---- *)
CosElem4(Lp, L, M) == LET c == Coupl("cos2", Lp, M, L, M) IN c[1] * Sqrt4(c[2])
ModTerm(lj, mj, L, M, li, mi, Lp) == LET g == G(lj, mj, li, mi, Lp, M) IN (CosElem4(Lp, L, M) * g[1] * Sqrt4(g[2])) \div 10000
RECURSIVE ModSum(_, _, _, _, _, _, _)
ModSum(lj, mj, L, M, li, mi, S) == IF S = {} THEN 0 ELSE LET Lp == CHOOSE x \in S : TRUE IN ModTerm(lj, mj, L, M, li, mi, Lp) + ModSum(lj, mj, L, M, li, mi, S \ {Lp})
Mod4(lj, mj, L, M, li, mi) == IF mj # M + mi \/ Abs(mj) > lj \/ Abs(mi) > li \/ Abs(M) > L THEN 0
                              ELSE ModSum(lj, mj, L, M, li, mi, {x \in {L - 2, L, L + 2} : x >= Abs(M)})
(* ---- the table ---- *)
Table(L, l, lp, cap) == [L |-> L, l |-> l, lp |-> lp, cap |-> LET a == Max(L, Max(l, lp)) IN IF cap < 0 THEN a ELSE Min(cap, a)]
InRange(t, L, M, l, m, lp) == L \in 0..t.L /\ l \in 0..t.l /\ lp \in 0..t.lp /\ Abs(M) <= L /\ Abs(m) <= l
InWindow(t, M, m) == Abs(M) <= t.cap /\ Abs(m) <= t.cap
Selection(L, M, l, m, lp) == Tri(L, l, lp) /\ Even(L + l + lp) /\ Abs(M - m) <= lp
(* the answer of a lookup: "zero", "error", "either" or "value" *)
Lookup(t, L, M, l, m, lp) ==
   IF ~InRange(t, L, M, l, m, lp) THEN "zero"
   ELSE IF InWindow(t, M, m) THEN IF Selection(L, M, l, m, lp) THEN "value" ELSE "zero"
   ELSE IF Selection(L, M, l, m, lp) THEN "error" ELSE "either"
Build(L, l, lp, cap) == tab' = Table(L, l, lp, cap)
(* ---- design check: the definitions obey the laws the integrals must obey ---- *)
CONSTANT LMaxM
NInit == tab = <<0, 0, 0, 0, 0>>
NNext == \E l1, l2, l3 \in 0..LMaxM : \E m1 \in -l1..l1, m2 \in -l2..l2 : tab' = <<l1, m1, l2, m2, l3>> /\ tab[1] = 0 /\ tab[3] = 0 /\ tab[5] = 0
NSpec == NInit /\ [][NNext]_tab
TheT(a, b, c, x, y, z) == Triple(a, x, b, y, c, z)
Symmetric == LET l1 == tab[1] m1 == tab[2] l2 == tab[3] m2 == tab[4] l3 == tab[5] m3 == -m1 - m2 t == Triple(l1, m1, l2, m2, l3, m3) IN
   /\ t = Triple(l2, m2, l1, m1, l3, m3) /\ t = Triple(l3, m3, l2, m2, l1, m1) /\ t = Triple(l1, -m1, l2, -m2, l3, -m3)
CosAgrees == LET l == tab[1] m == tab[2] IN l > 0 => Coupl("cos", l, m, l - 1, m)[2] = RMul(RMul(<<1, 3>>, G(l, m, 1, 0, l - 1, m)[2]), ROne)
Trivial == LET l == tab[1] m == tab[2] IN G(l, m, 0, 0, l, m) = <<1, ROne>>
SinCos == LET l == tab[1] m == tab[2] IN RAdd(Coupl("sin2", l, m, l, m)[2], RZero) = Coupl("sin2", l, m, l, m)[2] /\ LET s == RSub(ROne, CosR(2, l, l, m)) IN Coupl("sin2", l, m, l, m)[2] = RMul(s, s)
(* a narrower window never changes a defined answer *)
WindowSafe == \A c \in 0..2 : LET w == Table(3, 3, 3, c) f == Table(3, 3, 3, -1) l1 == tab[1] m1 == tab[2] l2 == tab[3] m2 == tab[4] l3 == tab[5] IN
   Lookup(w, l1, m1, l2, m2, l3) \in {"zero", "value"} => Lookup(w, l1, m1, l2, m2, l3) = Lookup(f, l1, m1, l2, m2, l3)
SelectionNecessary == LET l1 == tab[1] m1 == tab[2] l2 == tab[3] m2 == tab[4] l3 == tab[5] IN ~Selection(l1, m1, l2, m2, l3) => G(l1, m1, l2, m2, l3, m1 - m2)[1] = 0
=============================================================================
