------------------------------- MODULE AtomObs --------------------------------
(***************************************************************************)
(* Spherical atoms built up electron by electron from polynomial orbitals.  *)
(* An orbital of angular momentum l with the radial part w(r) = (R - r) g(r) *)
(* on [0, R] holds qa spin-up and qb spin-down electrons; every observable   *)
(* of the atom (densities, their derivatives, kinetic energy density, charge *)
(* inside a radius, screening of the nucleus) is then a polynomial in r with *)
(* rational coefficients, stated here exactly. Densities carry the angular   *)
(* factor 4 pi. A polynomial is the sequence of its coefficients from r^0 on.*)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE at
None == [k |-> "none", R |-> 1, orbs |-> <<>>]
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE Gcd(_, _), Pow(_, _), Digits(_, _, _), SumTo(_, _), Total(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Q(n, d) == LET g == Gcd(Abs(n), Abs(d))  s == IF d < 0 THEN -1 ELSE 1 IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
Digits(n, d, e) == IF e = 0 THEN n \div d ELSE 10 * (n \div d) * Pow(10, e - 1) + Digits((n % d) * 10, d, e - 1)
Fix(q, e) == IF q[1] < 0 THEN -Digits(-q[1], q[2], e) ELSE Digits(q[1], q[2], e)
(* ---- integer polynomials ---- *)
Co(p, j) == IF j \in 1..Len(p) THEN p[j] ELSE 0
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
PAdd(a, b) == TLCEval([j \in 1..Max(Len(a), Len(b)) |-> Co(a, j) + Co(b, j)])
PScale(f, a) == TLCEval([j \in 1..Len(a) |-> f * a[j]])
PMul(a, b) == TLCEval([j \in 1..(Len(a) + Len(b) - 1) |-> SumTo([i \in 1..j |-> Co(a, i) * Co(b, j + 1 - i)], j)])
PDer(a) == IF Len(a) = 1 THEN <<0>> ELSE TLCEval([j \in 1..(Len(a) - 1) |-> j * a[j + 1]])
PX(a) == <<0>> \o a                         \* times r
Eval(a, x) == SumTo([j \in 1..Len(a) |-> a[j] * Pow(x, j - 1)], Len(a))
(* ---- the atom ---- *)
Orbital(R, g) == PMul(<<R, -1>>, g)
Total(s, f) == IF s = <<>> THEN <<0>> ELSE PAdd(f[Len(s)], Total(SubSeq(s, 1, Len(s) - 1), f))
Held(o, sp) == CASE sp = "t" -> o.qa + o.qb [] sp = "a" -> o.qa [] sp = "b" -> o.qb
Density(x, sp) == Total(x.orbs, [n \in 1..Len(x.orbs) |-> PScale(Held(x.orbs[n], sp), PMul(x.orbs[n].w, x.orbs[n].w))])
Laplace(p) == PAdd(PX(PDer(PDer(p))), PScale(2, PDer(p)))       \* times r
Kinetic(x) == Total(x.orbs, [n \in 1..Len(x.orbs) |-> LET o == x.orbs[n]  d == PDer(o.w) IN
                 PScale(o.qa + o.qb, PAdd(PX(PX(PMul(d, d))), PScale(o.l * (o.l + 1), PMul(o.w, o.w))))])    \* twice, times r^2
(* rational polynomials: the charge inside r and the screening, that is the charge inside plus r times the potential of the charge outside *)
Inside(p) == TLCEval([j \in 1..(Len(p) + 3) |-> IF j <= 3 THEN <<0, 1>> ELSE Q(p[j - 3], j - 1)])
RECURSIVE RSum(_, _)
RSum(f, n) == IF n = 0 THEN <<0, 1>> ELSE RAdd(f[n], RSum(f, n - 1))
Screening(p, R) == LET n == Len(p)  outer == RSum([j \in 1..n |-> Q(p[j] * Pow(R, j + 1), j + 1)], n)
                   IN TLCEval([j \in 1..(n + 3) |-> CASE j = 1 -> <<0, 1>> [] j = 2 -> outer [] j = 3 -> <<0, 1>>
                                              [] OTHER -> RAdd(Q(p[j - 3], j - 1), Q(-p[j - 3], j - 2))])
Electrons(p, R) == RSum([j \in 1..Len(p) |-> Q(p[j] * Pow(R, j + 2), j + 2)], Len(p))
New(k, R) == at' = [k |-> k, R |-> R, orbs |-> <<>>]
Add(l, qa, qb, g) == at.k # "none" /\ at' = [at EXCEPT !.orbs = Append(at.orbs, [l |-> l, qa |-> qa, qb |-> qb, w |-> Orbital(at.R, g)])]
Swap == at.k # "none" /\ at' = [at EXCEPT !.orbs = [n \in 1..Len(at.orbs) |-> [at.orbs[n] EXCEPT !.qa = at.orbs[n].qb, !.qb = at.orbs[n].qa]]]
Monotone(x) == \A n \in 1..Len(x.orbs) : Tail(x.orbs[n].w) # <<>> /\ \A j \in 3..Len(x.orbs[n].w) : x.orbs[n].w[j] = 0
(* ---- design check ---- *)
MInit == at = None
Gs == {<<1, 0, 0>>, <<1, -1, 0>>, <<0, 1, 0>>, <<2, -1, 1>>}
MNext == \/ at.k = "none" /\ \E R \in {2, 3} : New("m", R)
         \/ Len(at.orbs) < 2 /\ \E l \in 0..1, qa \in 0..1, qb \in 1..2, g \in Gs : Add(l, qa, qb, g)
         \/ Swap
MSpec == MInit /\ [][MNext]_at
Some == at.k # "none" /\ at.orbs # <<>>
Rr(x) == x[1]  \* numerator
Positive == Some => \A x \in 0..at.R : Eval(Density(at, "t"), x) >= 0 /\ Eval(Kinetic(at), x) >= 0
Spins == Some => Density(at, "t") = PAdd(Density(at, "a"), Density(at, "b"))
Vanishes == Some => Eval(Density(at, "t"), at.R) = 0 /\ Eval(PDer(Density(at, "t")), at.R) = 0
(* at the outer end everything is inside, and all of it screens *)
REval(f, R) == RSum([j \in 1..Len(f) |-> Q(f[j][1] * Pow(R, j - 1), f[j][2])], Len(f))
AllInside == Some => LET p == Density(at, "t") IN REval(Inside(p), at.R) = Electrons(p, at.R) /\ REval(Screening(p, at.R), at.R) = Electrons(p, at.R)
(* inside, the screening is at least the enclosed charge *)
Leq(a, b) == a[1] * b[2] <= b[1] * a[2]
Screens == Some => LET p == Density(at, "t") IN \A x \in 0..(at.R - 1) : LET a == REval(Inside(p), x)  b == REval(Screening(p, at.R), x) IN Fix(a, 1) <= Fix(b, 1)
(* Poisson: r times the screening's second derivative is minus r^2 times the density *)
Poisson == Some => LET p == Density(at, "t")  s == Screening(p, at.R) IN
             \A j \in 1..Len(p) : LET c == s[j + 3] IN Q(c[1] * (j + 2) * (j + 1), c[2]) = Q(-p[j], 1)
SwapTwice == Some => Density([at EXCEPT !.orbs = [n \in 1..Len(at.orbs) |-> [at.orbs[n] EXCEPT !.qa = at.orbs[n].qb, !.qb = at.orbs[n].qa]]], "a") = Density(at, "b")
(* for one s orbital the kinetic energy density is the von Weizsacker one: 2 tau rho = (rho' / 2)^2 *)
Weizsacker == (Some /\ Len(at.orbs) = 1 /\ at.orbs[1].l = 0) =>
   LET p == Density(at, "t")  k == Kinetic(at)  d == PDer(p)  a == PScale(4, PMul(k, p))  b == PX(PX(PMul(d, d))) IN \A j \in 1..12 : Co(a, j) = Co(b, j)
=============================================================================
