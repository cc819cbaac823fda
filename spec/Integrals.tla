------------------------------ MODULE Integrals -------------------------------
(***************************************************************************)
(* The functions behind the matrices. A basis stands for functions of three  *)
(* dimensions: in every angular channel (l,m) a radial function times a      *)
(* spherical harmonic. The matrices a basis hands out are the integrals of   *)
(* these functions. The angular part of an integral is an exact number: the  *)
(* square of what cos(theta), or the second Legendre polynomial of it,       *)
(* couples two channels by is rational, and it vanishes outside the          *)
(* selection rules. Radial parts are integrated directly when a trace is     *)
(* recorded and enter as deviations.                                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES basis, asked
ivars == <<basis, asked>>
None == [k |-> "none"]
Abs(x) == IF x < 0 THEN -x ELSE x
(* ---- what cos and P2 couple ---- *)
(* square of <l m|cos|l+1 m> *)
C1(l, m) == [n |-> (l + 1) * (l + 1) - m * m, d |-> (2 * l + 1) * (2 * l + 3)]
(* <l m|P2(cos)|l m> *)
D2(l, m) == [n |-> l * (l + 1) - 3 * m * m, d |-> (2 * l - 1) * (2 * l + 3)]
Zero == [n |-> 0, d |-> 1]
Mul(a, b) == [n |-> a.n * b.n, d |-> a.d * b.d]
Min(x, y) == IF x < y THEN x ELSE y
Square(k, c, e) == LET l == Min(c[1], e[1]) m == c[2] dl == Abs(c[1] - e[1]) IN
   IF c[2] # e[2] THEN Zero
   ELSE CASE k = 1 /\ dl = 1 -> C1(l, m)
          [] k = 2 /\ dl = 0 -> Mul(D2(l, m), D2(l, m))
          [] k = 2 /\ dl = 2 -> Mul([n |-> 9, d |-> 4], Mul(C1(l, m), C1(l + 1, m)))
          [] OTHER -> Zero
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
Sign(k, c, e) == IF Square(k, c, e).n = 0 THEN 0 ELSE IF k = 2 /\ c = e THEN Sgn(D2(c[1], c[2]).n) * Sgn(D2(c[1], c[2]).d) ELSE 1
(* the first digits of a fraction, as an integer *)
RECURSIVE Digits(_, _, _, _)
Digits(n, d, k, acc) == IF k = 0 THEN acc ELSE LET t == 10 * (n % d) IN Digits(t % d, d, k - 1, acc * 10 + t \div d)
Fixed(f) == Digits(f.n % f.d, f.d, 8, f.n \div f.d)
(* ---- which channels an operator couples ---- *)
Ops(k) == IF k = "sad" THEN {"overlap", "kinetic", "kinetic_l", "nuclear"} ELSE {"overlap", "kinetic", "nuclear", "dipole", "quadrupole", "Bz"}
Steps(b, op) == LET Odd == IF b.chg[2] # b.chg[3] THEN 1..100 ELSE {x \in 1..100 : x % 2 = 0} IN
   IF b.k = "dia" THEN CASE op = "overlap" -> {0, 2} [] op = "kinetic" -> {0} [] op = "nuclear" -> IF b.chg[2] # b.chg[3] THEN {0, 1} ELSE {0} [] op = "dipole" -> {1, 3} [] OTHER -> {0, 2, 4}
   ELSE CASE op \in {"overlap", "kinetic", "kinetic_l"} -> {0} [] op = "nuclear" -> IF b.chg[2] = 0 /\ b.chg[3] = 0 THEN {0} ELSE {0} \cup Odd [] op = "dipole" -> {1} [] OTHER -> {0, 2}
Allowed(b, op) == {p \in (1..Len(b.ch)) \X (1..Len(b.ch)) : b.ch[p[1]][2] = b.ch[p[2]][2] /\ Abs(b.ch[p[1]][1] - b.ch[p[2]][1]) \in Steps(b, op)}
Two(k) == CASE k = "dia" -> {"J", "K"} [] OTHER -> {"J", "K", "Y", "E"}
Closed(b) == \A x \in 1..Len(b.ch) : \E y \in 1..Len(b.ch) : b.ch[y][1] = b.ch[x][1] /\ b.ch[y][2] = 0 - b.ch[x][2]
(* ---- sizes ---- *)
Cont(f) == CASE f \in {5, 101} -> 1 [] f = 8 -> 2 [] f = 9 -> 3 [] OTHER -> 0
Deg(b) == (Cont(b.fam) + 1) * b.nn - 1
Rad(b) == (Len(b.grid) - 1) * (Deg(b) - Cont(b.fam)) + Cont(b.fam) + 1 - (IF b.k = "dia" THEN 1 ELSE 2) - (IF b.zd \/ b.k = "dia" THEN Cont(b.fam) ELSE 0)
RECURSIVE SumF(_, _)
SumF(b, n) == IF n = 0 THEN 0 ELSE SumF(b, n - 1) + Rad(b) - (IF b.k = "dia" /\ b.ch[n][2] # 0 THEN 1 ELSE 0)
Nbf(b) == IF b.k = "sad" THEN Rad(b) ELSE SumF(b, Len(b.ch))
(* ---- transitions ---- *)
Make(b) == basis' = b /\ asked' = {}
Ask(x) == basis.k # "none" /\ asked' = asked \cup {x} /\ UNCHANGED basis
(* ---- design check: the exact couplings agree with one another ---- *)
MChans == {c \in (0..6) \X ((0 - 6)..6) : c[1] >= Abs(c[2])}
MInit == basis = None /\ asked = {}
MNext == \/ basis = None /\ \E c \in MChans : Make([k |-> "at", ch |-> <<c>>])
         \/ basis # None /\ \E e \in MChans : Ask(e)
MSpec == MInit /\ [][MNext /\ Cardinality(asked') <= 1]_ivars
(* cos^2 = (1 + 2 P2)/3: what cos leads through the neighbouring channels is the diagonal of P2 *)
EqF(a, b) == a.n * b.d = b.n * a.d
Plus(a, b) == [n |-> a.n * b.d + b.n * a.d, d |-> a.d * b.d]
Below(l, m) == IF l > Abs(m) THEN C1(l - 1, m) ELSE Zero
SumRule == basis = None \/ LET l == basis.ch[1][1] m == basis.ch[1][2] IN
             EqF(Plus(C1(l, m), Below(l, m)), Plus([n |-> 1, d |-> 3], Mul([n |-> 2, d |-> 3], D2(l, m))))
(* P2 is traceless over a shell *)
RECURSIVE SumD(_, _)
SumD(l, m) == IF m > l THEN 0 ELSE D2(l, m).n + SumD(l, m + 1)
Traceless == basis = None \/ SumD(basis.ch[1][1], 0 - basis.ch[1][1]) = 0
(* couplings are symmetric, do not see the sign of m, never exceed one, and the selection rules hold them *)
Sane == basis = None \/ \A e \in asked : LET c == basis.ch[1] IN \A k \in {1, 2} :
          /\ Square(k, c, e) = Square(k, e, c) /\ Sign(k, c, e) = Sign(k, e, c)
          /\ Square(k, c, e) = Square(k, <<c[1], 0 - c[2]>>, <<e[1], 0 - e[2]>>)
          /\ Square(k, c, e).n >= 0 /\ Square(k, c, e).n <= Square(k, c, e).d
          /\ Square(k, c, e).n # 0 => c[2] = e[2] /\ Abs(c[1] - e[1]) \in (IF k = 1 THEN {1} ELSE {0, 2})
(* completeness: P2 squared through all channels it reaches stays at or below its largest value *)
Bounded == basis = None \/ LET l == basis.ch[1][1] m == basis.ch[1][2] IN
             Fixed(Square(2, <<l, m>>, <<l, m>>)) + Fixed(Square(2, <<l, m>>, <<l + 2, m>>)) + (IF l - 2 >= Abs(m) THEN Fixed(Square(2, <<l, m>>, <<l - 2, m>>)) ELSE 0) <= 100000000
=============================================================================
