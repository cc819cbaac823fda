-------------------------------- MODULE Eval --------------------------------
(***************************************************************************)
(* Evaluation of the functions of a finite-element basis: values, their    *)
(* derivatives, the radial functions R = B / r and their derivatives, and  *)
(* the table of values at the quadrature points that may be filled ahead.  *)
(*                                                                         *)
(* What a caller may ask depends on the family, the end conditions and on  *)
(* where the grid starts; a filled table never changes an answer.          *)
(*                                                                         *)
(* The calculus the answers must obey is written for polynomials given by  *)
(* their coefficients: Deflate is the division by r that is possible       *)
(* exactly when the function vanishes at the origin.                       *)
(***************************************************************************)
EXTENDS FEM
VARIABLES cache
evars == <<c, b, cache>>
(* ---- what may be asked ---- *)
DerivLimit(f) == CASE f = 3 -> 2 [] f \in {8, 9} -> 5 [] OTHER -> 20
OverLimit(f) == IF f \in {4, 100} THEN 20 ELSE 2
DerivOK(n) == n \in 0..DerivLimit(c.fam)
(* the origin is the first boundary, and every remaining function vanishes there *)
AtOrigin(e) == e = 0 /\ SortedSeq(b)[1] = 0 /\ c.fl
OverOK(e, n) == AtOrigin(e) /\ Count(c, Nel(b), e) > 0 /\ n \in 0..OverLimit(c.fam)
RadOK(e, k) == IF e = 0 THEN OverOK(0, k) ELSE DerivOK(k)
(* the origin lies outside the element, or the element is the first one *)
Askable(e) == e = 0 \/ SortedSeq(b)[e + 1] > 0 \/ SortedSeq(b)[e + 2] < 0
FillOK == OverOK(0, 0)
(* ---- the table of values at the quadrature points ---- *)
Wanted(d, l) == {0} \cup (IF d THEN {1} ELSE {}) \cup (IF l THEN {2} ELSE {})
Fill(d, l) == cache' = (IF FillOK THEN cache \cup Wanted(d, l) ELSE cache) /\ UNCHANGED <<c, b>>
MInit == Init /\ cache = {}
MNext == (\E d, l \in BOOLEAN : Fill(d, l)) \/ (\E S \in SUBSET Toks : Cardinality(S) \in {2, 3} /\ S # b /\ b' = S /\ cache' = {} /\ UNCHANGED c)
MSpec == MInit /\ [][MNext]_evars
EvalCfgs == BoolCfgs({3, 4, 8}, {2, 3})
OneCfg == {[fam |-> 4, nn |-> 2, fl |-> TRUE, dl |-> FALSE, fr |-> FALSE, dr |-> FALSE]}
TableNeedsValues == cache # {} => 0 \in cache /\ FillOK
TableGrows == [][b' = b => cache \subseteq cache']_evars
(* whoever may be asked for a radial function may be asked for all its lower derivatives *)
Downward == \A e \in 0..(Nel(b) - 1) : \A k \in 1..2 : RadOK(e, k) => RadOK(e, k - 1)
(* ---- calculus on polynomials with coefficients p[1] + p[2] r + p[3] r^2 + ... ---- *)
Deg == 3
Polys == [1..(Deg + 1) -> {0 - 1, 0, 2}]
At(p, i) == IF i \in 1..(Deg + 1) THEN p[i] ELSE 0
D(p) == [i \in 1..(Deg + 1) |-> i * At(p, i + 1)]
RECURSIVE Dn(_, _)
Dn(p, n) == IF n = 0 THEN p ELSE D(Dn(p, n - 1))
Deflate(p) == [i \in 1..(Deg + 1) |-> At(p, i + 1)]
MulR(p) == [i \in 1..(Deg + 1) |-> At(p, i - 1)]
Add3(p, q, s) == [i \in 1..(Deg + 1) |-> p[i] + s * q[i]]
Calculus == \A p \in Polys : p[1] = 0 =>
   LET R == Deflate(p) IN
   /\ MulR(R) = p
   \* r R' = B' - R ,  r R'' = B'' - 2 R' : the relations the answers in every element are held to
   /\ MulR(D(R)) = Add3(D(p), R, 0 - 1)
   /\ MulR(Dn(R, 2)) = Add3(Dn(p, 2), D(R), 0 - 2)
   \* at the origin: R(0) = B'(0), R'(0) = B''(0) / 2
   /\ R[1] = D(p)[1] /\ 2 * D(R)[1] = Dn(p, 2)[1]
   /\ Dn(p, Deg + 1) = [i \in 1..(Deg + 1) |-> 0]
=============================================================================
