-------------------------------- MODULE XBasis --------------------------------
(***************************************************************************)
(* Two finite-element bases side by side. A workspace holds bases; each has  *)
(* a kind (atomic, spherically averaged, diatomic, or radial only), a family *)
(* of primitives with its polynomial degree and smoothness, a grid of        *)
(* element boundaries (integers, units of a common length) and angular       *)
(* channels. The functions of a channel of one basis lie in the span of      *)
(* another exactly when the channel exists there, every element boundary is  *)
(* one of the other's, the degree does not exceed and the smoothness is not  *)
(* below the other's, and at its end it vanishes as smoothly as the other    *)
(* requires there (derivatives are removed at the end, or they are not).     *)
(* Spans decide what overlaps between bases must be.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE bases
Range(s) == {s[x] : x \in 1..Len(s)}
Fams == {3, 4, 5, 8, 9, 100, 101}
Cont(f) == CASE f \in {5, 101} -> 1 [] f = 8 -> 2 [] f = 9 -> 3 [] OTHER -> 0
Deg(b) == (Cont(b.fam) + 1) * b.nn - 1
Last(s) == s[Len(s)]
Nel(b) == Len(b.grid) - 1
Abs(x) == IF x < 0 THEN -x ELSE x
(* radial functions: zero at the far end; at the origin zero except in diatomic channels with m = 0 *)
RadBf(b) == Nel(b) * (Deg(b) - Cont(b.fam)) + Cont(b.fam) + 1 - (IF b.k = "dia" THEN 1 ELSE 2) - (IF b.zd THEN Cont(b.fam) ELSE 0)
ChanBf(b, c) == RadBf(b) - (IF b.k = "dia" /\ c[2] # 0 THEN 1 ELSE 0)
RECURSIVE SumC(_, _)
SumC(b, n) == IF n = 0 THEN 0 ELSE SumC(b, n - 1) + ChanBf(b, b.ch[n])
Nbf(b) == SumC(b, Len(b.ch))
RadIn(a, b) == /\ Range(a.grid) \subseteq Range(b.grid) /\ Deg(a) <= Deg(b) /\ Cont(a.fam) >= Cont(b.fam)
               /\ (Cont(b.fam) = 0 \/ a.zd \/ (Last(a.grid) = Last(b.grid) /\ ~b.zd))
In(a, x, b) == a.ch[x] \in Range(b.ch) /\ RadIn(a, b)
AllIn(a, b) == \A x \in 1..Len(a.ch) : In(a, x, b)
(* the angular part of the overlap: unit operator, in spheroidal coordinates also the square of the cosine *)
Couple(a, c, d) == c[2] = d[2] /\ (c[1] = d[1] \/ (a.k = "dia" /\ Abs(c[1] - d[1]) = 2))
Make(b) == bases' = Append(bases, b)
(* ---- design check: containment is a preorder, contained bases are not larger ---- *)
Grids == {<<0, 24>>, <<0, 12, 24>>, <<0, 12>>}
MInit == bases = <<>>
MNext == Len(bases) < 3 /\ \E f \in {4, 5}, zd \in BOOLEAN, n \in {2, 3}, g \in Grids : \E c \in {IF n = 2 THEN <<<<0, 0>>>> ELSE <<<<0, 0>>, <<1, 1>>>>} :
           Make([k |-> "dia", fam |-> f, nn |-> n, grid |-> g, zd |-> zd, ch |-> c])
MSpec == MInit /\ [][MNext]_bases
Ix == 1..Len(bases)
Reflexive == \A x \in Ix : AllIn(bases[x], bases[x])
Transitive == \A x, y, z \in Ix : AllIn(bases[x], bases[y]) /\ AllIn(bases[y], bases[z]) => AllIn(bases[x], bases[z])
Smaller == \A x, y \in Ix : AllIn(bases[x], bases[y]) => Nbf(bases[x]) <= Nbf(bases[y])
Mutual == \A x, y \in Ix : AllIn(bases[x], bases[y]) /\ AllIn(bases[y], bases[x]) => Nbf(bases[x]) = Nbf(bases[y])
=============================================================================
