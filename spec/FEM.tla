-------------------------------- MODULE FEM --------------------------------
(***************************************************************************)
(* The one-dimensional finite-element basis: a grid of element boundaries, *)
(* a primitive family on every element, shared functions at boundaries,    *)
(* and end conditions that remove functions at the two ends.               *)
(*                                                                         *)
(* Boundaries and points are integers (tokens); the conformance driver     *)
(* maps tokens to real numbers by a strictly increasing map, so order and  *)
(* equality are preserved exactly.                                         *)
(*                                                                         *)
(* Physical meaning first: the functions of a basis are                    *)
(*   <<"b", k, d>>  carries the d-th derivative at boundary k              *)
(*   <<"i", e, s>>  interior function s of element e                       *)
(* Numbers are then defined as the position in the natural order, and      *)
(* closed forms are checked against that definition by TLC.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Families == {3, 4, 5, 8, 9, 100, 101}
Deprecated == {0, 1, 2, 6, 7, 10, 11}
Ov(f) == CASE f = 5 -> 2 [] f = 101 -> 2 [] f = 8 -> 3 [] f = 9 -> 4 [] OTHER -> 1
Hermite(f) == Ov(f) > 1
Nprim(c) == Ov(c.fam) * c.nn
(* c = [fam, nn, fl, dl, fr, dr]: family, nodes, value/derivative removed left/right *)
Valid(c) == c.fam \in Families /\ c.nn >= 2

(* ---- definition by meaning ---- *)
Phys(c, e, s) == LET p == Nprim(c) o == Ov(c.fam) IN
                   IF s < o THEN <<"b", e, s>>
                   ELSE IF s >= p - o THEN <<"b", e + 1, s - (p - o)>>
                   ELSE <<"i", e, s>>
RemovedL(c, d) == IF d = 0 THEN c.fl ELSE c.dl /\ Hermite(c.fam)
RemovedR(c, d) == IF d = 0 THEN c.fr ELSE c.dr /\ Hermite(c.fam)
Kept(c, nel, f) == ~(f[1] = "b" /\ ((f[2] = 0 /\ RemovedL(c, f[3])) \/ (f[2] = nel /\ RemovedR(c, f[3]))))
(* natural order: element by element, slot by slot, shared functions once *)
RECURSIVE SlotSeq(_, _, _)
SlotSeq(c, e, s) == IF s >= Nprim(c) THEN <<>> ELSE <<Phys(c, e, s)>> \o SlotSeq(c, e, s + 1)
RECURSIVE FunSeq(_, _, _)
FunSeq(c, nel, e) == IF e >= nel THEN <<>>
                     ELSE (IF e = 0 THEN SlotSeq(c, 0, 0) ELSE SlotSeq(c, e, Ov(c.fam))) \o FunSeq(c, nel, e + 1)
Funs(c, nel) == SelectSeq(FunSeq(c, nel, 0), LAMBDA f : Kept(c, nel, f))
NumberOf(c, nel, f) == CHOOSE n \in 0..(Len(Funs(c, nel)) - 1) : Funs(c, nel)[n + 1] = f

(* ---- closed forms ---- *)
DropL(c) == (IF c.fl THEN 1 ELSE 0) + (IF c.dl /\ Hermite(c.fam) THEN Ov(c.fam) - 1 ELSE 0)
DropR(c) == (IF c.fr THEN 1 ELSE 0) + (IF c.dr /\ Hermite(c.fam) THEN Ov(c.fam) - 1 ELSE 0)
Nbf(c, nel) == nel * (Nprim(c) - Ov(c.fam)) + Ov(c.fam) - DropL(c) - DropR(c)
First(c, nel, e) == IF e = 0 THEN 0 ELSE e * (Nprim(c) - Ov(c.fam)) - DropL(c)
Count(c, nel, e) == Nprim(c) - (IF e = 0 THEN DropL(c) ELSE 0) - (IF e = nel - 1 THEN DropR(c) ELSE 0)
Last(c, nel, e) == First(c, nel, e) + Count(c, nel, e) - 1
(* number of the function carrying derivative d at boundary k; -1 if removed *)
Bnd(c, nel, k, d) ==
  IF ~Kept(c, nel, <<"b", k, d>>) THEN -1
  ELSE IF k = 0 THEN Cardinality({x \in 0..(d - 1) : ~RemovedL(c, x)})
  ELSE LET base == k * (Nprim(c) - Ov(c.fam)) - DropL(c) IN
       IF k = nel THEN base + Cardinality({x \in 0..(d - 1) : ~RemovedR(c, x)}) ELSE base + d

(* ---- grid ---- *)
SortedSeq(S) == LET n == Cardinality(S) IN
                  [i \in 1..n |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1]
Nel(S) == Cardinality(S) - 1
Located(S, p, e) == LET b == SortedSeq(S) IN e \in 0..(Nel(S) - 1) /\ b[e + 1] <= p /\ p <= b[e + 2]
InGrid(S, p) == (\E x \in S : x <= p) /\ (\E x \in S : p <= x)

(* ---- state machine: a basis that is refined ---- *)
CONSTANTS Cfgs, Toks
VARIABLES c, b
fvars == <<c, b>>
Init == c \in Cfgs /\ b \in {S \in SUBSET Toks : Cardinality(S) = 2}
Add(t) == b' = b \cup {t} /\ UNCHANGED c
Next == \E t \in Toks : Add(t)
Spec == Init /\ [][Next]_fvars
(* design-level facts *)
ClosedForms == LET n == Nel(b) F == Funs(c, n) IN
   /\ Len(F) = Nbf(c, n)
   /\ \A i, j \in 1..Len(F) : i # j => F[i] # F[j]
   /\ \A e \in 0..(n - 1) :
        LET K == {s \in 0..(Nprim(c) - 1) : Kept(c, n, Phys(c, e, s))}
            N == {NumberOf(c, n, Phys(c, e, s)) : s \in K}
        IN N = First(c, n, e)..Last(c, n, e)
   /\ \A k \in 0..n : \A d \in 0..(Ov(c.fam) - 1) :
        Bnd(c, n, k, d) = IF Kept(c, n, <<"b", k, d>>) THEN NumberOf(c, n, <<"b", k, d>>) ELSE -1
Sharing == LET n == Nel(b) IN \A e, g \in 0..(n - 1) : e < g =>
   LET common == (First(c, n, e)..Last(c, n, e)) \cap (First(c, n, g)..Last(c, n, g))
   IN Cardinality(common) = IF g = e + 1 THEN Ov(c.fam) ELSE 0
Covers == LET n == Nel(b) IN UNION {First(c, n, e)..Last(c, n, e) : e \in 0..(n - 1)} = 0..(Nbf(c, n) - 1)
RowInterval == LET n == Nel(b) IN \A p \in 0..(Nbf(c, n) - 1) :
   LET R == UNION {First(c, n, e)..Last(c, n, e) : e \in {x \in 0..(n - 1) : First(c, n, x) <= p /\ p <= Last(c, n, x)}}
   IN \A x, y \in R : \A z \in x..y : z \in R
EveryPointLocated == \A p \in Toks : InGrid(b, p) => \E e \in 0..(Nel(b) - 1) : Located(b, p, e)
StrictlyInsideUnique == \A p \in Toks \ b : Cardinality({e \in 0..(Nel(b) - 1) : Located(b, p, e)}) <= 1
Monotone == [][b \subseteq b']_fvars
BoolCfgs(F, N) == [fam : F, nn : N, fl : BOOLEAN, dl : BOOLEAN, fr : BOOLEAN, dr : BOOLEAN]
DesignCfgs == BoolCfgs({3, 4, 5, 8, 9}, {2, 3})
=============================================================================
