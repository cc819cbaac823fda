--------------------------------- MODULE XTwo ---------------------------------
(***************************************************************************)
(* Two-electron operators of a density, in two bases of which one holds the  *)
(* other. A density of the smaller basis is also one of the larger, and the  *)
(* operator of it seen by the smaller basis is the same whichever of the two *)
(* computes it: the elements space is divided into, the degree of the        *)
(* polynomials and further angular channels leave no trace. An atomic basis   *)
(* keeps tables that have to be prepared before factors of them can be asked *)
(* for; factors of the tables stand for the tables.                          *)
(***************************************************************************)
EXTENDS XBasis
VARIABLE prepared
xvars == <<bases, prepared>>
Ops(k) == CASE k = "rad" -> {"J", "K", "YJ", "YK"} [] k = "dia" -> {"J", "K"} [] OTHER -> {"J", "K", "Y", "E"}
(* the first basis lies in the second, both of one kind *)
Within(a, c) == a.k = c.k /\ AllIn(a, c)
MaxL(b) == CHOOSE x \in {b.ch[n][1] : n \in 1..Len(b.ch)} : \A n \in 1..Len(b.ch) : b.ch[n][1] <= x
(* multipoles an atomic basis tabulates: products of its channels reach twice the largest angular momentum *)
Poles(b) == 2 * MaxL(b) + 1
Open(b) == Make(b) /\ UNCHANGED prepared
Uses(o, a, c) == prepared' = (IF o \in {"J", "K"} /\ bases[a].k = "at" THEN prepared \cup {a, c} ELSE prepared) /\ UNCHANGED bases
Prep(a) == bases[a].k = "at" /\ prepared' = prepared \cup {a} /\ UNCHANGED bases
Factors(a) == a \in prepared
(* functions of one element, in a radial basis *)
ElBf(b, e) == Deg(b) + 1 - (IF e = 1 THEN 1 ELSE 0) - (IF e = Nel(b) THEN 1 + (IF b.zd THEN Cont(b.fam) ELSE 0) ELSE 0)
(* ---- design check ---- *)
M2Init == MInit /\ prepared = {}
M2Next == \/ Len(bases) < 3 /\ \E k \in {"at", "rad"}, f \in {4, 5}, g \in Grids : Open([k |-> k, fam |-> f, nn |-> 3, grid |-> g, zd |-> FALSE, ch |-> <<<<1, 1>>>>])
          \/ \E x \in 1..Len(bases) : Prep(x)
          \/ \E x, y \in 1..Len(bases) : Within(bases[x], bases[y]) /\ \E o \in Ops(bases[x].k) : Uses(o, x, y)
M2Spec == M2Init /\ [][M2Next]_xvars
OnlyAtomic == \A x \in prepared : x \in 1..Len(bases) /\ bases[x].k = "at"
Counted == \A x \in 1..Len(bases) : LET b == bases[x] IN
   b.k = "rad" => RadBf(b) = (LET RECURSIVE S(_) S(e) == IF e = 0 THEN 0 ELSE S(e - 1) + ElBf(b, e) - (IF e = 1 THEN 0 ELSE Cont(b.fam) + 1) IN S(Nel(b)))
OnlyGrows == [][\A x \in prepared : x \in prepared']_xvars
=============================================================================
