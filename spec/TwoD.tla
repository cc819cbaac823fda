-------------------------------- MODULE TwoD --------------------------------
(***************************************************************************)
(* The two-dimensional bases: products of radial finite-element functions  *)
(* with angular channels (l, m).                                           *)
(*   kind "at" (atomic):   every channel carries every radial function     *)
(*   kind "di" (diatomic): channels with m # 0 lack the first one          *)
(* A function is <<channel, radial>>.  "Dummy" numbers count all products, *)
(* "real" numbers only those that exist.                                   *)
(***************************************************************************)
EXTENDS FEM
VARIABLES kind, ch, chg          \* ch: sequence of <<l, m>>; chg: charges <<Z, Zl, Zr>> or <<Z1, Z2, 0>>
tdvars == <<c, b, kind, ch, chg>>
Abs(x) == IF x < 0 THEN -x ELSE x
Rng(s) == {s[i] : i \in 1..Len(s)}
RadCfg(k, fam, nn, zd) == IF k = "at" THEN [fam |-> fam, nn |-> nn, fl |-> TRUE, dl |-> FALSE, fr |-> TRUE, dr |-> zd]
                          ELSE [fam |-> fam, nn |-> nn, fl |-> FALSE, dl |-> FALSE, fr |-> TRUE, dr |-> TRUE]
Nrad == Nbf(c, Nel(b))
Chans == 0..(Len(ch) - 1)
L(i) == ch[i + 1][1]
M(i) == ch[i + 1][2]
Exists(i, r) == r \in 0..(Nrad - 1) /\ (kind = "di" /\ M(i) # 0 => r > 0)
First1(i) == IF kind = "di" /\ M(i) # 0 THEN 1 ELSE 0     \* first existing radial function of channel i
Size(i) == Nrad - First1(i)
RECURSIVE Off1(_)
Off1(i) == IF i = 0 THEN 0 ELSE Off1(i - 1) + Size(i - 1)
Nreal == Off1(Len(ch))
Ndum == Len(ch) * Nrad
Real(i, r) == Off1(i) + r - First1(i)
Dum(i, r) == i * Nrad + r
ChanOf(d) == d \div Nrad
RadOf(d) == d % Nrad
IsReal(d) == Exists(ChanOf(d), RadOf(d))
RealOfDum(d) == Real(ChanOf(d), RadOf(d))
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
PureSeq == Cat([k \in 1..Len(ch) |-> [j \in 1..Size(k - 1) |-> Dum(k - 1, First1(k - 1) + j - 1)]], Len(ch))
(* functions living on element e, channel by channel *)
ElemDum(e, S) == Cat([k \in 1..Len(ch) |-> IF (k - 1) \in S THEN [j \in 1..Count(c, Nel(b), e) |-> Dum(k - 1, First(c, Nel(b), e) + j - 1)] ELSE <<>>], Len(ch))
ElemReal(e) == LET s == SelectSeq(ElemDum(e, Chans), LAMBDA d : IsReal(d)) IN [j \in 1..Len(s) |-> RealOfDum(s[j])]
(* ---- symmetry blocks ---- *)
BlockOf(S) == UNION {{Real(i, r) : r \in First1(i)..(Nrad - 1)} : i \in S}
MLab(m) == "m=" \o (IF m > 0 THEN "+" ELSE "") \o ToString(m)
Ms == {M(i) : i \in Chans}
MaxAbsM == CHOOSE x \in {Abs(m) : m \in Ms} : \A m \in Ms : Abs(m) <= x
ValidSym(s) == s \in (IF kind = "at" THEN 0..2 ELSE 0..3)
Blocks(s) ==
  CASE s = 0 -> {<<"all", BlockOf(Chans)>>}
    [] s = 1 -> {<<MLab(m), BlockOf({i \in Chans : M(i) = m})>> : m \in Ms}
    [] s = 2 /\ kind = "at" -> {<<"l=" \o ToString(L(i)) \o " " \o MLab(M(i)), BlockOf({j \in Chans : L(j) = L(i) /\ M(j) = M(i)})>> : i \in Chans}
    [] s = 2 /\ kind = "di" -> {<<MLab(m) \o " g", BlockOf({i \in Chans : M(i) = m /\ L(i) % 2 = 0})>> : m \in Ms}
                                \cup {<<MLab(m) \o " u", BlockOf({i \in Chans : M(i) = m /\ L(i) % 2 = 1})>> : m \in Ms}
    [] s = 3 -> {<<"|m|=" \o ToString(k), BlockOf({i \in Chans : M(i) = k})>> : k \in 0..MaxAbsM}
Mirror(s) == IF s # 3 THEN {} ELSE {<<"|m|=" \o ToString(k), BlockOf({i \in Chans : M(i) = -k})>> : k \in 1..MaxAbsM}
(* +m and -m channels come in the same order of l *)
LSeq(m) == LET s == SelectSeq(ch, LAMBDA x : x[2] = m) IN [j \in 1..Len(s) |-> s[j][1]]
Paired == \A m \in Ms : LSeq(m) = LSeq(-m)
(* ---- which channels an operator couples ---- *)
Coupled(op, i, j, field) ==
  LET dl == Abs(L(i) - L(j)) l == L(i) m == M(i) Z == chg[1] A1 == chg[2] A2 == chg[3] IN
  /\ M(i) = M(j)
  /\ CASE op = "overlap" -> dl = 0 \/ (kind = "di" /\ dl = 2)
       [] op = "kinetic" -> dl = 0
       [] op = "nuclear" -> IF kind = "di" THEN (dl = 0 /\ Z + A1 # 0) \/ (dl = 1 /\ Z # A1)
                            ELSE (dl = 0 /\ (Z # 0 \/ A1 + A2 # 0)) \/ (dl > 0 /\ dl % 2 = 0 /\ A1 + A2 # 0) \/ (dl % 2 = 1 /\ A1 # A2)
       [] op = "dipole" -> dl = 1 \/ (kind = "di" /\ dl = 3)
       [] op = "quadrupole" -> IF kind = "at" THEN dl = 2 \/ (dl = 0 /\ l * (l + 1) # 3 * m * m) ELSE dl \in {0, 2, 4}
       [] op = "Bz" -> field # 0 /\ (dl \in {0, 2} \/ (kind = "di" /\ dl = 4))
       [] op = "conf" -> dl = 0
(* ---- generated channel lists ---- *)
Mn(x, y) == IF x < y THEN x ELSE y
AngSet(lmax, mmax) == {<<l, m>> : l \in 0..lmax, m \in (-mmax)..mmax} \ {<<l, m>> \in {<<l, m>> : l \in 0..lmax, m \in (-mmax)..mmax} : Abs(m) > l}
LmSet(v) == UNION {{<<l, s * k>> : l \in k..v[k + 1], s \in {-1, 1}} : k \in 0..(Len(v) - 1)}
(* ---- state machine: channels are appended one at a time ---- *)
CONSTANTS ChanPool, MaxCh
TInit == /\ kind \in {"at", "di"} /\ ch = <<>> /\ chg = <<1, 0, 0>> /\ b \in {0..1, 0..2}
         /\ \E f \in {4, 5} : \E n \in {3} : \E z \in BOOLEAN : c = RadCfg(kind, f, n, z)
AddChan(x) == x \notin Rng(ch) /\ ch' = Append(ch, x) /\ UNCHANGED <<c, b, kind, chg>>
TNext2 == Len(ch) < MaxCh /\ \E x \in ChanPool : AddChan(x)
TDSpec == TInit /\ [][TNext2]_tdvars
(* design facts *)
IndexFacts == /\ Len(PureSeq) = Nreal
              /\ \A k \in 1..Len(PureSeq) : RealOfDum(PureSeq[k]) = k - 1 /\ IsReal(PureSeq[k])
              /\ \A j, k \in 1..Len(PureSeq) : j < k => PureSeq[j] < PureSeq[k]
              /\ UNION {Rng(ElemReal(e)) : e \in 0..(Nel(b) - 1)} = 0..(Nreal - 1)
PartitionFacts == ch # <<>> => \A s \in (IF kind = "at" THEN 0..2 ELSE 0..2) :
   /\ UNION {x[2] : x \in Blocks(s)} = 0..(Nreal - 1)
   /\ \A x, y \in Blocks(s) : x # y => x[2] \cap y[2] = {} /\ x[1] # y[1]
MirrorFacts == (ch # <<>> /\ kind = "di" /\ Paired) =>
   LET P == {x[2] : x \in Blocks(3)} Q == {x[2] : x \in Mirror(3)} IN
   /\ UNION P \cup UNION Q = 0..(Nreal - 1)
   /\ UNION P \cap UNION Q = {}
CouplingSymmetric == \A op \in {"overlap", "kinetic", "nuclear", "dipole", "quadrupole", "Bz"} : \A i, j \in Chans : Coupled(op, i, j, 1) = Coupled(op, j, i, 1)
Pool == {<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, -1>>, <<2, 1>>, <<2, -1>>}
=============================================================================
