-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Element grids.  A grid is put together from pieces, each starting at the *)
(* end of the previous one: a plain grid is one piece; a finite nucleus has *)
(* the nuclear piece twice and then the electronic piece; an off-centre     *)
(* nucleus has a piece from the origin, a mirrored piece up to the nucleus  *)
(* and a piece outside.  Finally a confinement boundary may be inserted.    *)
(*                                                                         *)
(* Lengths are integers, points fixed-point integers (F per unit); Unknown  *)
(* marks interior points whose law is not rational in the parameters.       *)
(* z is four times the grid exponent.                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
F == 1000
Unknown == -1
RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN 1 ELSE x * Pow(x, e - 1)
RD(x, y) == (2 * x + y) \div (2 * y)
Root(n, R) == {y \in 2..12 : n <= 6 /\ (y <= 4 \/ n <= 3) /\ Pow(y, n) = R + 1}
Point(ig, z, n, R, i) ==
  CASE i = 0 -> 0
    [] i = n -> R * F
    [] ig = 1 -> RD(i * R * F, n)
    [] ig = 2 -> RD(i * i * R * F, n * n)
    [] ig = 3 /\ z % 4 = 0 /\ n <= 8 -> RD(Pow(i, z \div 4) * R * F, Pow(n, z \div 4))
    [] ig = 4 /\ z = 4 /\ Root(n, R) # {} -> (Pow(CHOOSE y \in Root(n, R) : TRUE, i) - 1) * F
    [] ig = 5 /\ z = 2 /\ n <= 10 -> RD(R * F * (Pow(2, i) - 1), Pow(2, n) - 1)
    [] OTHER -> Unknown
KindOK(ig, z) == ig \in 1..5 /\ (ig = 5 => z > 0 /\ z < 4)
(* piece = [n, ig, z, len, rev] *)
PiecePoint(p, i) == IF p.rev THEN (IF Point(p.ig, p.z, p.n, p.len, p.n - i) = Unknown THEN Unknown ELSE p.len * F - Point(p.ig, p.z, p.n, p.len, p.n - i))
                    ELSE Point(p.ig, p.z, p.n, p.len, i)
AppendPiece(g, p) == LET last == g[Len(g)] IN
   g \o [i \in 1..p.n |-> IF PiecePoint(p, i) = Unknown THEN Unknown ELSE last + PiecePoint(p, i)]
(* parameters: model 0 point 1 gaussian 2 spherical 3 hollow 4 regularised; R practical infinity; rn nuclear radius; rh position of off-centre nuclei; b0 = boundary between the central and off-centre charge *)
Finite(p) == p.model \in {1, 2, 3}
Off(p) == p.Zl # 0 \/ p.Zr # 0
Max2(x, y) == IF x > y THEN x ELSE y
B0(p) == (p.Z * p.rh) \div (p.Z + Max2(p.Zl, p.Zr))
Representable(p) == ~Finite(p) /\ Off(p) => (p.Z * p.rh) % (p.Z + Max2(p.Zl, p.Zr)) = 0
El(n, ig, z, len, rev) == [n |-> n, ig |-> ig, z |-> z, len |-> len, rev |-> rev]
Pieces(p) ==
  IF Finite(p) THEN
    IF p.n0 = 0 THEN <<El(p.n, p.ig, p.z, p.R, FALSE)>>
    ELSE <<El(p.n0, p.ig0, p.z0, p.rn, FALSE), El(p.n0, p.ig0, p.z0, p.rn, FALSE), El(p.n, p.ig, p.z, p.R - 2 * p.rn, FALSE)>>
  ELSE IF Off(p) THEN
    (IF p.Z # 0 THEN <<El(p.n0, p.ig, p.z, B0(p), FALSE)>> ELSE <<>>)
      \o <<El(p.n0, p.ig, p.z, p.rh - (IF p.Z # 0 THEN B0(p) ELSE 0), TRUE), El(p.n, p.ig, p.z, p.R - p.rh, FALSE)>>
  ELSE <<El(p.n, p.ig, p.z, p.R, FALSE)>>
Refused(p) == \/ Finite(p) /\ Off(p)
              \/ p.model \notin 0..4
              \/ \E i \in 1..Len(Pieces(p)) : ~KindOK(Pieces(p)[i].ig, Pieces(p)[i].z)
(* conf: "none", <<"on", k>> an existing boundary, <<"in", k>> inside element k *)
InsertAt(g, k) == SubSeq(g, 1, k + 1) \o <<Unknown>> \o SubSeq(g, k + 2, Len(g))
RECURSIVE BuildFrom(_, _)
BuildFrom(g, s) == IF s = <<>> THEN g ELSE BuildFrom(AppendPiece(g, Head(s)), Tail(s))
Plain(p) == BuildFrom(<<0>>, Pieces(p))
Final(p, conf, k) == IF conf = "in" THEN InsertAt(Plain(p), k) ELSE Plain(p)
(* ---- the construction as a state machine ---- *)
CONSTANT Params
VARIABLES par, todo, g, phase
gvars == <<par, todo, g, phase>>
Init == par \in Params /\ g = <<0>> /\ ((Refused(par) /\ phase = "refused" /\ todo = <<>>) \/ (~Refused(par) /\ phase = "build" /\ todo = Pieces(par)))
Step == phase = "build" /\ todo # <<>> /\ g' = AppendPiece(g, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<par, phase>>
Done == phase = "build" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<par, todo, g>>
Insert == phase = "done" /\ \E k \in 0..(Len(g) - 2) : g' = InsertAt(g, k) /\ phase' = "inserted" /\ UNCHANGED <<par, todo>>
Next == Step \/ Done \/ Insert
Spec == Init /\ [][Next]_gvars
Known == {i \in 1..Len(g) : g[i] # Unknown}
Increasing == \A i, j \in Known : i < j => g[i] < g[j]
StartsAtZero == g[1] = 0
SpansAll == phase \in {"done", "inserted"} => g[Len(g)] = par.R * F
Count == phase = "done" => Len(g) = 1 + (IF Finite(par) THEN 2 * par.n0 + par.n ELSE IF Off(par) THEN (IF par.Z # 0 THEN 2 ELSE 1) * par.n0 + par.n ELSE par.n)
HasNucleus == phase = "done" => /\ Finite(par) /\ par.n0 > 0 => g[par.n0 + 1] = par.rn * F /\ g[2 * par.n0 + 1] = 2 * par.rn * F
                                /\ ~Finite(par) /\ Off(par) => \E i \in 1..Len(g) : g[i] = par.rh * F
SmallParams == {p \in [model : 0..5, n : 1..3, ig : {1, 2, 3, 5, 6}, z : {2, 4, 8}, n0 : {0, 2}, ig0 : {1, 5}, z0 : {2, 4}, Z : {0, 2}, Zl : {0, 1}, Zr : {0, 2}, R : {20}, rn : {3}, rh : {8}] :
                 Representable(p) /\ (~Finite(p) /\ Off(p) => p.n0 > 0)}
=============================================================================
