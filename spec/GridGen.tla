------------------------------ MODULE GridGen ------------------------------
EXTENDS Grid, Json
VARIABLE out
R1(S) == RandomElement(S)
GenInit == out = <<>> /\ par = <<>> /\ todo = <<>> /\ g = <<>> /\ phase = "gen"
GenNext == /\ UNCHANGED gvars
  /\ \E model \in {R1({0, 0, 0, 1, 2, 3, 4, 5})} : \E off \in {R1(1..3)} : \E ig \in {R1({1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 0, 6, -1})} : \E R \in {R1({40, 26, 63, 15, 31, 48, 60, 24})} :
     \E rh \in {R1({4, 6, 8, 12})} : \E Z \in {R1(0..3)} : \E zl \in {R1(0..3)} : \E zr \in {R1(0..3)} : \E n \in {R1(1..9 \cup {10, 15, 24, 40})} : \E n0 \in {R1(0..4)} :
     \E z \in {R1({1, 2, 3, 4, 4, 5, 6, 8, 12, 0, -2})} : \E ig0 \in {R1({1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 7})} : \E z0 \in {R1({2, 2, 3, 4, 8, 5})} : \E rn \in {R1(1..5)} :
     \E conf \in {R1({"none", "on", "in", "in2"})} : \E k \in {R1(0..70)} : \E via \in {R1({"form", "form", "get", "getl"})} :
       LET p == [model |-> IF via = "form" THEN model ELSE 0, n |-> IF ig = 5 /\ n > 15 THEN 15 ELSE n, ig |-> ig, z |-> IF ig \in {3, 4} /\ z <= 0 THEN 4 ELSE z, n0 |-> n0, ig0 |-> ig0, z0 |-> z0, Z |-> Z,
                 Zl |-> IF off = 1 /\ via = "form" THEN zl ELSE 0, Zr |-> IF off = 1 /\ via = "form" THEN zr ELSE 0, R |-> R, rn |-> rn, rh |-> rh]
       IN out' = [p |-> IF ~Finite(p) /\ Off(p) THEN (IF Representable(p) THEN [p EXCEPT !.n0 = Max2(n0, 1)] ELSE [p EXCEPT !.Zl = p.Z, !.Zr = p.Z, !.n0 = Max2(n0, 1), !.rh = 8]) ELSE p,
                  conf |-> IF via = "form" THEN (IF conf = "in2" THEN "in" ELSE conf) ELSE "none", k |-> k, via |-> via]
GenSpec == GenInit /\ [][GenNext]_<<gvars, out>>
Emit == PrintT("@@" \o ToJson(out'))
=============================================================================
