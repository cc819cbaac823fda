----------------------------- MODULE DftGridGen -----------------------------
EXTENDS DftGrid, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
GInit == kind = "none" /\ avail = {} /\ last = {} /\ hist = <<>>
Xs == {0, 1, 50, 52, 101, 202, 497, 206, 627}   Cs == {0, 7, 12, 130, 131, 231, 72}
(* parameters given: none, the right number, one too many, one too few *)
Par(f) == IF f \notin {52, 101, 130, 131, 202} THEN 0 ELSE LET t == R(0..7) IN IF t = 0 THEN NPar[f] + 1 ELSE IF t = 1 THEN NPar[f] - 1 ELSE IF t < 4 THEN NPar[f] ELSE 0
GNext == /\ Len(hist) < Depth
         /\ \/ hist = <<>> /\ \E k \in {R({"at", "sa", "sa", "di", "pm"})} : Create(k) /\ hist' = <<<<"new", k, R(0..7), R(0..9)>>>>
            \/ hist # <<>> /\ \E x \in {R(Xs)}, c \in {R(Cs)} : x + c > 0 /\ \E px \in {IF x = 0 THEN 0 ELSE Par(x)}, pc \in {IF c = 0 THEN 0 ELSE Par(c)} :
                 /\ (IF Refused(x, px, c, pc) THEN Same ELSE Evaluate(x, c))
                 /\ hist' = Append(hist, <<"eval", x, px, c, pc, R(1..6), R({"r", "u", "u", "a"}), R({1, 4})>>)
         /\ UNCHANGED last
GSpec == GInit /\ [][GNext]_<<kind, avail, last, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
