-------------------------------- MODULE NaoGen --------------------------------
EXTENDS Nao, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
GInit == fes = 0 /\ bases = <<>> /\ hist = <<>>
Step(x) == hist' = Append(hist, x)
Idle == UNCHANGED vars
G2(h) == R((-1..1) \X (-1..1) \ {<<0, 0>>})
Ds(n) == [x \in 1..(n * n) |-> R({-1, 0, 1, 2})]
GNext == /\ Len(hist) < Depth
         /\ IF fes = 0 \/ (fes < 2 /\ R(1..6) = 1) THEN AddFE /\ Step(<<"fe", R(0..5), R(1..3)>>)
            ELSE IF bases = <<>> \/ (Len(bases) < 4 /\ R(1..4) = 1)
            THEN \E f \in {R(1..fes)}, n \in {R(1..2)} : \E g \in {IF n = 1 THEN <<G2(hist)>> ELSE <<G2(hist), G2(hist)>>} : Make(f, n, g) /\ Step(<<"mk", f, n, g[1][1], g[1][2]>> \o (IF n = 2 THEN <<g[2][1], g[2][2]>> ELSE <<>>))
            ELSE \E o \in {R({"one", "one", "orb", "two", "two", "two", "yuk", "prim", "prim", "bad", "extract", "mkbad"})}, b \in {R(1..Len(bases))}, c \in {R(1..Len(bases))} : \E n \in {IF R(1..12) = 1 THEN R(1..3) ELSE Len(bases[c].g)} :
              Idle /\ CASE o = "one" -> Step(<<"one", b, R({"S", "T", "L", "V"})>>)
                [] o = "orb" -> Step(<<"orb", b, R(1..16), IF R(1..6) = 1 THEN 1 ELSE 0>>)
                [] o = "two" -> Step(<<"two", R({"J", "K"}), R(0..4), b, c, n>> \o Ds(n))
                [] o = "yuk" -> Step(<<"yuk", R({"J", "K"}), R(0..3), R({-1, 0, 4, 8, 16, 40}), b, c, n>> \o Ds(n))
                [] o = "prim" -> \E t \in {R({"sto", "gto"})}, bad \in {R(1..10) = 1}, m \in {R(0..5)}, pn \in {R({1, 2, 3, 4, 5, 7, 8, 10})}, dn \in {R(0..3)} :
                     Step(IF t = "sto" THEN <<"prim", t, IF bad THEN R(0..2) ELSE pn, R(IF bad THEN -1..3 ELSE 1..6), pn + dn, R(1..6)>>
                          ELSE <<"prim", t, IF bad THEN R(-1..1) ELSE m, R(IF bad THEN 0..3 ELSE 1..6), m, R(1..6)>>)
                [] o = "bad" -> Step(<<"bad", R({"sto", "gto"}), R({"empty", "noprim", "mismatch", "fine"})>>)
                [] o = "mkbad" -> Step(IF R(1..2) = 1 THEN <<"mk", 0, 1, 1, 0>> ELSE <<"mk", R(1..fes), R({0, -1, -2})>>)
                [] OTHER -> \E s \in {R(1..4)} : \E k \in {IF R(1..8) = 1 THEN R(1..4) ELSE s} : Step(<<"extract", s>> \o [x \in 1..s |-> R(1..3)] \o <<k>> \o [x \in 1..k |-> R(-1..2)])
GSpec == GInit /\ [][GNext]_<<fes, bases, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
