----------------------------- MODULE AtomObsGen ------------------------------
EXTENDS AtomObs, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
GInit == at = None /\ hist = <<>>
Step(x) == hist' = Append(hist, x)
Funcs == {<<101, 130>>, <<106, 131>>, <<101, 0>>, <<0, 130>>, <<1, 7>>, <<109, 134>>, <<1, 130>>, <<101, 12>>, <<0, 131>>}
SadObs == {"rho", "rhob", "rhor2", "grad", "lap", "tau", "orb", "dorb", "d2orb", "hart", "lda", "ldaa", "ldab", "nuc", "nel", "countr", "vdw", "novdw", "maxr", "gga", "gga", "mgga"}
DbObs == {"rho", "rhor2", "grad", "lap", "encl", "hart", "lda", "nel", "out", "gga", "gga", "mgga"}
G3(h) == <<R(-1..2), R(-1..1), R({-1, 0, 0, 1})>>
Fresh(o) == ~ \E n \in 1..Len(hist) : hist[n][1] = "obs" /\ hist[n][2] = o
GNext == /\ Len(hist) < Depth
         /\ IF at.k = "none" \/ R(1..25) = 1
            THEN \/ \E rr \in {R({2, 3})} : New("sad", rr) /\ Step(<<"new", "sad", rr, R(0..5), R(1..4)>>)
                 \/ New("db", 6) /\ Step(<<"new", "db", R(1..3)>>)
            ELSE IF at.orbs = <<>> \/ (Len(at.orbs) < 3 /\ R(1..6) = 1)
            THEN \E l \in {R(IF at.k = "sad" THEN {0, 0, 1, 2, 3, 4, 5} ELSE {0, 1, 2, 3})}, qa \in {R(0..2)}, qb \in {R(0..1)}, g \in {IF at.orbs = <<>> /\ R(1..3) # 1 THEN <<1, 0, 0>> ELSE G3(hist)} :
                   LET h == IF g = <<0, 0, 0>> THEN <<1, 0, 0>> ELSE IF at.k = "db" THEN <<IF g[1] = 0 /\ g[2] = 0 THEN 1 ELSE g[1], g[2], 0>> ELSE g  a == IF qa + qb = 0 THEN 1 ELSE qa
                   IN Add(l, a, qb, h) /\ Step(<<"add", l, a, qb, h[1], h[2], h[3]>>)
            ELSE IF R(1..12) = 1 THEN Swap /\ Step(<<"swap">>)
            ELSE UNCHANGED at /\ \E o \in {R(IF at.k = "sad" THEN SadObs ELSE DbObs)}, f \in {R(Funcs)} :
                   Step(CASE o = "countr" -> <<"obs", o, R(1..15)>>
                          [] o = "vdw" -> IF Monotone(at) THEN <<"obs", o, R(1..15)>> ELSE <<"obs", "rho">>
                          [] o = "maxr" -> <<"obs", o, R(0..1)>>
                          [] o = "gga" -> <<"obs", o, f[1], f[2], R(0..1)>>
                          [] OTHER -> <<"obs", o>>)
GSpec == GInit /\ [][GNext]_<<at, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
