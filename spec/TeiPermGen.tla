---------------------------- MODULE TeiPermGen ----------------------------
EXTENDS TeiPerm, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
Sz(h) == R({0, 1, 1, 2, 2, 3, 4, 5, 7})
GInit == size = <<>> /\ blk = <<>> /\ steps = 0 /\ orig = <<>> /\ hist = <<>>
GNext == /\ Len(hist) < Depth /\ UNCHANGED <<size, blk, steps, orig>>
         /\ \E n \in {<<Sz(hist), Sz(hist), Sz(hist), Sz(hist)>>} : \E off \in {R({0, 0, 0, 1, -1})} : \E w \in {R({0, 1})} : \E t \in {R({"d", "l", "q"})} :
              hist' = Append(hist, <<t, n[1], n[2], n[3], n[4], n[1] * n[2] + (IF w = 0 /\ n[1] * n[2] + off >= 0 THEN off ELSE 0), n[3] * n[4] + (IF w = 1 /\ n[3] * n[4] + off >= 0 THEN off ELSE 0), R(1..100000)>>)
GSpec == GInit /\ [][GNext]_<<size, blk, steps, orig, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
