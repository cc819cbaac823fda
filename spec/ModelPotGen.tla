----------------------------- MODULE ModelPotGen -----------------------------
EXTENDS ModelPot, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
GInit == obj = None /\ hist = <<>>
Pars(k) == IF k = "re" THEN {64, 128, 256, 384, 512} ELSE IF k = "ga" THEN {4, 8, 16, 32, 64, 128, 256, 512} \cup (2..100) ELSE 2..100
Zof(h) == R({1, 2, 3, 5, 20, 54, 118})
Prec(k) == IF k = "re" THEN R({"d", "d", "l"}) ELSE R({"d", "l", "q"})
Step(x) == hist' = Append(hist, x)
GNext == /\ Len(hist) < Depth
         /\ \/ (obj.k = "none" \/ R(1..8) = 1) /\ \E k \in {R(Kinds)}, z \in {Zof(hist)} : \E p \in {R(Pars(k))} : New(k, p) /\ Step(<<"new", k, z, p, Prec(k), R(0..1)>>)
            \/ R(1..30) = 1 /\ Refuse /\ Step(<<"new", "zz", Zof(hist), R(1..9), "d", 0>>)
            \/ obj.k # "none" /\ \E o \in {R({"set", "par", "q", "q", "q", "edge", "erf", "near", "breaks", "breaks", "scan", "moment", "norm"})} :
                 CASE o = "set" -> \E p \in {R(Pars(obj.k))} : Resize(p) /\ Step(<<"set", p>>)
                   [] o = "par" -> Refuse /\ Step(<<"par">>)
                   [] o = "q" -> Refuse /\ Step(<<"q", R({1, 2, 3, 5, 10, 30, 60, 99, 101, 400, 1000})>>)
                   [] o = "edge" -> Refuse /\ Step(<<"q", IF obj.p < 2 THEN 1 ELSE obj.p + R({-1, 0, 1})>>)
                   [] o = "near" -> Refuse /\ (IF obj.k \in {"sp", "ho"} THEN Step(<<"near", R({2, 3, 5, 10, 30, 100, 300, 1000, 3000, 10000, 20000})>>) ELSE Step(<<"par">>))
                   [] o = "erf" -> Refuse /\ (IF obj.k = "ga" /\ 32768 % obj.p = 0 THEN Step(<<"q", 32768 \div (obj.p * R({1, 2, 4}))>>) ELSE Step(<<"par">>))
                   [] o = "breaks" -> Refuse /\ \E a \in {R({0, obj.p - 1, obj.p, obj.p + 1, obj.p - 10})} : Step(<<"breaks", IF a < 0 THEN 0 ELSE a, R({obj.p - 1, obj.p, obj.p + 1, obj.p + 30})>>)
                   [] o = "scan" -> Refuse /\ Step(<<"scan", obj.p>>)
                   [] o = "moment" -> Refuse /\ (IF obj.k \in {"ga", "sp", "ho"} THEN Step(<<"moment", obj.p>>) ELSE Step(<<"par">>))
                   [] OTHER -> Refuse /\ (IF obj.k = "re" THEN Step(<<"norm">>) ELSE Step(<<"par">>))
            \/ R(1..3) = 1 /\ Refuse /\ \E o \in {R({"mat", "conf", "conf", "tab", "sap"})} :
                 CASE o = "mat" -> \E rr \in {R({3, 4, 5})} : Step(<<"mat", R({"pt", "ho", "sp"}), R(1..3), 128 * R(1..(rr - 1)), R(0..5), R(2..4), rr>>)
                   [] o = "conf" -> \E ic \in {R(-1..5)} : \E n \in {IF ic = 1 THEN R(-2..3) ELSE IF ic = 4 THEN R(0..2) ELSE R(0..3)} : \E rr \in {R({2, 3})} :
                        Step(<<"conf", ic, n, R({-2, -1, 1, 2, 3}), R(-1..4), R(0..(2 * rr - 1)), rr, R(0..5), R(2..4)>>)
                   [] o = "tab" -> Step(<<"tab", R({"TF", "GSZ", "SAP"}), R(1..86)>>)
                   [] OTHER -> Step(<<"sap", R({-1, 0, 1, 2, 3, 4, 119}), R({1, 101}), R({0, 12, 130}), R({0, 1, 2, 4}), R({1, 3, 4, 5, 12, 13})>>)
GSpec == GInit /\ [][GNext]_<<obj, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
