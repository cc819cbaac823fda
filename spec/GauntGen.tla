------------------------------ MODULE GauntGen ------------------------------
EXTENDS Gaunt, Json
CONSTANTS Depth, LHi
VARIABLE hist
R(S) == RandomElement(S)
GInit == tab = <<>> /\ hist = <<>>
Fresh(L, l, lp, cap) == Build(L, l, lp, cap) /\ hist' = Append(hist, <<"table", L, l, lp, cap>>)
(* lookups mostly inside the range and obeying the m rule, sometimes far outside *)
Wide(n) == (IF R(0..9) = 0 THEN R({-2, -1, n + 1, n + 2, n + 7}) ELSE R(0..n))
MOf(l) == IF R(0..7) = 0 THEN R((-Abs(l) - 2)..(Abs(l) + 2)) ELSE R(-Abs(l)..Abs(l))
Near(a, b) == LET S == {x \in 0..LHi : Tri(a, b, x) /\ Even(a + b + x)} IN IF S = {} \/ R(0..5) = 0 THEN R(0..LHi) ELSE R(S)
GNext == /\ Len(hist) < Depth
         /\ \/ /\ tab = <<>> \/ R(1..60) = 1
               /\ \E L, l, lp \in {R(0..LHi)} : \E cap \in {R({-1, 0, 1, 2, 3, LHi, LHi + 3})} : Fresh(L, l, lp, cap)
            \/ /\ tab # <<>> /\ UNCHANGED tab
               /\ \E k \in {R(0..9)} :
                  \E L \in {Wide(tab.L)}, l \in {Wide(tab.l)} : \E M \in {MOf(L)}, m \in {MOf(l)} : \E lp \in {Near(L, l)} :
                   hist' = Append(hist, CASE k \in 0..5 -> <<"g", L, M, l, m, lp>>
                                          [] k = 6 -> <<"free", Abs(L), M, Abs(l), m, Abs(lp), IF R(0..4) = 0 THEN R(-2..2) ELSE M - m>>
                                          [] k \in 7..8 -> <<"c", R(Kinds), Min(Abs(L), LHi), M, R({x \in {L - 5, L - 4, L - 3, L - 2, L - 1, L, L + 1, L + 2, L + 3, L + 4} : x \in 0..LHi} \cup {0}), IF R(0..4) = 0 THEN m ELSE M>>
                                          [] k = 9 -> <<"mod", Min(Abs(L), LHi), M + m, Min(Abs(lp), LHi), M, Min(Abs(l), LHi), IF R(0..5) = 0 THEN m + 1 ELSE m>>)
GSpec == GInit /\ [][GNext]_<<tab, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
