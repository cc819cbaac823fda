---------------------------- MODULE IntegralsGen ------------------------------
EXTENDS Integrals, Json, SequencesExt
CONSTANTS Depth, Mode
VARIABLE hist
R(S) == RandomElement(S)
GInit == basis = None /\ asked = {} /\ hist = <<>>
Step(x) == hist' = Append(hist, x)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Heavy == Mode = "two"
Grid(h, g) == Sorted({0, 24} \cup (IF g > 0 /\ g < 24 THEN {g} ELSE {}) \cup {R(2..22) : x \in 1..R(IF Heavy THEN {0, 0, 1} ELSE 0..3)})
NN(f, h) == IF Heavy THEN CASE f \in {3, 4, 100} -> R(3..5) [] f \in {5, 101} -> R(2..3) [] OTHER -> 2
            ELSE CASE f \in {3, 4, 100} -> R(3..9) [] f \in {5, 101} -> R(2..5) [] OTHER -> R(2..3)
Pick(S, n, h) == LET T == {c \in S : R(1..Cardinality(S)) <= n} IN IF T = {} THEN {CHOOSE c \in S : TRUE} ELSE T
Chans(k, h) ==
   IF k = "sad" THEN <<<<R(0..(IF Heavy THEN 4 ELSE 2)), 0>>>>
   ELSE LET top == IF Heavy THEN R({1, 2, 2, 3, 3}) ELSE R({1, 3, 4, 6, 6}) mm == IF Heavy /\ k = "dia" THEN R({0, 1, 1, 2, 2, 3}) ELSE R(0..top) IN
        LET S == {c \in (0..top) \X ((0 - mm)..mm) : c[1] >= Abs(c[2])} IN
        LET T == Pick(S, IF Heavy THEN 3 ELSE 5, h) U == IF k = "dia" /\ R(1..2) = 1 THEN T \cup {<<c[1], 0 - c[2]>> : c \in T} ELSE T IN
        SetToSeq(IF Heavy /\ Cardinality(U) > 6 THEN {<<0, 0>>, <<mm, 0 - mm>>, <<mm, mm>>} ELSE U)
Fresh(h) == \E k \in {R({"at", "at", "dia", "dia", "sad"})}, f \in {R({3, 4, 4, 5, 8, 9, 100, 101})}, g \in {R(2..22)} :
   \E n \in {NN(f, h)}, gr \in {Grid(h, IF k = "at" THEN g ELSE 0)}, c \in {Chans(k, h)}, z \in {<<R(0..4), R({0, 1, 3, 9}), R({0, 0, 1, 3, 7})>>} :
   \E rm \in {IF k = "dia" THEN R({700, 1500, 2500, 3500, 4400}) ELSE R({400, 1300, 5000, 12000, 30000})}, rh \in {IF k = "dia" THEN R({150, 700, 1400, 2600}) ELSE IF R(1..6) = 1 THEN 24 ELSE g} :
   \E b \in {[k |-> k, fam |-> f, nn |-> n, grid |-> gr, zd |-> R(1..2) = 1, ch |-> c, chg |-> z, rm |-> rm, rh |-> rh]} : Make(b) /\ Step(b)
Lam(o, b, h) == IF o \in {"J", "K"} THEN 0 ELSE LET s == R({1, 2, 6, 20}) IN IF (s * b.rm) \div 1000 < 1 THEN 8 ELSE IF (s * b.rm) \div 8000 > 14 THEN 1 ELSE s
Next1 == \E b \in {basis} :
   IF Heavy THEN \E o \in {R(Two(b.k))}, s \in {R(0..9999)} : Ask(<<o>>) /\ Step(<<"two", o, s, Lam(o, b, hist), IF b.k = "dia" /\ o = "K" /\ Closed(b) /\ R(1..2) = 1 THEN 1 ELSE 0>>)
   ELSE IF b.k = "at" /\ R(1..4) = 1 THEN \E k \in {R(1..2)} : Ask(<<"cpl", k>>) /\ Step(<<"cpl", k>>)
   ELSE \E o \in {R(Ops(b.k))} : Ask(<<o>>) /\ Step(<<"one", o, IF o = "Bz" THEN R({0 - 20, 0 - 3, 1, 8, 40}) ELSE 0>>)
GNext == Len(hist) < Depth /\ (IF basis = None \/ Len(hist) = (Depth \div 2) THEN Fresh(hist) ELSE Next1)
GSpec == GInit /\ [][GNext]_<<ivars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
