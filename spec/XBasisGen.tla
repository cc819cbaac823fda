------------------------------ MODULE XBasisGen -------------------------------
EXTENDS XBasis, Json, SequencesExt
CONSTANT Depth
VARIABLES hist, kind
R(S) == RandomElement(S)
GInit == bases = <<>> /\ hist = <<>> /\ kind = "none"
Step(x) == hist' = Append(hist, x)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
SubsetOf(S, h) == {x \in S : R(1..3) # 1}
Grid0(h, e) == Sorted({0, e} \cup {R(1..(e - 1)) : x \in 1..R(1..3)})
Chans(k, h) == IF k \in {"sad", "rad"} THEN <<<<0, 0>>>>
               ELSE LET m == R(0..2) S == {c \in (0..4) \X ((0 - m)..m) : c[1] >= Abs(c[2])} IN
                    LET T == {c \in S : R(1..(IF Cardinality(S) > 6 THEN 4 ELSE 2)) = 1} IN SetToSeq(IF T = {} THEN {<<m, 0 - m>>} ELSE T)
NN(f, h) == CASE f \in {3, 4, 100} -> R(3..8) [] f \in {5, 101} -> R(2..4) [] OTHER -> R(2..3)
Fresh(k, h) == \E f \in {R(Fams)}, e \in {R({24, 24, 24, 12, 18})} : \E n \in {NN(f, h)}, g \in {Grid0(h, e)}, c \in {Chans(k, h)} :
                 \E b \in {[k |-> k, fam |-> f, nn |-> n, grid |-> g, zd |-> k = "dia" \/ R(1..2) = 1, ch |-> c]} : Make(b) /\ Step(b)
Last0(b) == Last(b.grid)
(* a basis whose span holds that of a (or of a and b) *)
Super(a, b, h) == \E c \in {IF Cont(a.fam) < Cont(b.fam) THEN Cont(a.fam) ELSE Cont(b.fam)} : \E z \in {IF Last0(a) # Last0(b) /\ ~(a.zd /\ b.zd) THEN 0 ELSE c}, d \in {IF Deg(a) > Deg(b) THEN Deg(a) ELSE Deg(b)} :
   \E f \in {R({f \in Fams : Cont(f) <= z /\ (d <= 11 \/ Cont(f) > 0 \/ z = 0)})} : \E n \in {((d + 1 + Cont(f)) \div (Cont(f) + 1)) + R({0, 0, 1})} :
   \E g \in {Sorted(Range(a.grid) \cup Range(b.grid) \cup (IF R(1..2) = 1 THEN {} ELSE {R(1..(Last0(a) - 1))}))} :
   \E ch \in {IF R(1..5) = 1 THEN a.ch ELSE SetToSeq(Range(a.ch) \cup Range(b.ch))} :
   \E x \in {[k |-> a.k, fam |-> f, nn |-> IF n < 2 THEN 2 ELSE n, grid |-> g, zd |-> a.zd /\ b.zd, ch |-> ch]} : Make(x) /\ Step(x)
Keep == UNCHANGED <<bases, kind>>
Sup(h, x, y) == {z \in 1..Len(bases) : AllIn(bases[x], bases[z]) /\ AllIn(bases[y], bases[z])}
GNext == /\ Len(hist) < Depth
         /\ IF kind = "none" THEN \E k \in {R({"rad", "sad", "at", "dia", "dia"})} : kind' = k /\ Fresh(k, hist)
            ELSE IF Len(bases) < 2 \/ (Len(bases) < 5 /\ R(1..3) = 1) THEN
                 /\ UNCHANGED kind
                 /\ IF Len(bases) > 0 /\ R(1..3) > 1 THEN Super(bases[R(1..Len(bases))], bases[R(1..Len(bases))], hist) ELSE Fresh(kind, hist)
            ELSE \E x \in {R(1..Len(bases))}, y \in {R(1..Len(bases))} : Keep /\
                 \E s \in {Sup(hist, x, y)} :
                   IF s = {} \/ R(1..2) = 1 THEN Step(<<"ov", x, y>>)
                   ELSE IF kind = "rad" /\ R(1..3) > 1 THEN \E d1 \in {R(0..1)}, d2 \in {R(0..1)} : Step(<<"op", x, y, R(s), IF d1 + d2 = 0 THEN R((0 - 1)..4) ELSE R(0..3), d1, d2>>)
                   ELSE Step(<<"tri", x, y, R(s)>>)
GSpec == GInit /\ [][GNext]_<<bases, hist, kind>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
