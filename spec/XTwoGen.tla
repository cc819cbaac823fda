------------------------------- MODULE XTwoGen --------------------------------
EXTENDS XTwo, Json, SequencesExt
CONSTANT Depth
VARIABLES hist, kind
R(S) == RandomElement(S)
GInit == bases = <<>> /\ prepared = {} /\ hist = <<>> /\ kind = "none"
Step(x) == hist' = Append(hist, x)
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Grid0(h, e) == Sorted({0, e} \cup {R(1..(e - 1)) : x \in 1..R(0..2)})
Chans(k, h) == IF k \in {"sad", "rad"} THEN <<<<0, 0>>>>
               ELSE LET S == {c \in (0..2) \X ((0 - 2)..2) : c[1] >= Abs(c[2]) /\ (k = "dia" => Abs(c[2]) <= 1)} IN
                    LET T == {c \in S : R(1..4) = 1} IN SetToSeq(IF T = {} \/ Cardinality(T) > 3 THEN {<<0, 0>>, <<1, R((0 - 1)..1)>>} ELSE T)
NN(f, h) == CASE f \in {3, 4, 100} -> R(3..6) [] f \in {5, 101} -> R(2..3) [] OTHER -> 2
Fresh(k, h) == \E f \in {R(Fams)}, e \in {R({24, 24, 24, 12, 18})} : \E n \in {NN(f, h)}, g \in {Grid0(h, e)}, c \in {Chans(k, h)} :
                 \E b \in {[k |-> k, fam |-> f, nn |-> n, grid |-> g, zd |-> k = "dia" \/ R(1..2) = 1, ch |-> c]} : Open(b) /\ Step(b)
(* a basis whose span holds that of a *)
Super(a, h) == \E z \in {Cont(a.fam)}, d \in {Deg(a)} :
   \E f \in {R({f \in Fams : Cont(f) <= z})} : \E n \in {((d + 1 + Cont(f)) \div (Cont(f) + 1)) + R({0, 0, 1})} :
   \E g \in {Sorted(Range(a.grid) \cup {R(1..(Last(a.grid) - 1)) : x \in 1..R(0..2)} \cup (IF a.zd /\ Last(a.grid) < 24 /\ R(1..2) = 1 THEN {24} ELSE {}))} :
   \E ch \in {IF a.k \in {"rad", "sad"} \/ R(1..2) = 1 THEN a.ch ELSE SetToSeq(Range(a.ch) \cup {R({<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, 0 - 1>>, <<2, 0>>, <<2, 1>>})})} :
   \E x \in {[k |-> a.k, fam |-> f, nn |-> IF n < 2 THEN 2 ELSE n, grid |-> g, zd |-> a.zd, ch |-> ch]} : Open(x) /\ Step(x)
Keep == UNCHANGED kind
Pairs(h) == {p \in (1..Len(bases)) \X (1..Len(bases)) : p[1] # p[2] /\ Within(bases[p[1]], bases[p[2]])}
Two(h) == \E p \in {R(Pairs(h))}, o \in {R(Ops(kind))} : Uses(o, p[1], p[2]) /\ Step(<<"two", o, p[1], p[2], R(0..999), R({1, 3, 8, 20, 60})>>)
GNext == /\ Len(hist) < Depth
         /\ IF kind = "none" THEN \E k \in {R({"rad", "rad", "sad", "at", "at", "dia"})} : kind' = k /\ Fresh(k, hist)
            ELSE IF Pairs(hist) = {} \/ (Len(bases) < 3 /\ R(1..4) = 1) THEN Keep /\ Super(bases[R(1..Len(bases))], hist)
            ELSE Keep /\ \E s \in {R(1..8)}, x \in {R(1..Len(bases))} :
                 IF kind = "rad" /\ s <= 4 THEN UNCHANGED <<bases, prepared>> /\ Step(<<"fac", x, R(0..6), R({0, 0, 1, 8, 40}), R({4, 6, 8, 10})>>)
                 ELSE IF kind = "at" /\ s = 1 THEN Prep(x) /\ Step(<<"prep", x>>)
                 ELSE IF kind = "at" /\ s <= 4 THEN UNCHANGED <<bases, prepared>> /\ Step(<<"df", x, R({4, 6, 8})>>)
                 ELSE Two(hist)
GSpec == GInit /\ [][GNext]_<<bases, prepared, hist, kind>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
