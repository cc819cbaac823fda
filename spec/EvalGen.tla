------------------------------ MODULE EvalGen -------------------------------
EXTENDS Eval, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
Step(x) == hist' = Append(hist, x)
GInit == /\ c = [fam |-> 4, nn |-> 2, fl |-> TRUE, dl |-> FALSE, fr |-> FALSE, dr |-> FALSE] /\ b = {0, 4} /\ cache = {} /\ hist = <<>>
NN(f, h) == CASE f \in {3, 4, 100} -> R({2, 3, 4, 5, 6, 8, 10}) [] f = 5 -> R({2, 2, 3, 4, 5}) [] f = 101 -> R({2, 3, 4}) [] OTHER -> R({2, 2, 3, 4})
Grids(h) == LET lo == R({0, 0, 0, 0, 0, 0 - 8, 0 - 4, 4}) IN {{lo} \cup {4 * R(1..12) : i \in 1..R({1, 1, 2, 3, 5})} \cup (IF lo < 0 /\ R(1..2) = 1 THEN {0} ELSE {})}
Fresh(h) == \E f \in {R(Families)} : \E n \in {NN(f, h)} : \E g \in Grids(h) : \E fl \in {R({TRUE, TRUE, TRUE, TRUE, FALSE})} : \E x \in {R([dl : BOOLEAN, fr : BOOLEAN, dr : BOOLEAN])} :
   \E gg \in {IF Cardinality(g) < 2 THEN g \cup {64} ELSE g} :
   \E cc \in {[fam |-> f, nn |-> n, fl |-> fl, dl |-> x.dl, fr |-> x.fr, dr |-> x.dr]} : \E gg2 \in {IF Nbf(cc, Cardinality(gg) - 1) > 0 THEN gg ELSE gg \cup {68}} :
   /\ c' = cc /\ b' = gg2 /\ cache' = {}
   /\ Step([op |-> "new", c |-> cc, b |-> SortedSeq(gg2)])
Els(h) == {e \in 0..(Nel(b) - 1) : Askable(e)}
Query(h) == \E k \in {R({"dnf", "dnf", "over", "rad", "rad", "rad", "fill", "orb", "nuc", "prec"})} :
   \/ /\ k = "dnf" /\ \E e \in {R(0..(Nel(b) - 1))}, n \in {R({1, 1, 2, 2, 3, 4, 5, DerivLimit(c.fam), DerivLimit(c.fam) + 1})} :
            \* the cost of a high derivative grows steeply with the number of nodes
            \E m \in {IF n > 5 /\ n <= 20 /\ c.nn > 5 THEN 2 ELSE n} : Step(<<"dnf", e, m>>)
      /\ UNCHANGED evars
   \/ k = "over" /\ (\E e \in {R(0..(Nel(b) - 1))}, f \in {R(1..3)}, n \in {R({0, 1, 2, 2, 3, 4})} : Step(<<"over", IF f > 1 THEN 0 ELSE e, n>>)) /\ UNCHANGED evars
   \/ k = "rad" /\ (\E e \in {R(Els(h))}, n \in {R(0..2)}, f \in {R({"q", "q", "x"})} : Step(<<"rad", n, f, e>>)) /\ UNCHANGED evars
   \/ k = "fill" /\ (\E d \in {R(BOOLEAN)}, l \in {R(BOOLEAN)} : Fill(d, l) /\ Step(<<"fill", d, l>>))
   \/ k = "orb" /\ (\E t \in {R({0, 1, 3, 4} \cup 0..70)} : IF OverOK(0, 0) THEN Step(<<"orb", t>>) ELSE Step(<<"prec", 0, 0>>)) /\ UNCHANGED evars
   \/ k = "nuc" /\ (IF OverOK(0, 1) THEN Step(<<"nuc">>) ELSE Step(<<"prec", 0, 1>>)) /\ UNCHANGED evars
   \/ k = "prec" /\ (\E e \in {R(0..(Nel(b) - 1))}, n \in {R(0..2)} : Step(<<"prec", e, n>>)) /\ UNCHANGED evars
GNext == Len(hist) < Depth /\ (IF hist = <<>> \/ Len(hist) = Depth \div 2 THEN Fresh(hist) ELSE Query(hist))
GSpec == GInit /\ [][GNext]_<<evars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
