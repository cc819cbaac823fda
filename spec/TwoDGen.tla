------------------------------ MODULE TwoDGen ------------------------------
(* Random channel lists, charges and query sequences. *)
EXTENDS TwoD, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
Wide(h) == IF R(1..2) = 1 THEN AngSet(4, 3) ELSE AngSet(9, 7)
RECURSIVE Pick(_, _, _)
Pick(S, n, acc) == IF n = 0 \/ S = {} THEN acc ELSE LET x == R(S) IN Pick(S \ {x}, n - 1, Append(acc, x))
Gen(style, n, AllChans) == CASE style = 0 -> Pick(AllChans, n, <<>>)                           \* arbitrary
                   [] style = 1 -> Pick({x \in AllChans : x[2] = 0}, n, <<>>)        \* sigma only
                   [] style = 2 -> LET v == Pick({x \in AllChans : x[2] > 0}, (n + 1) \div 2, <<>>) IN      \* pairs
                                     Cat([k \in 1..Len(v) |-> <<v[k], <<v[k][1], -v[k][2]>>>>], Len(v)) \o <<<<0, 0>>>>
                   [] style = 3 -> <<<<0, 0>>, <<1, 0>>, <<1, 1>>, <<1, -1>>, <<2, 1>>, <<2, -1>>>>
                   [] OTHER -> LET S == AngSet(R(1..3), R(0..2)) IN Pick(S, Cardinality(S), <<>>)   \* complete sets
(* the random choice of the basis is the first step: TLC evaluates Init only once *)
GInit == /\ c = [fam |-> 4, nn |-> 2, fl |-> TRUE, dl |-> TRUE, fr |-> TRUE, dr |-> TRUE] /\ b = {0, 1} /\ kind = "at" /\ ch = <<>> /\ chg = <<0, 0, 0>> /\ hist = <<>>
GStart == /\ hist = <<>> /\ UNCHANGED tdvars
         /\ \E k \in {R({"at", "di"})} : \E st \in {R(0..4)} : \E n \in {R(1..5)}, A \in {Wide(hist)} : \E fam \in {R({3, 4, 5, 8})} : \E nn \in {R({3, 4, 2})} : \E zd \in {R(BOOLEAN)} : \E nel \in {R(2..4)} :
            \E z \in {R(0..3)} : \E z1 \in {R(0..2)} : \E z2 \in {R(0..2)} :
            hist' = <<[op |-> "basis", k |-> k, fam |-> fam, nn |-> nn, zd |-> zd, nel |-> nel, ch |-> Gen(st, n, A), chg |-> IF k = "di" THEN <<z, z1, 0>> ELSE <<z, z1, z2>>]>>
GNext == \/ GStart
         \/ /\ hist # <<>> /\ Len(hist) < Depth
            /\ \E o \in {R({"sym", "sym", "idx", "pad", "d2r", "midx", "op", "op"})} : \E t \in {R(-1..4)} : \E u \in {R(0..99)} : hist' = Append(hist, [op |-> o, t |-> t, u |-> u])
            /\ UNCHANGED tdvars
GSpec == GInit /\ [][GNext]_<<tdvars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
