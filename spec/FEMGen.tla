------------------------------- MODULE FEMGen -------------------------------
(* Test behaviours of FEM: enumerated configurations and random refinement   *)
(* histories interleaved with queries.                                       *)
EXTENDS FEM, Json
CONSTANTS Depth, NNs, Nels
(* boundaries are multiples of 4; points in between are ulp-neighbours (1, 3 mod 4) or interior (2 mod 4) *)
Grid4 == {4 * k : k \in 0..12}
Points == 0..48
VARIABLE hist
(* every configuration with a fixed number of elements, then one refinement *)
EnumInit == /\ c \in BoolCfgs(Families, NNs) /\ \E n \in Nels : b = 0..n
            /\ hist = [op |-> "cfg", c |-> c, nel |-> Nel(b)]
EnumNext == FALSE /\ UNCHANGED <<c, b, hist>>
EmitAll == PrintT("@@" \o ToJson(hist))
(* random histories *)
R(S) == RandomElement(S)
(* the random choice of the basis is the first step: TLC evaluates Init only once *)
SimInit == /\ c = [fam |-> 4, nn |-> 2, fl |-> FALSE, dl |-> FALSE, fr |-> FALSE, dr |-> FALSE] /\ b = {} /\ hist = <<>>
SimStart == /\ hist = <<>>
            /\ \E x \in {R(BoolCfgs(Families, NNs))} : \E n \in {R({2, 3, 4})} : \E S \in {R({S \in SUBSET Toks : Cardinality(S) = n})} :
                 c' = x /\ b' = S /\ hist' = <<[op |-> "new", c |-> x, b |-> SortedSeq(S)]>>
SimNext == \/ SimStart
           \/ /\ hist # <<>> /\ Len(hist) < Depth
              /\ \E k \in {R({"add", "add2", "find", "bnd", "map", "asm"})} :
                 \E t \in {R(Toks)} : \E u \in {R(0..20)} : \E p \in {R(Points)} :
                  /\ b' = IF k \in {"add", "add2"} THEN b \cup {t} ELSE b
                  /\ hist' = Append(hist, CASE k \in {"add", "add2"} -> [op |-> "add", t |-> t]
                                            [] k = "find" -> [op |-> "find", t |-> p]
                                            [] OTHER -> [op |-> k, t |-> u])
              /\ UNCHANGED c
SimSpec == SimInit /\ [][SimNext]_<<c, b, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
