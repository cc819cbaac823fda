------------------------------- MODULE ScfGen -------------------------------
(* Random partitions of functions into blocks (some empty, some with mirror partners) and random operation sequences. *)
EXTENDS Scf, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
RECURSIVE Perm(_)
Perm(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Perm(S \ {x})
(* cut a sequence into pieces; pieces with a mirror take twice the size *)
RECURSIVE Cuts(_, _)
Cuts(s, left) == IF left = 0 THEN (IF s = <<>> THEN <<>> ELSE <<[b |-> s, m |-> <<>>]>>) ELSE
   LET two == Len(s) >= 2 /\ R(0..2) = 0 hi == IF two THEN Len(s) \div 2 ELSE Len(s) k == R((IF two THEN 1 ELSE 0)..hi) IN
   IF two THEN <<[b |-> SubSeq(s, 1, k), m |-> SubSeq(s, k + 1, 2 * k)]>> \o Cuts(SubSeq(s, 2 * k + 1, Len(s)), left - 1)
   ELSE <<[b |-> SubSeq(s, 1, k), m |-> <<>>]>> \o Cuts(SubSeq(s, k + 1, Len(s)), left - 1)
Gen(m, k) == LET c == Cuts(Perm(0..(m - 1)), k) IN c
GInit == n = 0 /\ blk = <<>> /\ mir = <<>> /\ dens = <<>> /\ put = 0 /\ hist = <<>>
GStart == hist = <<>> /\ UNCHANGED svars /\ \E m \in {R(1..6)} : \E k \in {R(0..3)} : \E c \in {Gen(m, k)} : hist' = <<[op |-> "part", n |-> m, c |-> c]>>
GNext == \/ GStart
         \/ /\ hist # <<>> /\ Len(hist) < Depth /\ UNCHANGED svars
            /\ \E o \in {R({"acc", "acc ", "final", "ortho", "fock", "core", "hfx", "meta", "fill", "rt", "nel", "eig", "sinv"})} : \E t \in {R(0..99)} : \E u \in {R(0..99)} :
               hist' = Append(hist, [op |-> o, t |-> t, u |-> u])
GSpec == GInit /\ [][GNext]_<<svars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
