------------------------------ MODULE TeiPerm ------------------------------
(* A block of two-electron integrals (ij|kl), stored with the pair (i fast, j slow) as row and (k fast, l slow) as column, *)
(* and its reordering to (jk;il).  State: sizes <<Ni, Nj, Nk, Nl>> and the matrix as a sequence of rows.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES size, blk
tvars == <<size, blk>>
Shape(m, r, c) == Len(m) = r /\ \A i \in 1..Len(m) : Len(m[i]) = c
Elem(m, n, i, j, k, l) == m[j * n[1] + i + 1][l * n[3] + k + 1]          \* i, j, k, l count from zero
Div(a, b) == IF b = 0 THEN 0 ELSE a \div b
Mod(a, b) == IF b = 0 THEN 0 ELSE a % b
Reordered(m, n) == [r \in 1..(n[2] * n[3]) |-> [c \in 1..(n[1] * n[4]) |->
                     Elem(m, n, Mod(c - 1, n[1]), Mod(r - 1, n[2]), Div(r - 1, n[2]), Div(c - 1, n[1]))]]
Rotated(n) == <<n[2], n[3], n[1], n[4]>>
(* design check: contents are distinct labels *)
CONSTANT NMax
Labels(n) == [r \in 1..(n[1] * n[2]) |-> [c \in 1..(n[3] * n[4]) |-> (r - 1) * n[3] * n[4] + c]]
VARIABLES steps, orig
PInit == size \in {n \in (1..NMax) \X (1..NMax) \X (1..NMax) \X (1..NMax) : TRUE} /\ blk = Labels(size) /\ steps = 0 /\ orig = size
PNext == steps < 3 /\ blk' = Reordered(blk, size) /\ size' = Rotated(size) /\ steps' = steps + 1 /\ UNCHANGED orig
PSpec == PInit /\ [][PNext]_<<size, blk, steps, orig>>
ThreeTimes == steps = 3 => size = orig /\ blk = Labels(orig)
NothingLost == Shape(blk, size[1] * size[2], size[3] * size[4]) /\ Cardinality({<<r, c>> \in (1..Len(blk)) \X (1..(size[3] * size[4])) : TRUE}) = Cardinality(UNION {{blk[r][c] : c \in 1..(size[3] * size[4])} : r \in 1..Len(blk)})
=============================================================================
