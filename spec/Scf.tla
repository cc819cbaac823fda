-------------------------------- MODULE Scf --------------------------------
(***************************************************************************)
(* Bookkeeping of the self-consistent-field drivers.                       *)
(*  1. electron counting: what a request (Z, Q, M, explicit counts,        *)
(*     restriction) resolves to                                            *)
(*  2. densities and Fock matrices: N functions are divided into symmetry  *)
(*     blocks; a block may stand for itself and a mirror partner           *)
(*  3. block-wise diagonalisation                                          *)
(* Matrices are sequences of rows.  Function numbers are 0-based.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES n, blk, mir, dens, put      \* functions, blocks, mirrors, density, electrons put into it
svars == <<n, blk, mir, dens, put>>
Rg(s) == {s[i] : i \in 1..Len(s)}
Pos(i, s) == IF i \in Rg(s) THEN CHOOSE k \in 1..Len(s) : s[k] = i ELSE 0
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
(* ---- electron counting ---- *)
Err == [r |-> "err"]
Ok(na, nb, Q, M) == [r |-> "ok", na |-> na, nb |-> nb, Q |-> Q, M |-> M]
Parse(Z, Q, M, na, nb) ==
  IF na = 0 /\ nb = 0
  THEN LET N == Z - Q IN
       IF M < 1 \/ N < 0 \/ (N + M) % 2 = 0 \/ N < M - 1 THEN Err ELSE Ok((N + M - 1) \div 2, (N - M + 1) \div 2, Q, M)
  ELSE IF na < 0 \/ nb < 0 \/ na < nb THEN Err ELSE Ok(na, nb, Z - na - nb, 1 + na - nb)
OkR(na, nb, restr) == [r |-> "ok", na |-> na, nb |-> nb, restricted |-> restr, ntot |-> na + nb]
(* restriction: -1 automatic, 0 no, otherwise yes *)
Derive(Z, Q, M, na, nb, restr) ==
  IF M = 0 /\ na = 0 /\ nb = 0
  THEN IF restr = 0 \/ Z - Q <= 0 THEN Err ELSE OkR((Z - Q + 1) \div 2, (Z - Q) \div 2, TRUE)
  ELSE LET p == Parse(Z, Q, M, na, nb) IN
       IF p.r = "err" THEN Err ELSE OkR(p.na, p.nb, IF restr = -1 THEN p.na = p.nb ELSE restr # 0)
CountFacts(R) == \A Z, na, nb \in R, Q, M \in R, restr \in -1..1 :
   LET p == Parse(Z, Q, M, na, nb) d == Derive(Z, Q, M, na, nb, restr) IN
   /\ p.r = "ok" => p.na >= 0 /\ p.nb >= 0 /\ p.na + p.nb = Z - p.Q /\ p.na - p.nb = p.M - 1
   /\ (p.r = "ok" /\ na = 0 /\ nb = 0) => p.Q = Q /\ p.M = M
   /\ (p.r = "ok" /\ (na # 0 \/ nb # 0)) => p.na = na /\ p.nb = nb
   /\ d.r = "ok" => d.na + d.nb = d.ntot /\ (restr = 0 => ~d.restricted) /\ (restr = 1 => d.restricted)
   /\ (d.r = "ok" /\ na = 0 /\ nb = 0) => d.ntot = Z - Q
(* ---- matrices ---- *)
Mat(r, k, f(_, _)) == [i \in 1..r |-> [j \in 1..k |-> f(i, j)]]
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])
Mul(A, B) == Mat(Len(A), Cols(B), LAMBDA i, j : Sum([k \in 1..Len(B) |-> A[i][k] * B[k][j]], Len(B)))
Tr(A) == Mat(Cols(A), Len(A), LAMBDA i, j : A[j][i])
Add(A, B) == Mat(Len(A), Cols(A), LAMBDA i, j : A[i][j] + B[i][j])
Scale(k, A) == Mat(Len(A), Cols(A), LAMBDA i, j : k * A[i][j])
Trace1(A) == Sum([i \in 1..Len(A) |-> A[i][i]], Len(A))
Cut(A, idx) == Mat(Len(idx), Len(idx), LAMBDA i, j : A[idx[i] + 1][idx[j] + 1])
Zero(m) == Mat(m, m, LAMBDA i, j : 0)
(* place D at the rows and columns idx *)
Place(D, idx, m) == Mat(m, m, LAMBDA i, j : LET a == Pos(i - 1, idx) b == Pos(j - 1, idx) IN IF a > 0 /\ b > 0 THEN D[a][b] ELSE 0)
(* C diag(w) C^T *)
Outer(C, w) == Mat(Len(C), Len(C), LAMBDA i, j : Sum([k \in 1..Len(w) |-> C[i][k] * w[k] * C[j][k]], Len(w)))
(* density of one block in the function basis; all numbers are scaled by 4 (occupations are given as multiples of 1/4) *)
Paired(mm, k) == mm[k] # <<>>
BlockDens(bb, mm, m, k, C, occ) ==
  LET D == Outer(C, IF Paired(mm, k) THEN [i \in 1..Len(occ) |-> occ[i] \div 2] ELSE occ) IN
  IF Paired(mm, k) THEN Add(Place(D, bb[k], m), Place(D, mm[k], m)) ELSE Place(D, bb[k], m)
RECURSIVE FullDens(_, _, _, _, _, _)
FullDens(bb, mm, m, k, Cs, occs) == IF k = 0 THEN Zero(m) ELSE
  IF bb[k] = <<>> THEN FullDens(bb, mm, m, k - 1, Cs, occs) ELSE Add(BlockDens(bb, mm, m, k, Cs[k], occs[k]), FullDens(bb, mm, m, k - 1, Cs, occs))
Half(A) == Mat(Len(A), Cols(A), LAMBDA i, j : A[i][j] \div 2)
Deg(mm, k) == IF Paired(mm, k) THEN 2 ELSE 1
Clamp(x, hi) == IF x < 0 THEN 0 ELSE IF x > hi THEN hi ELSE x
Desc(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
Asc(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in Rg(s) \cup Rg(t) : CountIn(s, x) = CountIn(t, x)
(* ---- state machine: orthonormal functions, unit orbitals, electrons added block by block ---- *)
CONSTANTS Occs, MaxPut
Id(m) == Mat(m, m, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
SInit == /\ n = 4 /\ \E p \in {<<<<<<0, 1, 2, 3>>>>, <<<<>>>>>>, <<<<<<2, 0>>, <<>>, <<3, 1>>>>, <<<<>>, <<>>, <<>>>>>>, <<<<<<2, 0>>, <<3>>>>, <<<<>>, <<1>>>>>>} : blk = p[1] /\ mir = p[2]
         /\ dens = Zero(4) /\ put = 0
SAcc(k, w) == /\ blk[k] # <<>> /\ Len(w) = Len(blk[k])
              /\ dens' = Add(dens, BlockDens(blk, mir, n, k, Id(Len(blk[k])), w)) /\ put' = put + Sum(w, Len(w)) /\ UNCHANGED <<n, blk, mir>>
SNext == put < MaxPut /\ \E k \in 1..Len(blk) : \E w \in [1..Len(blk[k]) -> Occs] : SAcc(k, w)
SSpec == SInit /\ [][SNext]_svars
ElectronsConserved == Trace1(dens) = put
Symmetric == \A i, j \in 1..n : dens[i][j] = dens[j][i]
BlockDiagonal == \A i, j \in 1..n : dens[i][j] # 0 => \E k \in 1..Len(blk) : {i - 1, j - 1} \subseteq Rg(blk[k]) \/ {i - 1, j - 1} \subseteq Rg(mir[k])
MirrorEven == \A k \in 1..Len(blk) : Paired(mir, k) => Cut(dens, blk[k]) = Cut(dens, mir[k])
Counting == CountFacts(-2..5)
ASSUME CountFacts(-1..4)
=============================================================================
