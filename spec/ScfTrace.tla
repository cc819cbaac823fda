------------------------------ MODULE ScfTrace ------------------------------
(* Judge: "count" E01, "book" E02, "eig" E03 *)
EXTENDS Scf, TraceBase
CONSTANT Judge
VARIABLES l, sinv           \* sinv: the per-block orthogonalisers of the current partition
J(x) == x \in Judge
ev == Trace[l]
Keep == UNCHANGED <<svars, sinv>>
NB == Len(blk)
TParse ==
          /\ ev.e = "parse" /\ Keep
          /\ J("count") => LET p == Parse(ev.Z, ev.Q, ev.M, ev.na, ev.nb) IN
               /\ ev.r = p.r
               /\ p.r = "ok" => ev.out = <<p.na, p.nb, p.Q, p.M>>
TDerive ==
           /\ ev.e = "derive" /\ Keep
           /\ J("count") => LET p == Derive(ev.Z, ev.Q, ev.M, ev.na, ev.nb, ev.restr) IN
               /\ ev.r = p.r
               /\ p.r = "ok" => ev.out = <<p.na, p.nb, p.ntot>> /\ ev.restricted = p.restricted
TPart == /\ ev.e = "part" /\ n' = ev.n /\ blk' = ev.blk /\ mir' = ev.mir /\ sinv' = ev.sinv /\ dens' = Zero(ev.n) /\ put' = 0
(* accumulate one block into the running density (numbers scaled by 4) *)
TAcc == /\ ev.e = "acc"
        /\ LET k == ev.k + 1 D == IF blk[k] = <<>> THEN dens ELSE Add(dens, BlockDens(blk, mir, n, k, Mul(sinv[k], ev.C), ev.occ)) IN
           IF J("book") THEN ev.P = D /\ dens' = D ELSE dens' = ev.P
        /\ UNCHANGED <<n, blk, mir, put, sinv>>
TFinal == /\ ev.e = "final" /\ Keep
          /\ J("book") => LET Cs(o) == [k \in 1..NB |-> IF blk[k] = <<>> THEN <<>> ELSE Mul(sinv[k], ev.C[o + k])]
                              F(o) == FullDens(blk, mir, n, NB, Cs(o), [k \in 1..NB |-> ev.occ[o + k]]) IN
               IF ev.restricted THEN ev.Pa = Half(F(0)) /\ ev.Pb = ev.Pa
               ELSE ev.Pa = F(0) /\ ev.Pb = F(NB)
OrthoOf(F, k) == IF blk[k] = <<>> THEN <<>> ELSE Mul(Tr(sinv[k]), Mul(Cut(F, blk[k]), sinv[k]))
TOrtho ==
          /\ ev.e = "ortho" /\ Keep
          /\ J("book") => /\ ev.F = OrthoOf(ev.A, ev.k + 1)
                          /\ \A x \in 1..Len(ev.sizes) : x # ev.b + 1 => ev.sizes[x] = 0          \* no other block was written
FockOf(spin) == LET A == Add(ev.H, ev.J) X == IF ev.xc THEN Add(A, IF spin = 1 THEN ev.Xb ELSE ev.Xa) ELSE A
                    K == IF ev.exx THEN Add(X, IF spin = 1 THEN ev.Kb ELSE ev.Ka) ELSE X IN
                IF ev.restricted \/ ~ev.bf THEN K ELSE Add(K, Scale(IF spin = 0 THEN -(ev.Bz \div 2) ELSE ev.Bz \div 2, ev.S))   \* Bz is even
TFock ==
         /\ ev.e = "fock" /\ Keep
         /\ J("book") => /\ SameBag(ev.slot, [x \in 1..(IF ev.restricted THEN NB ELSE 2 * NB) |-> x - 1])
                         /\ \A x \in 1..Len(ev.slot) : /\ ev.from[x] = ev.slot[x] % NB
                                                      /\ ev.F[x] = FockOf(ev.slot[x] \div NB)
TCore ==
         /\ ev.e = "core" /\ Keep
         /\ J("book") => /\ Len(ev.F) = NB * ev.nt
                         /\ \A x \in 1..Len(ev.F) : LET k == ((x - 1) % NB) + 1 A == IF ev.bf /\ ev.nt = 2 THEN Add(ev.H, Scale(IF x <= NB THEN -(ev.Bz \div 2) ELSE ev.Bz \div 2, ev.S)) ELSE ev.H IN
                              ev.F[x] = OrthoOf(A, k)
KOf(P) == Mul(ev.A, Mul(P, ev.A))         \* the driver's stand-in exchange map
THfx ==
        /\ ev.e = "hfx" /\ Keep
        /\ J("book") => IF ~ev.exx THEN ev.E2 = 0
                        ELSE LET ka == KOf(ev.Pa) kb == KOf(ev.Pb) IN
                             /\ ev.Ka = ka
                             /\ ev.restricted => ev.E2 = 2 * Trace1(Mul(ev.Pa, ka))
                             /\ ~ev.restricted => ev.Kb = kb /\ ev.E2 = Trace1(Mul(ev.Pa, ka)) + Trace1(Mul(ev.Pb, kb))
TMeta ==
         /\ ev.e = "meta" /\ Keep
         /\ J("book") => IF Len(ev.deg) # ev.nsym \/ Len(ev.lab) # ev.nsym THEN ev.r = "err"
                         ELSE /\ ev.r = "ok"
                              /\ ev.nb = [t \in 1..ev.nt |-> ev.nsym]
                              /\ ev.np = (IF ev.restricted THEN [t \in 1..ev.nt |-> ev.ntot] ELSE [t \in 1..ev.nt |-> IF t = 1 THEN ev.na ELSE ev.nbe])
                              /\ ev.mo = [x \in 1..(ev.nt * ev.nsym) |-> (IF ev.restricted THEN 2 ELSE 1) * ev.deg[((x - 1) % ev.nsym) + 1]]
                              /\ ev.desc = [x \in 1..(ev.nt * ev.nsym) |-> (IF ev.nt = 1 THEN "" ELSE IF x <= ev.nsym THEN "a:" ELSE "b:") \o ev.lab[((x - 1) % ev.nsym) + 1]]
(* natural occupations of a block: eigenvalues (given as the diagonal d in some order), largest first, clamped; residuals found small *)
TFill ==
         /\ ev.e = "fill" /\ Keep
         /\ J("book") => IF blk[ev.k + 1] = <<>> THEN ev.raw = <<>> /\ ev.w = <<>>
                         ELSE ev.ok /\ SameBag(ev.raw, ev.d) /\ Desc(ev.raw) /\ ev.w = [i \in 1..Len(ev.raw) |-> Clamp(ev.raw[i], ev.max)]
TRt == ev.e = "rt" /\ Keep /\ (J("book") => ev.ok)                       \* cutting a density into orbitals and reassembling gives it back
Near(x, y) == x - y \in -2..2
TNel ==
        /\ ev.e = "nel" /\ Keep
        /\ J("book") => /\ Near(ev.na, IF ev.restricted THEN Sum(ev.occ, NB) \div 2 ELSE Sum(ev.occ, NB))     \* occ: electrons per block, 1e-6 units
                        /\ Near(ev.nb, IF ev.restricted THEN Sum(ev.occ, NB) \div 2 ELSE Sum([k \in 1..NB |-> ev.occ[NB + k]], NB))
                        /\ \A k \in 1..NB : Paired(mir, k) => ev.even
(* block-wise diagonalisation: es[k] energies planted in block k, got[i] energy, sup[i] support, of orbital i *)
TEig ==
        /\ ev.e = "eig" /\ Keep
        /\ J("eig") => /\ ev.r = "ok" /\ ev.res /\ ev.orth
                       /\ Len(ev.got) = n /\ Asc(ev.got) /\ ev.asc
                       /\ \A i \in 1..n : \E k \in 1..Len(ev.blk) : Rg(ev.sup[i]) \subseteq Rg(ev.blk[k]) /\ ev.sup[i] # <<>>
                       /\ \A k \in 1..Len(ev.blk) : SameBag(ev.es[k], SelectSeq([i \in 1..n |-> IF Rg(ev.sup[i]) \subseteq Rg(ev.blk[k]) THEN ev.got[i] ELSE -1], LAMBDA x : x >= 0))
(* orthogonalisers: metric becomes the identity on the covered functions; column c of block k (blocks in order, empty ones skipped) lives on block k *)
TSinv ==
         /\ ev.e = "sinv" /\ Keep
         /\ J("eig") => /\ ev.r = "ok" /\ ev.id
                        /\ LET cols == [k \in 1..Len(ev.blk) |-> Len(ev.blk[k])] IN
                           \A k \in 1..Len(ev.blk) : \A c \in 1..cols[k] : Rg(ev.sup[Sum(cols, k - 1) + c]) \subseteq Rg(ev.blk[k])
TBegin == ev.e = "begin" /\ n' = 0 /\ blk' = <<>> /\ mir' = <<>> /\ dens' = <<>> /\ put' = 0 /\ sinv' = <<>>
TraceInit == n = 0 /\ blk = <<>> /\ mir = <<>> /\ dens = <<>> /\ put = 0 /\ sinv = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TParse \/ TDerive \/ TPart \/ TAcc \/ TFinal \/ TOrtho \/ TFock \/ TCore \/ THfx \/ TMeta \/ TFill \/ TRt \/ TNel \/ TEig \/ TSinv) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, sinv, l>>
=============================================================================
