---------------------------- MODULE AtomObsTrace -----------------------------
EXTENDS AtomObs, TraceBase
VARIABLE i
ev == Trace[i]
Idle == UNCHANGED at
TBegin == ev.e = "begin" /\ at' = None
TNew == ev.e = "new" /\ New(ev.k, ev.R)
TAdd == ev.e = "add" /\ Add(ev.l, ev.qa, ev.qb, ev.g)
TSwap == ev.e = "swap" /\ Swap
Clean == ev.r = "ok" /\ ev.fit <= 100
(* recorded coefficients in units 10^-3 *)
Tol(x) == 3 + Abs(x) \div 1000000
IsPoly(p) == ev.res <= 1000 /\ \A j \in 1..Max(Len(ev.c), Len(p)) : Abs(Co(ev.c, j) - 1000 * Co(p, j)) <= Tol(1000 * Co(p, j))
IsRPoly(f) == ev.res <= 1000 /\ \A j \in 1..Max(Len(ev.c), Len(f)) : LET x == IF j <= Len(f) THEN Fix(f[j], 3) ELSE 0 IN Abs(Co(ev.c, j) - x) <= Tol(x)
D == Density(at, "t")
Last == at.orbs[Len(at.orbs)]
Polys == {"rho", "rhob", "rhor2", "grad", "lap", "tau", "orb", "dorb", "d2orb", "lda", "ldaa", "ldab"}
TPoly == /\ ev.e = "obs" /\ ev.o \in Polys /\ Idle /\ Clean
         /\ IsPoly(CASE ev.o \in {"rho", "lda"} -> D [] ev.o \in {"rhob", "ldab"} -> Density(at, "b") [] ev.o = "ldaa" -> Density(at, "a") [] ev.o = "rhor2" -> PX(PX(D))
                     [] ev.o = "grad" -> PDer(D) [] ev.o = "lap" -> Laplace(D) [] ev.o = "tau" -> Kinetic(at)
                     [] ev.o = "orb" -> Last.w [] ev.o = "dorb" -> PDer(Last.w) [] ev.o = "d2orb" -> PDer(PDer(Last.w)))
         /\ (ev.k = "sad" /\ ev.o \in {"rho", "rhob", "orb"} => Abs(ev.at0 - 1000 * (CASE ev.o = "rho" -> D[1] [] ev.o = "rhob" -> Density(at, "b")[1] [] ev.o = "orb" -> Last.w[1])) <= 2)
TCharge == ev.e = "obs" /\ ev.o = "encl" /\ Idle /\ Clean /\ IsRPoly(Inside(D))
THart == ev.e = "obs" /\ ev.o = "hart" /\ Idle /\ Clean /\ ev.at0 = 0 /\ IsRPoly(Screening(D, at.R))
TNuc == ev.e = "obs" /\ ev.o = "nuc" /\ Idle /\ Clean /\ Abs(ev.v - 1000 * D[1]) <= 2 /\ Abs(ev.g - 1000 * Co(D, 2)) <= 2
TNel == ev.e = "obs" /\ ev.o = "nel" /\ Idle /\ Clean /\ ev.up /\ Abs(ev.v - Fix(Electrons(D, at.R), 3)) <= Tol(ev.v)
TOut == ev.e = "obs" /\ ev.o = "out" /\ Idle /\ Clean /\ ev.v = 0
(* radii in units 10^-6; asked for at n/16 R *)
TCount == ev.e = "obs" /\ ev.o = "countr" /\ Idle /\ Clean /\ Abs(ev.v - 62500 * ev.n * at.R) <= 300
TVdw == ev.e = "obs" /\ ev.o = "vdw" /\ Idle /\ Clean /\ (Monotone(at) => Abs(ev.v - 62500 * ev.n * at.R) <= 3000)
TNoVdw == ev.e = "obs" /\ ev.o = "novdw" /\ Idle /\ Clean /\ ev.v = 0
TMax == ev.e = "obs" /\ ev.o = "maxr" /\ Idle /\ Clean /\ ev.low <= 10 /\ (Monotone(at) => Abs(ev.v - (IF ev.w THEN 500000 * at.R ELSE 0)) <= 100)
TGga == ev.e = "obs" /\ ev.o = "gga" /\ Idle /\ Clean /\ ev.err <= 20
TMgga == ev.e = "obs" /\ ev.o = "mgga" /\ Idle /\ ev.r = "logic_error"
TraceInit == at = None /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TNew \/ TAdd \/ TSwap \/ TPoly \/ TCharge \/ THart \/ TNuc \/ TNel \/ TOut \/ TCount \/ TVdw \/ TNoVdw \/ TMax \/ TGga \/ TMgga) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<at, i>>
=============================================================================
