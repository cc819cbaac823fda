------------------------------ MODULE XTwoTrace -------------------------------
EXTENDS XTwo, TraceBase
VARIABLE i
ev == Trace[i]
TBegin == ev.e = "begin" /\ bases' = <<>> /\ prepared' = {}
Basis == [k |-> ev.k, fam |-> ev.fam, nn |-> ev.nn, grid |-> ev.grid, zd |-> ev.zd, ch |-> ev.ch]
TMk == ev.e = "mk" /\ Open(Basis) /\ ev.nbf = Nbf(Basis)
(* units 1e-15 of the exact kinds; spheroidal and complementary error function integrals come from a quadrature of finite order, units 1e-9 *)
Tol(k, o) == IF o = "E" THEN 500000 ELSE IF k = "dia" THEN 30000 ELSE IF k = "rad" THEN 2000 ELSE 500000
TTwo == /\ ev.e = "two" /\ ev.o \in Ops(bases[ev.a].k) /\ Uses(ev.o, ev.a, ev.c) /\ ev.r = "ok"
        /\ Within(bases[ev.a], bases[ev.c]) => ev.err <= Tol(bases[ev.a].k, ev.o)
TFac == /\ ev.e = "fac" /\ UNCHANGED xvars /\ ev.sym <= 2000 /\ ev.err <= 3000 /\ ev.con <= 1000000
        /\ Len(ev.rank) = Nel(bases[ev.a]) /\ \A x \in 1..Len(ev.rank) : ev.rank[x] <= ev.full[x] /\ ev.full[x] = (LET n == ElBf(bases[ev.a], x) IN (n * (n + 1)) \div 2)
TPrep == ev.e = "prep" /\ Prep(ev.a)
TDf == /\ ev.e = "df" /\ UNCHANGED xvars
       /\ IF Factors(ev.a) THEN ev.r = "ok" /\ ev.n = Poles(bases[ev.a]) /\ ev.shape /\ ev.err <= 3000
          ELSE ev.r = "logic_error"
TraceInit == bases = <<>> /\ prepared = {} /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TMk \/ TTwo \/ TFac \/ TPrep \/ TDf) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<bases, prepared, i>>
=============================================================================
