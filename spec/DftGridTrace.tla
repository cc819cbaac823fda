---------------------------- MODULE DftGridTrace ----------------------------
(* Errors are relative, in units of 10^-12. *)
EXTENDS DftGrid, TraceBase
VARIABLE l
CONSTANT Judge                         \* subset of {"potential", "grid"}
ev == Trace[l]
J(x, p) == IF x \in Judge THEN p ELSE TRUE
Tiny(x) == x <= 1000                    \* 1e-9
Small(x) == x <= 2000000                \* 2e-6: angular rules integrate only approximately
(* finite differences of the energy: the meta-GGAs switch between branches *)
GradTol(x, c) == IF 206 \in {x, c} THEN 2000000000 - 1 ELSE IF UsesTau(x, c) THEN 200000000 ELSE 1000000
TNew == ev.e = "new" /\ Create(ev.k)
TEval == /\ ev.e = "eval" /\ (IF Refused(ev.x, ev.px, ev.c, ev.pc) THEN Same ELSE Evaluate(ev.x, ev.c))
         /\ J("potential", IF Refused(ev.x, ev.px, ev.c, ev.pc) THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ Tiny(ev.err) /\ ev.kept /\ ev.hbz)
TGrad == ev.e = "grad" /\ Evaluate(ev.x, ev.c) /\ J("potential", ev.err <= GradTol(ev.x, ev.c))
TSpin == ev.e = "spin" /\ Evaluate(ev.x, ev.c) /\ J("potential", Tiny(ev.swap) /\ Tiny(ev.sym) /\ (IF 206 \in {ev.x, ev.c} THEN Small(ev.closed) ELSE ev.closed <= 100000))
TAdd == ev.e = "add" /\ Evaluate(ev.x, ev.c) /\ J("potential", Tiny(ev.err))
TBeta == ev.e = "beta" /\ Evaluate(ev.x, ev.c) /\ J("potential", Tiny(ev.err) /\ ev.hbz)
TCount == ev.e = "count" /\ Evaluate(ev.x, ev.c) /\ J("grid", Small(ev.n) /\ (IF kind # "sa" /\ UsesTau(ev.x, ev.c) THEN Small(ev.t) /\ ~ev.tz ELSE ev.tz))
TVw == ev.e = "vw" /\ Evaluate(52, 0) /\ J("grid", ev.applies => Small(ev.err))
TGea == ev.e = "gea" /\ Evaluate(627, 52) /\ J("grid", ev.err <= 10000000)
TDirac == ev.e = "dirac" /\ kind = "sa" /\ Evaluate(1, 0) /\ J("grid", Tiny(ev.err))
TPure == ev.e = "pure" /\ Evaluate(ev.x, ev.c) /\ J("grid", Small(ev.r) /\ Small(ev.u))
TSphere == ev.e = "sphere" /\ Same /\ J("grid", Small(ev.en) /\ Small(ev.h) /\ Small(ev.off))
TBegin == ev.e = "begin" /\ kind' = "none" /\ avail' = {}
TraceInit == kind = "none" /\ avail = {} /\ last = {} /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TNew \/ TEval \/ TGrad \/ TSpin \/ TAdd \/ TBeta \/ TCount \/ TVw \/ TGea \/ TDirac \/ TPure \/ TSphere) /\ UNCHANGED last /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<kind, avail, last, l>>
=============================================================================
