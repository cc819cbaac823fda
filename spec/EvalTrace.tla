----------------------------- MODULE EvalTrace ------------------------------
(* Validates recorded evaluations. Deviations are integers in units of 1e-9  *)
(* relative to the largest value of the function concerned.                  *)
EXTENDS Eval, TraceBase
CONSTANT Tol
VARIABLES l, live
ev == Trace[l]
tvars == <<c, b, cache, l, live>>
Begin == ev.e = "begin" /\ live' = FALSE /\ UNCHANGED <<c, b, cache>>
Skip == ev.e = "add" /\ UNCHANGED <<c, b, cache, live>>
TNew == /\ ev.e = "new" /\ ev.r = "ok"
        /\ c' = [fam |-> ev.fam, nn |-> ev.nn, fl |-> ev.bc[1], dl |-> ev.bc[2], fr |-> ev.bc[3], dr |-> ev.bc[4]]
        /\ b' = {ev.toks[i] : i \in 1..Len(ev.toks)} /\ cache' = {} /\ live' = TRUE
Same == UNCHANGED <<c, b, cache, live>>
Shape(e) == ev.sh[1] = ev.np /\ ev.sh[2] = Count(c, Nel(b), e)
TDnf == ev.e = "dnf" /\ live /\ (ev.r = "ok") = DerivOK(ev.n) /\ (ev.r = "ok" => Shape(ev.el) /\ ev.dev <= Tol) /\ Same
TOver == ev.e = "over" /\ live /\ (ev.r = "ok") = OverOK(ev.el, ev.n) /\ (ev.r = "ok" => Shape(ev.el) /\ ev.dev <= Tol) /\ Same
TRad == /\ ev.e = "rad" /\ live /\ (ev.r = "ok") = RadOK(ev.el, ev.n)
        /\ ev.r = "ok" => Shape(ev.el) /\ ev.dev <= Tol /\ ev.wdev <= Tol /\ ev.rdev <= Tol
        /\ Same
TFill == ev.e = "fill" /\ live /\ (ev.r = "ok") = FillOK /\ Fill(ev.d, ev.l) /\ UNCHANGED live
TOrb == /\ ev.e = "orb" /\ live /\ OverOK(0, 0) /\ ev.r = "ok" /\ ev.len = 3
        /\ IF \A x \in b : x < ev.t THEN ev.zero ELSE ev.dev <= Tol
        /\ Same
TNuc == ev.e = "nuc" /\ live /\ ev.r = "ok" /\ ev.orb <= Tol /\ ev.den <= Tol /\ ev.grad <= Tol /\ ev.bad = <<"err", "err">> /\ Same
TPrec == ev.e = "prec" /\ live /\ ev.r = "ok" /\ ev.dev <= Tol /\ ev.mat <= Tol /\ Same
TraceInit == /\ c = [fam |-> 3, nn |-> 2, fl |-> FALSE, dl |-> FALSE, fr |-> FALSE, dr |-> FALSE] /\ b = {0, 1} /\ cache = {} /\ live = FALSE /\ l = 1
TraceNext == l <= TraceLen /\ (Begin \/ Skip \/ TNew \/ TDnf \/ TOver \/ TRad \/ TFill \/ TOrb \/ TNuc \/ TPrec) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
