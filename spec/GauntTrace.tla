----------------------------- MODULE GauntTrace -----------------------------
EXTENDS Gaunt, TraceBase
VARIABLE l
ev == Trace[l]
Close(x, y, tol) == x - y <= tol /\ y - x <= tol
Tol2(x) == 4 + x \div 50000000
IsValue(e, want) == e.r = "ok" /\ e.s = want[1] /\ Close(e.v2, Fix8(want[2]), 4) /\ e.ld /\ e.f128
IsZero(e) == e.r = "ok" /\ e.s = 0 /\ e.ld /\ e.f128
TTable == /\ ev.e = "table"
          /\ ev.r = "ok"
          /\ tab' = Table(ev.L, ev.l, ev.lp, ev.cap)
TLookup == /\ ev.e = "g"
           /\ LET a == Lookup(tab, ev.L, ev.M, ev.l, ev.m, ev.lp) IN
              CASE a = "value" -> IsValue(ev, G(ev.L, ev.M, ev.l, ev.m, ev.lp, ev.M - ev.m))
                [] a = "zero" -> IsZero(ev)
                [] a = "error" -> ev.r = "logic_error"
                [] a = "either" -> ev.r = "logic_error" \/ IsZero(ev)
           /\ UNCHANGED tab
TFree == /\ ev.e = "free"
         /\ IF ev.M = ev.m + ev.mp THEN IsValue(ev, G(ev.L, ev.M, ev.l, ev.m, ev.lp, ev.mp)) ELSE IsZero(ev)
         /\ UNCHANGED tab
(* a coupling is judged where the table covers it: both l in range, the multipoles of the power in range, m in the window *)
Covered(k, lj, mj, li, mi) == lj \in 0..tab.L /\ li \in 0..tab.lp /\ Pow(k) <= tab.l /\ (Abs(mj) <= tab.cap)
TCoupl == /\ ev.e = "c"
          /\ IF ev.mi # ev.mj THEN IsZero(ev)
             ELSE IF Covered(ev.k, ev.lj, ev.mj, ev.li, ev.mi) THEN IsValue(ev, Coupl(ev.k, ev.lj, ev.mj, ev.li, ev.mi))
             ELSE TRUE
          /\ UNCHANGED tab
ModCovered == /\ ev.li \in 0..tab.l /\ ev.lj \in 0..tab.L /\ ev.L + 2 \in 0..Min(tab.L, tab.lp) /\ 2 <= tab.l
              /\ Abs(ev.M) <= tab.cap /\ Abs(ev.mj) <= tab.cap /\ Abs(ev.mi) <= tab.cap
              /\ Abs(ev.M) <= ev.L /\ Abs(ev.mi) <= ev.li /\ Abs(ev.mj) <= ev.lj
TMod == /\ ev.e = "mod"
        /\ IF ev.mj # ev.M + ev.mi THEN IsZero(ev)
           ELSE ModCovered => ev.r = "ok" /\ Close(ev.v4, Mod4(ev.lj, ev.mj, ev.L, ev.M, ev.li, ev.mi), 12) /\ ev.ld /\ ev.f128
        \* the table-free function has no range
        /\ (ev.mj = ev.M + ev.mi /\ Abs(ev.M) <= ev.L /\ Abs(ev.mi) <= ev.li /\ Abs(ev.mj) <= ev.lj) => Close(ev.free4, Mod4(ev.lj, ev.mj, ev.L, ev.M, ev.li, ev.mi), 12)
        /\ UNCHANGED tab
(* large angular momenta: the rule says where a value, a zero or an error is due; the value is compared by the driver with one computed without the table *)
Right(e) == e.r = "ok" /\ e.ok
TBig == /\ ev.e = "gb"
        /\ LET a == Lookup(tab, ev.L, ev.M, ev.l, ev.m, ev.lp) IN
           CASE a = "value" -> Right(ev)
             [] a = "zero" -> ev.r = "ok" /\ ev.z
             [] a = "error" -> ev.r = "logic_error"
             [] a = "either" -> ev.r = "logic_error" \/ (ev.r = "ok" /\ ev.z)
        /\ UNCHANGED tab
TBigC == /\ ev.e = "cb"
         /\ IF ev.mi # ev.mj THEN ev.r = "ok" /\ ev.z
            ELSE Covered(ev.k, ev.lj, ev.mj, ev.li, ev.mi) => Right(ev)
         /\ UNCHANGED tab
TBegin == ev.e = "begin" /\ tab' = <<>>
TraceInit == tab = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TTable \/ TLookup \/ TFree \/ TCoupl \/ TMod \/ TBig \/ TBigC) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tab, l>>
=============================================================================
