--------------------------- MODULE TeiPermTrace ---------------------------
EXTENDS TeiPerm, TraceBase
VARIABLE l
ev == Trace[l]
TReorder == /\ ev.e = "reorder"
            /\ size' = ev.n /\ UNCHANGED <<blk, steps, orig>>
            /\ LET n == ev.n IN
               IF ev.rows # n[1] * n[2] \/ ev.cols # n[3] * n[4] THEN ev.r = "logic_error"
               ELSE /\ ev.r = "ok"
                    /\ ev.orows = n[2] * n[3] /\ ev.ocols = n[1] * n[4]
                    /\ ev.rows * ev.cols > 0 => ev.out = Reordered(ev.in, n)
                    /\ ev.thrice /\ ev.inputkept
TBegin == ev.e = "begin" /\ UNCHANGED <<size, blk, steps, orig>>
TraceInit == size = <<>> /\ blk = <<>> /\ steps = 0 /\ orig = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TReorder) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<size, blk, steps, orig, l>>
=============================================================================
