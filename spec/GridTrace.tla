----------------------------- MODULE GridTrace -----------------------------
EXTENDS Grid, TraceBase
VARIABLE l
ev == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
TGrid == LET p == ev.p IN
   IF Refused(p) THEN ev.r = "err"
   ELSE LET n == Len(Plain(p)) - 1
            e == Final(p, ev.conf, ev.k % n) IN
        /\ ev.r = "ok" /\ Len(ev.m) = Len(e)
        /\ ev.zero /\ ev.inc /\ ev.end                       \* starts at exactly zero, strictly increasing, ends at the requested infinity
        /\ \A i \in 1..Len(e) : e[i] # Unknown => Abs(ev.m[i] - e[i]) <= 1
        /\ ev.conf # "none" => ev.has                          \* the confinement boundary is there exactly once, bit for bit
        /\ ev.keep                                             \* and all other boundaries are those of the grid without it
TraceInit == par = <<>> /\ todo = <<>> /\ g = <<>> /\ phase = "" /\ l = 1
TraceNext == l <= TraceLen /\ (ev.e = "begin" \/ (ev.e = "grid" /\ TGrid)) /\ l' = l + 1 /\ UNCHANGED gvars
TraceSpec == TraceInit /\ [][TraceNext]_<<gvars, l>>
=============================================================================
