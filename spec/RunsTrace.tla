------------------------------ MODULE RunsTrace ------------------------------
EXTENDS Runs, TraceBase
VARIABLE l
ev == Trace[l]
TBegin == ev.e = "begin" /\ mem' = {} /\ files' = ("f1" :> <<>> @@ "f2" :> <<>>)
TRefused == /\ ev.e = "run" /\ Refused(ev.s, ev.p, files)
            /\ ev.r = "err" /\ ev.n = 0 /\ ev.kept /\ ~ev.saved /\ UNCHANGED rvars
TRun == /\ ev.e = "run" /\ ~Refused(ev.s, ev.p, files)
        /\ ev.r = "ok" /\ ev.n >= 1 /\ ev.kept /\ (ev.p.save # "" => ev.there)
        /\ Report(ev.s, ev.p, ev.first, FALSE) /\ Report(ev.s, ev.p, ev.last, TRUE)
        /\ LET own == Own(ev.s, ev.p, files) IN
           /\ own => Virial(ev.s, ev.p, ev.last)
           /\ (own /\ Known(ev.s) # None => Near(ev.last.tot, Known(ev.s), BasisTol(ev.s, ev.p.prog)))
           /\ own => Agrees(ev.s, ev.p, ev.last.tot, mem) /\ Ordered(ev.s, ev.last.tot, mem)
        /\ (ev.p.load # "" => Resumes(ev.s, ev.p, ev, files[ev.p.load][1]))
        /\ (ev.p.prog = "sad" /\ ev.p.pot = 1 => /\ Near(ev.nq, Nel(ev.s) * 1000000, 50) /\ Near(ev.cq, ev.last.j, 50)
                                                 /\ (ev.s.oc = <<>> => Near(ev.cusp, 1000000, 20000)))
        /\ mem' = IF ~Own(ev.s, ev.p, files) THEN mem ELSE mem \cup {[s |-> ev.s, p |-> ev.p, e |-> ev.last.tot]}
        /\ files' = IF ev.p.save = "" THEN files ELSE [files EXCEPT ![ev.p.save] = <<[s |-> ev.s, p |-> ev.p, own |-> Own(ev.s, ev.p, files), x |-> ev.last]>>]
TraceInit == RInit /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TRefused \/ TRun) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
NoOracle(s) == 0
=============================================================================
