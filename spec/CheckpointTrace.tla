--------------------------- MODULE CheckpointTrace ---------------------------
(* Validates recorded executions of the real Checkpoint class.              *)
(* Judge selects which promises are enforced in this run:                   *)
(*   "state"  C01: open/closed state, leaked file objects, explicit         *)
(*                 open/close outcomes                                      *)
(*   "data"   C02: fetched values, fetch errors, existence, stores succeed  *)
(*   "basis"  C04: stored bases come back as stored, other kinds refused    *)
(*   "mode"   C03: construction, permissions, misuse errors, final content  *)
(* What is not judged is taken over from the observation, so a breach of    *)
(* one property is not reported as a breach of another.                     *)
EXTENDS Checkpoint, TraceBase
CONSTANT Judge
VARIABLE l
J(x) == x \in Judge
ev == Trace[l]
Begin == /\ ev.e = "begin" /\ fs' = [f \in Files |-> Blank(FALSE)]
         /\ hd' = [h \in Handles |-> NoHandle]
AnyOpen(H) == \E h \in Handles : H[h].alive /\ H[h].open
(* does this operation's outcome belong to a judged property? *)
BasOp(o) == o.op \in {"wbas", "rbas", "strip"}
ModeOp(o) == o.op \in {"new"} \/ (o.op \in {"write", "remove", "wbas", "strip"} /\ ~hd[o.h].w)
StateOp(o) == o.op \in {"open", "close", "destroy", "flush"}
MisuseOp(o) == (o.op = "open" /\ hd[o.h].open) \/ (o.op = "close" /\ ~hd[o.h].open)
JudgedOutcome(o) == \/ J("mode") /\ (ModeOp(o) \/ MisuseOp(o))
                    \/ J("state") /\ (StateOp(o) \/ o.op = "new")
                    \/ J("data") /\ ~ModeOp(o) /\ ~StateOp(o) /\ ~BasOp(o)
                    \/ J("basis") /\ ~ModeOp(o) /\ BasOp(o)
Step ==
  /\ ev.e = "op"
  /\ LET o == ev.o
         x == Out(o)
         good == x.r = "any" \/ (ev.r = x.r /\ (ev.r = "ok" => (o.op \in {"read", "exist", "rbas"} => ev.v = x.v)))
         nhd == IF ev.r = "ok" \/ o.op # "new" THEN (IF o.op = "destroy" THEN x.hd ELSE
                   [[x.hd EXCEPT ![o.h].open = ev.open] EXCEPT ![o.h].alive = TRUE]) ELSE hd
         nfs == IF ev.r = "ok" THEN x.fs ELSE IF x.r = "ok" THEN fs ELSE x.fs
     IN /\ J("state") => Enabled(o)
        /\ (Enabled(o) /\ JudgedOutcome(o)) => good
        /\ J("state") => (o.op # "destroy" => (nhd[o.h].alive => ev.open = x.hd[o.h].open))
        /\ J("state") => (ev.nobj >= 0 => (~AnyOpen(x.hd) => ev.nobj = 0))
        /\ fs' = nfs
        /\ hd' = nhd
(* dump: content of a file as seen by an independent read-only handle.  vis is
   a sequence of [n, k, r, v]: each name fetched as the kind last stored.      *)
Dump ==
  /\ ev.e = "dump"
  /\ LET F == fs[ev.f] IN
       (J("data") \/ J("mode")) =>
          /\ ev.ex = F.ex
          /\ \A i \in 1..Len(ev.vis) :
               LET q == ev.vis[i] IN
                 IF q.k = "-" THEN (q.r = 0) = (F.st[q.n] = NoEntry)
                 ELSE LET y == Fetch(F.st[q.n], q.k) IN y.r = "any" \/ (y.r = "ok" /\ q.r = 1 /\ q.v = y.v) \/ (y.r = "err" /\ q.r = 0)
  /\ UNCHANGED vars
TraceInit == Init /\ l = 1
TraceNext == l <= TraceLen /\ (Begin \/ Step \/ Dump) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
