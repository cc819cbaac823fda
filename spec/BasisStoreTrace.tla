--------------------------- MODULE BasisStoreTrace ---------------------------
(* Recorded stores and fetches of real bases.  A store event carries the     *)
(* description (charges, radii, boundaries, ... as exact hexadecimal text)   *)
(* of the real basis object and digests of the matrices built from it; a     *)
(* successful fetch must reproduce both exactly.                             *)
EXTENDS BasisStore, TraceBase
VARIABLES l, desc, mats
ev == Trace[l]
Begin == ev.e = "begin" /\ cur' = None /\ desc' = <<>> /\ mats' = <<>>
TStore == /\ ev.e = "store" /\ ev.r = "ok"
          /\ cur' = [kind |-> ev.k] /\ desc' = ev.desc /\ mats' = ev.mats
          \* the object was built as the configuration asks: what is stored is what was asked for
          /\ ev.desc = ev.want
TLoad == /\ ev.e = "load"
         /\ (ev.r = "ok") = LoadOK(ev.k)
         /\ ev.r = "ok" => ev.desc = desc /\ ev.mats = mats
         /\ UNCHANGED <<cur, desc, mats>>
TReopen == ev.e = "reopen" /\ UNCHANGED <<cur, desc, mats>>
TraceInit == Init /\ desc = <<>> /\ mats = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (Begin \/ TStore \/ TLoad \/ TReopen) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cur, desc, mats, l>>
=============================================================================
