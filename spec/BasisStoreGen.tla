---------------------------- MODULE BasisStoreGen ----------------------------
(* Replayable histories: (enum) every configuration stored and fetched as    *)
(* either kind after re-opening; (sim) random histories of stores, fetches   *)
(* and re-openings.                                                          *)
EXTENDS BasisStore, Json
CONSTANTS Depth
VARIABLE hist
Single(c) == <<[op |-> "load", k |-> c.kind], [op |-> "store", c |-> c], [op |-> "reopen"],
               [op |-> "load", k |-> "abas"], [op |-> "load", k |-> "dbas"]>>
EnumInit == cur = None /\ hist \in {Single(c) : c \in AtomicCfgs \cup DiatomicCfgs}
EnumNext == FALSE /\ UNCHANGED <<cur, hist>>
EmitAll == PrintT("@@" \o ToJson(hist))
SimInit == cur = None /\ hist = <<>>
SimNext == /\ Len(hist) < Depth
           /\ \E cls \in {RandomElement({"s", "s2", "l", "l2", "r"})} :
              \E o \in {CASE cls = "r" -> [op |-> "reopen"]
                         [] cls \in {"l", "l2"} -> [op |-> "load", k |-> RandomElement(Kinds)]
                         [] cls = "s" -> [op |-> "store", c |-> RandomElement(WideA)]
                         [] OTHER -> [op |-> "store", c |-> RandomElement(WideD)]} :
                 /\ hist' = Append(hist, o)
                 /\ cur' = IF o.op = "store" THEN o.c ELSE cur
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
SimSpec == SimInit /\ [][SimNext]_<<cur, hist>>
=============================================================================
