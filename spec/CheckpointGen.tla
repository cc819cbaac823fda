--------------------------- MODULE CheckpointGen ---------------------------
(* Behaviours of Checkpoint for replay.  hist is hidden by VIEW, so in the   *)
(* exhaustive mode every reachable transition of the bounded model yields    *)
(* one test (shortest prefix + that transition); in simulation mode every    *)
(* random walk of length Depth yields one.                                   *)
EXTENDS Checkpoint, Json
CONSTANTS Depth, Mode
VARIABLE hist
GInit == Init /\ hist = <<>>
Room == Len(hist) < Depth
GNew     == Room /\ \E o \in OpsNew   : Do(o) /\ hist' = Append(hist, o)
GH       == Room /\ \E o \in OpsH     : Do(o) /\ hist' = Append(hist, o)
GQuery   == Room /\ \E o \in OpsHN    : Do(o) /\ hist' = Append(hist, o)
GFetch   == Room /\ \E o \in OpsRead  : Do(o) /\ hist' = Append(hist, o)
GStore   == Room /\ \E o \in OpsWrite : Do(o) /\ hist' = Append(hist, o)
GBasis   == Room /\ \E o \in OpsBas   : Do(o) /\ hist' = Append(hist, o)
GNext == GBasis \/ GNew \/ GH \/ GQuery \/ GFetch \/ GStore
(* balanced choice of the operation class for random walks *)
Pick(S) == RandomElement(S)
SNext == /\ Room
         /\ \E cls \in {Pick({"b", "n", "h", "q", "f", "f2", "s", "s2"})} :
            \E pool \in {CASE cls = "n" -> {o \in OpsNew : Enabled(o)}
                          [] cls = "h" -> {o \in OpsH : Enabled(o)}
                          [] cls = "b" -> {o \in OpsBas : Enabled(o)}
                          [] cls = "q" -> {o \in OpsHN : Enabled(o)}
                          [] cls \in {"f", "f2"} -> {o \in OpsRead : Enabled(o)}
                          [] OTHER -> {o \in OpsWrite : Enabled(o)}} :
            \E o \in {Pick(IF pool = {} THEN {o \in OpsNew \cup OpsH : Enabled(o)} ELSE pool)} :
               Do(o) /\ hist' = Append(hist, o)
SimSpec == GInit /\ [][SNext]_<<vars, hist>>
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == IF Mode = "graph" \/ Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
View == vars
=============================================================================
