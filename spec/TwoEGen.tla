------------------------------ MODULE TwoEGen ------------------------------
EXTENDS TwoE, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
GInit == kind = "none" /\ full = FALSE /\ rs = "none" /\ log = <<>> /\ hist = <<>>
Add(o) == hist' = Append(hist, o) /\ UNCHANGED log
GNext == /\ Len(hist) < Depth
         /\ \/ hist = <<>> /\ \E k \in {R({"at", "at", "sa", "sa", "di"})} : Create(k) /\ Add(<<"new", k, R(0..6), R(0..3)>>)
            \/ hist # <<>> /\ \E c \in {R(0..11)} :
                 CASE c \in 0..1 -> PrepareFull /\ Add(<<"prep", "full", R(0..1)>>)
                   [] c \in 2..4 /\ HasScreened(kind) -> \E p \in {R(Screened)} : PrepareScreened(p) /\ Add(<<"prep", p, 0>>)
                   [] c = 9 /\ HasScreened(kind) -> Use /\ Add(<<"lin", R({"J", "K", "R"}), R(1..3), R(1..3)>>)
                   [] c = 10 -> Use /\ Add(<<"lin", R({"J", "K"}), R(1..3), R(1..3)>>)
                   [] c = 11 -> Use /\ Add(<<R({"copy", "thr"}), R({"J", "K", "R"}), R(1..3)>>)
                   [] OTHER -> Use /\ Add(<<"use", R({"J", "K", "K", "R", "R"}), R(1..4)>>)
GSpec == GInit /\ [][GNext]_<<kind, full, rs, log, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
