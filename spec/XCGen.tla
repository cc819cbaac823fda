-------------------------------- MODULE XCGen --------------------------------
(* specification strings as token lists: which functional, in which spelling *)
EXTENDS XC, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
Styles == {"num", "num0", "name", "upper", "mixed", "xc", "XC"}
Tok(h) == IF R(1..6) = 1 THEN <<"lit", R({"none", "None", "NONE", "HF", "hf", "hyb_x_hf", "HYB_X_HF", "0", "gga_x_nosuch", "hff", "xc_", "999999", "2", "gga_x_pb", "gga_x_pbee", " lda_x", "_", ""})>>
       ELSE <<R(Styles), R(0..9999)>>
GInit == cat = <<>> /\ names = <<>> /\ last = <<>> /\ hist = <<>>
GNext == Len(hist) < Depth /\ UNCHANGED xvars /\ \E k \in {R(1..12)} : \E a \in {Tok(hist)}, b \in {Tok(hist)}, c \in {Tok(hist)} : hist' = Append(hist, IF k <= 5 THEN <<a>> ELSE IF k <= 11 THEN <<a, b>> ELSE <<a, b, c>>)
GSpec == GInit /\ [][GNext]_<<xvars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
===============================================================================
