----------------------------- MODULE ElementsGen -----------------------------
EXTENDS Elements, Json
CONSTANTS Depth
VARIABLE hist
R(S) == RandomElement(S)
UCc(c) == IF \E i \in 1..26 : Ch(LowerC, i) = c THEN Ch(Upper, CHOOSE i \in 1..26 : Ch(LowerC, i) = c) ELSE c
RECURSIVE Mix(_, _)
Mix(s, u) == IF Len(s) = 0 THEN "" ELSE (IF u[((Len(s) - 1) % Len(u)) + 1] = 0 THEN LC(Ch(s, 1)) ELSE UCc(Ch(s, 1))) \o Mix(SubSeq(s, 2, Len(s)), u)
(* every random choice is a bound variable: k the kind, z an element, x and y letters, u the case pattern *)
Word(k, z, x, y, u, t, odd) == CASE k <= 4 -> Mix(Symbols[z], u)
                              [] k = 5 -> Mix(Ch(LowerC, x), u)
                              [] k = 6 -> Mix(Ch(LowerC, x) \o Ch(LowerC, y), u)
                              [] k = 7 -> Mix(Symbols[z] \o Ch(LowerC, x), u)
                              [] k = 8 -> ToString(t)
                              [] k = 9 -> odd
                              [] k = 10 -> Mix(Symbols[z] \o Ch(LowerC, x) \o Ch(LowerC, y), u)
                              [] k = 11 -> Mix(Ch(LowerC, x) \o Symbols[z], u)
                              [] k = 12 -> Mix(Symbols[z], u) \o R({" ", "1", "-", "_", "."})
Words == {"", "X", "Xx", "Hydrogen", "helium", "007", "D", "T", "Uuo", "HeHe", "H ", "C6"}
GInit == q = <<>> /\ hist = <<>>
GNext == Len(hist) < Depth /\ UNCHANGED q /\ \E k \in {R(1..9)} : \E kw \in {R(1..12)}, z \in {R(1..NElem)}, x \in {R(1..26)}, y \in {R(1..26)}, u1 \in {R(0..1)}, u2 \in {R(0..1)}, t \in {R(0..130)}, odd \in {R(Words)} :
   \E w \in {Word(kw, z, x, y, <<u1, u2>>, t, odd)}, a \in {R(-2..125)}, b \in {R(0..125)}, r \in {R(0..400)} : hist' = Append(hist,
   CASE k <= 5 -> <<"z", w>> [] k = 6 -> <<"orbs", IF a < 0 THEN 0 ELSE a, b>> [] k = 7 -> <<"gsz", a>> [] k = 8 -> <<"sap", a>> [] k = 9 -> <<"adb", R(-1..5), R(-1..4)>>)
GSpec == GInit /\ [][GNext]_<<q, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
===============================================================================
