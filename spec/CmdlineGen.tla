----------------------------- MODULE CmdlineGen -----------------------------
(* Random declarations and argument vectors built from spellings of the declared options, values and noise. *)
EXTENDS Cmdline, Json
CONSTANT Depth
VARIABLE hist
R(S) == RandomElement(S)
NamePool == {"alpha", "alpha2", "b", "Z", "long-name", "x"}
DefOf(ty) == CASE ty = "int" -> "3" [] ty = "double" -> "20" [] ty = "bool" -> "0" [] ty = "string" -> "dflt" [] ty = "range" -> "4" [] ty = "oneof" -> "5" [] OTHER -> ""
Decls(S, T) == [x \in S |-> [ty |-> T[x][1], short |-> T[x][2], need |-> T[x][1] # "flag" /\ T[x][3] = 0, def |-> DefOf(T[x][1])]]
Shape(S) == TLCEval([x \in S |-> <<R(Types), R({"", "", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}), R(0..9)>>])
(* values the type accepts, including strings that look like options, assignments or numbers *)
GoodVal(ty) == CASE ty = "string" -> R({"word", "a=b", "=", "a==b", "=x", "x=", "--x=y", "--", "-", "-a", "a b", "", "5", "run=1.chk"})
                 [] ty = "double" -> R({"1.5", "-0.25", "1e1", ".5", "2.", "5", "-7", "0"})
                 [] ty = "bool" -> R({"0", "1"})
                 [] ty = "oneof" -> R({"1", "5", "007"})
                 [] ty = "range" -> R({"0", "1", "5", "007", "+4", "2"})
                 [] OTHER -> R({"5", "-7", "+4", "007", "0", "1", "-1", "11", "2147483647", "2"})
Tokens(D) ==
  LET x == R(DOMAIN D) v == R(Vals) good == GoodVal(D[x].ty) val == IF R(0..7) > 0 THEN good ELSE v sh == D[x].short k == R(0..11) IN
  CASE k \in 0..2 -> IF D[x].ty = "flag" /\ R(0..3) > 0 THEN <<"--" \o x>> ELSE <<"--" \o x \o "=" \o val>>
    [] k \in 3..5 -> IF D[x].ty = "flag" THEN <<"--" \o x>> ELSE <<"--" \o x, val>>
    [] k \in 6..7 -> IF D[x].ty = "flag" THEN <<"-" \o sh>> ELSE <<"-" \o sh, val>>
    [] k = 8 -> <<"-" \o R({"a", "b", "c", "d"}) \o sh, val>>
    [] k = 9 -> <<R({"pos1", "pos2", "file.dat"})>>
    [] k = 10 -> <<R({"-", "pos3", "a=b"})>>
    [] k = 11 -> IF R(0..3) = 0 THEN <<R({"--nosuch", "--nosuch=1", "-q", "--", "--alpha", "--x"})>> ELSE <<"pos4">>
RECURSIVE Argv(_, _)
Argv(D, m) == IF m = 0 THEN <<>> ELSE Tokens(D) \o Argv(D, m - 1)
GInit == opts = <<>> /\ rest = <<>> /\ ok = TRUE /\ argv = <<>> /\ hist = <<>>
GStart == hist = <<>> /\ UNCHANGED cvars /\ \E S \in {R(SUBSET NamePool \ {{}})} : \E T \in {Shape(S)} : \E D \in {Decls(S, T)} : hist' = <<[op |-> "decl", d |-> [x \in S |-> D[x]]]>>
GNext == \/ GStart
         \/ /\ hist # <<>> /\ Len(hist) < Depth /\ UNCHANGED cvars
            /\ \E m \in {R(0..5)} : \E a \in {Argv(hist[1].d, m)} : \E how \in {R({"argv", "argv", "vec", "check", "fresh"})} : hist' = Append(hist, [op |-> how, a |-> a])
GSpec == GInit /\ [][GNext]_<<cvars, hist>>
EmitEnd == IF Len(hist') = Depth THEN PrintT("@@" \o ToJson(hist')) ELSE TRUE
=============================================================================
