------------------------------ MODULE Cmdline ------------------------------
(***************************************************************************)
(* The command-line parser: declarations, spellings, values, positional    *)
(* arguments and errors.  Arguments are real strings; the spec scans them  *)
(* character by character.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES opts, rest, ok, argv       \* declared options (by name), positional arguments, outcome of the last parse, arguments so far
cvars == <<opts, rest, ok, argv>>
Ch(s, i) == SubSeq(s, i, i)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Suffix(s, i) == SubSeq(s, i, Len(s))
EqPos(s, i0) == LET S == {i \in i0..Len(s) : Ch(s, i) = "="} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
(* ---- values: the strings the driver uses and what each type makes of them ---- *)
IntTab == [x \in {"5", "-7", "+4", "007", "0", "1", "-1", "11", "2147483647", " 6"} |->
   CASE x = "5" -> 5 [] x = "-7" -> -7 [] x = "+4" -> 4 [] x = "007" -> 7 [] x = "0" -> 0 [] x = "1" -> 1 [] x = "-1" -> -1 [] x = "11" -> 11 [] x = "2147483647" -> 2147483647 [] x = " 6" -> 6]
DblTab == [x \in {"5", "-7", "+4", "007", "0", "1", "-1", "11", "1.5", "-0.25", "1e1", ".5", "2.", " 6"} |->      \* times 8
   CASE x = "5" -> 40 [] x = "-7" -> -56 [] x = "+4" -> 32 [] x = "007" -> 56 [] x = "0" -> 0 [] x = "1" -> 8 [] x = "-1" -> -8 [] x = "11" -> 88
     [] x = "1.5" -> 12 [] x = "-0.25" -> -2 [] x = "1e1" -> 80 [] x = ".5" -> 4 [] x = "2." -> 16 [] x = " 6" -> 48]
BadVals == {"", "x", "3x", "1.5x", "2147483648", "0x10", "5 ", "--", "a b", "true", "1,5", "2"}
Vals == DOMAIN IntTab \cup DOMAIN DblTab \cup BadVals \cup {"a=b", "word", "=", "-", "\\n"}
Types == {"flag", "int", "double", "bool", "string", "range", "oneof"}
Read(ty, v) ==                      \* <<accepted, canonical value>>
  CASE ty = "string" -> <<TRUE, v>>
    [] ty = "int" -> IF v \in DOMAIN IntTab THEN <<TRUE, ToString(IntTab[v])>> ELSE IF v = "2" THEN <<TRUE, "2">> ELSE <<FALSE, "">>
    [] ty = "double" -> IF v \in DOMAIN DblTab THEN <<TRUE, ToString(DblTab[v])>> ELSE IF v = "2" THEN <<TRUE, "16">> ELSE IF v = "2147483647" THEN <<TRUE, "17179869176">> ELSE IF v = "2147483648" THEN <<TRUE, "17179869184">> ELSE <<FALSE, "">>
    [] ty = "bool" -> IF v \in {"0", "1"} THEN <<TRUE, v>> ELSE <<FALSE, "">>
    [] ty = "range" -> IF v \in DOMAIN IntTab /\ IntTab[v] \in 0..10 THEN <<TRUE, ToString(IntTab[v])>> ELSE IF v = "2" THEN <<TRUE, "2">> ELSE <<FALSE, "">>
    [] ty = "oneof" -> IF v \in DOMAIN IntTab /\ IntTab[v] \in {1, 5, 7} THEN <<TRUE, ToString(IntTab[v])>> ELSE <<FALSE, "">>
    [] OTHER -> <<FALSE, "">>
Opt(ty, short, need, def) == [ty |-> ty, short |-> short, need |-> need, has |-> FALSE, val |-> def]
Names(o) == DOMAIN o
Shorts(o) == {o[x].short : x \in Names(o)} \ {""}
ByShort(o, ch) == CHOOSE x \in Names(o) : o[x].short = ch
Ambiguous(o) == \E x, y \in Names(o) : x # y /\ o[x].short # "" /\ o[x].short = o[y].short
(* ---- parsing: st = [o, rest, bad] ---- *)
Bad(st) == [st EXCEPT !.bad = TRUE]
SetFlag(st, x) == IF x \in Names(st.o) /\ st.o[x].ty = "flag" THEN [st EXCEPT !.o[x].has = TRUE] ELSE Bad(st)
SetVal(st, x, v) == IF x \notin Names(st.o) THEN Bad(st) ELSE LET r == Read(st.o[x].ty, v) IN
                    IF r[1] THEN [st EXCEPT !.o[x].has = TRUE, !.o[x].val = r[2]] ELSE Bad(st)
RECURSIVE ShortRun(_, _, _)
ShortRun(st, a, j) == \* characters 2..Len(a)-1 of a combined short option: all flags
   IF j > Len(a) - 1 THEN st ELSE LET ch == Ch(a, j) IN
   ShortRun(IF ch \in Shorts(st.o) THEN SetFlag(st, ByShort(st.o, ch)) ELSE Bad(st), a, j + 1)
RECURSIVE Go(_, _, _)
Go(st, a, i) ==
  IF i > Len(a) THEN st
  ELSE LET t == a[i] IN
    IF StartsWith(t, "--") THEN
       LET p == EqPos(t, 3) IN
       IF p > 0 THEN Go(SetVal(st, SubSeq(t, 3, p - 1), Suffix(t, p + 1)), a, i + 1)
       ELSE LET x == Suffix(t, 3) IN
            IF x \notin Names(st.o) THEN Go(Bad(st), a, i + 1)
            ELSE IF st.o[x].ty = "flag" THEN Go(SetFlag(st, x), a, i + 1)
            ELSE IF i + 1 > Len(a) THEN Bad(st) ELSE Go(SetVal(st, x, a[i + 1]), a, i + 2)
    ELSE IF StartsWith(t, "-") THEN
       IF Len(t) = 1 THEN Go(st, a, i + 1)
       ELSE LET s2 == ShortRun(st, t, 2) last == Ch(t, Len(t)) IN
            IF last \notin Shorts(st.o) THEN Go(Bad(s2), a, i + 1)
            ELSE LET x == ByShort(st.o, last) IN
                 IF st.o[x].ty = "flag" THEN Go(SetFlag(s2, x), a, i + 1)
                 ELSE IF i + 1 > Len(a) THEN Bad(s2) ELSE Go(SetVal(s2, x, a[i + 1]), a, i + 2)
    ELSE Go([st EXCEPT !.rest = Append(@, t)], a, i + 1)
(* args: without the program name *)
Parse(o, a) == IF Ambiguous(o) THEN [o |-> o, rest |-> <<>>, bad |-> TRUE]
               ELSE LET st == Go([o |-> o, rest |-> <<>>, bad |-> FALSE], a, 1) IN
                    IF \E x \in Names(st.o) : st.o[x].need /\ ~st.o[x].has THEN Bad(st) ELSE st
(* ---- one string split into arguments: quotes group, backslash escapes; result <<ok, args>> ---- *)
RECURSIVE Tok(_, _, _, _, _)
Tok(s, i, buf, quote, acc) ==
  IF i > Len(s) THEN IF quote THEN <<FALSE, <<>>>> ELSE <<TRUE, IF Len(buf) > 0 THEN Append(acc, buf) ELSE acc>>
  ELSE LET ch == Ch(s, i) IN
    IF ch = "\"" THEN Tok(s, i + 1, buf, ~quote, acc)
    ELSE IF ch = " " /\ ~quote THEN Tok(s, i + 1, "", quote, Append(acc, buf))
    ELSE IF ch = "\\" THEN IF i = Len(s) THEN <<FALSE, <<>>>> ELSE Tok(s, i + 2, buf \o Ch(s, i + 1), quote, acc)
    ELSE Tok(s, i + 1, buf \o ch, quote, acc)
Split(s) == Tok(s, 1, "", FALSE, <<>>)
(* ---- state machine for the design check: fixed declarations, arguments arrive one at a time ---- *)
CONSTANTS Pool, MaxArgs
Decl == [x \in {"num", "verbose", "name"} |-> CASE x = "num" -> Opt("int", "n", FALSE, "3") [] x = "verbose" -> Opt("flag", "v", FALSE, "") [] x = "name" -> Opt("string", "", TRUE, "")]
CInit == opts = Decl /\ rest = <<>> /\ ok = TRUE /\ argv = <<>>
CNext == /\ Len(argv) < MaxArgs
         /\ \E t \in Pool : argv' = Append(argv, t)
         /\ LET p == Parse(Decl, argv') IN opts' = p.o /\ rest' = p.rest /\ ok' = ~p.bad
CSpec == CInit /\ [][CNext]_cvars
(* spelling does not matter *)
OptionAt(i) == ~Go([o |-> Decl, rest |-> <<>>, bad |-> FALSE], SubSeq(argv, 1, i - 1), 1).bad   \* token i is read as an option, not as a value
SpellingFree == \A i \in 1..Len(argv) : LET t == argv[i] p == EqPos(t, 3) IN
   (ok /\ StartsWith(t, "--") /\ p > 0 /\ OptionAt(i)) =>
      LET x == SubSeq(t, 3, p - 1) v == Suffix(t, p + 1) pre == SubSeq(argv, 1, i - 1) post == SubSeq(argv, i + 1, Len(argv))
          q == Parse(Decl, pre \o <<"--" \o x, v>> \o post) r == Parse(Decl, pre \o <<"-n", v>> \o post) IN
      /\ ~q.bad /\ q.o = opts /\ q.rest = rest
      /\ x = "num" => (~r.bad /\ r.o = opts /\ r.rest = rest)
RestIsSubsequence == ok => \E f \in [1..Len(rest) -> 1..Len(argv)] : (\A i, j \in 1..Len(rest) : i < j => f[i] < f[j]) /\ \A i \in 1..Len(rest) : argv[f[i]] = rest[i]
DefaultsKept == \A x \in Names(opts) : ~opts[x].has => opts[x] = Decl[x]
RequiredEnforced == (ok /\ argv # <<>>) => opts["name"].has
SmallPool == {"--num=5", "--num", "5", "-n", "-vn", "-v", "--name=q", "--name", "pos", "--num=x"}
=============================================================================
