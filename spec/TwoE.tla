-------------------------------- MODULE TwoE --------------------------------
(***************************************************************************)
(* Preparation history of the two-electron operators of one basis object.   *)
(* full: bare integrals prepared; rs: the screened operator in force         *)
(* ("none" or the label of the most recently prepared one).                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES kind, full, rs
evars == <<kind, full, rs>>
CONSTANT Screened                     \* labels of screened operators
Kinds == {"at", "sa", "di"}
HasScreened(k) == k # "di"
(* what each request answers: "refused" or the operator the result belongs to *)
Answer(op) == CASE op \in {"J", "K"} -> IF full THEN "full" ELSE "refused"
                [] op = "R" -> IF rs = "none" THEN "refused" ELSE rs
Create(k) == kind' = k /\ full' = FALSE /\ rs' = "none"
PrepareFull == full' = TRUE /\ UNCHANGED <<kind, rs>>
PrepareScreened(p) == HasScreened(kind) /\ p \in Screened /\ rs' = p /\ UNCHANGED <<kind, full>>
Use == UNCHANGED evars
(* ---- design check ---- *)
VARIABLE log                          \* ghost: the preparations so far
LInit == kind \in Kinds /\ full = FALSE /\ rs = "none" /\ log = <<>>
LNext == Len(log) < 5 /\ \/ PrepareFull /\ log' = Append(log, "full")
                         \/ \E p \in Screened : PrepareScreened(p) /\ log' = Append(log, p)
LSpec == LInit /\ [][LNext]_<<kind, full, rs, log>>
LastOf(S) == LET I == {i \in 1..Len(log) : log[i] \in S} IN IF I = {} THEN "none" ELSE log[CHOOSE i \in I : \A j \in I : j <= i]
MostRecent == Answer("R") = (IF LastOf(Screened) = "none" THEN "refused" ELSE LastOf(Screened)) /\ (Answer("J") = "full") = (LastOf({"full"}) = "full")
Independent == [][full' # full => rs' = rs]_<<kind, full, rs, log>>
=============================================================================
