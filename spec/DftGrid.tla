------------------------------ MODULE DftGrid ------------------------------
(***************************************************************************)
(* Exchange-correlation quadrature of one basis object.                     *)
(* kind:  "at" atom, "sa" spherically averaged atom, "di" molecule on the   *)
(*        full grid, "pm" molecule on the analytic-angle (pure-m) grid.     *)
(* avail: orders of basis-function tables kept from earlier evaluations     *)
(*        ("f" values, "d" gradients, "l" Laplacians); only the averaged    *)
(*        atom keeps tables between evaluations.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES kind, avail
dvars == <<kind, avail>>
Kinds == {"at", "sa", "di", "pm"}
(* the functionals used: libxc number |-> orders of the density it needs, number of parameters *)
LDAs == {1, 7, 12, 50}   GGAs == {52, 101, 130, 131}   Taus == {202, 231, 497}   Lapls == {206, 627, 72}
Functionals == LDAs \cup GGAs \cup Taus \cup Lapls
NPar == [f \in Functionals |-> CASE f \in {1, 7, 50, 627, 72} -> 0 [] f = 12 -> 22 [] f \in {52, 101, 206} -> 2 [] f = 130 -> 3 [] f = 131 -> 4 [] f = 202 -> 7 [] f \in {231, 497} -> 6]
Needs(f) == IF f = 0 THEN {} ELSE IF f \in LDAs THEN {"f"} ELSE IF f \in GGAs \cup Taus THEN {"f", "d"} ELSE {"f", "d", "l"}
NeedsPair(x, c) == {"f"} \cup Needs(x) \cup Needs(c)
UsesTau(x, c) == \E f \in {x, c} : f \in Taus \cup Lapls
(* a request: functionals and the number of parameters given explicitly for each (0: the functional's own) *)
WrongCount(f, p) == f # 0 /\ p # 0 /\ p # NPar[f]
Refused(x, px, c, pc) == WrongCount(x, px) \/ WrongCount(c, pc) \/ (kind = "di" /\ "l" \in NeedsPair(x, c))
Create(k) == kind' = k /\ avail' = {}
Evaluate(x, c) == kind' = kind /\ avail' = (IF kind = "sa" THEN avail \cup NeedsPair(x, c) ELSE {})
Same == UNCHANGED dvars
(* ---- design check: whatever the history, an evaluation finds the tables it reads ---- *)
VARIABLE last                          \* ghost: orders read by the last evaluation
LInit == kind \in Kinds /\ avail = {} /\ last = {}
LNext == \E x \in Functionals \cup {0}, c \in {0, 7, 130, 231, 72} : ~Refused(x, 0, c, 0) /\ Evaluate(x, c) /\ last' = NeedsPair(x, c)
LSpec == LInit /\ [][LNext]_<<kind, avail, last>>
TablesCover == kind = "sa" => last \subseteq avail
Monotone == [][avail \subseteq avail']_<<kind, avail, last>>
OnlyFullGridRefusesLaplacians == \A f \in Functionals : Refused(f, 0, 0, 0) <=> (kind = "di" /\ f \in Lapls)
=============================================================================
