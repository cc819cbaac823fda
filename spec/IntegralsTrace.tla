--------------------------- MODULE IntegralsTrace -----------------------------
EXTENDS Integrals, TraceBase
VARIABLE i
ev == Trace[i]
TBegin == ev.e = "begin" /\ basis' = None /\ asked' = {}
Basis == [k |-> ev.k, fam |-> ev.fam, nn |-> ev.nn, grid |-> ev.grid, zd |-> ev.zd, ch |-> ev.ch, chg |-> ev.chg]
TMk == ev.e = "mk" /\ ev.r = "ok" /\ Make(Basis) /\ ev.nbf = Nbf(Basis)
Pairs(s) == {<<s[x][1], s[x][2]>> : x \in 1..Len(s)}
(* units 1e-15, against the largest element of the block of channels *)
TOne == /\ ev.e = "one" /\ ev.op \in Ops(basis.k) /\ Ask(<<ev.op>>) /\ ev.r = "ok"
        /\ ev.err <= 2000000
        /\ basis.k = "sad" \/ Pairs(ev.nz) \subseteq Allowed(basis, ev.op)
(* angular factors, squared (units 1e-8), their signs, and what is left over (units 1e-12) *)
TCpl == /\ ev.e = "cpl" /\ Ask(<<"cpl", ev.k>>)
        /\ LET n == Len(basis.ch) IN
           /\ Len(ev.c) = n * n
           /\ \A x, y \in 1..n : LET v == ev.c[(x - 1) * n + y] c == basis.ch[x] e == basis.ch[y] IN
                /\ Abs(v[1] - Fixed(Square(ev.k, c, e))) <= 3
                /\ v[2] = Sign(ev.k, c, e) /\ v[3] <= 100000
(* units 1e-12; the complementary error function kernel is integrated by a rule of finite order *)
Tol(k, o) == CASE o = "E" -> 200000000 [] k = "dia" -> 1000000 [] OTHER -> 100000
TTwo == /\ ev.e = "two" /\ ev.o \in Two(basis.k) /\ (ev.mir => Closed(basis)) /\ Ask(<<ev.o>>) /\ ev.r = "ok"
        /\ ev.err <= Tol(basis.k, ev.o)
TraceInit == basis = None /\ asked = {} /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TMk \/ TOne \/ TCpl \/ TTwo) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<ivars, i>>
=============================================================================
