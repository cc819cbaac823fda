----------------------------- MODULE XBasisTrace ------------------------------
EXTENDS XBasis, TraceBase
VARIABLE i
ev == Trace[i]
TBegin == ev.e = "begin" /\ bases' = <<>>
Basis == [k |-> ev.k, fam |-> ev.fam, nn |-> ev.nn, grid |-> ev.grid, zd |-> ev.zd, ch |-> ev.ch]
TMk == ev.e = "mk" /\ Make(Basis) /\ ev.nbf = Nbf(Basis)
(* overlap of two bases: shape, transposition, angular coupling and, channel by channel, what projection leaves over *)
TOv == /\ ev.e = "ov" /\ UNCHANGED bases
       /\ LET a == bases[ev.a]  b == bases[ev.b] IN
          /\ ev.rows = Nbf(a) /\ ev.cols = Nbf(b) /\ ev.sym <= 2000 /\ ev.same <= (IF ev.a = ev.b THEN 2000 ELSE 2000000000)
          /\ \A x \in 1..Len(a.ch), y \in 1..Len(b.ch) : <<x, y>> \in Range(ev.nz) => Couple(a, a.ch[x], b.ch[y])
          /\ \A x \in 1..Len(a.ch) : (\E y \in 1..Len(b.ch) : b.ch[y] = a.ch[x]) => \E y \in 1..Len(b.ch) : b.ch[y] = a.ch[x] /\ <<x, y>> \in Range(ev.nz)
          /\ Len(ev.res) = Len(a.ch)
          /\ \A x \in 1..Len(a.ch) : IF In(a, x, b) THEN ev.res[x] <= 1000 ELSE ev.res[x] >= 2000
(* both bases within a third: everything follows from the third *)
TTri == /\ ev.e = "tri" /\ UNCHANGED bases
        /\ (AllIn(bases[ev.a], bases[ev.c]) /\ AllIn(bases[ev.b], bases[ev.c])) => ev.err <= 20000
TOp == /\ ev.e = "op" /\ UNCHANGED bases
       /\ (AllIn(bases[ev.a], bases[ev.c]) /\ AllIn(bases[ev.b], bases[ev.c])) => ev.err <= 20000
TraceInit == bases = <<>> /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TMk \/ TOv \/ TTri \/ TOp) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<bases, i>>
=============================================================================
