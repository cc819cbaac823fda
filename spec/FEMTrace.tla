------------------------------ MODULE FEMTrace ------------------------------
(* Validates recorded executions of the real finite-element basis.           *)
(* Judge: "num" F01, "refine" F02, "locate" F03, "nodal" F04, "asm" F05      *)
EXTENDS FEM, TraceBase
CONSTANT Judge
VARIABLES l, live
J(x) == x \in Judge
ev == Trace[l]
tvars == <<c, b, l, live>>
Elems == 0..(Nel(b) - 1)
(* the observation attached to every structural event *)
NumOK(o, cc, S) ==
  LET n == Cardinality(S) - 1 IN
  /\ o.nbf = Nbf(cc, n) /\ o.nel = n /\ o.max = Nprim(cc)
  /\ Len(o.idx) = n
  /\ \A e \in 0..(n - 1) : /\ o.np[e + 1] = Count(cc, n, e)
                          /\ (Count(cc, n, e) > 0 => o.idx[e + 1] = <<First(cc, n, e), Last(cc, n, e)>>)
GridOK(o, S) == o.bv = SortedSeq(S)
Begin == ev.e = "begin" /\ live' = FALSE /\ UNCHANGED <<c, b>>
TNew == /\ ev.e = "new"
        /\ LET cc == [fam |-> ev.fam, nn |-> ev.nn, fl |-> ev.bc[1], dl |-> ev.bc[2], fr |-> ev.bc[3], dr |-> ev.bc[4]]
               S == {ev.toks[i] : i \in 1..Len(ev.toks)}
           IN /\ (J("num") \/ ev.r = "err") => (ev.r = "ok") = Valid(cc)
              /\ c' = cc /\ b' = S /\ live' = (ev.r = "ok")
              /\ (J("num") /\ ev.r = "ok") => NumOK(ev.o, cc, S) /\ ev.o.id = <<cc.fam, cc.nn>> /\ GridOK(ev.o, S)
TAdd == /\ ev.e = "add" /\ ev.r = "ok" /\ live
        /\ b' = b \cup {ev.t}
        /\ J("num") => NumOK(ev.o, c, b')
        /\ J("refine") => /\ GridOK(ev.o, b') /\ NumOK(ev.o, c, b')
                          \* everything the basis answers equals what a basis built directly on the same boundaries answers
                          /\ ev.dig = ev.ref
                          /\ ev.t \in b => ev.dig = ev.before
        /\ UNCHANGED <<c, live>>
TFind == /\ ev.e = "find" /\ live
         /\ J("locate") => (InGrid(b, ev.t) => ev.r = "ok" /\ Located(b, ev.t, ev.el))
         /\ UNCHANGED <<c, b, live>>
(* per-element coordinate facts: ends, length, map of the reference interval *)
TMap == /\ ev.e = "map" /\ live
        /\ J("locate") =>
             IF ev.el \notin Elems THEN ev.beg = -9 /\ ev.end = -9 /\ ev.len = "err" /\ ev.mid = "err"
             ELSE /\ ev.beg = SortedSeq(b)[ev.el + 1] /\ ev.end = SortedSeq(b)[ev.el + 2]
                  /\ ev.len = "ok" /\ ev.mid = "ok"       \* length = end - begin, midpoint half way, to rounding
                  /\ ev.inc                                \* images of an increasing sequence increase
                  /\ ev.ends                               \* -1 and +1 map to the ends, to rounding
                  /\ ev.inv                                \* reference -> physical -> reference is the identity, to rounding
                  /\ ev.out = <<"err", "err">>             \* points left and right of the element are refused
                  /\ ev.in = "ok"
        /\ UNCHANGED <<c, b, live>>
(* values of derivatives of all functions at both sides of all boundaries    *)
SideOK(k, x) == \A d \in 0..(Ov(c.fam) - 1) :
                  LET g == Bnd(c, Nel(b), k, d)
                      got == {<<x[d + 1][i][1], x[d + 1][i][2]>> : i \in 1..Len(x[d + 1])}
                  IN got = IF g < 0 THEN {} ELSE {<<g, 1>>}
TBnd == /\ ev.e = "bnd" /\ live
        /\ J("nodal") => \A k \in 0..Nel(b) :
              /\ k > 0 => SideOK(k, ev.left[k + 1])
              /\ k < Nel(b) => SideOK(k, ev.right[k + 1])
        /\ UNCHANGED <<c, b, live>>
(* assembly with integer-valued evaluators: exact arithmetic                  *)
A(s, e, i, j) == ((s + 7 * e + 3 * i + 5 * j + e * j) % 7) - 3
B(s, e, i, j) == ((2 * s + 5 * e + 4 * i + 3 * j + e * i) % 5) - 2
W(i) == i + 1
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
(* f(r): 0 unit weight, 1 the coordinate itself *)
Contribution(s, e, p, q, f) ==
  LET bb == SortedSeq(b) h == bb[e + 2] - bb[e + 1]
      r(i) == IF f = 0 THEN 1 ELSE 2 * (IF i = 0 THEN bb[e + 1] ELSE bb[e + 2])
      fi == First(c, Nel(b), e)
  IN W(0) * h * r(0) * A(s, e, 0, p - fi) * B(s, e, 0, q - fi) + W(1) * h * r(1) * A(s, e, 1, p - fi) * B(s, e, 1, q - fi)
On(e, p) == First(c, Nel(b), e) <= p /\ p <= Last(c, Nel(b), e)
Entry(s, p, q, f) == Sum([i \in 1..Nel(b) |-> IF On(i - 1, p) /\ On(i - 1, q) THEN Contribution(s, i - 1, p, q, f) ELSE 0], Nel(b))
VEntry(s, p, f) == LET bb == SortedSeq(b) IN
  Sum([i \in 1..Nel(b) |-> IF On(i - 1, p)
        THEN LET e == i - 1 h == bb[i + 1] - bb[i] fi == First(c, Nel(b), e) r(x) == IF f = 0 THEN 1 ELSE 2 * bb[i + x]
             IN W(0) * h * r(0) * A(s, e, 0, p - fi) + W(1) * h * r(1) * A(s, e, 1, p - fi)
        ELSE 0], Nel(b))
TAsm == /\ ev.e = "asm" /\ live
        /\ J("asm") => LET N == Nbf(c, Nel(b)) IN
              /\ ev.n = <<N, N>> /\ Len(ev.m) = N * N
              /\ \A p, q \in 0..(N - 1) : ev.m[p * N + q + 1] = Entry(ev.s, p, q, ev.f)
              /\ Len(ev.v) = N /\ \A p \in 0..(N - 1) : ev.v[p + 1] = VEntry(ev.s, p, ev.f)
        /\ UNCHANGED <<c, b, live>>
(* real operators: global = sum of the element blocks, symmetric, only where functions meet, same for all thread counts.
   The functions meeting p form one interval (checked as RowInterval in FEM), so a row is summarised by its first and last nonzero *)
TReal == /\ ev.e = "real" /\ live
         /\ J("asm") => LET n == Nel(b) IN
                        /\ ev.r = "ok" /\ ev.dev /\ ev.sym /\ ev.thr /\ ev.glob /\ ev.n = Nbf(c, n)
                        /\ \A i \in 1..Len(ev.nz) : LET z == ev.nz[i] IN z # <<>> =>
                              /\ \E e \in Elems : On(e, i - 1) /\ On(e, z[1])
                              /\ \E e \in Elems : On(e, i - 1) /\ On(e, z[2])
         /\ UNCHANGED <<c, b, live>>
TraceInit == /\ c = [fam |-> 3, nn |-> 2, fl |-> FALSE, dl |-> FALSE, fr |-> FALSE, dr |-> FALSE] /\ b = {0, 1} /\ live = FALSE /\ l = 1
TraceNext == l <= TraceLen /\ (Begin \/ TNew \/ TAdd \/ TFind \/ TMap \/ TBnd \/ TAsm \/ TReal) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
