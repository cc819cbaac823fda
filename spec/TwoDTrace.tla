----------------------------- MODULE TwoDTrace -----------------------------
(* Judge: "block" B01, "index" B02, "chan" B03, "couple" Y02 *)
EXTENDS TwoD, TraceBase
CONSTANT Judge
VARIABLES l, live, tab      \* tab: index tables of the current basis, evaluated once
J(x) == x \in Judge
ev == Trace[l]
Keep == UNCHANGED <<c, b, kind, ch, chg, live, tab>>
Pure == tab.p
NR == tab.n
ND == tab.d
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Zip(x, y) == [k \in 1..Len(x) |-> <<x[k], y[k]>>]
TBasis == /\ ev.e = "basis" /\ ev.r = "ok"
          /\ kind' = ev.k /\ c' = RadCfg(ev.k, ev.fam, ev.nn, ev.zd) /\ b' = 0..ev.nel /\ ch' = Zip(ev.l, ev.m) /\ chg' = ev.chg /\ live' = TRUE /\ tab' = tab
TCount == /\ ev.e = "count" /\ live
          /\ J("index") => ev.nbf = Nreal /\ ev.ndummy = Ndum /\ ev.nrad = Nrad /\ ev.nang = Len(ch)
          /\ tab' = [p |-> PureSeq, n |-> Nreal, d |-> Ndum, rk |-> [k \in 1..Ndum |-> IF IsReal(k - 1) THEN RealOfDum(k - 1) ELSE -1]]
          /\ UNCHANGED <<tdvars, live>>
NoTab == [p |-> <<>>, n |-> 0, d |-> 0, rk |-> <<>>]
NonEmpty(S) == {x \in S : x[2] # {}}
TSym == /\ ev.e = "sym" /\ live
        /\ J("block") =>
             IF ~ValidSym(ev.s) THEN ev.r = "err" /\ ev.rl = "err"
             ELSE /\ ev.r = "ok" /\ ev.rl = "ok" /\ Len(ev.idx) = Len(ev.lab)
                  /\ \A k \in 1..Len(ev.idx) : NoDup(ev.idx[k])
                  /\ \A j, k \in 1..Len(ev.lab) : j # k => ev.lab[j] # ev.lab[k]
                  /\ NonEmpty({<<ev.lab[k], Rng(ev.idx[k])>> : k \in 1..Len(ev.idx)}) = NonEmpty(Blocks(ev.s))
                  /\ kind = "di" =>
                       /\ Len(ev.mir) = Len(ev.idx)
                       /\ \A k \in 1..Len(ev.mir) : NoDup(ev.mir[k])
                       /\ NonEmpty({<<ev.lab[k], Rng(ev.mir[k])>> : k \in 1..Len(ev.mir)}) = NonEmpty(Mirror(ev.s))
                       \* partners stand at the same position: same l, same radial function, opposite m
                       /\ Paired => \A k \in 1..Len(ev.mir) : ev.mir[k] # <<>> =>
                            /\ Len(ev.mir[k]) = Len(ev.idx[k])
                            /\ \A j \in 1..Len(ev.mir[k]) : LET x == Pure[ev.idx[k][j] + 1] y == Pure[ev.mir[k][j] + 1] IN
                                 /\ RadOf(x) = RadOf(y) /\ L(ChanOf(x)) = L(ChanOf(y)) /\ M(ChanOf(x)) = -M(ChanOf(y))
        /\ Keep
TMidx == /\ ev.e = "midx" /\ live
         /\ J("block") => /\ NoDup(ev.m) /\ Rng(ev.m) = BlockOf({i \in Chans : M(i) = ev.mm})
                          /\ NoDup(ev.lm) /\ Rng(ev.lm) = (IF kind = "at" THEN BlockOf({i \in Chans : M(i) = ev.mm /\ L(i) = ev.ll})
                                                           ELSE BlockOf({i \in Chans : M(i) = ev.mm /\ L(i) % 2 = ev.ll % 2}))
         /\ Keep
TIdx == /\ ev.e = "idx" /\ live
        /\ J("index") => /\ ev.pure = (IF kind = "di" THEN Pure ELSE <<>>)
                         /\ Len(ev.bf) = Nel(b)
                         /\ \A e \in 0..(Nel(b) - 1) : ev.bf[e + 1] = ElemReal(e)
                         /\ kind = "di" => \A e \in 0..(Nel(b) - 1) :
                              /\ ev.bd[e + 1] = ElemDum(e, Chans)
                              /\ ev.bm[e + 1] = ElemDum(e, {i \in Chans : M(i) = ev.mm})
        /\ Keep
PadVal(s, i, j) == ((3 * i + 5 * j + s) % 7) + 1
DumVal(s, i, j) == ((2 * i + 3 * j + s) % 9) + 1
TPad == /\ ev.e = "pad" /\ live
        /\ J("index") =>
              /\ ev.ex = [k \in 1..(ND * ND) |-> LET i == tab.rk[((k - 1) \div ND) + 1] j == tab.rk[((k - 1) % ND) + 1] IN IF i >= 0 /\ j >= 0 THEN PadVal(ev.s, i, j) ELSE 0]
              /\ ev.rm = [k \in 1..(NR * NR) |-> DumVal(ev.s, Pure[((k - 1) \div NR) + 1], Pure[((k - 1) % NR) + 1])]
              /\ ev.rt                                                    \* strip(pad(P)) = P
              /\ \A k \in 1..Len(ev.bad) : ev.bad[k] = "err"              \* every wrong size is refused
        /\ Keep
TD2r == /\ ev.e = "d2r" /\ live
        /\ J("index") => IF \E k \in 1..Len(ev.in) : ev.in[k] >= ND THEN ev.r = "err"
                         ELSE ev.r = "ok" /\ LET s == SelectSeq(ev.in, LAMBDA d : tab.rk[d + 1] >= 0) IN ev.out = [j \in 1..Len(s) |-> tab.rk[s[j] + 1]]
        /\ Keep
TOp == /\ ev.e = "op" /\ live
       /\ J("couple") => /\ ev.r = "ok" /\ ev.sym /\ ev.n = <<Nreal, Nreal>>
                         /\ ev.mir                \* blocks do not depend on the sign of m (no magnetic field)
                         /\ Rng(ev.nz) = {p \in Chans \X Chans : Coupled(ev.op, p[1], p[2], ev.f)}
       /\ Keep
TChan == /\ ev.e = "chan"
         /\ J("chan") => LET got == Zip(ev.l, ev.m) IN
               /\ Len(ev.l) = Len(ev.m) /\ NoDup(got)
               /\ Rng(got) = (IF ev.kind = "ang" THEN AngSet(ev.a[1], ev.a[2]) ELSE LmSet(ev.a))
               \* +m and -m appear in the same order of l, so that blocks of partners are aligned
               /\ \A m \in {got[k][2] : k \in 1..Len(got)} :
                    LET s(x) == SelectSeq(got, LAMBDA y : y[2] = x) IN [k \in 1..Len(s(m)) |-> s(m)[k][1]] = [k \in 1..Len(s(-m)) |-> s(-m)[k][1]]
         /\ Keep
TBegin == ev.e = "begin" /\ live' = FALSE /\ tab' = NoTab /\ UNCHANGED tdvars
TraceInit == /\ c = [fam |-> 4, nn |-> 2, fl |-> TRUE, dl |-> TRUE, fr |-> TRUE, dr |-> TRUE] /\ b = {0, 1} /\ kind = "at" /\ ch = <<>> /\ chg = <<0, 0, 0>> /\ live = FALSE /\ tab = NoTab /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TBasis \/ TCount \/ TSym \/ TMidx \/ TIdx \/ TPad \/ TD2r \/ TOp \/ TChan) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<tdvars, l, live, tab>>
=============================================================================
