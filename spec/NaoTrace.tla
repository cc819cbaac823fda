------------------------------- MODULE NaoTrace -------------------------------
EXTENDS Nao, TraceBase
VARIABLE i
ev == Trace[i]
Idle == UNCHANGED vars
TBegin == ev.e = "begin" /\ fes' = 0 /\ bases' = <<>>
TFe == ev.e = "fe" /\ AddFE
TMk == /\ ev.e = "mk" /\ Make(ev.f, ev.n, ev.g)
       /\ IF MakeRefused(ev.f, ev.n) THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ ev.nbf = ev.n
Square(m, n) == Len(m) = n /\ \A x \in 1..n : Len(m[x]) = n
TOne == /\ ev.e = "one" /\ Idle
        /\ LET g == bases[ev.b].g IN Square(ev.m, Len(g)) /\ \A x, y \in 1..Len(g) : Abs(ev.m[x][y] - One(ev.o, g[x], g[y])) <= 12
TOrb == /\ ev.e = "orb" /\ Idle
        /\ LET g == bases[ev.b].g IN IF ev.w # 0 THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ Len(ev.v) = Len(g) /\ \A x \in 1..Len(g) : Abs(ev.v[x] - 256 * OrbAt(g[x], ev.k)) <= 1
TTwo == /\ ev.e = "two" /\ Idle
        /\ IF TwoRefused(ev.b, ev.c, ev.n) THEN ev.r = "logic_error"
           ELSE LET g == bases[ev.b].g  h == bases[ev.c].g IN
                /\ ev.r = "ok" /\ Square(ev.m, Len(g))
                /\ \A x, y \in 1..Len(g) : Abs(ev.m[x][y] - Two(ev.o, ev.k, g, h, ev.D, x, y)) <= 400
TYuk == /\ ev.e = "yuk" /\ Idle
        /\ IF TwoRefused(ev.b, ev.c, ev.n) \/ ev.lam <= 0 THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ ev.err <= 20
Near(v, q, e, t) == Abs(v - Fix(q, e)) <= t
TPrim == /\ ev.e = "prim" /\ Idle
         /\ IF PrimRefused(ev.o, ev.p, ev.z) THEN ev.r = "logic_error"
            ELSE /\ ev.r = "ok" /\ ev.con <= 1000
                 /\ \A x, y \in 1..2 : LET p == <<ev.p[x], ev.p[y]>>  z == <<ev.z[x], ev.z[y]>> IN
                      IF ev.o = "sto"
                      THEN /\ Abs(Mul8(ev.S[x][y], ev.S[x][y]) - StoSq(p, z)) <= 300 /\ ev.S[x][y] > 0
                           /\ Near(ev.V[x][y], RMul(<<-1, 1>>, StoInv(p, z)), 6, 20) /\ Near(ev.L[x][y], RMul(<<1, 2>>, StoInv2(p, z)), 6, 20)
                           /\ Near(ev.T[x][y], StoKin(p, z), 6, 20)
                      ELSE p[1] = p[2] =>
                           /\ Abs(Pow8(ev.S[x][y], 4) - GtoQuart(p[1], z)) <= 500 /\ ev.S[x][y] > 0 /\ ev.V[x][y] < 0
                           /\ Near(ev.L[x][y], RMul(<<1, 2>>, GtoInv2(p[1], z)), 6, 20) /\ Near(ev.T[x][y], GtoKin(p[1], z), 6, 20)
                           /\ Near(ev.W[x][y], GtoInvSq(p[1], z), 6, 40)
TBad == ev.e = "bad" /\ Idle /\ ev.r = IF ev.w = "fine" THEN "ok" ELSE "logic_error"
TExtract == /\ ev.e = "extract" /\ Idle
            /\ IF ExtractRefused(ev.nc, ev.kp) THEN ev.r = "logic_error"
               ELSE /\ ev.r = "ok" /\ ev.same
                    /\ LET l == Ls(ev.kp, Len(ev.kp)) IN Len(ev.l) = Len(l) /\ Len(ev.n) = Len(l) /\ \A x \in 1..Len(l) : ev.l[x] = l[x] - 1 /\ ev.n[x] = Kept(ev.nc, ev.kp, l[x])
TraceInit == fes = 0 /\ bases = <<>> /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TFe \/ TMk \/ TOne \/ TOrb \/ TTwo \/ TYuk \/ TPrim \/ TBad \/ TExtract) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<fes, bases, i>>
=============================================================================
