----------------------------- MODULE OneElTrace -----------------------------
EXTENDS OneEl, TraceBase
VARIABLE i
ev == Trace[i]
Exact(x) == x <= 100000                \* 1e-4, in units 10^-9
Idle == UNCHANGED seen
U == 10000
StateOk(s) == /\ Near(s.t, Kin(s.n), U) /\ Near(s.v, Pot(s.n), U) /\ Abs(s.z) <= 2 /\ s.b0 = 0
              /\ Near(s.q, Quad(s.n, s.l, s.m), U) /\ Near(s.dia, Dia(s.n, s.l, s.m), U) /\ Near(s.par, Q(-s.m, 1), U)
TransOk(t) == LET lo == Min2(t.l, t.k) IN
              IF t.m # t.j \/ Abs(t.l - t.k) # 1 THEN t.x2 = 0
              ELSE lo \in DOMAIN RadialTransition => LET w == Want(RMul(Q(RadialTransition[lo], 1), Cos2(lo, t.m)), 1) IN Abs(t.x2 - w) <= 2 + w \div 2000
LevelsOk(lev, ls, N) == LET w == Spectrum(ls, 1, N) IN Len(lev) = Len(w) /\ \A k \in 1..Len(w) : Abs(lev[k] - Want(Energy2(w[k]), 1000000)) <= 2
(* models: 0 point; 1 Gaussian, 2 sphere, 3 shell: every level lies above the point nucleus'; 4 regularised: the ground state is exact *)
TAtom == /\ ev.e = "atom" /\ Idle
         /\ IF ev.mod = 0 THEN /\ LevelsOk(ev.lev, ev.l, ev.nm) /\ \A k \in 1..Len(ev.st) : StateOk(ev.st[k])
                               /\ \A k \in 1..Len(ev.tr) : TransOk(ev.tr[k])
            ELSE IF ev.mod = 4 THEN Abs(ev.lev[1] + 1000000) <= 20
            ELSE LET w == Spectrum(ev.l, 1, ev.nm) IN \A k \in 1..Len(ev.lev) : k <= Len(w) => ev.lev[k] \in (Want(Energy2(w[k]), 1000000) - 1)..0
TSad == /\ ev.e = "sad" /\ Idle /\ ev.mp <= 100 /\ ev.sh <= 1000
        /\ Len(ev.st) = Cardinality({<<p, q>> \in (1..ev.nm) \X (0..ev.lm) : q < p})
        /\ \A k \in 1..Len(ev.st) : LET s == ev.st[k] IN
              /\ Abs(s.en - Want(Energy2(s.n), 1000000)) <= 2
              /\ \A q \in 1..5 : Near(s.r[q], Radial(<<-2, -1, 1, 2, 3>>[q], s.n, s.l), U)
              /\ (s.l = 0 => Abs(s.rho0 - (4 * U) \div (s.n * s.n * s.n)) <= 40) /\ (s.l > 0 => s.rho0 = 0)
              /\ (s.n = s.l + 1 => /\ Near(s.f[1], Slater[<<0, s.l>>], U) /\ (s.l > 0 => Near(s.f[2], Slater[<<2, s.l>>], U)))
(* one charged centre at the distance R/20 from the midpoint *)
OneCentre(s) == LET p == Abs(s.m)  sgn == IF ev.z1 > 0 THEN -1 ELSE 1 IN
   /\ Abs(s.en - Want(Energy2(p + 1), 1000000)) <= 3 /\ Near(s.t, Kin(p + 1), U)
   /\ Abs(s.z - sgn * ev.R * 500) <= 5
   /\ Abs(s.q - (25 * ev.R * ev.R + Want(Quad(p + 1, p, p), U))) <= 20
   /\ Near(s.dia, Dia(p + 1, p, p), U) /\ Near(s.par, Q(-s.m, 1), U)
Obs(st, sgn) == [k \in 1..Len(st) |-> <<st[k].m, st[k].en, st[k].en2, st[k].t, sgn * st[k].z, st[k].q, st[k].dia, st[k].par>>]
Alike(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : \A j \in 1..8 : Abs(a[k][j] - b[k][j]) <= 2 + Abs(a[k][j]) \div 100000
TDi == /\ ev.e = "di" /\ Len(ev.st) = 2 * ev.mm + 1
       /\ \A k \in 1..Len(ev.st) : ev.st[k].m = k - 1 - ev.mm
       /\ \A k \in 1..Len(ev.st) : LET s == ev.st[k]  t == ev.st[Len(ev.st) + 1 - k] IN       \* m and -m are mirror images
             Abs(s.en - t.en) <= 1 /\ Abs(s.en2 - t.en2) <= 1 /\ Abs(s.z - t.z) <= 1 /\ Abs(s.q - t.q) <= 1 /\ Abs(s.dia - t.dia) <= 1 /\ Abs(s.par + t.par) <= 1
       /\ IF ev.z1 = 0 \/ ev.z2 = 0 THEN Idle /\ \A k \in 1..Len(ev.st) : OneCentre(ev.st[k])
          ELSE LET zs == Min2(ev.z1, ev.z2)  zl == Max2(ev.z1, ev.z2)  what == Obs(ev.st, IF ev.z1 <= ev.z2 THEN 1 ELSE -1)  key == Key(ev.z1, ev.z2, ev.R) IN
               /\ \A k \in 1..Len(ev.st) : LET s == ev.st[k] IN
                     /\ s.en >= Want(Q(-(zs + zl) * (zs + zl), zl * zl * (Abs(s.m) + 1) * (Abs(s.m) + 1)), 1000000) - 2      \* above the united atom
                     /\ s.en < Want(Energy2(Abs(s.m) + 1), 1000000)                                                          \* below the lone heavier one
                     /\ (ev.z1 = ev.z2 => Abs(s.z) <= 1) /\ (ev.z1 > ev.z2 => s.z < 0) /\ (ev.z1 < ev.z2 => s.z > 0)
                     /\ (ev.z1 = ev.z2 /\ ev.R = 20 => Abs(s.en - H2plus[Abs(s.m)]) <= 3 /\ (s.m = 0 => Abs(s.en2 - H2plusOdd) <= 3))
               /\ (key \in DOMAIN seen => Alike(seen[key], what))
               /\ Observe(ev.z1, ev.z2, ev.R, what)
TOff == ev.e = "off" /\ Idle /\ Exact(ev.err) /\ Exact(ev.zero) /\ ev.toward
TBegin == ev.e = "begin" /\ seen' = <<>>
TraceInit == seen = <<>> /\ vn = 1 /\ vl = 0 /\ vm = 0 /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TAtom \/ TSad \/ TDi \/ TOff) /\ UNCHANGED <<vn, vl, vm>> /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<seen, vn, vl, vm, i>>
=============================================================================
