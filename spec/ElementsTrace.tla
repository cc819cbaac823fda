---------------------------- MODULE ElementsTrace ----------------------------
EXTENDS Elements, TraceBase
VARIABLE l
ev == Trace[l]
TZ == ev.e = "z" /\ LET w == Meaning(ev.s) IN /\ w[1] = "Z" => ev.r = "ok" /\ ev.z = w[2]
                                              /\ w[1] = "refused" => ev.r = "runtime_error"
(* the table itself, symbol by symbol *)
TSym == ev.e = "sym" /\ (ev.z \in 1..NElem => ev.s = Symbols[ev.z]) /\ ev.n = NElem + 1
TOrbs == ev.e = "orbs" /\ LET o == OrbCount(ev.z1, ev.z2) IN ev.o = <<o[0], o[1], o[2], o[3]>>
(* charges at increasing radii, millionths; the whole potential seen from the nucleus, the ion far away *)
Falls(v) == \A i \in 1..Len(v) - 1 : v[i + 1] <= v[i] + 2
TGsz == ev.e = "gsz" /\ IF ~HasGSZ(ev.z) THEN ev.par = "logic_error" /\ ev.pot = "logic_error" /\ ev.curve = "logic_error"
                        ELSE /\ ev.par = "ok" /\ ev.pot = "ok" /\ ev.curve = "ok"
                             /\ ev.d = GSZTable[ev.z]
                             /\ ev.hok                      \* H = d (Z-1)^0.4
                             /\ ev.v[1] = 1000000 * ev.z /\ ev.v[Len(ev.v)] \in 999990..1000010 /\ Falls(ev.v)
                             /\ ev.potok                    \* the potential is minus the charge over r
TSap == ev.e = "sap" /\ IF ~HasSAP(ev.z) THEN \A i \in 1..Len(ev.v) : ev.v[i] = 0
                        ELSE ev.v[1] \in 1000000 * ev.z - 20..1000000 * ev.z /\ ev.v[Len(ev.v)] \in -10..10 /\ Falls(ev.v) /\ ev.cont /\ ev.potok
(* the wave function database: every accessor refuses what it has no record of, and is consistent where it has *)
HasRec(e) == e.z \in 1..e.maxz
TAdb == ev.e = "adb" /\ LET has == HasRec(ev) /\ ev.l \in 0..ev.lmax IN
        IF ~has THEN ev.norb = "logic_error" /\ ev.occ = "logic_error" /\ ev.coef = "logic_error"
        ELSE ev.norb = "ok" /\ ev.occ = "ok" /\ ev.coef = "ok" /\ ev.nocc = ev.n /\ ev.ccols = ev.n /\ (ev.n > 0 => ev.crows = ev.nbf)
TAdbAtom == ev.e = "adbatom" /\ (IF HasRec(ev) THEN ev.atom = "ok" /\ ev.charge = ev.z ELSE ev.atom = "logic_error")
            /\ (IF HasRec(ev) \/ ev.z = 0 THEN ev.pot = "ok" ELSE ev.pot = "logic_error")
            /\ (ev.z = 0 => ev.v0)                          \* a dummy centre has no potential
TBegin == ev.e = "begin"
TraceInit == q = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TZ \/ TSym \/ TOrbs \/ TGsz \/ TSap \/ TAdb \/ TAdbAtom) /\ l' = l + 1 /\ UNCHANGED q
TraceSpec == TraceInit /\ [][TraceNext]_<<q, l>>
===============================================================================
