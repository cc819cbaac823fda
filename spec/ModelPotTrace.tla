---------------------------- MODULE ModelPotTrace ----------------------------
EXTENDS ModelPot, TraceBase
VARIABLE i
ev == Trace[i]
Idle == UNCHANGED obj
TBegin == ev.e = "begin" /\ obj' = None
TNew == /\ ev.e = "new"
        /\ IF ev.k \in Kinds THEN ev.r = "ok" /\ New(ev.k, ev.p) ELSE ev.r = "logic_error" /\ Idle
TSet == ev.e = "set" /\ Resize(ev.p)
TPar == ev.e = "par" /\ Idle /\ (IF obj.k = "pt" THEN ev.v = 0 ELSE Abs(ev.v - 78125 * obj.p) <= 1)
TQ == /\ ev.e = "q" /\ Idle
      /\ IF obj.k \in {"pt", "ho", "sp"} THEN Near(ev.v, Charge(obj.k, obj.p, ev.k), 9)
         ELSE /\ ev.v > 0 /\ (obj.k = "ga" => ev.v <= 1000000000)
              /\ (obj.k = "ga" /\ obj.p * ev.k \in DOMAIN Erf => Abs(ev.v - Erf[obj.p * ev.k]) <= 2)
              /\ (obj.p * ev.k >= 131072 => Abs(ev.v - 1000000000) <= 2)
(* the radius of the ball is computed from its mean square: rounding decides which side of an equal boundary it falls *)
TBreaks == ev.e = "breaks" /\ Idle /\ IF obj.k = "sp" /\ obj.p \in {ev.a, ev.b} THEN Len(ev.v) <= 1 ELSE LET w == Kinks(obj.k, obj.p, ev.a, ev.b) IN Len(ev.v) = Len(w) /\ \A j \in 1..Len(w) : Abs(ev.v[j] - 78125 * w[j]) <= 1
(* bounds over many radii: agreement between precisions and with a fresh object in 10^-15, relative change over a relative step of 10^-7, point charge far outside *)
TScan == ev.e = "scan" /\ Idle /\ ev.k = obj.k /\ ev.neg /\ ev.above /\ ev.rising /\ ev.agree <= 5000 /\ ev.jump <= 300 /\ ev.out <= 2 /\ ev.gref <= 100
(* charge missing at the distance (1 - 1/m) of the edge, times m (10^-6) for the shell, 1/m exactly, and times m^2 for the ball, 3/2 - 1/(2m); none outside *)
TNear == /\ ev.e = "near" /\ Idle /\ obj.k \in {"sp", "ho"} /\ ev.out <= 10
         /\ IF obj.k = "ho" THEN Abs(ev.lin - 1000000) <= 10 ELSE Abs(ev.quad - (1500000 - (500000 \div ev.m))) <= 10
TMoment == ev.e = "moment" /\ Idle /\ ev.k = obj.k /\ Abs(ev.m - 1000000) <= 20 /\ ev.cloud <= 50
TNorm == ev.e = "norm" /\ Idle /\ Abs(ev.n - 1000000) <= 20 /\ Abs(ev.u0) <= 20
TMat == /\ ev.e = "mat" /\ Idle /\ ev.fit <= 100 /\ ev.nch = 9 /\ ev.chan <= 10
        /\ Near(ev.s, Mom(ev.R, 0, 0, ev.R), 5)
        /\ \A v \in {ev.v, ev.w} : Near(v, Expect(ev.k, ev.Z, ev.p \div 128, ev.R), 5)
TConf == /\ ev.e = "conf" /\ Idle /\ ev.fit <= 100
         /\ IF ConfRefused(ev.ic, ev.n, ev.V, ev.s2) THEN ev.r = "logic_error" /\ ev.ra = "logic_error"
            ELSE /\ ev.r = "ok" /\ ev.ra = "ok" /\ ev.chan <= 10
                 /\ (ev.ic \in {0, 1, 3} => Near(ev.v, Confined(ev.ic, ev.n, ev.r0, ev.V, ev.s2, ev.R), 5))
                 /\ (ev.ic = 2 => Abs(ev.rel) <= 100)
                 /\ (ev.ic = 4 => Abs(ev.rel) <= (IF ev.n = 1 THEN 100 ELSE 100000))      \* the steeper barrier is integrated up to its singular end
TTab == /\ ev.e = "tab" /\ Idle /\ ev.err <= 10 /\ (ev.m # "SAP" => ev.neg) /\ ev.bp = 0 /\ Abs(ev.near - 1000000) <= 100
        /\ (ev.m = "TF" => ev.far < 200000 /\ ev.rise) /\ (ev.m = "GSZ" => ev.far >= 999000 /\ ev.rise)
TSap == /\ ev.e = "sap" /\ Idle
        /\ IF ev.Z \in 0..3 THEN /\ ev.r = "ok" /\ ev.err <= 2
                                 /\ (IF ev.Z = 0 THEN ev.zero /\ ev.bp = <<>> ELSE ~ev.zero /\ ev.bp = Inside(ev.a, ev.b))
           ELSE ev.r = "logic_error"
TraceInit == obj = None /\ i = 1
TraceNext == i <= TraceLen /\ (TBegin \/ TNew \/ TSet \/ TPar \/ TQ \/ TNear \/ TBreaks \/ TScan \/ TMoment \/ TNorm \/ TMat \/ TConf \/ TTab \/ TSap) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<obj, i>>
=============================================================================
