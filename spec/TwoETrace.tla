----------------------------- MODULE TwoETrace -----------------------------
(* Errors are relative, in units of 10^-12; energies in units of 10^-6 of the bare exchange energy. *)
EXTENDS TwoE, TraceBase
VARIABLE l
CONSTANT Judge                        \* subset of {"history", "physics"}
ev == Trace[l]
J(x, p) == IF x \in Judge THEN p ELSE TRUE
Range(s) == {s[i] : i \in 1..Len(s)}
Tiny(x) == x <= 1000                   \* 1e-9
Small(x) == x <= 1000000               \* 1e-6
TNew == ev.e = "new" /\ Create(ev.k)
TPrep == /\ ev.e = "prep" /\ ev.r = "ok"
         /\ IF ev.p = "full" THEN PrepareFull ELSE PrepareScreened(ev.p)
(* a result is recognised among the reference results of freshly prepared objects *)
TUse == /\ ev.e = "use" /\ Use
        /\ J("history", LET w == Answer(ev.op) IN
              IF ev.op = "R" /\ ~HasScreened(kind) THEN ev.r = "absent"
              ELSE IF w = "refused" THEN ev.r = "logic_error"
              ELSE /\ ev.r = "ok" /\ ev.kept
                   /\ IF ev.d = 4 THEN ev.zero ELSE Range(ev.like) = {w})
TLin == /\ ev.e = "lin" /\ Use
        /\ J("history", IF Answer(ev.op) = "refused" THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ Tiny(ev.err))
TThr == /\ ev.e = "thr" /\ Use          \* one thread against four
        /\ J("history", IF ev.op = "R" /\ ~HasScreened(kind) THEN ev.r = "absent" ELSE IF Answer(ev.op) = "refused" THEN ev.r = "logic_error" ELSE ev.r = "ok" /\ Tiny(ev.err) /\ Tiny(ev.perr))
(* physics of the bare and screened operators, on freshly prepared objects *)
TPhys == /\ ev.e = "phys" /\ Use
         /\ J("physics", /\ Tiny(ev.symJ) /\ Tiny(ev.symK) /\ Tiny(ev.recJ) /\ Tiny(ev.recK)      \* symmetric; mutual energies
                         /\ Small(ev.self)                                                        \* one electron does not repel itself
                         /\ ev.posJ /\ ev.negK /\ ev.pairpos)
TShell == /\ ev.e = "shell" /\ Use
          /\ J("physics", Small(ev.offJ) /\ Small(ev.offK) /\ Small(ev.mJ) /\ Small(ev.mK) /\ Small(ev.saJ) /\ Small(ev.saK) /\ Small(ev.saR))
TGauss == ev.e = "gauss" /\ Use /\ J("physics", Small(ev.err) /\ Small(ev.errin))
TKernel == ev.e = "kernel" /\ Use /\ J("physics", Small(ev.ov) /\ ev.err <= (IF ev.p \in {"full", "yukA", "yukB", "yukC"} THEN 1000000 ELSE 1000000000))      \* the error-function kernel is integrated through its cusp by plain quadrature: 1e-3
Dec(s) == \A i \in 1..(Len(s) - 1) : s[i + 1] < s[i]
TScreen == /\ ev.e = "screen" /\ Use
           /\ J("physics", /\ \A f \in {"yuk", "erfc"} : Dec(ev[f]) /\ \A i \in 1..Len(ev[f]) : ev[f][i] \in 1..999999
                           /\ ev.yuk0 \in 970000..1000010 /\ ev.erfc0 \in 970000..1000010 /\ Tiny(ev.sym))
TMirror == ev.e = "mirror" /\ Use /\ J("physics", Tiny(ev.err))
TBegin == ev.e = "begin" /\ kind' = "none" /\ full' = FALSE /\ rs' = "none"
TraceInit == kind = "none" /\ full = FALSE /\ rs = "none" /\ log = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TNew \/ TPrep \/ TUse \/ TLin \/ TThr \/ TPhys \/ TShell \/ TGauss \/ TKernel \/ TScreen \/ TMirror) /\ UNCHANGED log /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<kind, full, rs, log, l>>
=============================================================================
