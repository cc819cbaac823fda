------------------------------- MODULE XCTrace -------------------------------
EXTENDS XC, TraceBase
VARIABLE l
ev == Trace[l]
Close(x, y) == x - y <= 1 /\ y - x <= 1
TCat == ev.e = "cat" /\ Load(ev.f) /\ last' = <<>>
TSpecify == /\ ev.e = "spec"
            /\ LET w == Resolve(ev.s) IN /\ w[1] = "refused" => ev.r = "runtime_error"
                                         /\ w[1] = "pair" => ev.r = "ok" /\ ev.x = w[2] /\ ev.c = w[3]
            /\ last' = <<ev.s>> /\ UNCHANGED <<cat, names>>
TFind == /\ ev.e = "find"
         /\ LET w == Name(ev.s) IN /\ w[1] = "refused" => ev.r = "runtime_error"
                                   /\ w[1] = "id" => ev.r = "ok" /\ ev.x = w[2]
         /\ UNCHANGED xvars
Fixed(n) == IF n \in {NoneId, HFId} THEN TRUE ELSE cat[n].fam \in LDA \cup GGA \cup MGGA
TClass == /\ ev.e = "class"
          /\ IF ~Known(ev.id) THEN ev.r = "runtime_error" /\ ev.nerr = ev.nall
             ELSE LET a == Answers(ev.id) IN
                  /\ ev.r = "ok"
                  /\ ev.x = a.x /\ ev.c = a.c /\ ev.xc = a.xc /\ ev.k = a.k
                  /\ IF Fixed(ev.id) THEN ev.gr = "ok" /\ ev.gga = a.gga /\ ev.mt = a.mt /\ ev.ml = a.ml ELSE ev.gr = "runtime_error"
                  /\ ev.grad = a.grad /\ ev.tau = a.tau /\ ev.lapl = a.lapl
                  /\ Close(ev.exx, a.exx) /\ ev.erf = a.erf /\ ev.yuk = a.yuk /\ ev.rs = (a.erf \/ a.yuk)
                  /\ Close(ev.omega, a.omega) /\ Close(ev.alpha, a.alpha) /\ Close(ev.beta, a.beta)
                  /\ ev.vv = a.vv /\ Close(ev.vb, a.vb) /\ Close(ev.vC, a.vC) /\ ev.exc = a.exc /\ ev.sup = a.sup
                  /\ ev.key \in (CASE ev.id = NoneId -> {"none"} [] ev.id = HFId -> {"HF", "hyb_x_hf"} [] OTHER -> {s \in DOMAIN names : names[s] = ev.id})
                  /\ ev.back = ev.id
          /\ UNCHANGED xvars
(* parameters: inline and from a file the same numbers, eighths *)
TParams == ev.e = "params" /\ ev.inline = ev.given /\ ev.file = ev.given /\ UNCHANGED xvars
TBegin == ev.e = "begin" /\ cat' = <<>> /\ names' = <<>> /\ last' = <<>>
TraceInit == cat = <<>> /\ names = <<>> /\ last = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TCat \/ TSpecify \/ TFind \/ TClass \/ TParams) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<xvars, l>>
===============================================================================
