---------------------------- MODULE CmdlineTrace ----------------------------
EXTENDS Cmdline, TraceBase
VARIABLE l
ev == Trace[l]
Map(s) == IF Len(s) = 0 THEN <<>> ELSE [x \in {s[i].n : i \in 1..Len(s)} |-> LET r == s[CHOOSE i \in 1..Len(s) : s[i].n = x] IN Opt(r.ty, r.short, r.need, r.def)]
(* declarations; a second declaration of a name is refused *)
TDecl == ev.e = "decl" /\ opts' = Map(ev.d) /\ ev.dup = "err" /\ rest' = <<>> /\ ok' = TRUE /\ argv' = <<>>
Observed(o, vs) == [x \in Names(o) |-> LET r == vs[CHOOSE i \in 1..Len(vs) : vs[i].n = x] IN [o[x] EXCEPT !.has = r.has, !.val = IF o[x].ty = "flag" THEN "" ELSE r.val]]
TParse == /\ ev.e = "parse"
          /\ LET p == Parse(opts, ev.a) IN
             /\ ev.ok = ~p.bad /\ ev.msg = p.bad
             /\ ev.ok => ev.rest = p.rest /\ Observed(opts, ev.vals) = p.o
             /\ opts' = (IF ev.ok THEN p.o ELSE Observed(opts, ev.vals)) /\ rest' = ev.rest /\ ok' = ev.ok
          /\ UNCHANGED argv
(* a program started with these arguments: returns, or stops; help stops successfully, an error with status 1 *)
HelpOpt == Opt("flag", "?", FALSE, "")
TCheck == /\ ev.e = "check"
          /\ LET o == ("help" :> HelpOpt) @@ opts p == Parse(o, ev.a) IN
             IF p.o["help"].has THEN ev.exit = 0
             ELSE IF ~p.bad THEN ev.exit = -1
             ELSE IF ev.a = <<>> THEN ev.exit >= 0 ELSE ev.exit = 1
          /\ UNCHANGED cvars
TSplit == /\ ev.e = "split"                       \* the whole command line in one string
          /\ LET s == Split(ev.s) IN
             /\ ~s[1] => ~ev.ok
             /\ s[1] /\ Len(s[2]) > 0 => LET p == Parse(opts, SubSeq(s[2], 2, Len(s[2]))) IN ev.ok = ~p.bad /\ (ev.ok => ev.rest = p.rest /\ Observed(opts, ev.vals) = p.o)
             /\ s[1] /\ s[2] = <<>> => ~ev.ok
          /\ UNCHANGED cvars
TMisuse == ev.e = "misuse" /\ ev.unknown = "err" /\ ev.wrongtype = "err" /\ ev.noexist = "err" /\ UNCHANGED cvars
TBegin == ev.e = "begin" /\ opts' = <<>> /\ rest' = <<>> /\ ok' = TRUE /\ argv' = <<>>
TraceInit == opts = <<>> /\ rest = <<>> /\ ok = TRUE /\ argv = <<>> /\ l = 1
TraceNext == l <= TraceLen /\ (TBegin \/ TDecl \/ TParse \/ TCheck \/ TSplit \/ TMisuse) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
=============================================================================
