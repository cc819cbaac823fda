----------------------------- MODULE TraceBase -----------------------------
(* Shared acceptance machinery of all trace specifications: a recorded      *)
(* trace is accepted iff every one of its lines could be consumed.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
TraceLen == Len(Trace)
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1 IN
    /\ PrintT(<<"TRACE", d, TraceLen>>)
    /\ d = TraceLen
=============================================================================
