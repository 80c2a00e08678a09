----------------------------- MODULE TraceLib -----------------------------
(***************************************************************************)
(* What every trace specification shares.  The trace is a file of JSON     *)
(* lines recorded from the real code (environment variable TRACE); l is    *)
(* the next line.  A trace specification has one action per kind of event, *)
(* of the form Is("kind") /\ <what the specification allows>; it accepts   *)
(* the trace iff some behaviour consumes every line.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.ev = e /\ l' = l + 1
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
View == l
=============================================================================
