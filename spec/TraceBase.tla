------------------------------ MODULE TraceBase ------------------------------
(* What every trace specification shares: the recorded events, the position *)
(* in them, and acceptance of the whole trace.                              *)
EXTENDS TLC, Json, IOUtils, Naturals, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)
CHECK == IOEnv.CHECK    \* the property whose conjuncts are enforced

VARIABLE l

Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
