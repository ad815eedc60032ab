------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Checking a recorded trace of the implementation, one event per step.    *)
(* The trace is split into chunks that TLC's workers walk in parallel.  A  *)
(* module that EXTENDS this one defines Accepts(e) (the specified relation *)
(* of one event) and                                                       *)
(*    Init == TraceInit,  Next == TraceNext(Accepts)                       *)
(* tOk becomes FALSE at an event the specification does not allow.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceLen == Len(Trace)
NChunks == LET n == 64 IN IF TraceLen < n THEN TraceLen ELSE n

VARIABLES tChunk, tPos, tOk
tvars == <<tChunk, tPos, tOk>>

\* events tChunk, tChunk + NChunks, tChunk + 2 NChunks, ...
At(c, k) == c + k * NChunks
TraceInit == tChunk \in 1..NChunks /\ tPos = 0 /\ tOk = TRUE
TraceNext(Accepts(_)) ==
   /\ tOk
   /\ At(tChunk, tPos) <= TraceLen
   /\ tOk' = Accepts(Trace[At(tChunk, tPos)])
   /\ tPos' = tPos + 1
   /\ tChunk' = tChunk
\* the index of the event checked last
LastEvent == At(tChunk, tPos - 1)
Conforms == tOk \/ ~ PrintT(<<"REJECTED", LastEvent>>)
\* every event has been visited
Complete == TLCGet("stats").distinct = TraceLen + NChunks
=============================================================================
