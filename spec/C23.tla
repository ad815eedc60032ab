--------------------------------- MODULE C23 ---------------------------------
(* Randomness: one history of all processes, threads and generators.       *)
EXTENDS Entropy, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tPos, tOk, seen, got
Event(e) ==
  CASE e.t = "start" -> tOk' = TRUE /\ got' = 0 /\ seen' = seen
    [] e.t = "op" -> /\ tOk' = Allowed(seen, got, e)
                     /\ got' = got + e.got
                     /\ seen' = seen \cup Range1(e.vals)
    [] e.t = "words" -> tOk' = (Spread(e.w) /\ Balanced(e.w, 1200)) /\ UNCHANGED <<seen, got>>
    [] e.t = "bits" -> tOk' = Independent(e.b) /\ UNCHANGED <<seen, got>>
Init == tPos = 0 /\ tOk = TRUE /\ seen = {} /\ got = 0
Next == tOk /\ tPos < Len(Trace) /\ tPos' = tPos + 1 /\ Event(Trace[tPos + 1])
Conforms == tOk \/ ~ PrintT(<<"REJECTED", tPos>>)
Complete == TLCGet("stats").distinct = Len(Trace) + 1
=============================================================================
