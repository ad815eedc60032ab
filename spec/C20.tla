--------------------------------- MODULE C20 ---------------------------------
(* run: an execution of the contract generated for a key of known           *)
(*      logarithms; real: one with a proof made by the prover; text: what   *)
(*      the generator returned.                                             *)
EXTENDS TraceBase, Ethereum
Run(e) == LET ok == Allowed(e.key, e.p, e.d, e.x, e.e)
          IN /\ e.out \in ok
             /\ e.native # "none" => (e.native = "true") = (e.out = "true")
Accepts(e) == CASE e.t = "run" -> Run(e)
                [] e.t = "real" -> e.out = (IF e.own THEN "true" ELSE "false") /\ e.native = e.out
                [] e.t = "text" -> e.made /\ e.left = 0
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
