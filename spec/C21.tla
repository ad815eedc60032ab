--------------------------------- MODULE C21 ---------------------------------
(* Histories of commands over files, replayed in the four bindings.        *)
EXTENDS TraceBase, Cli
Accepts(e) ==
  LET p == FPrime(e.f)
      step(a, op) == [s |-> CliStep(p, a.s, op), ok |-> a.ok /\ OpOk(e.b, Engine[e.eng], e.f, a.s, op)]
  IN FoldLeft(step, [s |-> CliInit, ok |-> TRUE], e.ops).ok
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
