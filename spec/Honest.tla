------------------------------- MODULE Honest -------------------------------
(***************************************************************************)
(* The honest prover: for each recorded run of a gadget with a witness,    *)
(* the assignment satisfies every constraint and yields the specified      *)
(* outputs whenever the asserted condition holds, the values carried by    *)
(* the output signals are those of their linear combinations, and          *)
(* assertions that fail on constants panic.                                *)
(***************************************************************************)
EXTENDS TraceBase, R1CS, Gadgets
Circuits == ndJsonDeserialize(IOEnv.CIRCUITS)

Vals(C, lcs, w) == TLCEval([i \in 1..Len(lcs) |-> LCEval(C, lcs[i], w)])
SatAll(C, w) == \A i \in 1..Len(C.cons) : Satisfied(C, C.cons[i], w)

Accepts(e) ==
  LET C == Circuits[e.c]
      in == Vals(C, C.ins, e.w)
      fit == Pre(C, in) /\ Holds(C, in)
  IN IF C.panic \/ e.panic
     \* building panics only where the gadget's precondition or asserted condition fails
     THEN ~ fit /\ (C.panic => e.panic)
     ELSE LET out == Vals(C, C.outs, e.w)
          IN /\ e.known /\ e.same
             /\ Fed(C, in, e.fed)
             /\ fit => SatAll(C, e.w) /\ out = Out(C, in) /\ e.vals = out
             /\ (Pre(C, in) /\ ~ Holds(C, in)) => ~ SatAll(C, e.w)

Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
