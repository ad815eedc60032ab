------------------------------- MODULE Forged -------------------------------
(***************************************************************************)
(* Assignments of a cheating prover that satisfy every constraint of a     *)
(* circuit too large to search: inputs and outputs must be related as the  *)
(* gadget's specification says.                                            *)
(***************************************************************************)
EXTENDS TraceBase, R1CS, Gadgets
Circuits == ndJsonDeserialize(IOEnv.CIRCUITS)
Vals(C, lcs, w) == TLCEval([i \in 1..Len(lcs) |-> LCEval(C, lcs[i], w)])
SatAll(C, w) == \A i \in 1..Len(C.cons) : Satisfied(C, C.cons[i], w)
Accepts(e) == LET C == Circuits[e.c]
              IN SatAll(C, e.w) => Rel(C, Vals(C, C.ins, e.w), Vals(C, C.outs, e.w))
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
