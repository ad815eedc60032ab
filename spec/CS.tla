--------------------------------- MODULE CS ---------------------------------
(***************************************************************************)
(* A constraint system under construction, as a state machine.  The state  *)
(* lists the variables in allocation order (kind: TRUE for a public input, *)
(* k: value known, v: value) and the emitted constraints <<A, B, C>>, each *)
(* side a sequence of <<variable, coefficient>>, variable 0 being one.     *)
(* Operations:                                                             *)
(*   [o |-> "aux" or "in", k, v]     allocate a variable / public input    *)
(*   [o |-> "con", l |-> <<A, B, C>>] emit a constraint                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Field

CSEmpty == [kinds |-> <<>>, known |-> <<>>, val |-> <<>>, cons |-> <<>>]
CSStep(s, op) ==
  IF op.o = "con" THEN [s EXCEPT !.cons = Append(@, op.l)]
  ELSE [s EXCEPT !.kinds = Append(@, op.o = "in"), !.known = Append(@, op.k), !.val = Append(@, op.v)]
CSRun(ops) == FoldLeft(CSStep, CSEmpty, ops)

\* What the proving back end calls each variable: the constant one is 0, the k-th public input k,
\* the j-th private variable -j.
CSNames(kinds) ==
  LET step(acc, k) == IF k THEN [acc EXCEPT !.i = @ + 1, !.names = Append(@, acc.i + 1)]
                      ELSE [acc EXCEPT !.a = @ + 1, !.names = Append(@, 0 - (acc.a + 1))]
  IN FoldLeft(step, [i |-> 0, a |-> 0, names |-> <<>>], kinds).names
Renamed(names, lc) == {<<IF t[1] = 0 THEN 0 ELSE names[t[1]], t[2]>> : t \in ToSet(lc)}

\* constraints and the witness
SideKnown(s, lc) == \A i \in 1..Len(lc) : lc[i][1] = 0 \/ s.known[lc[i][1]]
SideVal(p, s, lc) ==
  LET add(acc, t) == FAdd(p, acc, IF t[1] = 0 THEN t[2] ELSE FMul(p, t[2], s.val[t[1]])) IN FoldLeft(add, F0, lc)
ConKnown(s, c) == SideKnown(s, c[1]) /\ SideKnown(s, c[2]) /\ SideKnown(s, c[3])
ConSat(p, s, c) == FMul(p, SideVal(p, s, c[1]), SideVal(p, s, c[2])) = SideVal(p, s, c[3])
Refuted(p, s, c) == ConKnown(s, c) /\ ~ ConSat(p, s, c)
=============================================================================
