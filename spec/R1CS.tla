-------------------------------- MODULE R1CS --------------------------------
(***************************************************************************)
(* Rank-1 constraint systems as recorded from the implementation.  A       *)
(* linear combination is a sequence of pairs <<variable, index of the      *)
(* coefficient in tab>>, variable 0 being the constant one; a constraint   *)
(* is <<A, B, C>>, asking A * B = C.  An assignment is a function from     *)
(* variables to elements.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Field

\* the value of a linear combination of circuit C
LCEval(C, lc, asg) ==
  LET p == FPrime(C.p)
      tab == C.tab
      add(acc, t) == FAdd(p, acc, IF t[1] = 0 THEN tab[t[2]] ELSE FMul(p, tab[t[2]], asg[t[1]]))
  IN FoldLeft(add, F0, lc)

\* A * B - C
Residual(C, con, asg) == FSub(FPrime(C.p), FMul(FPrime(C.p), LCEval(C, con[1], asg), LCEval(C, con[2], asg)),
                                           LCEval(C, con[3], asg))
Satisfied(C, con, asg) == Residual(C, con, asg) = F0

LCVars(lc) == {lc[i][1] : i \in 1..Len(lc)} \ {0}
ConVars(con) == LCVars(con[1]) \cup LCVars(con[2]) \cup LCVars(con[3])
\* con is an affine function of variable v when v occurs in at most one factor
AffineIn(con, v) == ~ (v \in LCVars(con[1]) /\ v \in LCVars(con[2]))
=============================================================================
