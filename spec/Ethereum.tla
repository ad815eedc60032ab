------------------------------ MODULE Ethereum -------------------------------
(***************************************************************************)
(* What the generated contract must decide.  p are the eight integers and  *)
(* x the inputs handed to it, d the same coordinates grouped as points     *)
(* when all are below q, key the discrete logarithms of the key's points   *)
(* and e those of the proof's when they are group elements.                *)
(***************************************************************************)
EXTENDS PairingGroups
BN == Engine.bn
InRange(p, x) == /\ \A i \in 1..8 : FLt(p[i], BN.q)
                 /\ \A i \in 1..Len(x) : FLt(x[i], BN.r)
ProofPts(d) == <<OfData(1, d[1]), OfData(2, d[2]), OfData(1, d[3])>>
GroupElements(P) == /\ P[1] = <<>> \/ OnSW(BN, 1, P[1])    \* the first group is the whole curve
                    /\ P[3] = <<>> \/ OnSW(BN, 1, P[3])
                    /\ InGroup(BN, 2, P[2])
\* e(A, B) = e(alpha, beta) e(acc, gamma) e(C, delta)
Equation(k, e, x) ==
  LET r == BN.r
      v == <<F1>> \o x
      acc == FoldLeft(LAMBDA s, i : FAdd(r, s, FMul(r, v[i], k.ic[i])), F0, [i \in 1..Len(v) |-> i])
  IN FMul(r, e[1], e[2]) = FAdd(r, FAdd(r, FMul(r, k.alpha, k.beta), FMul(r, acc, k.gamma)), FMul(r, e[3], k.delta))
\* the outcomes the property allows
Allowed(k, p, d, x, e) ==
  IF Len(x) + 1 # Len(k.ic) \/ ~ InRange(p, x) THEN {"revert"}
  ELSE IF Len(e) = 3 THEN {IF Equation(k, e, x) THEN "true" ELSE "false"}
  ELSE IF GroupElements(ProofPts(d)) THEN {"unclear"} ELSE {"false", "revert"}
=============================================================================
