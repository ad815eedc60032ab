--------------------------------- MODULE C07 ---------------------------------
(* The built-in parameter sets, recomputed from their definition.          *)
EXTENDS TraceBase, CurveParams, Seed

SeedG == <<101, 100, 119, 97, 114, 100, 115, 95, 103>>      \* "edwards_g"

\* probable primality to several bases (the moduli are public constants)
Fermat(n) == \A b \in {2, 3, 5, 7, 11, 13, 17, 19, 23} : BPowMod(n, FN(b), BSub(n, F1)) = F1
Sq(a) == BMul(a, a)
\* |8q - (p + 1)| <= 2 sqrt(p)
Hasse(p, q) == LET n == BMul(FN(8), q)
                   m == BAdd(p, F1)
                   dd == IF FLt(n, m) THEN BSub(m, n) ELSE BSub(n, m)
               IN BCmp(Sq(dd), BMul(FN(4), p)) <= 0

ParamsOK(e) ==
  LET C == CurveOf(e.c)
      p == C.p
  IN /\ e.p = C.p /\ e.q = C.q
     /\ Fermat(p) /\ Fermat(C.q) /\ Hasse(p, C.q)
     /\ e.d = C.d /\ e.a = MontA(C) /\ e.b = MontB(C)
     \* completeness: -1 is a square, d is not
     /\ ~ FIsSquare(p, e.d) /\ FIsSquare(p, FNeg(p, F1))
     /\ ~ FIsSquare(p, e.u) /\ e.u = C.u
     \* the base point: map of the seed number, of order exactly q
     /\ e.seed = FromSeed(p, SeedG)
     /\ LET x == MapX(C, e.seed)
        IN FMul(p, e.m, e.m) = MontRHS(C, x) /\ ~ FIsOdd(e.m) /\ e.g = EdCofactor(C, EdOf(C, <<x, e.m>>))
     /\ OnCurve(C, e.g) /\ e.g # EdZero /\ EdMul(C, e.g, C.q) = EdZero

Accepts(e) == CASE e.t = "params" -> ParamsOK(e)
                [] e.t = "mul" -> e.r = EdMul(CurveOf(e.c), e.g, e.s)
                [] e.t = "panic" -> FALSE
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
