--------------------------------- MODULE C05 ---------------------------------
(* Native point operations against the affine group law of Curve.tla.      *)
EXTENDS TraceBase, CurveParams

\* an extended result denotes the affine point P
Denotes(C, e, P) == ExOK(C, e) /\ ExAffine(C, e) = P
BoolRow(r, n, S(_)) == Len(r) = n /\ \A i \in 1..n : r[i] = S(i)

Accepts(e) ==
  LET C == CurveOf(e.c)
      p == C.p
  IN
  CASE e.t = "add" -> \* operands and result in extended coordinates
         Denotes(C, e.r, EdAdd(C, ExAffine(C, e.a), ExAffine(C, e.b)))
    [] e.t = "addrow" ->
         LET A == ExAffine(C, e.a)
         IN Len(e.r) = Len(e.b) /\ \A i \in 1..Len(e.b) : Denotes(C, e.r[i], EdAdd(C, A, ExAffine(C, e.b[i])))
    [] e.t = "eqrow" ->
         LET A == ExAffine(C, e.a)
         IN Len(e.r) = Len(e.b) /\ \A i \in 1..Len(e.b) : e.r[i] = (A = ExAffine(C, e.b[i]))
    [] e.t = "affadd" -> e.r = EdAdd(C, e.a, e.b)
    [] e.t = "un" -> \* double, negate, cofactor, zero test, memberships, conversions of one on-curve point
         LET A == ExAffine(C, e.a)
             M == MontOf(C, A)
         IN /\ Denotes(C, e.dbl, EdDouble(C, A))
            /\ Denotes(C, e.neg, EdNeg(C, A))
            /\ Denotes(C, e.cof, EdCofactor(C, A))
            /\ e.aff = A /\ e.affdbl = EdDouble(C, A) /\ e.affcof = EdCofactor(C, A)
            /\ Denotes(C, e.ext, A) /\ e.ext[4] = F1
            /\ e.iszero = (A = EdZero) /\ e.affzero = (A = EdZero)
            /\ e.oncurve /\ e.affoncurve
            /\ e.sub = (EdMul(C, A, C.q) = EdZero)
            /\ e.mont = M /\ e.exmont = M
            \* the way back
            /\ M # <<"none">> => /\ OnMont(C, M)
                                 /\ e.back = A /\ Denotes(C, e.backex, A)
    [] e.t = "mul" -> Denotes(C, e.r, EdMul(C, ExAffine(C, e.a), e.s)) /\ e.raff = EdMul(C, ExAffine(C, e.a), e.s)
    [] e.t = "mulrow" -> \* all scalars 0..q-1
         LET A == ExAffine(C, e.a)
         IN /\ Len(e.r) = C.q
            /\ \A k \in 1..Len(e.r) : Denotes(C, e.r[k], EdMul(C, A, k - 1))
            /\ \A k \in 1..Len(e.raff) : e.raff[k] = EdMul(C, A, k - 1)
    [] e.t = "curve" -> \* membership of arbitrary affine pairs (x fixed, all y)
         BoolRow(e.r, p, LAMBDA i : OnCurve(C, <<e.x, i - 1>>))
    [] e.t = "curvex" -> \* membership of arbitrary quadruples (x, y, t fixed, all z)
         BoolRow(e.r, p, LAMBDA i : /\ ExOK(C, <<e.x, e.y, e.tt, i - 1>>)
                                    /\ OnCurve(C, ExAffine(C, <<e.x, e.y, e.tt, i - 1>>)))
    [] e.t = "curve1" -> e.r = OnCurve(C, e.a)
    [] e.t = "curvex1" -> e.r = (ExOK(C, e.a) /\ OnCurve(C, ExAffine(C, e.a)))
    [] e.t = "eq1" -> e.r = (ExAffine(C, e.a) = ExAffine(C, e.b))
    [] e.t = "zero" -> Denotes(C, e.ex, EdZero) /\ e.aff = EdZero
    [] e.t = "panic" -> FALSE

Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
