--------------------------------- MODULE C06 ---------------------------------
(* Point decompression, selection by y, map-to-curve and random points.    *)
EXTENDS TraceBase, CurveParams

None == <<"none">>
\* the subgroup point with abscissa x, if any, is unique: r is right iff it is one, or none exists.
\* y^2 = (1 + x^2) / (1 - d x^2); of the two points (x, y), (x, -y) = (x, y) + (0, -1) at most one has odd order.
Y2(C, x) == LET x2 == FMul(C.p, x, x)
            IN FDiv(C.p, FAdd(C.p, F1, x2), FSub(C.p, F1, FMul(C.p, C.d, x2)))
X2(C, y) == LET y2 == FMul(C.p, y, y)
            IN FDiv(C.p, FSub(C.p, y2, F1), FAdd(C.p, FMul(C.p, C.d, y2), F1))

\* y0: some root of Y2 supplied by the trace as a witness, <<>>-tagged [k |-> "none"] if it has none
DecompOK(C, x, w, r) ==
  IF ~ FIsSquare(C.p, Y2(C, x)) THEN r = None
  ELSE /\ FMul(C.p, w, w) = Y2(C, x)
       /\ LET P == <<x, w>>
              Q == <<x, FNeg(C.p, w)>>
          IN IF EdMul(C, P, C.q) = EdZero THEN r = P
             ELSE IF EdMul(C, Q, C.q) = EdZero THEN r = Q
             ELSE r = None
ForYOK(C, y, sign, r) ==
  IF ~ FIsSquare(C.p, X2(C, y)) THEN r = None
  ELSE /\ r # None /\ r[2] = y /\ OnCurve(C, r)
       /\ (r[1] = F0 \/ FIsOdd(r[1]) = sign)
\* m: the Montgomery ordinate, a witness; the result does not depend on how it was found
MapOK(C, t, m, r) ==
  LET x == MapX(C, t)
  IN /\ FMul(C.p, m, m) = MontRHS(C, x) /\ ~ FIsOdd(m) /\ FIsElem(C.p, m)
     /\ r = EdCofactor(C, EdOf(C, <<x, m>>))
     /\ InSubgroup(C, r)

Accepts(e) ==
  LET C == CurveOf(e.c) IN
  CASE e.t = "dec" -> DecompOK(C, e.x, e.w, e.r)
    [] e.t = "fory" -> ForYOK(C, e.y, e.s, e.r)
    [] e.t = "map" -> MapOK(C, e.x, e.w, e.r) /\ e.raw = e.r
    [] e.t = "rand" -> OnCurve(C, e.r)
    [] e.t = "panic" -> FALSE
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
