--------------------------------- MODULE C11 ---------------------------------
(* Native signatures.                                                      *)
EXTENDS TraceBase, CurveParams, EdDSA
Params == ndJsonDeserialize(IOEnv.PARAMS)

\* does a subgroup point with abscissa x exist?  y is a witness: its ordinate, or a root of Y2
Y2(C, x) == LET x2 == FMul(C.p, x, x)
            IN FDiv(C.p, FAdd(C.p, F1, x2), FSub(C.p, F1, FMul(C.p, C.d, x2)))
Decomp(C, x, y) ==
  IF ~ FIsSquare(C.p, Y2(C, x)) THEN <<"none">>
  ELSE IF FMul(C.p, y, y) # Y2(C, x) THEN Assert(FALSE, "bad witness")
  ELSE IF EdMul(C, <<x, y>>, C.q) = EdZero THEN <<x, y>>
  ELSE IF EdMul(C, <<x, FNeg(C.p, y)>>, C.q) = EdZero THEN <<x, FNeg(C.p, y)>>
  ELSE <<"none">>

Verify(C, prm, g, s, r, yr, a, ya, m) ==
  LET R == Decomp(C, r, yr)
      A == Decomp(C, a, ya)
  IN Len(R) = 2 /\ Len(A) = 2 /\ VerifyPts(C, Challenge(C, prm, r, a, m), g, s, R, A)

Accepts(e) ==
  LET C == CurveOf(e.c)
      prm == Params[e.k].prm
  IN
  CASE e.t = "sign" ->  \* e.a = abscissa of sk g as computed by the code, e.ok = the code verifies it
         LET rho == Nonce(C, e.sk, e.m)
             rx == EdMul(C, e.g, rho)[1]
             ax == EdMul(C, e.g, e.sk)[1]
             h == FReduce(C.q, Challenge(C, prm, rx, ax, e.m))
         IN /\ e.r = rx /\ e.a = ax
            /\ e.s = FAdd(C.q, rho, FMul(C.q, h, e.sk))
            /\ e.ok
            /\ e.again
    [] e.t = "verify" -> e.k2 = "ok" /\ e.v = Verify(C, prm, e.g, e.s, e.r, e.yr, e.a, e.ya, e.m)
    [] e.t = "vrow" -> \* tiny: all responses s
         LET R == Decomp(C, e.r, e.yr)
             A == Decomp(C, e.a, e.ya)
             h == Challenge(C, prm, e.r, e.a, e.m)
         IN /\ Len(e.v) = C.q
            /\ \A s \in 0..(C.q - 1) : e.v[s+1] = (Len(R) = 2 /\ Len(A) = 2 /\ VerifyPts(C, h, e.g, s, R, A))
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
