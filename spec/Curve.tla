-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* The complete twisted Edwards curve  -x^2 + y^2 = 1 + d x^2 y^2  over    *)
(* GF(p) of order 8q, its affine group law, and its Montgomery form        *)
(* B v^2 = u^3 + A u^2 + u.  A curve C is a record                         *)
(*   [p prime, d coefficient, q order of the subgroup, u non-residue,      *)
(*    g base point];   points are pairs <<x, y>>.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Field

\* n - 1, ..., 1, 0
DownTo(n) == [i \in 1..n |-> n - i]

EdZero == <<F0, F1>>
OnCurve(C, P) == LET x2 == FMul(C.p, P[1], P[1])
                     y2 == FMul(C.p, P[2], P[2])
                 IN FSub(C.p, y2, x2) = FAdd(C.p, F1, FMul(C.p, C.d, FMul(C.p, x2, y2)))
EdNeg(C, P) == <<FNeg(C.p, P[1]), P[2]>>
EdAdd(C, P, Q) ==
  LET p == C.p
      a == FMul(p, P[1], Q[2])
      b == FMul(p, Q[1], P[2])
      c == FMul(p, P[1], Q[1])
      e == FMul(p, P[2], Q[2])
      t == FMul(p, C.d, FMul(p, c, e))
  IN << FDiv(p, FAdd(p, a, b), FAdd(p, F1, t)), FDiv(p, FAdd(p, c, e), FSub(p, F1, t)) >>
EdDouble(C, P) == EdAdd(C, P, P)
EdCofactor(C, P) == EdDouble(C, EdDouble(C, EdDouble(C, P)))
\* n P for a number n of the element type
EdMul(C, P, n) ==
  LET step(acc, i) == LET dd == EdDouble(C, acc) IN TLCEval(IF FBit(n, i) = 1 THEN EdAdd(C, dd, P) ELSE dd)
  IN FoldLeft(step, EdZero, DownTo(FBitLen(n)))
InSubgroup(C, P) == OnCurve(C, P) /\ EdMul(C, P, C.q) = EdZero

\* extended coordinates <<X, Y, T, Z>> with x = X/Z, y = Y/Z, T Z = X Y
ExOK(C, e) == e[4] # F0 /\ FMul(C.p, e[4], e[3]) = FMul(C.p, e[1], e[2])
ExAffine(C, e) == <<FDiv(C.p, e[1], e[4]), FDiv(C.p, e[2], e[4])>>

\* Montgomery form
MontA(C) == FDiv(C.p, FMul(C.p, FN(2), FSub(C.p, F1, C.d)), FAdd(C.p, F1, C.d))
MontB(C) == FDiv(C.p, FNeg(C.p, FN(4)), FAdd(C.p, F1, C.d))
OnMont(C, m) == LET p == C.p
                    x2 == FMul(p, m[1], m[1])
                IN FMul(p, MontB(C), FMul(p, m[2], m[2]))
                   = FAdd(p, FMul(p, x2, FAdd(p, m[1], MontA(C))), m[1])
\* the birational map, extended to the points of order at most two
MontOf(C, P) == IF P = EdZero THEN <<"none">>
                ELSE IF P[1] = F0 THEN <<F0, F0>>
                ELSE LET x == FDiv(C.p, FAdd(C.p, F1, P[2]), FSub(C.p, F1, P[2]))
                     IN <<x, FDiv(C.p, x, P[1])>>
EdOf(C, m) == IF m[1] = F0 THEN <<F0, FNeg(C.p, F1)>>
              ELSE <<FDiv(C.p, m[1], m[2]), FDiv(C.p, FSub(C.p, m[1], F1), FAdd(C.p, m[1], F1))>>
MontRHS(C, x) == LET p == C.p
                 IN FDiv(p, FAdd(p, FMul(p, FMul(p, x, x), FAdd(p, x, MontA(C))), x), MontB(C))

\* what map-to-curve must return for t # -1, given the square root r it uses:
\* with w = u (t+1)^2 and X2 = -(1/A)(1 + 1/w), X3 = w X2: the first abscissa whose right-hand side is a
\* square, the even root as ordinate, times the cofactor
MapX(C, t) ==
  LET p == C.p
      s == FAdd(p, t, F1)
      w == FMul(p, C.u, FMul(p, s, s))
      x2 == FMul(p, FNeg(p, FInv(p, MontA(C))), FAdd(p, F1, FInv(p, w)))
  IN IF FIsSquare(p, MontRHS(C, x2)) THEN x2 ELSE FMul(p, w, x2)
FEven(p, r) == IF FIsOdd(r) THEN FNeg(p, r) ELSE r
MapPoint(C, t) == LET x == MapX(C, t) IN EdCofactor(C, EdOf(C, <<x, FEven(C.p, FSqrt(C.p, MontRHS(C, x)))>>))
\* the ordinates of the points with abscissa x are the square roots of
Y2Of(C, x) == LET x2 == FMul(C.p, x, x)
              IN FDiv(C.p, FAdd(C.p, F1, x2), FSub(C.p, F1, FMul(C.p, C.d, x2)))
\* the subgroup point with abscissa x, or <<"none">>
Decompress(C, x) ==
  IF ~ FIsSquare(C.p, Y2Of(C, x)) THEN <<"none">>
  ELSE LET y == FSqrt(C.p, Y2Of(C, x))
       IN IF EdMul(C, <<x, y>>, C.q) = EdZero THEN <<x, y>>
          ELSE IF EdMul(C, <<x, FNeg(C.p, y)>>, C.q) = EdZero THEN <<x, FNeg(C.p, y)>>
          ELSE <<"none">>
\* n P for little-endian bits of n
EdMulBits(C, P, bs) ==
  LET step(acc, i) == LET dd == EdDouble(C, acc) IN TLCEval(IF bs[i + 1] = F1 THEN EdAdd(C, dd, P) ELSE dd)
  IN FoldLeft(step, EdZero, DownTo(Len(bs)))
=============================================================================
