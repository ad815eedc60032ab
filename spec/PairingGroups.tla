---------------------------- MODULE PairingGroups ----------------------------
(***************************************************************************)
(* The two source groups of the pairing engines and the encodings of their *)
(* elements.  G1 is y^2 = x^3 + b over GF(q), G2 is y^2 = x^3 + b2 over    *)
(* GF(q)[u] / (u^2 + 1); both restricted to the subgroup of order r.       *)
(* An element of GF(q^2) is <<re, im>>; a point is <<x, y>> or <<>> for    *)
(* the point at infinity.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Codec, BigNat

\* GF(q^2)
Z2 == <<F0, F0>>
A2(q, a, b) == <<FAdd(q, a[1], b[1]), FAdd(q, a[2], b[2])>>
S2(q, a, b) == <<FSub(q, a[1], b[1]), FSub(q, a[2], b[2])>>
M2(q, a, b) == <<FSub(q, FMul(q, a[1], b[1]), FMul(q, a[2], b[2])),
                 FAdd(q, FMul(q, a[1], b[2]), FMul(q, a[2], b[1]))>>
I2(q, a) == LET n == FInv(q, FAdd(q, FMul(q, a[1], a[1]), FMul(q, a[2], a[2])))
            IN <<FMul(q, a[1], n), FMul(q, FNeg(q, a[2]), n)>>
IsSquare2(q, a) == FIsSquare(q, FAdd(q, FMul(q, a[1], a[1]), FMul(q, a[2], a[2])))
\* a square root of a square
Sqrt2(q, a) ==
  LET half == FInv(q, FN(2))
      s == FSqrt(q, FAdd(q, FMul(q, a[1], a[1]), FMul(q, a[2], a[2])))
      t1 == FMul(q, FAdd(q, a[1], s), half)
      t == IF FIsSquare(q, t1) THEN t1 ELSE FMul(q, FSub(q, a[1], s), half)
      x == FSqrt(q, t)
  IN IF x = F0 THEN <<F0, FSqrt(q, FNeg(q, a[1]))>>
     ELSE <<x, FMul(q, a[2], FMul(q, half, FInv(q, x)))>>

Engine == [
  bn  |-> [fq |-> "bn_fq", q |-> FPrime("bn_fq"), r |-> FPrime("bn_fr"), b |-> FN(3),
           \* 3 / (9 + u)
           b2 |-> M2(FPrime("bn_fq"), <<FN(3), F0>>, I2(FPrime("bn_fq"), <<FN(9), F1>>)), w |-> 32],
  bls |-> [fq |-> "bls_fq", q |-> FPrime("bls_fq"), r |-> FPrime("bls_fr"), b |-> FN(4),
           \* 4 (1 + u)
           b2 |-> <<FN(4), FN(4)>>, w |-> 48]]

\* One curve of each engine as field operations, so that G1 and G2 share the group law
Add(E, g, a, b) == IF g = 1 THEN FAdd(E.q, a, b) ELSE A2(E.q, a, b)
Sub(E, g, a, b) == IF g = 1 THEN FSub(E.q, a, b) ELSE S2(E.q, a, b)
Mul(E, g, a, b) == IF g = 1 THEN FMul(E.q, a, b) ELSE M2(E.q, a, b)
Zero(g) == IF g = 1 THEN F0 ELSE Z2
One(g) == IF g = 1 THEN F1 ELSE <<F1, F0>>
Coef(E, g) == IF g = 1 THEN E.b ELSE E.b2
Neg(E, g, a) == Sub(E, g, Zero(g), a)

RHS(E, g, x) == Add(E, g, Mul(E, g, x, Mul(E, g, x, x)), Coef(E, g))
OnSW(E, g, P) == Mul(E, g, P[2], P[2]) = RHS(E, g, P[1])
\* Jacobian coordinates <<X, Y, Z>>, Z = 0 at infinity
JDouble(E, g, P) ==
  LET X == P[1]
      Y == P[2]
      yy == TLCEval(Mul(E, g, Y, Y))
      s == TLCEval(LET t == Mul(E, g, X, yy) t2 == Add(E, g, t, t) IN Add(E, g, t2, t2))
      m == TLCEval(LET t == Mul(E, g, X, X) IN Add(E, g, t, Add(E, g, t, t)))
      x == TLCEval(Sub(E, g, Mul(E, g, m, m), Add(E, g, s, s)))
      y4 == LET t == Mul(E, g, yy, yy) t2 == Add(E, g, t, t) t4 == Add(E, g, t2, t2) IN Add(E, g, t4, t4)
      z == LET t == Mul(E, g, Y, P[3]) IN Add(E, g, t, t)
  IN TLCEval(<<x, Sub(E, g, Mul(E, g, m, Sub(E, g, s, x)), y4), z>>)
\* P + Q for an affine Q
JAddAffine(E, g, P, Q) ==
  IF P[3] = Zero(g) THEN <<Q[1], Q[2], One(g)>>
  ELSE LET zz == TLCEval(Mul(E, g, P[3], P[3]))
           h == TLCEval(Sub(E, g, Mul(E, g, Q[1], zz), P[1]))
           r == TLCEval(Sub(E, g, Mul(E, g, Q[2], Mul(E, g, zz, P[3])), P[2]))
       IN IF h = Zero(g) THEN IF r = Zero(g) THEN JDouble(E, g, P) ELSE <<One(g), One(g), Zero(g)>>
          ELSE LET hh == TLCEval(Mul(E, g, h, h))
                   hhh == TLCEval(Mul(E, g, hh, h))
                   v == TLCEval(Mul(E, g, P[1], hh))
                   x == TLCEval(Sub(E, g, Sub(E, g, Mul(E, g, r, r), hhh), Add(E, g, v, v)))
               IN TLCEval(<<x, Sub(E, g, Mul(E, g, r, Sub(E, g, v, x)), Mul(E, g, P[2], hhh)), Mul(E, g, P[3], h)>>)
JMul(E, g, Q, n) ==
  LET step(acc, i) == LET d == JDouble(E, g, acc) IN IF FBit(n, i) = 1 THEN JAddAffine(E, g, d, Q) ELSE d
  IN FoldLeft(step, <<One(g), One(g), Zero(g)>>, [i \in 1..FBitLen(n) |-> FBitLen(n) - i])
InGroup(E, g, P) == P = <<>> \/ (OnSW(E, g, P) /\ JMul(E, g, P, E.r)[3] = Zero(g))

\* The data form: coordinates x, y of G1; of G2 imaginary then real part of x, then of y; infinity is all zeros
DataOf(g, P) == IF g = 1 THEN IF P = <<>> THEN <<F0, F0>> ELSE P
                ELSE IF P = <<>> THEN << <<F0, F0>>, <<F0, F0>> >>
                ELSE << <<P[1][2], P[1][1]>>, <<P[2][2], P[2][1]>> >>
OfData(g, d) == IF d = DataOf(g, <<>>) THEN <<>>
                ELSE IF g = 1 THEN d ELSE << <<d[1][2], d[1][1]>>, <<d[2][2], d[2][1]>> >>
\* The compact binary form: little-endian bytes of x, y; of G2 real before imaginary
LE(E, a) == FToDigitsLE(a, 256, E.w)
BinPt(E, g, P) == IF P = <<>> THEN [i \in 1..(2 * g * E.w) |-> 0]
                  ELSE IF g = 1 THEN LE(E, P[1]) \o LE(E, P[2])
                  ELSE LE(E, P[1][1]) \o LE(E, P[1][2]) \o LE(E, P[2][1]) \o LE(E, P[2][2])
\* The compressed form: big-endian x (imaginary part first) with flag bits in the first byte
BE(E, a) == Rev(LE(E, a))
Greater(E, g, y) == LET n == Neg(E, g, y)
                    IN IF g = 1 THEN FLt(n, y) ELSE FLt(n[2], y[2]) \/ (n[2] = y[2] /\ FLt(n[1], y[1]))
CompFlag(E, inf, gr) == IF E.w = 32 THEN (IF inf THEN 64 ELSE 0) + (IF gr THEN 128 ELSE 0)
                        ELSE 128 + (IF inf THEN 64 ELSE 0) + (IF gr THEN 32 ELSE 0)
FirstPlus(bs, n) == [bs EXCEPT ![1] = bs[1] + n]
CompPt(E, g, P) ==
  IF P = <<>> THEN FirstPlus([i \in 1..(g * E.w) |-> 0], CompFlag(E, TRUE, FALSE))
  ELSE FirstPlus(IF g = 1 THEN BE(E, P[1]) ELSE BE(E, P[1][2]) \o BE(E, P[1][1]), CompFlag(E, FALSE, Greater(E, g, P[2])))
\* the finite point a compressed string denotes, or <<"none">>
FlagBase(E) == IF E.w = 32 THEN 64 ELSE 32    \* what remains in the first byte is below this
OfBE(E, bs) == LET a == FOfDigitsBEMod(E.q, bs, 256) IN IF BE(E, a) = bs THEN <<a>> ELSE <<>>
DecompPt(E, g, bs) ==
  LET fl == (bs[1] \div FlagBase(E)) * FlagBase(E)
      raw == [bs EXCEPT ![1] = bs[1] % FlagBase(E)]
      c1 == OfBE(E, SubSeq(raw, 1, E.w))
      c0 == IF g = 1 THEN <<F0>> ELSE OfBE(E, SubSeq(raw, E.w + 1, 2 * E.w))
  IN IF fl \notin {CompFlag(E, FALSE, TRUE), CompFlag(E, FALSE, FALSE)} \/ c1 = <<>> \/ c0 = <<>> THEN <<"none">>
     ELSE LET x == IF g = 1 THEN c1[1] ELSE <<c0[1], c1[1]>>
              rhs == RHS(E, g, x)
          IN IF ~ (IF g = 1 THEN FIsSquare(E.q, rhs) ELSE IsSquare2(E.q, rhs)) THEN <<"none">>
             ELSE LET y0 == TLCEval(IF g = 1 THEN FSqrt(E.q, rhs) ELSE Sqrt2(E.q, rhs))
                      y == IF Greater(E, g, y0) = (fl = CompFlag(E, FALSE, TRUE)) THEN y0 ELSE Neg(E, g, y0)
                  IN IF InGroup(E, g, <<x, y>>) THEN <<x, y>> ELSE <<"none">>
=============================================================================
