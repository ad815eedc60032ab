--------------------------------- MODULE Draw ---------------------------------
(* How a prime field draws a random element: the words make 64-bit limbs,  *)
(* least significant first, each from two words, high first; the limbs are *)
(* the Montgomery form v 2^(64 limbs), bits above the prime's width are    *)
(* cleared, and values not below the prime are skipped.                    *)
EXTENDS Seedbox, Field
Limbs(p) == (FBitLen(p) + 63) \div 64
RECURSIVE LimbBytesBE(_, _)
LimbBytesBE(w, i) ==  \* most significant limb first
  IF i = 0 THEN <<>>
  ELSE LET b == U64BytesLE(w[2*i - 1], w[2*i])
       IN [k \in 1..8 |-> b[9 - k]] \o LimbBytesBE(w, i - 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE BMul(<<2>>, Pow2(n - 1))
RECURSIVE Draw(_, _, _)
Draw(p, tail, pos) ==
  LET n == Limbs(p)
      w == Words(tail, pos, 2 * n)
      raw == BMod(BOfDigitsBE(LimbBytesBE(w, n), 256), Pow2(FBitLen(p)))
  IN IF FLt(raw, p) THEN <<FDiv(p, raw, BMod(Pow2(64 * n), p)), pos + 2 * n>>
     ELSE Draw(p, tail, pos + 2 * n)
=============================================================================
