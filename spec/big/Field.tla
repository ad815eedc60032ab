-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Arithmetic modulo a prime, first argument p; elements are BigNat        *)
(* numbers below p.  Same interface as small/Field.tla.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigNat

\* The moduli of the fields by name (decimal values in DESIGN.md); FPrime(f) is the prime of field f.
FPrimes == [
  bn_fr |-> <<1, 24576, 22095, 7951, 2324, 14126, 4638, 6644, 23848, 688, 23046, 557, 7045, 13317, 14412, 10041, 12388>>,
  bn_fq |-> <<32071, 12537, 12379, 24836, 10451, 3641, 9306, 16565, 23959, 688, 23046, 557, 7045, 13317, 14412, 10041, 12388>>,
  bn_fs |-> <<9969, 29250, 24432, 15252, 24742, 9245, 28174, 8054, 2987, 24662, 23360, 20549, 21360, 18048, 5897, 17639, 1548>>,
  bls_fr |-> <<1, 0, 32764, 32767, 16367, 32715, 191, 24274, 1363, 17328, 8230, 20160, 819, 12201, 19047, 21417, 29677>>,
  bls_fq |-> <<10923, 32767, 32767, 20471, 32763, 10879, 32684, 22015, 9246, 25068, 986, 1685, 30323, 8791, 15585, 9666, 25719, 22958, 3374, 15794, 12730, 21321, 24569, 29980, 273, 52>>,
  bls_fs |-> <<11447, 11758, 14715, 1208, 2093, 6402, 9459, 13328, 166, 26742, 1028, 14808, 4198, 30197, 6476, 23157, 3709>>,
  m127 |-> <<32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 127>>]
FPrime(f) == FPrimes[f]
F0 == <<>>
F1 == <<1>>
FN(n) == BOfNat(n)
FReduce(p, n) == BMod(n, p)
FAdd(p, a, b) == BAddMod(p, a, b)
FSub(p, a, b) == BSubMod(p, a, b)
FMul(p, a, b) == BMulMod(p, a, b)
FNeg(p, a)    == BSubMod(p, <<>>, a)
FPowN(p, a, n) == BPowMod(p, a, n)
FInv(p, a) == BInvMod(p, a)
FDiv(p, a, b) == BMulMod(p, a, BInvMod(p, b))
FLt(a, b) == BCmp(a, b) < 0
FIsOdd(a) == a # <<>> /\ a[1] % 2 = 1
FIsElem(p, a) == IsBig(a) /\ BCmp(a, p) < 0
FIsSquare(p, a) == a = <<>> \/ BPowMod(p, a, BDiv(BSub(p, <<1>>), <<2>>)) = <<1>>
FBit(a, i) == BitOf(a, i)
FBitLen(a) == BBitLen(a)
FToDigitsLE(a, r, n) == BToDigitsLE(a, r, n)
FOfDigitsBEMod(p, ds, r) == BMod(BOfDigitsBE(ds, r), p)
\* a square root of a nonzero square, by Tonelli and Shanks: p - 1 = 2^s t
RECURSIVE FOdd(_, _)
FOdd(n, s) == IF FIsOdd(n) THEN <<n, s>> ELSE FOdd(BDiv(n, <<2>>), s + 1)
RECURSIVE FNonRes(_, _)
FNonRes(p, n) == IF FIsSquare(p, BOfNat(n)) THEN FNonRes(p, n + 1) ELSE BOfNat(n)
RECURSIVE FOrd2(_, _, _)
FOrd2(p, b, k) == IF b = <<1>> THEN k ELSE FOrd2(p, FMul(p, b, b), k + 1)
RECURSIVE FSq(_, _, _)
FSq(p, c, k) == IF k = 0 THEN c ELSE FSq(p, FMul(p, c, c), k - 1)
RECURSIVE FTonelli(_, _, _, _, _)
FTonelli(p, x, b, c, m) ==   \* x^2 = a b, b has order 2^k with k < m, c has order 2^m
  IF b = <<1>> THEN x
  ELSE LET k == FOrd2(p, b, 0)
           g == FSq(p, c, m - k - 1)
           g2 == FMul(p, g, g)
       IN FTonelli(p, FMul(p, x, g), FMul(p, b, g2), g2, k)
FSqrt(p, a) ==
  IF a = <<>> THEN <<>>
  ELSE LET o == FOdd(BSub(p, <<1>>), 0)
           t == o[1]
           c == FPowN(p, FNonRes(p, 2), t)
           x == FPowN(p, a, BDiv(BAdd(t, <<1>>), <<2>>))
       IN FTonelli(p, x, FPowN(p, a, t), c, o[2])
=============================================================================
