------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian sequences of base-2^15     *)
(* digits without a leading (most significant) zero digit; zero is <<>>.   *)
(* TLC's integers are 32 bit, and the product of two digits plus two       *)
(* carries fits.                                                           *)
(*                                                                         *)
(* The operators named B...Def are the definitions.  The operators without *)
(* "Def" are equal to them by definition; TLC evaluates those with the     *)
(* Java override verif.BigNatOverrides (java.math.BigInteger) for speed,   *)
(* and BigNatCheck.tla has TLC compare both on many operands.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 32768

IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(Base-1)
            /\ (Len(a) > 0 => a[Len(a)] # 0)

\* drop most significant zero digits
RECURSIVE BTrim(_)
BTrim(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE BOfNatDef(_)
BOfNatDef(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BOfNatDef(n \div Base)

Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BAddC(_, _, _, _)
BAddC(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c IN <<s % Base>> \o BAddC(a, b, i+1, s \div Base)
BAddDef(a, b) == BAddC(a, b, 1, 0)

\* comparison: -1, 0, 1
RECURSIVE BCmpAt(_, _, _)
BCmpAt(a, b, i) == IF i = 0 THEN 0
                   ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE BCmpAt(a, b, i-1)
BCmpDef(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE BCmpAt(a, b, Len(a))

\* a - b for a >= b
RECURSIVE BSubC(_, _, _, _)
BSubC(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dig(b, i) - c
       IN IF s < 0 THEN <<s + Base>> \o BSubC(a, b, i+1, 1) ELSE <<s>> \o BSubC(a, b, i+1, 0)
BSubDef(a, b) == BTrim(BSubC(a, b, 1, 0))

\* a * digit d
RECURSIVE BMulD(_, _, _, _)
BMulD(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[i] * d + c IN <<s % Base>> \o BMulD(a, d, i+1, s \div Base)

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) == IF i > Len(b) THEN <<>>
                     ELSE BAddDef(BTrim(BMulD(a, b[i], 1, 0)),
                                  LET r == BMulFrom(a, b, i+1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
BMulDef(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE BTrim(BMulFrom(a, b, 1))

\* long division by bits: returns <<quotient, remainder>>
BDouble(a) == BAddDef(a, a)
BitOf(a, i) == \* bit i (0-based) of a
  LET d == i \div 15  s == i % 15
  IN IF d + 1 > Len(a) THEN 0 ELSE (a[d+1] \div (2^s)) % 2
RECURSIVE BLen15(_)
BLen15(d) == IF d = 0 THEN 0 ELSE 1 + BLen15(d \div 2)
BBitLenDef(a) == IF a = <<>> THEN 0 ELSE 15*(Len(a)-1) + BLen15(a[Len(a)])

RECURSIVE BDivBits(_, _, _, _, _)
BDivBits(a, m, i, q, r) ==
  IF i < 0 THEN <<q, r>>
  ELSE LET r2 == IF BitOf(a, i) = 1 THEN BAddDef(BDouble(r), <<1>>) ELSE BDouble(r)
           ge == BCmpDef(r2, m) >= 0
       IN BDivBits(a, m, i-1,
                   IF ge THEN BAddDef(BDouble(q), <<1>>) ELSE BDouble(q),
                   IF ge THEN BSubDef(r2, m) ELSE r2)
BModDef(a, m) == BDivBits(a, m, BBitLenDef(a)-1, <<>>, <<>>)[2]
BDivDef(a, m) == BDivBits(a, m, BBitLenDef(a)-1, <<>>, <<>>)[1]

BMulModDef(m, a, b) == BModDef(BMulDef(a, b), m)
BAddModDef(m, a, b) == BModDef(BAddDef(a, b), m)
BSubModDef(m, a, b) == BModDef(BAddDef(BModDef(a, m), BSubDef(m, BModDef(b, m))), m)

RECURSIVE BPowBits(_, _, _, _, _)
BPowBits(m, a, e, i, acc) ==
  IF i < 0 THEN acc
  ELSE LET s == BMulModDef(m, acc, acc)
       IN BPowBits(m, a, e, i-1, IF BitOf(e, i) = 1 THEN BMulModDef(m, s, a) ELSE s)
BPowModDef(m, a, e) == BPowBits(m, a, e, BBitLenDef(e)-1, BModDef(<<1>>, m))
\* m prime, a # 0 mod m : Fermat inverse
BInvModDef(m, a) == BPowModDef(m, a, BSubDef(m, <<2>>))

\* big-endian base-r digits (r <= 2^15) -> number, and bytes of a fixed width (little endian)
RECURSIVE BHorner(_, _, _, _)
BHorner(ds, r, i, acc) == IF i > Len(ds) THEN acc
                          ELSE BHorner(ds, r, i+1, BTrim(BAddDef(BMulD(acc, r, 1, 0), BOfNatDef(ds[i]))))
BOfDigitsBEDef(ds, r) == BHorner(ds, r, 1, <<>>)
RECURSIVE BDigitsLE(_, _, _)
BDigitsLE(a, r, n) == IF n = 0 THEN <<>>
   ELSE LET qr == BDivBits(a, BOfNatDef(r), BBitLenDef(a)-1, <<>>, <<>>)
        IN <<IF qr[2] = <<>> THEN 0 ELSE qr[2][1]>> \o BDigitsLE(qr[1], r, n-1)
BToDigitsLEDef(a, r, n) == BDigitsLE(a, r, n)

-----------------------------------------------------------------------------
\* The operators used by the other modules (overridden in Java).
BOfNat(n)         == BOfNatDef(n)
BAdd(a, b)        == BAddDef(a, b)
BSub(a, b)        == BSubDef(a, b)
BMul(a, b)        == BMulDef(a, b)
BMod(a, m)        == BModDef(a, m)
BDiv(a, m)        == BDivDef(a, m)
BCmp(a, b)        == BCmpDef(a, b)
BAddMod(m, a, b)  == BAddModDef(m, a, b)
BSubMod(m, a, b)  == BSubModDef(m, a, b)
BMulMod(m, a, b)  == BMulModDef(m, a, b)
BPowMod(m, a, e)  == BPowModDef(m, a, e)
BInvMod(m, a)     == BInvModDef(m, a)
BBitLen(a)        == BBitLenDef(a)
BOfDigitsBE(ds,r) == BOfDigitsBEDef(ds, r)
BToDigitsLE(a,r,n)== BToDigitsLEDef(a, r, n)
=============================================================================
