--------------------------------- MODULE C02 ---------------------------------
(* Conversions of field numbers.  An integer is [neg, mag]; the magnitude  *)
(* is given by big-endian digits in base 256 (or 10), of any length.       *)
EXTENDS TraceBase, Seed

\* the integer with the given sign and digits, in the field
IntMod(p, neg, ds, r) == LET m == FOfDigitsBEMod(p, ds, r) IN IF neg THEN FNeg(p, m) ELSE m

\* canonical digits of a number (no superfluous leading zero) denote it
RECURSIVE NotLonger(_, _)
CanonDec(p, a, ds) == /\ Len(ds) >= 1 /\ \A i \in 1..Len(ds) : ds[i] \in 0..9
                      /\ (Len(ds) = 1 \/ ds[1] # 0)
                      /\ Rev(FToDigitsLE(a, 10, Len(ds))) = ds
                      /\ FToDigitsLE(a, 10, Len(ds) + 1)[Len(ds) + 1] = 0
NotLonger(a, n) == FBitLen(a) <= n
BytesOf(a, bs) == \* big-endian bytes of any sufficient width denote a
  /\ 8 * Len(bs) >= FBitLen(a) /\ Rev(FToDigitsLE(a, 256, Len(bs))) = bs
BitsLE(p, a, bs) == /\ Len(bs) >= FBitLen(p)
                    /\ \A i \in 1..Len(bs) : bs[i] = (IF i - 1 < FBitLen(a) THEN FBit(a, i - 1) ELSE 0)

Accepts(e) ==
  CASE e.t = "from" ->  \* integer, decimal string or byte string to number
         e.r.k = "ok" /\ e.r.v = IntMod(FPrime(e.p), e.neg, e.ds, e.base)
    [] e.t = "text" ->  \* any text: a decimal number or refused (superfluous zeros may be refused)
         IF Len(e.ds) > 0 /\ \A i \in 1..Len(e.ds) : e.ds[i] \in 0..9
         THEN e.r.k = "panic" \/ e.r.v = IntMod(FPrime(e.p), FALSE, e.ds, 10)
         ELSE e.r.k = "panic"
    [] e.t = "other" -> \* number of field p to field q
         e.r.k = "ok" /\ e.r.v = FReduce(FPrime(e.q), e.a)
    [] e.t = "dec" -> e.r.k = "ok" /\ CanonDec(FPrime(e.p), e.a, e.r.v)
    [] e.t = "bigint" -> e.r.k = "ok" /\ BytesOf(e.a, e.r.v)
    [] e.t = "bytes" -> e.r.k = "ok" /\ e.r.v = BytesBE(FPrime(e.p), e.a)
    [] e.t = "u64" -> IF NotLonger(e.a, 64) THEN e.r.k = "ok" /\ BytesOf(e.a, e.r.v) ELSE e.r.k = "panic"
    [] e.t = "bool" -> IF e.a = F0 THEN e.r.k = "ok" /\ e.r.v = FALSE
                       ELSE IF e.a = F1 THEN e.r.k = "ok" /\ e.r.v = TRUE ELSE e.r.k = "panic"
    [] e.t = "le" -> e.r.k = "ok" /\ BitsLE(FPrime(e.p), e.a, e.r.v)
    [] e.t = "be" -> e.r.k = "ok" /\ BitsLE(FPrime(e.p), e.a, Rev(e.r.v))
    [] e.t = "seed" -> e.r.k = "ok" /\ e.r.v = FromSeed(FPrime(e.p), e.s)
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
