---------------------------- MODULE BigNatCheck ----------------------------
(* TLC compares the Java overrides of BigNat with the TLA+ definitions on  *)
(* a set of operands around digit boundaries.                              *)
EXTENDS BigNat, TLC, FiniteSets
Digits == {0, 1, 2, 12345, 32766, 32767}
Ops == {BTrim(s) : s \in UNION {[1..n -> {0, 1, 32767}] : n \in 0..3}}
       \cup {BTrim(s) : s \in [1..2 -> Digits]}
Big1 == <<31081, 9131, 16386, 801, 21921, 112, 3>>
Mods == {<<13>>, <<1, 1>>, <<32749>>, <<7, 0, 1>>, <<17, 32767, 32767, 4>>}
ASSUME \A a \in Ops : /\ BBitLen(a) = BBitLenDef(a)
                      /\ BToDigitsLE(a, 256, 7) = BToDigitsLEDef(a, 256, 7)
                      /\ BToDigitsLE(a, 2, 46) = BToDigitsLEDef(a, 2, 46)
                      /\ BToDigitsLE(a, 10, 15) = BToDigitsLEDef(a, 10, 15)
                      /\ BOfDigitsBE(a, 32768) = BOfDigitsBEDef(a, 32768)
                      /\ BOfDigitsBE(a, 10) = BOfDigitsBEDef(a, 10)
ASSUME \A a, b \in Ops :
   /\ BAdd(a, b) = BAddDef(a, b)
   /\ BMul(a, b) = BMulDef(a, b)
   /\ BCmp(a, b) = BCmpDef(a, b)
   /\ (BCmp(a, b) >= 0 => BSub(a, b) = BSubDef(a, b))
ASSUME \A a \in Ops, m \in Mods : BMod(a, m) = BModDef(a, m) /\ BDiv(a, m) = BDivDef(a, m)
ASSUME \A m \in Mods : LET b == Big1 IN \A a \in {<<3>>, <<32767>>, <<5, 4, 3, 2>>, Big1} :
   /\ BAddMod(m, a, b) = BAddModDef(m, a, b)
   /\ BSubMod(m, a, b) = BSubModDef(m, a, b)
   /\ BMulMod(m, a, b) = BMulModDef(m, a, b)
   /\ BPowMod(m, a, <<9, 1>>) = BPowModDef(m, a, <<9, 1>>)
\* inverses modulo the primes 13, 32749, 65537
ASSUME \A m \in {<<13>>, <<32749>>, <<1, 2>>} : \A a \in {<<1>>, <<2>>, <<12>>} : BInvMod(m, a) = BInvModDef(m, a)
ASSUME \A n \in 0..200 \cup {32767, 32768, 32769, 1000000, 2147483647} : BOfNat(n) = BOfNatDef(n)
ASSUME PrintT(<<"BigNatCheck operands", Cardinality(Ops)>>)
VARIABLE x
Init == x = 0
Next == x = 1 /\ x' = 0
=============================================================================
