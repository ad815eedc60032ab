--------------------------------- MODULE Seed ---------------------------------
(* Numbers derived from byte strings.                                      *)
EXTENDS Integers, Sequences, Field, Blake2s
FieldBytes(p) == (FBitLen(p) + 7) \div 8
FromSeed(p, s) == FOfDigitsBEMod(p, Blake(FieldBytes(p), Pers, s), 256)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* canonical big-endian bytes of an element of the field of prime p
BytesBE(p, a) == Rev(FToDigitsLE(a, 256, FieldBytes(p)))
=============================================================================
