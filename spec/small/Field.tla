-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Arithmetic modulo a prime, first argument p.  This is the "small"       *)
(* implementation for primes p < 2^15: elements are the integers 0..p-1.   *)
(* big/Field.tla is the same interface over BigNat.  Which one a module is *)
(* checked with is decided by TLC's library path.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

FPrime(f) == f    \* tiny fields are named by their prime
F0 == 0
F1 == 1
FN(n) == n                           \* a (small) natural number
FReduce(p, n) == n % p               \* a natural number of the element type
FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a - b) % p
FMul(p, a, b) == (a * b) % p
FNeg(p, a)    == (p - a) % p
RECURSIVE FPowN(_, _, _)
FPowN(p, a, n) == IF n = 0 THEN 1 % p
                  ELSE LET h == FPowN(p, a, n \div 2)
                           s == (h * h) % p
                       IN IF n % 2 = 1 THEN (s * a) % p ELSE s
\* the inverses modulo the primes in use, tabulated once
FSmallPrimes == {5, 7, 11, 13, 17, 73, 89, 97, 101, 251}
FInvTab == [q \in FSmallPrimes |-> [a \in 1..(q-1) |-> CHOOSE b \in 1..(q-1) : (a * b) % q = 1]]
FInv(p, a) == IF p \in FSmallPrimes THEN FInvTab[p][a] ELSE FPowN(p, a, p - 2)
FDiv(p, a, b) == FMul(p, a, FInv(p, b))
FLt(a, b) == a < b
FIsOdd(a) == a % 2 = 1
FIsElem(p, a) == a \in 0..(p-1)
\* Euler's criterion: a is a square (zero included)
FIsSquare(p, a) == a = 0 \/ FPowN(p, a, (p - 1) \div 2) = 1
FBit(a, i) == (a \div (2^i)) % 2
RECURSIVE FBitLen(_)
FBitLen(a) == IF a = 0 THEN 0 ELSE 1 + FBitLen(a \div 2)
RECURSIVE FDigits(_, _, _)
FDigits(a, r, n) == IF n = 0 THEN <<>> ELSE <<a % r>> \o FDigits(a \div r, r, n - 1)
FToDigitsLE(a, r, n) == FDigits(a, r, n)
\* integer (of the element type) denoted by big-endian digits, reduced modulo p
RECURSIVE FOfDigitsModAt(_, _, _, _, _)
FOfDigitsModAt(p, ds, r, i, acc) ==
   IF i > Len(ds) THEN acc ELSE FOfDigitsModAt(p, ds, r, i + 1, (acc * r + ds[i]) % p)
FOfDigitsBEMod(p, ds, r) == FOfDigitsModAt(p, ds, r, 1, 0)
\* square roots by search, tabulated
FSqrtTab == [q \in FSmallPrimes |-> [a \in 0..(q-1) |->
             IF \E b \in 0..(q-1) : (b * b) % q = a THEN CHOOSE b \in 0..(q-1) : (b * b) % q = a ELSE -1]]
FSqrt(p, a) == FSqrtTab[p][a]
=============================================================================
