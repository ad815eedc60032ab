-------------------------------- MODULE EdDSA --------------------------------
(* Signatures: secret sk, public A = sk G given by its abscissa.           *)
EXTENDS Curve, Poseidon, Seed
SeedEdDSA == <<101, 100, 100, 115, 97, 112, 111, 115, 101, 105, 100, 111, 110>>  \* "eddsaposeidon"
Nonce(C, sk, m) == FOfDigitsBEMod(C.q, Blake(32, Pers, BytesBE(C.q, sk) \o BytesBE(C.p, m)), 256)
ChallengeWith(C, prm, saltnum, r, a, m) == PoseidonHash(C.p, prm, <<r, a, m, saltnum>>)
Challenge(C, prm, r, a, m) == ChallengeWith(C, prm, FromSeed(C.p, SeedEdDSA), r, a, m)
\* verification given the subgroup points R and A with abscissas r and a
VerifyPts(C, h, g, s, R, A) == EdMul(C, g, s) = EdAdd(C, R, EdMul(C, A, FReduce(C.q, h)))
=============================================================================
