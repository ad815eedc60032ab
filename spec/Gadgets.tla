------------------------------- MODULE Gadgets -------------------------------
(***************************************************************************)
(* What each circuit gadget is for.  For a recorded gadget instance cir    *)
(* (prime, gadget name g, parameters par) and values in of its inputs and  *)
(* out of its outputs:                                                     *)
(*   Pre(cir, in)      the gadget's documented precondition                *)
(*   Holds(cir, in)    the asserted condition; the honest prover succeeds  *)
(*                     exactly when it holds                               *)
(*   Rel(cir, in, out) what every satisfying assignment must give          *)
(*   ConstPanic(cir, in) an assertion on constants that cannot hold: the   *)
(*                     builder panics                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, CurveParams, EdDSA

B01(b) == IF b THEN F1 ELSE F0
IsBit(x) == x = F0 \/ x = F1
AllBits(s) == \A i \in 1..Len(s) : IsBit(s[i])
NatOfBits3(b) == (IF b[1] = F1 THEN 1 ELSE 0) + (IF b[2] = F1 THEN 2 ELSE 0) + (IF b[3] = F1 THEN 4 ELSE 0)

NumPre(c, in) ==
  CASE c.g = "div" -> in[2] # F0
    [] c.g = "switch" -> IsBit(in[1])
    [] c.g = "mux3" -> AllBits(in)
    [] OTHER -> TRUE

NumHolds(c, in) ==
  CASE c.g = "assert_eq" -> in[1] = in[2]
    [] c.g \in {"assert_zero", "bool_false"} -> in[1] = F0
    [] c.g = "bool_true" -> in[1] = F1
    [] c.g = "assert_nonzero" -> in[1] # F0
    [] c.g \in {"assert_bit", "bool_assert", "alloc_bool", "alloc_bool_switch"} -> IsBit(in[1])
    [] c.g = "assert_const" -> in[1] = FN(c.par.k)
    [] c.g = "assert_val" -> in[1] = c.par.k
    [] OTHER -> TRUE

NumOut(c, in) ==
  LET p == FPrime(c.p) IN
  CASE c.g = "mul" -> <<FMul(p, in[1], in[2])>>
    [] c.g = "square" -> <<FMul(p, in[1], in[1])>>
    [] c.g = "add" -> <<FAdd(p, in[1], in[2])>>
    [] c.g = "sub" -> <<FSub(p, in[1], in[2])>>
    [] c.g = "neg" -> <<FNeg(p, in[1])>>
    [] c.g = "not" -> <<FSub(p, F1, in[1])>>
    [] c.g = "and" -> <<FMul(p, in[1], in[2])>>
    [] c.g = "or" -> <<FSub(p, FAdd(p, in[1], in[2]), FMul(p, in[1], in[2]))>>
    [] c.g = "addc" -> <<FAdd(p, in[1], c.par.k)>>
    [] c.g = "mulc" -> <<FMul(p, in[1], c.par.k)>>
    [] c.g = "const" -> <<c.par.k>>
    [] c.g = "publish" -> <<in[1]>>
    [] c.g = "div" -> <<FDiv(p, in[1], in[2])>>
    [] c.g = "is_eq" -> <<B01(in[1] = in[2])>>
    [] c.g = "is_zero" -> <<B01(in[1] = F0)>>
    [] c.g \in {"switch", "alloc_bool_switch"} -> <<IF in[1] = F1 THEN in[2] ELSE in[3]>>
    [] c.g = "mux3" -> [i \in 1..Len(c.par.tab) |-> c.par.tab[i][NatOfBits3(in) + 1]]
    [] OTHER -> <<>>

NumGadgets == {"mul", "square", "div", "is_eq", "is_zero", "switch", "mux3", "assert_eq", "assert_zero",
  "bool_false", "bool_true", "assert_nonzero", "assert_bit", "bool_assert", "alloc_bool",
  "alloc_bool_switch", "assert_const", "inputize"}

-----------------------------------------------------------------------------
\* Bits.  par.n is the number of bits, par.ct the constant compared with.
BitGadgets == {"bits", "bits_strict", "comp", "from_bits"}
Bit(x, i) == IF i < FBitLen(x) THEN FBit(x, i) ELSE 0
BitsOf(x, n) == [i \in 1..n |-> IF Bit(x, i - 1) = 1 THEN F1 ELSE F0]
Int01(x) == IF x = F1 THEN 1 ELSE 0
\* the field element denoted by little-endian bits
OfBits(p, bs) == FOfDigitsBEMod(p, [i \in 1..Len(bs) |-> Int01(bs[Len(bs) + 1 - i])], 2)
\* the integer denoted by little-endian bits is greater than the number x: compare from the top
RECURSIVE BitsGt(_, _, _)
BitsGt(bs, x, i) == IF i = 0 THEN FALSE
                    ELSE LET b == IF i <= Len(bs) THEN Int01(bs[i]) ELSE 0
                         IN IF b # Bit(x, i - 1) THEN b = 1 ELSE BitsGt(bs, x, i - 1)
Max2(a, b) == IF a > b THEN a ELSE b
BitPre(c, in) == CASE c.g \in {"comp", "from_bits"} -> AllBits(in) [] OTHER -> TRUE
BitHolds(c, in) == CASE c.g = "bits" -> FBitLen(in[1]) <= c.par.n \/ c.par.n = FBitLen(FPrime(c.p)) [] OTHER -> TRUE
BitOut(c, in) ==
  LET p == FPrime(c.p) IN
  CASE c.g = "bits" -> BitsOf(in[1], c.par.n)
    [] c.g = "bits_strict" -> BitsOf(in[1], FBitLen(p))
    [] c.g = "comp" -> <<B01(BitsGt(in, c.par.ct, Max2(Len(in), FBitLen(c.par.ct))))>>
    [] c.g = "from_bits" -> <<OfBits(p, in)>>
\* a decomposition into as many bits as the prime has only determines the number modulo the prime
BitRelOut(c, in, out) ==
  IF c.g = "bits" /\ c.par.n >= FBitLen(FPrime(c.p))
  THEN Len(out) = c.par.n /\ AllBits(out) /\ OfBits(FPrime(c.p), out) = in[1]
  ELSE out = BitOut(c, in)
-----------------------------------------------------------------------------
\* Curve points.  par.c is the curve; points are two consecutive values.
EccGadgets == {"ed_add", "ed_double", "ed_cof", "ed_mul", "into_mont", "into_ed", "mont_double", "mont_add",
  "in_curve", "in_subgroup", "decompress", "from_scalar"}
P1(in) == <<in[1], in[2]>>
P2(in) == <<in[3], in[4]>>
Tail2(in) == SubSeq(in, 3, Len(in))
EccPre(c, in) ==
  LET C == CurveOf(c.par.c) IN
  CASE c.g = "ed_add" -> OnCurve(C, P1(in)) /\ OnCurve(C, P2(in))
    [] c.g \in {"ed_double", "ed_cof"} -> OnCurve(C, P1(in))
    [] c.g = "ed_mul" -> AllBits(Tail2(in)) /\ InSubgroup(C, P1(in))
    [] c.g = "into_mont" -> OnCurve(C, P1(in)) /\ in[1] # F0
    [] c.g = "into_ed" -> OnMont(C, P1(in))
    [] c.g = "mont_double" -> OnMont(C, P1(in)) /\ P1(in) # <<F0, F0>>
    [] c.g = "mont_add" -> OnMont(C, P1(in)) /\ OnMont(C, P2(in)) /\ in[1] # in[3]
    [] c.g = "from_scalar" -> in[1] # FNeg(C.p, F1)
    [] OTHER -> TRUE
EccHolds(c, in) ==
  LET C == CurveOf(c.par.c) IN
  CASE c.g = "in_curve" -> OnCurve(C, P1(in))
    [] c.g = "in_subgroup" -> InSubgroup(C, P1(in))
    [] c.g = "decompress" -> Decompress(C, in[1]) # <<"none">>
    [] OTHER -> TRUE
EccOut(c, in) ==
  LET C == CurveOf(c.par.c) IN
  CASE c.g = "ed_add" -> EdAdd(C, P1(in), P2(in))
    [] c.g = "ed_double" -> EdDouble(C, P1(in))
    [] c.g = "ed_cof" -> EdCofactor(C, P1(in))
    [] c.g = "ed_mul" -> EdMulBits(C, P1(in), Tail2(in))
    [] c.g = "into_mont" -> MontOf(C, P1(in))
    [] c.g = "into_ed" -> EdOf(C, P1(in))
    [] c.g = "mont_double" -> MontOf(C, EdDouble(C, EdOf(C, P1(in))))
    [] c.g = "mont_add" -> MontOf(C, EdAdd(C, EdOf(C, P1(in)), EdOf(C, P2(in))))
    [] c.g = "decompress" -> Decompress(C, in[1])
    [] c.g = "from_scalar" -> MapPoint(C, in[1])
    [] OTHER -> <<>>
-----------------------------------------------------------------------------
\* Hashes, Merkle trees and signatures.  par.prm is the Poseidon parameter set.
HashGadgets == {"poseidon", "salted", "mtree", "mproof", "eddsa"}
\* a Merkle proof: leaf, siblings, path
Depth(in) == (Len(in) - 1) \div 2
Sib(in) == SubSeq(in, 2, 1 + Depth(in))
PathNums(in) == SubSeq(in, 2 + Depth(in), Len(in))
HashHolds(c, in) ==
  CASE c.g = "poseidon" -> PoseidonDefined(c.par.prm, in)
    [] c.g = "salted" -> SaltedDefined(c.par.prm, in)
    [] c.g = "mproof" -> AllBits(PathNums(in))
    [] c.g = "eddsa" -> LET C == CurveOf(c.par.c)
                        IN /\ FBitLen(in[1]) <= FBitLen(C.q)
                           /\ Decompress(C, in[2]) # <<"none">>
                           /\ Decompress(C, in[3]) # <<"none">>
    [] OTHER -> TRUE
HashOut(c, in) ==
  LET p == FPrime(c.p)
      prm == c.par.prm
  IN
  CASE c.g = "poseidon" -> <<PoseidonHash(p, prm, in)>>
    [] c.g = "salted" -> <<PoseidonHash(p, prm, Append(in, FromSeed(p, c.par.seed)))>>
    [] c.g = "mtree" -> <<TreeRoot(p, prm, in)>>
    [] c.g = "mproof" -> LET pn == PathNums(in)
                         IN <<ProofRoot(p, prm, in[1], Sib(in), [i \in 1..Len(pn) |-> pn[i] = F1])>>
    [] c.g = "eddsa" -> LET C == CurveOf(c.par.c)
                        IN <<B01(VerifyPts(C, Challenge(C, prm, in[2], in[3], in[4]), c.par.g,
                                           FReduce(C.q, in[1]), Decompress(C, in[2]), Decompress(C, in[3])))>>
-----------------------------------------------------------------------------
\* Composite signals, flattened to their components in declaration order.  par.n is their number and
\* par.kinds their kinds (b: boolean, n: number).
SigGadgets == {"s_alloc", "s_switch", "s_assert_eq", "s_is_eq", "s_assert_const", "s_publish"}
BoolsOK(c, v) == \A i \in 1..c.par.n : c.par.kinds[i] = "b" => IsBit(v[i])
SigA(c, in) == SubSeq(in, 1, c.par.n)
SigB(c, in) == SubSeq(in, c.par.n + 1, 2 * c.par.n)
SigPre(c, in) == CASE c.g = "s_switch" -> IsBit(in[2 * c.par.n + 1]) [] OTHER -> TRUE
SigHolds(c, in) ==
  CASE c.g = "s_alloc" -> BoolsOK(c, in)
    [] c.g = "s_assert_eq" -> SigA(c, in) = SigB(c, in)
    [] c.g = "s_assert_const" -> in = c.par.k
    [] OTHER -> TRUE
SigOut(c, in) ==
  CASE c.g = "s_alloc" -> in                  \* flattening lists the components in order
    [] c.g = "s_switch" -> IF in[2 * c.par.n + 1] = F1 THEN SigA(c, in) ELSE SigB(c, in)
    [] c.g = "s_is_eq" -> <<B01(SigA(c, in) = SigB(c, in))>>
    [] c.g = "s_publish" -> in                \* the public inputs in order
    [] OTHER -> <<>>
\* allocating with a value gives each component its own value
Fed(c, in, fed) == c.g = "s_alloc" => in = fed
-----------------------------------------------------------------------------
Pre1(c, in)   == IF c.g \in BitGadgets THEN BitPre(c, in)
                 ELSE IF c.g \in EccGadgets THEN EccPre(c, in)
                 ELSE IF c.g \in HashGadgets THEN TRUE
                 ELSE IF c.g \in SigGadgets THEN SigPre(c, in) ELSE NumPre(c, in)
Holds1(c, in) == IF c.g \in BitGadgets THEN BitHolds(c, in)
                 ELSE IF c.g \in EccGadgets THEN EccHolds(c, in)
                 ELSE IF c.g \in HashGadgets THEN HashHolds(c, in)
                 ELSE IF c.g \in SigGadgets THEN SigHolds(c, in) ELSE NumHolds(c, in)
Out1(c, in)   == IF c.g \in BitGadgets THEN BitOut(c, in)
                 ELSE IF c.g \in EccGadgets THEN EccOut(c, in)
                 ELSE IF c.g \in HashGadgets THEN HashOut(c, in)
                 ELSE IF c.g \in SigGadgets THEN SigOut(c, in) ELSE NumOut(c, in)
RelOut(c, in, out) == IF c.g \in BitGadgets THEN BitRelOut(c, in, out) ELSE out = Out1(c, in)
Rel1(c, in, out) == /\ Pre1(c, in) => (Holds1(c, in) /\ RelOut(c, in, out))
                    \* a zero divisor has no quotient of anything but zero
                    /\ c.g = "div" => FMul(FPrime(c.p), out[1], in[2]) = in[1]
-----------------------------------------------------------------------------
\* A program: gadgets one after another, each reading values that are there and adding its results.
\* par.ops is a sequence of [o gadget, par its parameters, a indices of the values it reads, r index of
\* its first result, m number of results]; the values are the inputs followed by all results.
OpGadget(c, op) == [p |-> c.p, g |-> op.o, par |-> op.par]
Reads(op, v) == TLCEval([i \in 1..Len(op.a) |-> v[op.a[i]]])
ProgRun(c, in) ==
  LET do(st, op) ==
        IF ~ (st.pre /\ st.ok) THEN st
        ELSE LET g == OpGadget(c, op)
                 x == Reads(op, st.v)
                 pre == Pre1(g, x)
                 ok == pre /\ Holds1(g, x)
             IN [pre |-> pre, ok |-> ok \/ ~ pre, v |-> IF ok THEN st.v \o Out1(g, x) ELSE st.v]
  IN FoldLeft(do, [pre |-> TRUE, ok |-> TRUE, v |-> in], c.par.ops)
\* whatever the values are, they are related step by step
ProgRel(c, in, out) ==
  /\ SubSeq(out, 1, Len(in)) = in
  /\ \A i \in 1..Len(c.par.ops) :
       LET op == c.par.ops[i] IN Rel1(OpGadget(c, op), Reads(op, out), SubSeq(out, op.r, op.r + op.m - 1))
-----------------------------------------------------------------------------
Pre(c, in)   == IF c.g = "prog" THEN ProgRun(c, in).pre ELSE Pre1(c, in)
Holds(c, in) == IF c.g = "prog" THEN ProgRun(c, in).ok ELSE Holds1(c, in)
Out(c, in)   == IF c.g = "prog" THEN ProgRun(c, in).v ELSE Out1(c, in)
Rel(c, in, out) == IF c.g = "prog" THEN ProgRel(c, in, out) ELSE Rel1(c, in, out)
=============================================================================
