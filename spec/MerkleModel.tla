----------------------------- MODULE MerkleModel -----------------------------
(* The specification's own guarantee: over every list of up to MaxLeaves   *)
(* leaves of a tiny field, every position's proof gives the tree root, and *)
(* an altered proof gives it only through a collision of the pair hash.    *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, Poseidon
Prm == ndJsonDeserialize(IOEnv.PARAMS)[1].prm
P == 5
MaxLeaves == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
VARIABLES leaves, pos, alt
Init == /\ leaves \in UNION {[1..n -> 0..(P-1)] : n \in 1..MaxLeaves}
        /\ pos \in 0..(Len(leaves) - 1)
        /\ alt \in 0..(P-1)
Next == UNCHANGED <<leaves, pos, alt>>
Agree == ProofRoot(P, Prm, leaves[pos+1], Siblings(P, Prm, leaves, pos), Path(leaves, pos)) = TreeRoot(P, Prm, leaves)
H(a, b) == PoseidonHash(P, Prm, <<a, b>>)
\* altering the leaf changes the first pair; the root is kept only if some level collides
RECURSIVE Collides(_, _, _, _, _)
Collides(a, b, sib, path, i) ==
  IF a = b THEN TRUE ELSE IF i > Len(sib) THEN FALSE
  ELSE Collides(IF path[i] THEN H(sib[i], a) ELSE H(a, sib[i]), IF path[i] THEN H(sib[i], b) ELSE H(b, sib[i]), sib, path, i + 1)
Binding == LET sib == Siblings(P, Prm, leaves, pos)
               path == Path(leaves, pos)
           IN ProofRoot(P, Prm, alt, sib, path) = TreeRoot(P, Prm, leaves)
              => Collides(alt, leaves[pos+1], sib, path, 1)
=============================================================================
