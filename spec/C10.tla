--------------------------------- MODULE C10 ---------------------------------
(* Native Merkle trees and proofs.                                         *)
EXTENDS TraceBase, Poseidon
Params == ndJsonDeserialize(IOEnv.PARAMS)
\* the height of a tree of n leaves, and the root of a tree of zeros of height h
Height(n) == CHOOSE h \in 0..20 : 2^h >= n /\ (h = 0 \/ 2^(h - 1) < n)
RECURSIVE ZeroRoot(_, _, _)
ZeroRoot(p, P, h) == IF h = 0 THEN F0 ELSE LET z == ZeroRoot(p, P, h - 1) IN PoseidonHash(p, P, <<z, z>>)
RECURSIVE SparseRoot(_, _, _, _, _)
SparseRoot(p, P, h, i, v) ==
  IF h = 0 THEN v
  ELSE LET z == ZeroRoot(p, P, h - 1) m == 2^(h - 1)
       IN IF i < m THEN PoseidonHash(p, P, <<SparseRoot(p, P, h - 1, i, v), z>>)
          ELSE PoseidonHash(p, P, <<z, SparseRoot(p, P, h - 1, i - m, v)>>)
Accepts(e) ==
  LET P == Params[e.k]
      p == FPrime(P.field)
  IN
  CASE e.t = "tree" -> IF e.leaves = <<>> THEN e.r.k = "panic"
                       ELSE e.r.k = "ok" /\ e.r.v = TreeRoot(p, P.prm, e.leaves)
    [] e.t = "proof" -> e.r.k = "ok" /\ e.r.v = ProofRoot(p, P.prm, e.leaf, e.sib, e.path)
    \* the proof for a position of a tree (siblings computed by the code itself) reproduces its root
    [] e.t = "pos" -> /\ e.sib = Siblings(p, P.prm, e.leaves, e.pos)
                      /\ e.path = Path(e.leaves, e.pos)
                      /\ e.r.k = "ok" /\ e.r.v = TreeRoot(p, P.prm, e.leaves)
    [] e.t = "sparse" -> e.r.k = "ok" /\ e.r.v = SparseRoot(p, P.prm, Height(e.n), e.i, e.leaf)
    [] e.t = "join" -> e.r.k = "ok" /\ e.a.k = "ok" /\ e.b.k = "ok" /\ e.r.v = PoseidonHash(p, P.prm, <<e.a.v, e.b.v>>)
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
