------------------------------- MODULE Poseidon -------------------------------
(***************************************************************************)
(* The Poseidon permutation and hash.  Parameters prm: a record            *)
(* [t width, f full rounds, p partial rounds, c round constants, m matrix].*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Field

Upto(n) == [i \in 1..n |-> i]

Pow5(p, x) == LET s == FMul(p, x, x) IN FMul(p, FMul(p, s, s), x)
Dot(p, row, st) == LET add(acc, j) == FAdd(p, acc, FMul(p, row[j], st[j])) IN FoldLeft(add, F0, Upto(Len(st)))
\* i counts rounds from 0
IsFull(prm, i) == i < (prm.f \div 2) \/ i >= (prm.f \div 2) + prm.p
PRound(p, prm, st, i) ==
  LET a == TLCEval([j \in 1..prm.t |-> FAdd(p, st[j], prm.c[i + 1])])
      s == TLCEval([j \in 1..prm.t |-> IF IsFull(prm, i) \/ j = 1 THEN Pow5(p, a[j]) ELSE a[j]])
  IN TLCEval([j \in 1..prm.t |-> Dot(p, prm.m[j], s)])
PRounds(p, prm, st) == LET step(a, i) == PRound(p, prm, a, i - 1) IN FoldLeft(step, st, Upto(prm.f + prm.p))
PState(prm, in) == [j \in 1..prm.t |-> IF j <= Len(in) THEN in[j] ELSE F0]
PoseidonHash(p, prm, in) == PRounds(p, prm, PState(prm, in))[1]
PoseidonDefined(prm, in) == Len(in) \in 1..prm.t
SaltedDefined(prm, in) == Len(in) > 0 /\ Len(in) < prm.t

\* Merkle trees over the two-to-one hash
RECURSIVE Pow2Above(_, _)
Pow2Above(n, k) == IF k >= n THEN k ELSE Pow2Above(n, 2 * k)
RECURSIVE TreeUp(_, _, _)
TreeUp(p, prm, lv) ==
  IF Len(lv) = 1 THEN lv[1]
  ELSE TreeUp(p, prm, TLCEval([i \in 1..(Len(lv) \div 2) |-> PoseidonHash(p, prm, <<lv[2*i - 1], lv[2*i]>>)]))
PadLeaves(lv) == [i \in 1..Pow2Above(Len(lv), 1) |-> IF i <= Len(lv) THEN lv[i] ELSE F0]
TreeRoot(p, prm, leaves) == TreeUp(p, prm, PadLeaves(leaves))
ProofRoot(p, prm, leaf, sib, path) ==
  LET up(node, i) == PoseidonHash(p, prm, IF path[i] THEN <<sib[i], node>> ELSE <<node, sib[i]>>)
  IN FoldLeft(up, leaf, Upto(Len(sib)))
\* the siblings from position pos (0-based) upward
RECURSIVE SibUp(_, _, _, _)
SibUp(p, prm, lv, pos) ==
  IF Len(lv) = 1 THEN <<>>
  ELSE <<lv[(IF pos % 2 = 0 THEN pos + 1 ELSE pos - 1) + 1]>>
       \o SibUp(p, prm, TLCEval([i \in 1..(Len(lv) \div 2) |-> PoseidonHash(p, prm, <<lv[2*i - 1], lv[2*i]>>)]), pos \div 2)
RECURSIVE PathUp(_, _)
PathUp(n, pos) == IF n = 1 THEN <<>> ELSE <<pos % 2 = 1>> \o PathUp(n \div 2, pos \div 2)
Siblings(p, prm, leaves, pos) == SibUp(p, prm, PadLeaves(leaves), pos)
Path(leaves, pos) == PathUp(Len(PadLeaves(leaves)), pos)
=============================================================================
