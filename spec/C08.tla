--------------------------------- MODULE C08 ---------------------------------
(***************************************************************************)
(* Histories of draws on several generators.  The state is one stream      *)
(* position per generator; each recorded draw must return the words of the *)
(* generator's stream at its position and advance it, whatever happened to *)
(* the other generators in between.                                        *)
(***************************************************************************)
EXTENDS TraceBase, Seedbox

\* a history: e.gens[i] = [salted, salt]; e.ops[k] = [g generator, o operation, n count, r result]
OpWords(op) == CASE op.o = "u32" -> 1 [] op.o = "u64" -> 2
                 [] op.o = "fill" -> 2 * ((op.n + 7) \div 8)
                 [] op.o = "skip" -> op.n * 8
Concat64(w) == LET n == Len(w) \div 2
               IN [i \in 1..(8 * n) |-> U64BytesLE(w[2 * ((i - 1) \div 8) + 1], w[2 * ((i - 1) \div 8) + 2])[((i - 1) % 8) + 1]]
OpOK(op, tail, pos) ==
  CASE op.o = "u32" -> op.r = WBytesLE(StreamWord(tail, pos))
    [] op.o = "u64" -> LET w == Words(tail, pos, 2) IN op.r = U64BytesLE(w[1], w[2])
    [] op.o = "fill" -> LET b == Concat64(Words(tail, pos, OpWords(op))) IN op.r = SubSeq(b, 1, op.n)
    [] op.o = "skip" -> TRUE
RECURSIVE Run(_, _, _, _)
Run(e, tails, pos, k) ==
  IF k > Len(e.ops) THEN TRUE
  ELSE LET op == e.ops[k]
       IN /\ OpOK(op, tails[op.g], pos[op.g])
          /\ Run(e, tails, [pos EXCEPT ![op.g] = @ + OpWords(op)], k + 1)
Accepts(e) == /\ e.t = "history"
              /\ Run(e, [i \in 1..Len(e.gens) |-> SaltTail(e.gens[i].salted, e.gens[i].salt)],
                     [i \in 1..Len(e.gens) |-> 0], 1)
\* RFC 7693 test vector, and a personalised two-block one (from an independent implementation)
ASSUME SubSeq(Blake(32, <<>>, <<97, 98, 99>>), 1, 8) = <<80, 140, 94, 140, 50, 124, 20, 226>>
ASSUME SubSeq(Blake(32, Pers, [i \in 1..130 |-> i]), 1, 8) = <<226, 249, 136, 245, 189, 115, 122, 1>>
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
