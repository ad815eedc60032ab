--------------------------------- MODULE C19 ---------------------------------
(***************************************************************************)
(* hist: a history replayed in the real code; verify operations carry the  *)
(*       inputs given and the outcome, prove operations the witness and    *)
(*       the inputs the circuit published.                                 *)
(* alg:  verification of a key and proof made of known multiples of the    *)
(*       generators (all fields elements of the scalar field): the pairing *)
(*       equation becomes a b = alpha beta + acc gamma + c delta.          *)
(***************************************************************************)
EXTENDS TraceBase, Lifecycle
OpOk(p, s, op) ==
  CASE op.o = "verify" -> op.out = Verdict(s, op)
    [] op.o = "prove" -> op.out = "ok" /\ op.pub = Published(p, s.keys[op.k].c, op.x, op.y)
    [] op.o \in {"rekey", "reproof"} -> op.out = "ok"
    [] OTHER -> TRUE
Hist(e) ==
  LET p == FPrime(e.f)
      step(acc, op) == [s |-> LStep(p, acc.s, op), ok |-> acc.ok /\ OpOk(p, acc.s, op)]
  IN FoldLeft(step, [s |-> LInit, ok |-> TRUE], e.ops).ok
Alg(e) ==
  LET p == FPrime(e.f)
      k == e.key
      v == <<F1>> \o e.x
      add(acc, i) == FAdd(p, acc, FMul(p, v[i], k.ic[i]))
      acc == FoldLeft(add, F0, [i \in 1..Len(v) |-> i])
      rhs == FAdd(p, FAdd(p, FMul(p, k.alpha, k.beta), FMul(p, acc, k.gamma)), FMul(p, e.c, k.delta))
  IN IF Len(e.x) + 1 # Len(k.ic) THEN e.out = "err"
     ELSE e.out = IF FMul(p, e.a, e.b) = rhs THEN "true" ELSE "false"
Accepts(e) == CASE e.t = "hist" -> Hist(e) [] e.t = "alg" -> Alg(e)
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
