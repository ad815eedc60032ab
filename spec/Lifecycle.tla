----------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Histories of setups, proofs, encodings, decodings, alterations and      *)
(* verifications.  The abstract state is what the objects stand for:       *)
(*   keys    [c circuit, s setup, h alteration, n its position]            *)
(*   proofs  [c, s, x published inputs, good witness satisfied, h]         *)
(* Indices are 1-based in creation order.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Field

\* inputs published by the harness's circuits on witness x, y (all also assert a private condition)
Published(p, c, x, y) ==
  LET b(t) == IF t THEN F1 ELSE F0
      add == FAdd(p, x, FMul(p, FN(3), y))
  IN CASE c = 1 -> <<FMul(p, x, y)>>
       [] c = 2 -> <<x, FN(5), FMul(p, x, y), y>>
       [] c = 3 -> <<>>
       [] c = 4 -> <<b(x = y), add, b(FIsOdd(x))>>
       [] c = 5 -> <<b(x = F0), y, x, FMul(p, x, x)>>
NPub(c) == CASE c = 1 -> 1 [] c = 2 -> 4 [] c = 3 -> 0 [] c = 4 -> 3 [] c = 5 -> 4

LInit == [keys |-> <<>>, proofs |-> <<>>, ns |-> 0]
LStep(p, s, op) ==
  CASE op.o = "setup" -> [s EXCEPT !.ns = @ + 1, !.keys = Append(@, [c |-> op.c, s |-> s.ns + 1, h |-> "none", n |-> 0])]
    [] op.o = "prove" -> [s EXCEPT !.proofs = Append(@, [c |-> s.keys[op.k].c, s |-> s.keys[op.k].s, good |-> op.bad = 0, h |-> "none",
                                   x |-> Published(p, s.keys[op.k].c, op.x, op.y)])]
    \* a decoded object stands for what the encoded one did
    [] op.o = "rekey" -> [s EXCEPT !.keys = Append(@, @[op.i])]
    [] op.o = "reproof" -> [s EXCEPT !.proofs = Append(@, @[op.i])]
    [] op.o = "altkey" -> [s EXCEPT !.keys = Append(@, [@[op.i] EXCEPT !.h = op.h, !.n = op.n])]
    [] op.o = "altproof" -> [s EXCEPT !.proofs = Append(@, [@[op.i] EXCEPT !.h = op.h])]
    [] op.o = "verify" -> s

\* multipliers of the key's input points before the alteration; the altered key has points n and
\* n + 1 exchanged (swapic), or point n moved (ic)
Multipliers(k, x) ==
  LET v == <<F1>> \o x
      other(i) == IF i = k.n THEN k.n + 1 ELSE IF i = k.n + 1 THEN k.n ELSE i
  IN IF k.h = "swapic" THEN [i \in 1..Len(v) |-> v[other(i)]] ELSE v
Verdict(s, op) ==
  LET k == s.keys[op.k]
      pr == s.proofs[op.p]
      x == op.x
  IN IF Len(x) # NPub(k.c) THEN "err"
     ELSE IF /\ pr.good
             /\ pr.h \in {"none", "negab"}    \* negating both A and B gives a proof of the same statement
             /\ k.s = pr.s
             /\ k.h \in {"none", "swapic", "ic"}
             /\ Multipliers(k, x) = <<F1>> \o pr.x
             /\ k.h = "ic" => (<<F1>> \o x)[k.n] = F0
          THEN "true" ELSE "false"
=============================================================================
