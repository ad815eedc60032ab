------------------------------ MODULE Entropy ------------------------------
(***************************************************************************)
(* Where secrets come from.  The operating system is an environment that   *)
(* hands out fresh bytes, fewer than asked for, none (interrupted), or      *)
(* fails.  A generator turns what it obtained into draws; a setup and a     *)
(* proof turn draws into keys and proof elements.  Everything that leaves   *)
(* the library is new: no draw, key element, proof element or blinding      *)
(* factor is ever seen twice, in whatever process, thread or generator.     *)
(*   seen  what was delivered so far, by all processes                      *)
(*   got   bytes of entropy the current process has obtained               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

\* a key that repeats with probability 2^-128 needs at least this many bytes
Strength == 16
AtLeast(a, b) == IF a < b THEN a ELSE b

Range1(s) == {s[i] : i \in 1..Len(s)}
\* values that would not be random even the first time
Degenerate == {[i \in 1..8 |-> 0], [i \in 1..8 |-> 65535]}

NewValues(seen, vals) == /\ Cardinality(Range1(vals)) = Len(vals)
                         /\ Range1(vals) \cap (seen \cup Degenerate) = {}
Backed(got, bytes) == got >= AtLeast(bytes, Strength)
\* o = [out, failed, got, bytes, vals]; failed: how often the source failed during the operation
Allowed(seen, got, o) ==
  CASE o.out = "ok" -> NewValues(seen, o.vals) /\ Backed(got + o.got, o.bytes)
    [] o.out \in {"panic", "hang"} -> o.failed > 0
    [] OTHER -> FALSE

\* Words w (pairs of 16-bit halves) of a source without visible structure: collisions and the
\* balance of each bit are what 2^32 equally likely words allow except with probability < 2^-40
Bit16(x, i) == (x \div (2 ^ i)) % 2
Ones(w, i) == Cardinality({k \in 1..Len(w) : Bit16(w[k][IF i < 16 THEN 2 ELSE 1], i % 16) = 1})
Spread(w) == Cardinality(Range1(w)) >= Len(w) - 6
Balanced(w, dev) == \A i \in 0..31 : LET n == Ones(w, i) IN 2 * n >= Len(w) - dev /\ 2 * n <= Len(w) + dev
\* no two bits of a draw determine each other: all four combinations occur
Independent(b) == LET n == Len(b[1])
                  IN \A i \in 1..n : \A j \in (i + 1)..n :
                       Cardinality({<<b[k][i], b[k][j]>> : k \in 1..Len(b)}) = 4
=============================================================================
