---------------------------- MODULE EntropyModel ----------------------------
(***************************************************************************)
(* A generator with a buffer of any size over a failing source, and the     *)
(* scripts that exercise it: histories of operations with the behaviour of  *)
(* the source during each.  Tokens stand for units of entropy.              *)
(***************************************************************************)
EXTENDS Entropy, TLC, IOUtils, Json

VARIABLES next, buf, size, out, script, keys, len, fin
vars == <<next, buf, size, out, script, keys, len, fin>>
Rnd(S) == RandomElement(S)
Draws == {"u32", "u64", "fill", "num_bn", "num_bls", "sc_bn", "point", "threads"}
Engines == {"bn", "bls"}
Init == next = 0 /\ buf = <<>> /\ size = 0 /\ out = <<>> /\ script = <<>> /\ keys = {} /\ len = 0 /\ fin = FALSE
Begin == len = 0 /\ len' = Rnd(5..9) /\ size' = Rnd(1..4) /\ UNCHANGED <<next, buf, out, script, keys, fin>>
Can == len > 0 /\ ~ fin /\ Len(script) < len
\* the source answers: the buffer is refilled with new tokens
Refill(m) == IF buf = <<>> /\ m # "fail" THEN [b |-> [i \in 1..size |-> next + i], n |-> next + size] ELSE [b |-> buf, n |-> next]
\* one unit is delivered, if there is one
Step(o, n, m, k) ==
  LET r == Refill(m)
  IN /\ next' = r.n
     /\ IF r.b = <<>> THEN buf' = <<>> /\ out' = out ELSE buf' = Tail(r.b) /\ out' = Append(out, Head(r.b))
     /\ script' = Append(script, [o |-> o, n |-> n, m |-> m, k |-> k])
     /\ UNCHANGED <<size, len, fin>>
ModeOf(m) == CASE m < 6 -> "ok" [] m = 6 -> "short" [] m = 7 -> "eintr" [] m = 8 -> "fail" [] OTHER -> "failat"
Draw == Can /\ \E o \in {Rnd(Draws)} : \E n \in {Rnd(1..12)} : \E m \in {ModeOf(Rnd(1..(9 + 0 * len)))} : \E k \in {Rnd(1..30)} : Step(o, n, m, k) /\ UNCHANGED keys
Setup == Can /\ \E e \in {Rnd(Engines)} : \E m \in {ModeOf(Rnd(1..(9 + 0 * len)))} : \E k \in {Rnd(1..40)} :
           /\ Step("setup_" \o e, 1, m, k)
           /\ keys' = IF m \in {"fail", "failat"} THEN keys ELSE keys \cup {e}
Prove == Can /\ keys # {} /\ \E e \in {Rnd(keys)} : \E m \in {ModeOf(Rnd(1..(9 + 0 * len)))} : \E k \in {Rnd(1..16)} : \E n \in {Rnd(1..3)} :
           Step("prove_" \o e, n, m, k) /\ UNCHANGED keys
Emit == Serialize(ToJson(script) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Finish == len > 0 /\ ~ fin /\ Len(script) = len /\ fin' = TRUE /\ Emit /\ UNCHANGED <<next, buf, size, out, script, keys, len>>
Prove2 == Prove
\* the parameters of a setup in another process
Load == Can /\ \E e \in {Rnd(Engines)} : /\ script' = Append(script, [o |-> "load_" \o e, n |-> 1, m |-> "ok", k |-> 0])
                                        /\ keys' = keys \cup {e}
                                        /\ UNCHANGED <<next, buf, size, out, len, fin>>
Next == Begin \/ Draw \/ Setup \/ Prove \/ Prove2 \/ Load \/ Finish

\* no unit is delivered twice, and none that the source did not give
NoReuse == /\ Cardinality(Range1(out)) = Len(out)
           /\ \A i \in 1..Len(out) : out[i] \in 1..next
           /\ Range1(buf) \cap Range1(out) = {}
=============================================================================
