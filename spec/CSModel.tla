------------------------------ MODULE CSModel -------------------------------
(***************************************************************************)
(* Programs of allocations, publications and constraints over GF(5); every *)
(* finished program is written to PROGRAMS and replayed by the harness in  *)
(* the real constraint systems.  Exhaustive (TIER bound on the length) or, *)
(* with SIM set, as random behaviours of greater length.                   *)
(* Coefficients and values are small integers, -1 stands for p - 1.        *)
(***************************************************************************)
EXTENDS CS, IOUtils, Json, TLC
P == 5
Sim == "SIM" \in DOMAIN IOEnv /\ IOEnv.SIM = "1"
MaxLen == IF Sim THEN 9 ELSE 3
Vals == IF Sim THEN 0..3 ELSE {2}
Red(lc) == [i \in 1..Len(lc) |-> <<lc[i][1], lc[i][2] % P>>]

VARIABLES ops, fin
vars == <<ops, fin>>
State == CSRun([i \in 1..Len(ops) |-> IF ops[i].o = "con"
                  THEN [ops[i] EXCEPT !.l = [j \in 1..3 |-> Red(@[j])]] ELSE ops[i]])
N == Len(State.kinds)
Menu == {<<>>, <<<<0, 1>>>>, <<<<0, 2>>>>}
        \cup {<<<<v, 1>>>> : v \in 1..N}
        \cup {<<<<0, -1>>, <<v, 2>>>> : v \in 1..N}
        \cup {<<<<v, 1>>, <<w, -1>>>> : v, w \in 1..N}
Lcs == {l \in Menu : Len(l) < 2 \/ l[1][1] # l[2][1]}
Allocs == {[o |-> o, k |-> TRUE, v |-> v] : o \in {"aux", "in"}, v \in Vals}
          \cup {[o |-> o, k |-> FALSE, v |-> 0] : o \in {"aux", "in"}}
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Emit == Serialize(ToJson([ops |-> ops]) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == ops = <<>> /\ fin = FALSE
Grow == /\ Len(ops) < MaxLen
        /\ \/ N < (IF Sim THEN 6 ELSE 2) /\ \E a \in Pick(Allocs) : ops' = Append(ops, a)
           \/ (Sim \/ Len(State.cons) = 0) /\ \E a \in Pick(Lcs) : \E b \in Pick(IF Sim THEN Lcs ELSE {l \in Lcs : Len(l) = 1}) : \E c \in Pick(Lcs) :
                 ops' = Append(ops, [o |-> "con", l |-> <<a, b, c>>])
        /\ fin' = FALSE
Finish == ~ fin /\ (Len(ops) = MaxLen) /\ Emit /\ fin' = TRUE /\ ops' = ops
Next == Grow \/ Finish
\* public inputs are numbered in publishing order before the private variables, one name each
Inv == LET nm == CSNames(State.kinds)
           ins == {i \in 1..N : State.kinds[i]}
       IN /\ {nm[i] : i \in ins} = 1..Cardinality(ins)
          /\ {nm[i] : i \in (1..N) \ ins} = {0 - j : j \in 1..(N - Cardinality(ins))}
          /\ \A i, j \in 1..N : i < j /\ State.kinds[i] = State.kinds[j] =>
                IF State.kinds[i] THEN nm[i] < nm[j] ELSE nm[i] > nm[j]
=============================================================================
