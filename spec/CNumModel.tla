------------------------------ MODULE CNumModel ------------------------------
(***************************************************************************)
(* The register machine of CNum.tla over GF(5) explored by TLC: every      *)
(* state keeps a shortest program that reaches it (not part of the state's *)
(* identity, see View), and every transition is written to PROGRAMS for    *)
(* the harness to replay in the real code.                                 *)
(***************************************************************************)
EXTENDS CNum, IOUtils, Json

P == 5
MaxLen == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Kinds == {<<1, 2, 0>>, <<1, 1, 3>>}   \* initial registers: variable i, 0 the constant c0
C0 == 2
Consts == {0, 2, 4}
Vals == <<3, 4, 0>>

VARIABLES st, prog, init, undef
vars == <<st, prog, init, undef>>
View == <<st, init, undef>>

St0(ks) == LET s == [n |-> 3, known |-> <<TRUE, TRUE, TRUE>>, val |-> Vals, nc |-> 0, regs |-> <<>>]
           IN [s EXCEPT !.regs = [i \in 1..3 |-> IF ks[i] = 0 THEN ConstReg(P, 3, C0) ELSE VarReg(s, ks[i])]]
Init == \E ks \in Kinds : init = ks /\ st = St0(ks) /\ prog = <<>> /\ undef = FALSE

RR == 1..3
\* the result replaces the left operand, or goes to a third register
Ops == {[o |-> o, d |-> d, a |-> a, b |-> b, c |-> 0] : o \in {"add", "sub", "mul", "div"}, d \in {1, 2}, a \in {1, 2}, b \in RR}
       \cup {[o |-> o, d |-> 3, a |-> a, b |-> a, c |-> 0] : o \in {"neg", "sq"}, a \in RR}
       \cup {[o |-> o, d |-> a, a |-> a, b |-> a, c |-> c] : o \in {"addc", "subc", "csub", "mulc", "divc"}, a \in {1, 3}, c \in Consts}

Emit(pr) == Serialize(ToJson([init |-> init, ops |-> pr]) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Next == /\ ~ undef /\ Len(prog) < MaxLen /\ st.n < 6
        /\ \E op \in Ops :
             /\ prog' = Append(prog, op)
             /\ Emit(prog')
             /\ undef' = Undefined(P, st, op)
             /\ st' = IF Undefined(P, st, op) THEN st ELSE Step(P, st, op)
             /\ init' = init
Inv == \A i \in 1..3 : RegOK(P, st, st.regs[i])
=============================================================================
