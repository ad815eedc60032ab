--------------------------------- MODULE CNum ---------------------------------
(***************************************************************************)
(* Symbolic numbers as a register machine.  A machine state is             *)
(*   [n     |-> number of variables,                                       *)
(*    known |-> Seq(BOOLEAN), val |-> Seq(F): the variables' values,       *)
(*    nc    |-> number of constraints, regs |-> Seq(register)]             *)
(* and a register is                                                       *)
(*   [den |-> coefficients, den[1] of one and den[i+1] of variable i,      *)
(*    fk  |-> whether the result of the sequence is known, fv |-> result]. *)
(* An operation is [o, d, a, b, c]: registers d := a o b, or a constant c. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Field, TLC

Zero(p, n) == [i \in 1..(n+1) |-> F0]
Pad(den, n) == TLCEval([i \in 1..(n+1) |-> IF i <= Len(den) THEN den[i] ELSE F0])
IsConstDen(den) == \A i \in 2..Len(den) : den[i] = F0
MapDen(den, f(_)) == TLCEval([i \in 1..Len(den) |-> f(den[i])])
Comb(p, x, y, f(_, _, _)) == TLCEval([i \in 1..Len(x) |-> f(p, x[i], y[i])])

ConstReg(p, n, c) == [den |-> Pad(<<c>>, n), fk |-> TRUE, fv |-> c]
VarReg(st, i) == [den |-> [j \in 1..(st.n+1) |-> IF j = i + 1 THEN F1 ELSE F0], fk |-> st.known[i], fv |-> st.val[i]]

\* evaluation of a combination; defined if every variable with a coefficient is known
Evaluable(st, den) == \A i \in 2..Len(den) : den[i] = F0 \/ st.known[i-1]
RECURSIVE EvalAt(_, _, _, _)
EvalAt(p, st, den, i) == IF i > Len(den) THEN F0
                         ELSE LET r == EvalAt(p, st, den, i+1)
                              IN IF den[i] = F0 THEN r
                                 ELSE FAdd(p, r, FMul(p, den[i], IF i = 1 THEN F1 ELSE st.val[i-1]))
Eval(p, st, den) == EvalAt(p, st, den, 1)

\* a fresh variable with a value enters register d, with one constraint
Fresh(st, d, k, v) ==
  LET n == st.n + 1
      rg == [i \in 1..Len(st.regs) |-> [st.regs[i] EXCEPT !.den = Pad(@, n)]]
      s1 == [n |-> n, known |-> Append(st.known, k), val |-> Append(st.val, v), nc |-> st.nc + 1, regs |-> rg]
  IN TLCEval([s1 EXCEPT !.regs[d] = VarReg(s1, n)])
\* k: both operands known, v: the result then; a combination may be known although an operand is not (0 x)
Put(p, st, d, den, k, v) ==
  LET ev == Evaluable(st, den)
  IN TLCEval([st EXCEPT !.regs[d] = [den |-> den, fk |-> ev, fv |-> IF k THEN v ELSE IF ev THEN Eval(p, st, den) ELSE F0]])

\* which operations are undefined (the implementation panics)
Undefined(p, st, op) ==
  CASE op.o = "div" -> LET a == st.regs[op.a]
                           b == st.regs[op.b]
                       IN IF IsConstDen(b.den) THEN b.den[1] = F0 ELSE a.fk /\ b.fk /\ b.fv = F0
    [] op.o = "divc" -> op.c = F0
    [] OTHER -> FALSE

Ring(p, o, x, y) == CASE o = "add" -> FAdd(p, x, y) [] o = "sub" -> FSub(p, x, y) [] o = "mul" -> FMul(p, x, y)
Step(p, st, op) ==
  LET a == st.regs[op.a]
      b == st.regs[op.b]
      k == a.fk /\ b.fk
      c == op.c
  IN
  CASE op.o = "add" -> Put(p, st, op.d, Comb(p, a.den, b.den, FAdd), k, IF k THEN FAdd(p, a.fv, b.fv) ELSE F0)
    [] op.o = "sub" -> Put(p, st, op.d, Comb(p, a.den, b.den, FSub), k, IF k THEN FSub(p, a.fv, b.fv) ELSE F0)
    [] op.o = "neg" -> Put(p, st, op.d, MapDen(a.den, LAMBDA x : FNeg(p, x)), a.fk, IF a.fk THEN FNeg(p, a.fv) ELSE F0)
    [] op.o \in {"mul", "sq"} ->
         LET y == IF op.o = "sq" THEN a ELSE b
             kk == a.fk /\ y.fk
             v == IF kk THEN FMul(p, a.fv, y.fv) ELSE F0
         IN IF IsConstDen(a.den) THEN Put(p, st, op.d, MapDen(y.den, LAMBDA x : FMul(p, x, a.den[1])), kk, v)
            ELSE IF IsConstDen(y.den) THEN Put(p, st, op.d, MapDen(a.den, LAMBDA x : FMul(p, x, y.den[1])), kk, v)
            ELSE Fresh(st, op.d, kk, v)
    [] op.o = "div" ->
         IF IsConstDen(b.den) THEN Put(p, st, op.d, MapDen(a.den, LAMBDA x : FDiv(p, x, b.den[1])), a.fk, IF a.fk THEN FDiv(p, a.fv, b.den[1]) ELSE F0)
         ELSE Fresh(st, op.d, k, IF k THEN FDiv(p, a.fv, b.fv) ELSE F0)
    [] op.o \in {"addc", "cadd"} -> Put(p, st, op.d, [a.den EXCEPT ![1] = FAdd(p, @, c)], a.fk, IF a.fk THEN FAdd(p, a.fv, c) ELSE F0)
    [] op.o = "subc" -> Put(p, st, op.d, [a.den EXCEPT ![1] = FSub(p, @, c)], a.fk, IF a.fk THEN FSub(p, a.fv, c) ELSE F0)
    [] op.o = "csub" -> Put(p, st, op.d, [MapDen(a.den, LAMBDA x : FNeg(p, x)) EXCEPT ![1] = FAdd(p, @, c)], a.fk, IF a.fk THEN FSub(p, c, a.fv) ELSE F0)
    [] op.o \in {"mulc", "cmul"} -> Put(p, st, op.d, MapDen(a.den, LAMBDA x : FMul(p, x, c)), a.fk, IF a.fk THEN FMul(p, a.fv, c) ELSE F0)
    [] op.o = "divc" -> Put(p, st, op.d, MapDen(a.den, LAMBDA x : FDiv(p, x, c)), a.fk, IF a.fk THEN FDiv(p, a.fv, c) ELSE F0)

\* the invariant that makes the recorded value and the combination agree
RegOK(p, st, r) == /\ Len(r.den) = st.n + 1
                   /\ (r.fk /\ Evaluable(st, r.den)) => r.fv = Eval(p, st, r.den)
                   /\ (\A i \in 1..st.n : st.known[i]) => r.fk
=============================================================================
