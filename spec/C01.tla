--------------------------------- MODULE C01 ---------------------------------
(* Field-number arithmetic: recorded operations of the implementation must *)
(* be the arithmetic of Field.tla, in every operator form.                 *)
EXTENDS TraceBase, Field

Panic(r) == r.k = "panic"
\* value specified for a binary operation; "undefined" is division by zero
BinDefined(op, b) == op # "div" \/ b # F0
BinSpec(p, op, a, b) == CASE op = "add" -> FAdd(p, a, b)
                          [] op = "sub" -> FSub(p, a, b)
                          [] op = "mul" -> FMul(p, a, b)
                          [] op = "div" -> FDiv(p, a, b)

\* the result record of a unary operation: [k, v]
UnAccepts(p, op, a, r) ==
  CASE op \in {"neg_v", "neg_r"} -> r.k = "num" /\ r.v = FNeg(p, a)
    [] op = "double" -> r.k = "num" /\ r.v = FAdd(p, a, a)
    [] op = "square" -> r.k = "num" /\ r.v = FMul(p, a, a)
    [] op = "inverse" -> IF a = F0 THEN r.k = "panic"
                         ELSE r.k = "num" /\ FIsElem(p, r.v) /\ FMul(p, a, r.v) = F1
    [] op = "sqrt" -> IF FIsSquare(p, a) THEN r.k = "num" /\ FIsElem(p, r.v) /\ FMul(p, r.v, r.v) = a
                      ELSE r.k = "none"
    [] op = "is_zero" -> r.k = "bool" /\ r.v = (a = F0)
    [] op = "is_odd"  -> r.k = "bool" /\ r.v = FIsOdd(a)
    [] op = "is_even" -> r.k = "bool" /\ r.v = ~ FIsOdd(a)

Accepts(e) ==
  CASE e.t = "row" ->   \* tiny field: results for all second operands, -1 is a panic
         \A b \in 0..(e.p - 1) :
            e.row[b+1] = IF BinDefined(e.op, b) THEN BinSpec(FPrime(e.p), e.op, e.a, b) ELSE -1
    [] e.t = "eqrow" -> \A b \in 0..(e.p - 1) : e.row[b+1] = (e.a = b)
    [] e.t = "bin" -> IF BinDefined(e.op, e.b)
                      THEN e.r.k = "ok" /\ e.r.v = BinSpec(FPrime(e.p), e.op, e.a, e.b)
                      ELSE e.r.k = "panic"
    [] e.t = "eq" -> e.r = (e.a = e.b)
    [] e.t = "un" -> UnAccepts(FPrime(e.p), e.op, e.a, e.r)
    [] e.t = "consts" -> e.zero = F0 /\ e.one = F1 /\ e.minusone = FNeg(FPrime(e.p), F1)

Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
