--------------------------------- MODULE C12 ---------------------------------
(* Recorded programs over symbolic numbers are runs of the register        *)
(* machine of CNum.tla.                                                    *)
EXTENDS TraceBase, CNum, SequencesExt

Init0(p, e) == LET s == [n |-> Len(e.known), known |-> e.known, val |-> e.vals, nc |-> 0, regs |-> <<>>]
               IN TLCEval([s EXCEPT !.regs = [i \in 1..Len(e.init) |->
                     IF e.init[i].i > 0 THEN VarReg(s, e.init[i].i) ELSE ConstReg(p, s.n, e.init[i].v)]])

\* an observed register: lc terms <<variable, coefficient>>, kinds of variables for the order
Key(kinds, i) == IF i = 0 THEN <<0, 0>> ELSE IF kinds[i] THEN <<0, i>> ELSE <<1, i>>
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
Coef(lc, i) == LET m == SelectSeq(lc, LAMBDA t : t[1] = i) IN IF Len(m) = 0 THEN F0 ELSE m[1][2]
ObsOK(p, s, kinds, r, ob) ==
  /\ \A i \in 1..Len(ob.lc) : ob.lc[i][1] \in 0..s.n
  /\ \A i \in 1..(Len(ob.lc) - 1) : Less(Key(kinds, ob.lc[i][1]), Key(kinds, ob.lc[i+1][1]))
  /\ \A i \in 0..s.n : Coef(ob.lc, i) = r.den[i+1]
  /\ ob.isc = IsConstDen(r.den)
  /\ (ob.isc => ob.c = r.den[1])
  /\ ((\A i \in 1..s.n : s.known[i]) => ob.k)
  /\ (ob.k => (Evaluable(s, r.den) /\ ob.v = Eval(p, s, r.den) /\ (r.fk => ob.v = r.fv)))

RECURSIVE Run(_, _, _, _)
Run(p, e, s, i) ==
  IF i > Len(e.ops) THEN e.panic = 0
  ELSE LET op == e.ops[i] IN
       IF Undefined(p, s, op) THEN e.panic = i \/ (i <= Len(e.obs) /\ ~ e.obs[i].k)   \* division by zero never yields a value
       ELSE /\ e.panic # i
            /\ LET s2 == Step(p, s, op)
               IN /\ e.nv[i] = s2.n /\ e.nc[i] = s2.nc
                  /\ ObsOK(p, s2, e.kinds, s2.regs[op.d], e.obs[i])
                  /\ RegOK(p, s2, s2.regs[op.d])
                  /\ Run(p, e, s2, i + 1)
\* long sums: the coefficients of the terms <<variable, coefficient>>, in variables 1..n
DenOf(p, n, terms) ==
  LET put(d, t) == [d EXCEPT ![t[1]] = FAdd(p, @, t[2])]
  IN TLCEval(FoldLeft(put, TLCEval([i \in 1..n |-> F0]), terms))
SumObs(p, e, den, ob) ==
  LET n == Len(den)
      ev(acc, i) == FAdd(p, acc, FMul(p, den[i], e.vals[i]))
      lc == SelectSeq(ob.lc, LAMBDA t : t[1] # 0)
  IN /\ \A i \in 1..Len(ob.lc) : ob.lc[i][1] \in 0..n /\ (ob.lc[i][1] = 0 => ob.lc[i][2] = F0)
     /\ \A i \in 1..(Len(ob.lc) - 1) : Less(Key(e.kinds, ob.lc[i][1]), Key(e.kinds, ob.lc[i+1][1]))
     /\ DenOf(p, n, lc) = den
     /\ ob.k /\ ob.v = FoldLeft(ev, F0, [i \in 1..n |-> i])
LongOK(p, e) ==
  LET n == Len(e.vals)
      d1 == DenOf(p, n, e.t1)
      d2 == DenOf(p, n, e.t2)
      d3 == TLCEval([i \in 1..n |-> IF e.sub THEN FSub(p, d1[i], d2[i]) ELSE FAdd(p, d1[i], d2[i])])
  IN /\ Len(e.obs) = 3 /\ e.nv = n /\ e.nc = 0
     /\ SumObs(p, e, d1, e.obs[1]) /\ SumObs(p, e, d2, e.obs[2]) /\ SumObs(p, e, d3, e.obs[3])
Accepts(e) == LET p == FPrime(e.p)
              IN IF "t1" \in DOMAIN e THEN LongOK(p, e) ELSE Run(p, e, Init0(p, e), 1)
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
