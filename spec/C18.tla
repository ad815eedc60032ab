--------------------------------- MODULE C18 ---------------------------------
(***************************************************************************)
(* One shape.  Circuits (recorded in setup mode, no witness) are in the    *)
(* file CIRCUITS; events are                                               *)
(*  rec   the same circuit synthesised with a witness (w: all values)      *)
(*  bell  what the proving back end received through the adapter, setup or *)
(*        proving mode                                                     *)
(*  test  the test constraint system on that witness                       *)
(*  prog  a program of CSModel.tla replayed in both                        *)
(***************************************************************************)
EXTENDS TraceBase, CS
Circuits == ndJsonDeserialize(IOEnv.CIRCUITS)

\* a recorded linear combination <<variable, index into tab>> as pairs <<variable, coefficient>>
Open(tab, lc) == [i \in 1..Len(lc) |-> <<lc[i][1], tab[lc[i][2]]>>]
OpenCon(tab, c) == <<Open(tab, c[1]), Open(tab, c[2]), Open(tab, c[3])>>
SameCons(names, s, e) ==
  /\ Len(e.cons) = Len(s.cons)
  /\ \A i \in 1..Len(s.cons) : \A j \in 1..3 :
        ToSet(Open(e.tab, e.cons[i][j])) = Renamed(names, s.cons[i][j])
\* the back end received exactly the state s: variables in order and kind, values, constraints
Received(s, e) ==
  /\ e.kinds = s.kinds
  /\ e.proving => /\ Len(e.vals) = Len(s.val)
                  /\ \A i \in 1..Len(s.val) : s.known[i] /\ e.vals[i] = s.val[i]
  /\ SameCons(CSNames(s.kinds), s, e)
\* the test system: panics at the first constraint the witness refutes, counts all up to there
TestOk(p, s, e) ==
  LET bad == {i \in 1..Len(s.cons) : Refuted(p, s, s.cons[i])}
  IN e.panic = (bad # {}) /\ (bad = {} => e.count = Len(s.cons))

Shape(C, w) == [kinds |-> C.kinds, known |-> [i \in 1..C.n |-> Len(w) > 0], val |-> w,
                cons |-> [i \in 1..Len(C.cons) |-> OpenCon(C.tab, C.cons[i])]]
\* the program's values and coefficients arrive as field elements
Accepts(e) ==
  CASE e.t = "rec" -> LET C == Circuits[e.c]
                      IN IF e.panic THEN C.partial
                         ELSE e.kinds = C.kinds /\ e.cons = C.cons /\ e.tab = C.tab /\ Len(e.w) = C.n
    [] e.t = "bell" -> ~ e.panic /\ Received(Shape(Circuits[e.c], e.w), e)
    [] e.t = "test" -> LET C == Circuits[e.c] IN TestOk(FPrime(C.p), Shape(C, e.w), e)
    [] e.t = "many" -> e.r.panic = (e.bad # 0) /\ (e.bad = 0 => e.r.count = e.n)
    [] e.t = "prog" -> LET s == CSRun(e.ops)
                       IN /\ TestOk(FPrime(e.p), s, e.test)
                          /\ \A i \in 1..Len(e.bell) : ~ e.bell[i].panic /\ Received(s, e.bell[i])
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
