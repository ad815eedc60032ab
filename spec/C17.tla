--------------------------------- MODULE C17 ---------------------------------
(* Reading composite signals.  leaves are the components in declaration    *)
(* order as the harness sees them: [c constant, k value known, v value].   *)
(* value and konst are what the composite's read-out gives, flattened.     *)
EXTENDS TraceBase, Field
Vs(ls) == [i \in 1..Len(ls) |-> ls[i].v]
Read(r, some, ls) == r.some = some /\ (some => r.v = Vs(ls))
Accepts(e) ==
  CASE e.t = "read" -> /\ Read(e.value, \A i \in 1..Len(e.leaves) : e.leaves[i].k, e.leaves)
                       /\ Read(e.konst, \A i \in 1..Len(e.leaves) : e.leaves[i].c, e.leaves)
                       /\ e.flat   \* flattening gives the components themselves
    \* embedding a constant: each component is its constant, nothing is allocated
    [] e.t = "const" -> /\ e.nvars = 0 /\ e.ncons = 0
                        /\ Len(e.leaves) = Len(e.vals)
                        /\ \A i \in 1..Len(e.leaves) : e.leaves[i].c /\ e.leaves[i].k /\ e.leaves[i].v = e.vals[i]
    \* allocation: one fresh variable per component and nothing else
    [] e.t = "alloc" -> /\ e.nvars = Len(e.vals)
                        /\ e.pub = 0
                        /\ e.distinct
                        /\ \A i \in 1..Len(e.leaves) : ~ e.leaves[i].c /\ e.leaves[i].k = e.known
                                                       /\ (e.known => e.leaves[i].v = e.vals[i])
    \* publishing: one public input per component
    [] e.t = "publish" -> e.pub = e.n
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
