------------------------------- MODULE Prover -------------------------------
(***************************************************************************)
(* The malicious prover.  For every circuit recorded from the real gadgets *)
(* over a tiny field, the prover chooses values for all variables, inputs  *)
(* and auxiliary ones, one step of the circuit's plan at a time; a value   *)
(* is rejected by the constraints it completes.  Every complete satisfying *)
(* assignment must be one the gadget's specification allows (Sound).       *)
(*                                                                         *)
(* The state is the circuit, the number of steps done, and the values of   *)
(* the variables that are still needed (those in unchecked constraints,    *)
(* inputs and outputs); variables no longer needed are forgotten, which    *)
(* merges states and loses nothing.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json, R1CS, Gadgets, Domains

Circuits == ndJsonDeserialize(IOEnv.TRACE)
NC == Len(Circuits)
Live == {c \in 1..NC : ~ Circuits[c].panic}
Step(c, k) == Circuits[c].steps[k]
NSteps(c) == Len(Circuits[c].steps)

\* The plan is only a search order, but a wrong one must not hide anything: every variable is
\* assigned, every constraint is checked, and a solved constraint is affine in its variable.
SeqSet(s) == {s[i] : i \in 1..Len(s)}
PlanOK(c) ==
  LET C == Circuits[c] IN
  /\ UNION {SeqSet(Step(c, k).v) : k \in 1..NSteps(c)} = 1..C.n
  /\ UNION {SeqSet(Step(c, k).c) : k \in 1..NSteps(c)} = 1..Len(C.cons)
  /\ \A k \in 1..NSteps(c) :
       Step(c, k).solve # 0 => /\ Len(Step(c, k).v) = 1
                               /\ Step(c, k).solve \in SeqSet(Step(c, k).c)
                               /\ AffineIn(C.cons[Step(c, k).solve], Step(c, k).v[1])
                               /\ Step(c, k).d = "F"
ASSUME \A c \in Live : PlanOK(c) \/ ~ PrintT(<<"bad plan", c>>)

VARIABLES cir, step, asg
vars == <<cir, step, asg>>

Prime(c) == FPrime(Circuits[c].p)
OK(c, k, a) == \A i \in SeqSet(Step(c, k).c) : Satisfied(Circuits[c], Circuits[c].cons[i], a)
Keep(c, k, a) == [v \in SeqSet(Step(c, k).keep) |-> a[v]]

\* values the step's variables can take: all tuples of the domain, or the solution of an affine
\* constraint in the one variable
Candidates(c, k, a) ==
  LET s == Step(c, k)
      p == Prime(c)
  IN IF s.solve = 0 THEN Domain(s.d, Circuits[c].p)
     ELSE LET v == s.v[1]
              r0 == Residual(Circuits[c], Circuits[c].cons[s.solve], (v :> F0) @@ a)
              r1 == Residual(Circuits[c], Circuits[c].cons[s.solve], (v :> F1) @@ a)
              al == FSub(p, r1, r0)
          IN IF al # F0 THEN {<<FDiv(p, FNeg(p, r0), al)>>} ELSE Domain("F", Circuits[c].p)
\* When the search is too large (check.py then sets BEAM), a random part of each circuit's states of
\* each step is followed: all while there are few, about BEAM * (1 + ln(n / BEAM)) of n.
BeamK == TLCEval(atoi(IOEnv.BEAM))
MaxSteps == TLCEval(LET N == {NSteps(c) : c \in 1..NC} \cup {0} IN CHOOSE m \in N : \A n \in N : n <= m)
Slot(c, k) == 100 + c * (MaxSteps + 1) + k
ASSUME BeamK = 0 \/ (/\ TLCSet(Slot(NC, MaxSteps), 0)
                     /\ \A c \in Live : \A k \in 1..NSteps(c) : TLCSet(Slot(c, k), 0))
Follow(c, k) == IF BeamK = 0 THEN TRUE
                ELSE LET n == TLCGet(Slot(c, k))
                     IN TLCSet(Slot(c, k), n + 1) /\ (IF n < BeamK THEN TRUE ELSE RandomElement(0..n) < BeamK)
Bind(vs, t) == [v \in SeqSet(vs) |-> t[CHOOSE i \in 1..Len(vs) : vs[i] = v]]

Init == cir \in Live /\ step = 0 /\ asg = <<>>
Next == /\ step < NSteps(cir)
        /\ step' = step + 1
        /\ cir' = cir
        /\ \E t \in Candidates(cir, step + 1, asg) :
              LET a == Bind(Step(cir, step + 1).v, t) @@ asg
              IN /\ OK(cir, step + 1, a)
                 /\ Follow(cir, step + 1)
                 /\ asg' = IF step + 1 = NSteps(cir) THEN a ELSE Keep(cir, step + 1, a)

Ins  == TLCEval([i \in 1..Len(Circuits[cir].ins) |-> LCEval(Circuits[cir], Circuits[cir].ins[i], asg)])
Outs == TLCEval([i \in 1..Len(Circuits[cir].outs) |-> LCEval(Circuits[cir], Circuits[cir].outs[i], asg)])
Sound == step = NSteps(cir) => (Rel(Circuits[cir], Ins, Outs)
                                \/ ~ PrintT(<<"REJECTED", cir, "in", Ins, "out", Outs, "assignment", asg>>))
=============================================================================
