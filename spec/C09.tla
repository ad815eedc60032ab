--------------------------------- MODULE C09 ---------------------------------
(* Native Poseidon: parameter derivation, the permutation, salted hashing. *)
EXTENDS TraceBase, Poseidon, Seed, Draw
Params == ndJsonDeserialize(IOEnv.PARAMS)

\* decimal digits of n as ASCII
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* "fawkes_poseidon(t=T,f=F,p=P)"
ParamSalt(t, f, p) == <<102, 97, 119, 107, 101, 115, 95, 112, 111, 115, 101, 105, 100, 111, 110, 40, 116, 61>> \o Dec(t)
   \o <<44, 102, 61>> \o Dec(f) \o <<44, 112, 61>> \o Dec(p) \o <<41>>
RECURSIVE DrawSeq(_, _, _, _, _)
DrawSeq(p, tail, pos, want, k) == \* the recorded elements want[k..] are those drawn from pos on
  IF k > Len(want) THEN TRUE
  ELSE LET d == Draw(p, tail, pos) IN d[1] = want[k] /\ DrawSeq(p, tail, d[2], want, k + 1)
RECURSIVE Flatten(_, _)
Flatten(m, i) == IF i > Len(m) THEN <<>> ELSE m[i] \o Flatten(m, i + 1)
ParamsOK(f, P, t, fr, pr) ==
  /\ P.t = t /\ P.f = fr /\ P.p = pr
  /\ Len(P.c) = fr + pr /\ Len(P.m) = t /\ \A i \in 1..t : Len(P.m[i]) = t
  /\ DrawSeq(FPrime(f), SaltTail(TRUE, ParamSalt(t, fr, pr)), 0, P.c \o Flatten(P.m, 1), 1)

Accepts(e) ==
  LET P == Params[e.k]
      p == FPrime(P.field)
  IN
  CASE e.t = "params" -> ParamsOK(P.field, P.prm, e.nt, e.nf, e.np)
    [] e.t = "same" -> Params[e.k].prm = Params[e.k2].prm   \* built again
    [] e.t = "hash" -> IF PoseidonDefined(P.prm, e.in) THEN e.r.k = "ok" /\ e.r.v = PoseidonHash(p, P.prm, e.in)
                       ELSE e.r.k = "panic"
    [] e.t = "salted" -> IF SaltedDefined(P.prm, e.in)
                         THEN e.r.k = "ok" /\ e.r.v = PoseidonHash(p, P.prm, Append(e.in, FromSeed(p, e.seed)))
                         ELSE e.r.k = "panic"
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
