----------------------------- MODULE CurveParams -----------------------------
(* The two built-in curves.  d is -168696/168700 and -10240/10241; the base *)
(* point is derived in C07.tla, the other modules take it from the trace.  *)
EXTENDS Curve
CurveTab == [
  bn  |-> [p |-> FPrime("bn_fr"),  q |-> FPrime("bn_fs"),
           d |-> FDiv(FPrime("bn_fr"), FNeg(FPrime("bn_fr"), BOfNat(168696)), BOfNat(168700)),
           u |-> BOfNat(337401)],
  bls |-> [p |-> FPrime("bls_fr"), q |-> FPrime("bls_fs"),
           d |-> FDiv(FPrime("bls_fr"), FNeg(FPrime("bls_fr"), BOfNat(10240)), BOfNat(10241)),
           u |-> BOfNat(81929)]]
CurveOf(n) == CurveTab[n]
=============================================================================
