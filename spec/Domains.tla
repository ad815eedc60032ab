------------------------------- MODULE Domains -------------------------------
(* Domains of circuit inputs in the search of Prover.tla (tiny fields).    *)
EXTENDS Integers, Sequences, CurveParams
MontTab == [n \in DOMAIN CurveTab |-> {MontOf(CurveTab[n], P) : P \in PointsTab[n] \ {EdZero}}]
Domain(d, f) == CASE d = "none" -> {<<>>}
                  [] d = "F" -> {<<x>> : x \in 0..(f - 1)}
                  [] d = "bit" -> {<<0>>, <<1>>}
                  [] d = "curve" -> PointsTab[NameOf(f)]
                  [] d = "subgroup" -> SubgroupTab[NameOf(f)]
                  [] d = "mont" -> MontTab[NameOf(f)]
=============================================================================
