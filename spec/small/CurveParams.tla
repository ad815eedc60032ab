----------------------------- MODULE CurveParams -----------------------------
EXTENDS Curve
CurveTab == [
  c73  |-> [p |-> 73,  d |-> 5,  q |-> 11, u |-> 5, g |-> <<1, 6>>],
  c97  |-> [p |-> 97,  d |-> 7,  q |-> 13, u |-> 5, g |-> <<11, 81>>],
  c89  |-> [p |-> 89,  d |-> 33, q |-> 11, u |-> 3, g |-> <<1, 53>>],
  c101 |-> [p |-> 101, d |-> 12, q |-> 11, u |-> 2, g |-> <<2, 54>>],
  \* only for membership tests
  c5   |-> [p |-> 5,  d |-> 2, q |-> 1, u |-> 2, g |-> <<0, 1>>],
  c13  |-> [p |-> 13, d |-> 2, q |-> 1, u |-> 2, g |-> <<0, 1>>]]
CurveOf(n) == CurveTab[n]
Sqrt(p, a) == FSqrt(p, a)
\* all points
PointsTab == [n \in DOMAIN CurveTab |-> {P \in (0..(CurveTab[n].p - 1)) \X (0..(CurveTab[n].p - 1)) : OnCurve(CurveTab[n], P)}]
SubgroupTab == [n \in DOMAIN CurveTab |-> {P \in PointsTab[n] : EdMul(CurveTab[n], P, CurveTab[n].q) = EdZero}]
\* the curve used with each prime
NameOf(p) == CHOOSE n \in DOMAIN CurveTab : CurveTab[n].p = p
=============================================================================
