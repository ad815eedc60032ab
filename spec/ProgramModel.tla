---------------------------- MODULE ProgramModel ----------------------------
(***************************************************************************)
(* Programs composed of gadgets, over a tiny field: a machine whose state  *)
(* is the values computed so far, each with its type, for one assignment   *)
(* of the inputs.  Every action applies one gadget to values that are      *)
(* there; assertions are chosen among those that hold (the last operation  *)
(* may fail).  Finished programs go to PROGRAMS, for the harness to build  *)
(* from the real gadgets.                                                  *)
(* Types: n number, b boolean, c and s abscissa of a point of the curve or *)
(* the subgroup, whose ordinate (y) is the next value.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, IOUtils, Json, Gadgets

VARIABLES p, nin, in0, v, t, ops, len, fin
vars == <<p, nin, in0, v, t, ops, len, fin>>
Rnd(S) == RandomElement(S)
Curves == {73, 97}
Big == p \in Curves
Curve == IF Big THEN NameOf(p) ELSE "none"

\* inputs: kinds such that all their assignments can be searched
Shapes(q) == CASE q = 5 -> {<<"n", "n">>, <<"n", "n", "b">>, <<"n", "b", "b">>, <<"n", "n", "n">>}
               [] q = 7 -> {<<"n", "n">>, <<"n", "n", "b">>, <<"n", "b">>}
               [] q \in {11, 13} -> {<<"n", "b", "b">>, <<"n", "b">>, <<"n", "n">>}
               [] q = 17 -> {<<"n", "b">>, <<"n">>}
               [] OTHER -> {<<"n">>, <<"n", "b">>, <<"n", "b", "b">>}
Init == p = 0 /\ nin = <<>> /\ in0 = <<>> /\ v = <<>> /\ t = <<>> /\ ops = <<>> /\ len = 0 /\ fin = FALSE
Begin == /\ p = 0
         /\ \E q \in {Rnd({5, 7, 11, 13, 17, 73, 97})} : \E sh \in {Rnd(Shapes(q))} :
              \E vals \in {TLCEval([i \in 1..Len(sh) |-> Rnd(IF sh[i] = "b" THEN 0..1 ELSE 0..(q - 1))])} :
                 /\ p' = q /\ nin' = sh /\ in0' = vals /\ v' = vals /\ t' = sh
                 /\ len' = Rnd(4..(IF q \in Curves THEN 8 ELSE 12))
         /\ UNCHANGED <<ops, fin>>

\* which values an operation reads: the recent ones more often
All == 1..Len(v)
Pick(S) == IF Rnd(1..3) = 1 THEN Rnd(S) ELSE Rnd({i \in S : Cardinality({j \in S : j > i}) < 3})
Of(ty) == {i \in All : t[i] = ty}
Bits == Of("b")
Pts == Of("c") \cup Of("s")
Small == {0, 1, 2, p - 1, Rnd(0..(p - 1))}
Cir(o, par) == [p |-> p, g |-> o, par |-> par]
Can == p # 0 /\ ~ fin /\ Len(ops) < len
Apply(o, par, a, types) ==
  LET g == Cir(o, par)
      x == TLCEval([i \in 1..Len(a) |-> v[a[i]]])
  IN /\ Can /\ Pre1(g, x) /\ Holds1(g, x)
     /\ LET out == TLCEval(Out1(g, x))
        IN /\ v' = v \o out
           /\ t' = t \o (IF types = <<"b*">> THEN [i \in 1..Len(out) |-> "b"] ELSE types)
           /\ ops' = Append(ops, [o |-> o, par |-> par, a |-> a, r |-> Len(v) + 1, m |-> Len(out)])
     /\ UNCHANGED <<p, nin, in0, len, fin>>
K(k) == [k |-> k]
None == [k |-> 0]

Linear == Can /\ \E o \in {Rnd({"add", "sub"})} : \E a \in {Pick(All)} : \E b \in {Pick(All)} : Apply(o, None, <<a, b>>, <<"n">>)
Scale == Can /\ \E o \in {Rnd({"addc", "mulc"})} : \E k \in {Rnd(Small)} : \E a \in {Pick(All)} : Apply(o, K(k), <<a>>, <<"n">>)
Unary == Can /\ \E o \in {Rnd({"neg", "square"})} : \E a \in {Pick(All)} : Apply(o, None, <<a>>, <<"n">>)
Const == Can /\ Len(v) < 6 /\ \E k \in {Rnd(Small)} : Apply("const", K(k), <<>>, <<"n">>)
ConstBit == Can /\ Len(v) < 6 /\ \E k \in {Rnd(0..1)} : Apply("const", K(k), <<>>, <<"b">>)
Product == Can /\ \E o \in {Rnd({"mul", "mul", "div"})} : \E a \in {Pick(All)} : \E b \in {Pick(All)} : Apply(o, None, <<a, b>>, <<"n">>)
Test == Can /\ \E a \in {Pick(All)} : \E b \in {Pick(All)} : Apply("is_eq", None, <<a, b>>, <<"b">>)
TestZero == Can /\ \E a \in {Pick(All)} : Apply("is_zero", None, <<a>>, <<"b">>)
NotBit == Can /\ Bits # {} /\ \E a \in {Pick(Bits)} : Apply("not", None, <<a>>, <<"b">>)
Logic == Can /\ Bits # {} /\ \E o \in {Rnd({"and", "or"})} : \E a \in {Pick(Bits)} : \E b \in {Pick(Bits)} : Apply(o, None, <<a, b>>, <<"b">>)
Choose == Can /\ Bits # {} /\ \E s \in {Pick(Bits)} : \E a \in {Pick(All)} : \E b \in {Pick(All)} :
            Apply("switch", None, <<s, a, b>>, <<IF t[a] = "b" /\ t[b] = "b" THEN "b" ELSE "n">>)
ChooseBit == Can /\ Bits # {} /\ \E s \in {Pick(Bits)} : \E a \in {Pick(Bits)} : \E b \in {Pick(Bits)} : Apply("switch", None, <<s, a, b>>, <<"b">>)
Mux == Can /\ ~ Big /\ Bits # {} /\ \E a \in {Pick(Bits)} : \E b \in {Pick(Bits)} : \E c \in {Pick(Bits)} :
         \E tab \in {[i \in 1..8 |-> Rnd(0..(p - 1))]} : Apply("mux3", [tab |-> <<TLCEval(tab)>>], <<a, b, c>>, <<"n">>)
Width == FBitLen(p)
Split == Can /\ \E a \in {Pick(All)} : \E n \in {Rnd(1..Width)} : Apply("bits", [n |-> n], <<a>>, <<"b*">>)
Strict == Can /\ p > 10 /\ \E a \in {Pick(All)} : Apply("bits_strict", None, <<a>>, <<"b*">>)
\* some booleans in some order, possibly one of them repeatedly
Str(n) == IF Rnd(1..2) = 1 THEN [i \in 1..n |-> Pick(Bits)]
          ELSE LET s == SetToSeq(Bits) IN SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Join == Can /\ Bits # {} /\ \E n \in {Rnd(1..(Width + 1))} : \E s \in {Str(n)} : Apply("from_bits", None, TLCEval(s), <<"n">>)
Compare == Can /\ p > 10 /\ Bits # {} /\ \E n \in {Rnd(1..Width)} : \E s \in {Str(n)} : \E k \in {Rnd(Small)} :
             Apply("comp", [ct |-> k], TLCEval(s), <<"b">>)
Publish == Can /\ Len(ops) > 2 /\ \E a \in {Pick(All)} : Apply("publish", None, <<a>>, <<IF t[a] = "b" THEN "b" ELSE "n">>)
\* conditions that hold for the inputs at hand
AssertVal == Can /\ Len(ops) > 2 /\ \E a \in {Pick(All)} : Apply("assert_val", K(v[a]), <<a>>, <<>>)
AssertEq == Can /\ \E a \in {Pick(All)} : \E b \in {Rnd({j \in All : v[j] = v[a]})} : Apply("assert_eq", None, <<a, b>>, <<>>)
AssertOne == Can /\ \E o \in {Rnd({"assert_zero", "assert_nonzero", "assert_bit", "bool_true", "bool_false"})} :
               \E a \in {Pick(All)} : Apply(o, None, <<a>>, <<>>)
\* points
Pt(i) == <<i, i + 1>>
PtType(a, b) == IF t[a] = "s" /\ t[b] = "s" THEN <<"s", "y">> ELSE <<"c", "y">>
Liftable == {i \in All : Decompress(CurveOf(Curve), v[i]) # <<"none">>}
Lift == Can /\ Big /\ Liftable # {} /\ \E a \in {Pick(Liftable)} : Apply("decompress", [c |-> Curve], <<a>>, <<"s", "y">>)
Hash2Pt == Can /\ Big /\ Len(ops) < 2 /\ \E a \in {Pick(All)} : Apply("from_scalar", [c |-> Curve], <<a>>, <<"s", "y">>)
AddPt == Can /\ Pts # {} /\ \E a \in {Pick(Pts)} : \E b \in {Pick(Pts)} : Apply("ed_add", [c |-> Curve], Pt(a) \o Pt(b), PtType(a, b))
DoublePt == Can /\ Pts # {} /\ \E a \in {Pick(Pts)} : Apply("ed_double", [c |-> Curve], Pt(a), PtType(a, a))
CofPt == Can /\ Pts # {} /\ \E a \in {Pick(Pts)} : Apply("ed_cof", [c |-> Curve], Pt(a), <<"s", "y">>)
MulPt == Can /\ Of("s") # {} /\ Bits # {} /\ \E a \in {Pick(Of("s"))} : \E n \in {Rnd(1..4)} : \E s \in {Str(n)} :
           Apply("ed_mul", [c |-> Curve], Pt(a) \o TLCEval(s), <<"s", "y">>)
MemberPt == Can /\ Pts # {} /\ \E o \in {Rnd({"in_curve", "in_subgroup"})} : \E a \in {Pick(Pts)} : Apply(o, [c |-> Curve], Pt(a), <<>>)
MayBePt == Can /\ Big /\ \E a \in {Pick(All)} : \E b \in {Pick(All)} : Apply("in_curve", [c |-> Curve], <<a, b>>, <<>>)
\* hashes with arbitrary parameters
Prm(w) == [t |-> w, f |-> Rnd({0, 2}), p |-> Rnd(0..2), c |-> [i \in 1..4 |-> Rnd(0..(p - 1))],
           m |-> [i \in 1..w |-> [j \in 1..w |-> Rnd(0..(p - 1))]]]
Nums(n) == [i \in 1..n |-> Pick(All)]
Hash == Can /\ ~ Big /\ \E w \in {Rnd(1..3)} : \E n \in {Rnd(1..w)} : \E prm \in {Prm(w)} : \E a \in {Nums(n)} :
          Apply("poseidon", [prm |-> TLCEval(prm)], TLCEval(a), <<"n">>)
Tree == Can /\ ~ Big /\ \E n \in {Rnd(1..3)} : \E prm \in {Prm(2)} : \E a \in {Nums(n)} : Apply("mtree", [prm |-> TLCEval(prm)], TLCEval(a), <<"n">>)
Proof == Can /\ ~ Big /\ Bits # {} /\ \E n \in {Rnd(1..2)} : \E prm \in {Prm(2)} : \E a \in {Nums(n + 1)} : \E s \in {[i \in 1..n |-> Pick(Bits)]} :
           Apply("mproof", [prm |-> TLCEval(prm)], TLCEval(a) \o TLCEval(s), <<"n">>)

Emit(os) == Serialize(ToJson([p |-> p, kinds |-> nin, in |-> in0, ops |-> os]) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* the last operation may be an assertion that need not hold
Any1 == [o |-> Rnd({"assert_zero", "assert_nonzero", "assert_bit", "bool_true"}), par |-> None, a |-> <<Pick(All)>>, r |-> Len(v) + 1, m |-> 0]
Finish == /\ p # 0 /\ ~ fin /\ Len(ops) = len /\ fin' = TRUE
          /\ Emit(IF Rnd(1..4) = 1 THEN Append(ops, Any1) ELSE ops)
          /\ UNCHANGED <<p, nin, in0, v, t, ops, len>>
Next == \/ Begin \/ Linear \/ Scale \/ Unary \/ Const \/ ConstBit \/ Product \/ Test \/ TestZero \/ NotBit \/ Logic \/ Choose \/ ChooseBit
        \/ Mux \/ Split \/ Strict \/ Join \/ Compare \/ Publish \/ AssertVal \/ AssertEq \/ AssertOne
        \/ Lift \/ Hash2Pt \/ AddPt \/ DoublePt \/ CofPt \/ MulPt \/ MemberPt \/ MayBePt \/ Hash \/ Tree \/ Proof \/ Finish

\* what the types promise
Typed == /\ Len(t) = Len(v)
         /\ \A i \in All : /\ v[i] \in 0..(p - 1)
                           /\ t[i] = "b" => IsBit(v[i])
                           /\ t[i] = "c" => t[i + 1] = "y" /\ OnCurve(CurveOf(Curve), <<v[i], v[i + 1]>>)
                           /\ t[i] = "s" => t[i + 1] = "y" /\ InSubgroup(CurveOf(Curve), <<v[i], v[i + 1]>>)
\* the machine and the evaluation of the finished program agree
Replayable == fin => LET r == ProgRun([p |-> p, par |-> [ops |-> ops]], in0) IN r.pre /\ r.ok /\ r.v = v
=============================================================================
