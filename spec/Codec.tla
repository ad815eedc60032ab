-------------------------------- MODULE Codec --------------------------------
(* Encodings.  A JSON document is a tree                                   *)
(*   [k |-> "str", v |-> character codes] | [k |-> "bool", v |-> b]        *)
(*   [k |-> "list", v |-> trees] | [k |-> "obj", v |-> <<name, tree>> s]   *)
(*   [k |-> "other"]                                                       *)
(* a type is [k |-> "num", p] | [k |-> "bool"] | [k |-> "vec", n, e]       *)
(*   | [k |-> "tup", e |-> types] | [k |-> "list", e]                      *)
(*   | [k |-> "obj", f |-> << <<name, type>>, ... >>].                     *)
(* Decode(ty, doc) is "err" or the value; IsDoc(ty, value, doc) says that  *)
(* doc is the encoding of the value.  BinOf and BinPrefix are the compact  *)
(* binary form.                                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Seed

Err == [k |-> "err", v |-> 0]
OkV(v) == [k |-> "ok", v |-> v]
\* equality of outcomes (TLC cannot compare the v of different kinds)
Same(r, s) == r.k = s.k /\ (r.k = "ok" => r.v = s.v)
Digit(c) == c \in 48..57
Digits(cs) == [i \in 1..Len(cs) |-> cs[i] - 48]
\* characters the decimal parser tolerates besides digits (plus sign, underscore): value not specified
Odd(c) == c \in {43, 95}
Plain(cs) == Len(cs) > 0 /\ \A i \in 1..Len(cs) : Digit(cs[i])
Fits(p, ds) == \* the number denoted is below p: its digits are those of its residue
  LET a == FOfDigitsBEMod(p, ds, 10) IN Rev(FToDigitsLE(a, 10, Len(ds))) = ds
DecStr(p, cs) == IF Plain(cs) THEN (IF Fits(p, Digits(cs)) THEN OkV(FOfDigitsBEMod(p, Digits(cs), 10)) ELSE Err) ELSE Err

CanonCodes(p, a, cs) == /\ Plain(cs) /\ (Len(cs) = 1 \/ cs[1] # 48)
                        /\ DecStr(p, cs) = OkV(a)

RECURSIVE Decode(_, _)
All(rs) == IF \E i \in 1..Len(rs) : rs[i].k = "err" THEN Err ELSE OkV([i \in 1..Len(rs) |-> rs[i].v])
Field1(doc, name) == LET m == SelectSeq(doc.v, LAMBDA x : x[1] = name) IN IF Len(m) = 1 THEN m[1][2] ELSE [k |-> "missing"]
Decode(ty, doc) ==
  CASE ty.k = "num" -> IF doc.k = "str" THEN DecStr(FPrime(ty.p), doc.v) ELSE Err
    [] ty.k = "bool" -> IF doc.k = "bool" THEN OkV(doc.v) ELSE Err
    [] ty.k = "vec" -> IF doc.k = "list" /\ Len(doc.v) = ty.n
                       THEN All(TLCEval([i \in 1..Len(doc.v) |-> Decode(ty.e, doc.v[i])])) ELSE Err
    [] ty.k = "tup" -> IF doc.k = "list" /\ Len(doc.v) = Len(ty.e)
                       THEN All(TLCEval([i \in 1..Len(doc.v) |-> Decode(ty.e[i], doc.v[i])])) ELSE Err
    [] ty.k = "list" -> IF doc.k = "list" THEN All(TLCEval([i \in 1..Len(doc.v) |-> Decode(ty.e, doc.v[i])])) ELSE Err
    [] ty.k = "obj" -> IF doc.k = "obj"
                       THEN All(TLCEval([i \in 1..Len(ty.f) |-> Decode(ty.f[i][2], Field1(doc, ty.f[i][1]))])) ELSE Err

\* doc is the canonical encoding of a value of type ty
RECURSIVE IsDoc(_, _, _)
IsDoc(ty, v, doc) ==
  CASE ty.k = "num" -> doc.k = "str" /\ CanonCodes(FPrime(ty.p), v, doc.v)
    [] ty.k = "bool" -> doc.k = "bool" /\ doc.v = v
    [] ty.k = "vec" -> doc.k = "list" /\ Len(doc.v) = ty.n /\ \A i \in 1..ty.n : IsDoc(ty.e, v[i], doc.v[i])
    [] ty.k = "tup" -> doc.k = "list" /\ Len(doc.v) = Len(ty.e) /\ \A i \in 1..Len(ty.e) : IsDoc(ty.e[i], v[i], doc.v[i])
    [] ty.k = "list" -> doc.k = "list" /\ Len(doc.v) = Len(v) /\ \A i \in 1..Len(v) : IsDoc(ty.e, v[i], doc.v[i])
    [] ty.k = "obj" -> doc.k = "obj" /\ Len(doc.v) = Len(ty.f)
                       /\ \A i \in 1..Len(ty.f) : IsDoc(ty.f[i][2], v[i], Field1(doc, ty.f[i][1]))

Width(p) == IF FBitLen(p) <= 8 THEN 1 ELSE 8 * ((FBitLen(p) + 63) \div 64)
\* fixed-width binary form: exact = the whole buffer has to be used
BinDec(p, bs, exact) ==
  LET w == Width(p) IN
  IF Len(bs) < w \/ (exact /\ Len(bs) > w) THEN Err
  ELSE LET be == [i \in 1..w |-> bs[w + 1 - i]]
           a == FOfDigitsBEMod(p, be, 256)
       IN IF FToDigitsLE(a, 256, w) = SubSeq(bs, 1, w) THEN OkV(a) ELSE Err
=============================================================================
