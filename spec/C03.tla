--------------------------------- MODULE C03 ---------------------------------
(* Encodings of numbers, fixed-length vectors, points and Merkle proofs.   *)
EXTENDS TraceBase, Codec

Accepts(e) ==
  CASE e.t = "enc" -> IsDoc(e.ty, e.v, e.doc)
    [] e.t = "dec" -> Same(e.r, Decode(e.ty, e.doc))
    [] e.t = "odd" ->  \* text with a sign or underscores: an error, or the number its digits denote
         \/ e.r.k = "err"
         \/ LET ds == SelectSeq(e.s, Digit)
            IN (\A i \in 1..Len(e.s) : Digit(e.s[i]) \/ Odd(e.s[i])) /\ Same(e.r, DecStr(FPrime(e.p), ds))
    [] e.t = "benc" -> Same(e.r, OkV(FToDigitsLE(e.v, 256, Width(FPrime(e.p)))))
    [] e.t = "bdec" -> LET s == BinDec(FPrime(e.p), e.bs, e.exact)
                       IN Same(e.r, s) /\ (s.k = "ok" => e.used = Width(FPrime(e.p)))
    [] e.t = "collect" -> IF e.n = e.len THEN e.r.k = "ok" /\ e.r.v = e.items ELSE e.r.k = "panic"
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
