--------------------------------- MODULE C04 ---------------------------------
(* Proof and verifying-key encodings of the two pairing engines.           *)
EXTENDS TraceBase, Keys

\* an object built from decoded data: exactly when all its points are group elements
Build(E, kind, d, r) ==
  IF d.k = "err" THEN r.k = "err"
  ELSE IF Valid(E, kind, d.v) THEN r.k = "ok" /\ r.v = d.v ELSE r.k = "panic"
Accepts(e) ==
  LET E == Engine[e.eng] IN
  CASE e.t = "enc" -> /\ IsDoc(ObjTy(E, e.kind), ObjData(e.kind, e.o), e.doc)
                      /\ e.bin = ObjBin(E, e.kind, e.o)
                      /\ e.comp = ObjComp(E, e.kind, e.o)
    [] e.t = "doc" -> LET d == Decode(ObjTy(E, e.kind), e.doc)
                      IN Build(E, e.kind, IF d.k = "ok" THEN OkV(ObjOfData(e.kind, d.v)) ELSE d, e.r)
    [] e.t = "bin" -> Build(E, e.kind, ObjOfBin(E, e.kind, e.bs), e.r)
    [] e.t = "comp" -> Same(e.r, ObjOfComp(E, e.kind, e.bs))
    \* a key shortened from the full key of a setup has the full key's points
    [] e.t = "trunc" -> e.r = e.o
Init == TraceInit
Next == TraceNext(Accepts)
=============================================================================
