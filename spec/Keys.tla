-------------------------------- MODULE Keys --------------------------------
(* Proofs and (truncated) verifying keys and their encodings.  A proof is  *)
(* the sequence of its points A (G1), B (G2), C (G1), a key alpha (G1),    *)
(* beta, gamma, delta (G2) and the list of input points (G1).              *)
EXTENDS PairingGroups

G1Ty(E) == [k |-> "tup", e |-> <<[k |-> "num", p |-> E.fq], [k |-> "num", p |-> E.fq]>>]
G2Ty(E) == LET n == [k |-> "num", p |-> E.fq]
               t == [k |-> "tup", e |-> <<n, n>>]
           IN [k |-> "tup", e |-> <<t, t>>]
ObjTy(E, kind) ==
  IF kind = "proof" THEN [k |-> "obj", f |-> << <<"a", G1Ty(E)>>, <<"b", G2Ty(E)>>, <<"c", G1Ty(E)>> >>]
  ELSE [k |-> "obj", f |-> << <<"alpha_g1", G1Ty(E)>>, <<"beta_g2", G2Ty(E)>>, <<"gamma_g2", G2Ty(E)>>,
                              <<"delta_g2", G2Ty(E)>>, <<"ic", [k |-> "list", e |-> G1Ty(E)]>> >>]
\* the group of each leading point
Groups(kind) == IF kind = "proof" THEN <<1, 2, 1>> ELSE <<1, 2, 2, 2>>
NHead(kind) == Len(Groups(kind))
Head4(kind, o) == SubSeq(o, 1, NHead(kind))
Ic(kind, o) == IF kind = "proof" THEN <<>> ELSE o[5]
ObjData(kind, o) ==
  LET h == [i \in 1..NHead(kind) |-> DataOf(Groups(kind)[i], o[i])]
      ic == Ic(kind, o)
  IN IF kind = "proof" THEN h ELSE Append(h, [i \in 1..Len(ic) |-> DataOf(1, ic[i])])
ObjOfData(kind, d) ==
  LET h == [i \in 1..NHead(kind) |-> OfData(Groups(kind)[i], d[i])]
  IN IF kind = "proof" THEN h ELSE Append(h, [i \in 1..Len(d[5]) |-> OfData(1, d[5][i])])
Valid(E, kind, o) == /\ \A i \in 1..NHead(kind) : InGroup(E, Groups(kind)[i], o[i])
                     /\ \A i \in 1..Len(Ic(kind, o)) : InGroup(E, 1, Ic(kind, o)[i])
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, 0>>
ObjBin(E, kind, o) ==
  Cat([i \in 1..NHead(kind) |-> BinPt(E, Groups(kind)[i], o[i])])
  \o (IF kind = "proof" THEN <<>>
      ELSE U32(Len(o[5])) \o Cat([i \in 1..Len(o[5]) |-> BinPt(E, 1, o[5][i])]))
ObjComp(E, kind, o) == Cat([i \in 1..NHead(kind) |-> CompPt(E, Groups(kind)[i], o[i])])
                       \o Cat([i \in 1..Len(Ic(kind, o)) |-> CompPt(E, 1, Ic(kind, o)[i])])

\* decoding the compact binary form to data: the numbers in order, or Err
GNums(kind, i) == 2 * Groups(kind)[i]
NumAt(E, bs, off) == IF off + E.w > Len(bs) THEN Err ELSE BinDec(E.q, SubSeq(bs, off + 1, off + E.w), TRUE)
NumsAt(E, bs, off, n) == All(TLCEval([i \in 1..n |-> NumAt(E, bs, off + (i - 1) * E.w)]))
PtOfNums(g, v) == IF g = 1 THEN OfData(1, <<v[1], v[2]>>)
                  ELSE OfData(2, << <<v[2], v[1]>>, <<v[4], v[3]>> >>)
ObjOfBin(E, kind, bs) ==
  LET offs == [i \in 1..(NHead(kind) + 1) |-> E.w * FoldLeft(LAMBDA a, j : a + GNums(kind, j), 0, [j \in 1..(i - 1) |-> j])]
      hs == TLCEval([i \in 1..NHead(kind) |-> NumsAt(E, bs, offs[i], GNums(kind, i))])
      end == offs[NHead(kind) + 1]
      h == All(hs)
      head == [i \in 1..NHead(kind) |-> PtOfNums(Groups(kind)[i], h.v[i])]
  IN IF h.k = "err" THEN Err
     ELSE IF kind = "proof" THEN IF Len(bs) = end THEN OkV(head) ELSE Err
     ELSE IF Len(bs) < end + 4 \/ bs[end + 4] # 0 THEN Err
     ELSE LET n == bs[end + 1] + 256 * bs[end + 2] + 65536 * bs[end + 3]
          IN IF Len(bs) # end + 4 + n * 2 * E.w THEN Err
             ELSE LET ic == All(TLCEval([i \in 1..n |-> NumsAt(E, bs, end + 4 + (i - 1) * 2 * E.w, 2)]))
                  IN IF ic.k = "err" THEN Err ELSE OkV(Append(head, [i \in 1..n |-> PtOfNums(1, ic.v[i])]))
\* decoding the compressed form: every point finite and in the group
ObjOfComp(E, kind, bs) ==
  LET sz(i) == E.w * Groups(kind)[i]
      offs == [i \in 1..(NHead(kind) + 1) |-> FoldLeft(LAMBDA a, j : a + sz(j), 0, [j \in 1..(i - 1) |-> j])]
      end == offs[NHead(kind) + 1]
      n == IF kind = "proof" THEN 0 ELSE (Len(bs) - end) \div E.w
      pts == TLCEval([i \in 1..(NHead(kind) + n) |->
               IF i <= NHead(kind) THEN DecompPt(E, Groups(kind)[i], SubSeq(bs, offs[i] + 1, offs[i + 1]))
               ELSE LET o == end + (i - NHead(kind) - 1) * E.w IN DecompPt(E, 1, SubSeq(bs, o + 1, o + E.w))])
  IN IF Len(bs) < end THEN Err
     ELSE IF \E i \in 1..Len(pts) : pts[i] = <<"none">> THEN Err
     ELSE IF kind = "proof" THEN OkV(pts)
     ELSE OkV(Append(SubSeq(pts, 1, 4), SubSeq(pts, 5, 4 + n)))
=============================================================================
