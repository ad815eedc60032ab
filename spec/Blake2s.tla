------------------------------- MODULE Blake2s -------------------------------
(***************************************************************************)
(* BLAKE2s (RFC 7693) without key, with salt and personalisation from the  *)
(* parameter block.  A 32-bit word is a pair <<hi, lo>> of 16-bit halves   *)
(* because TLC's integers are 32-bit signed.  Bytes are integers 0..255.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Bitwise

W == 65536
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div W)) % W, l % W>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
\* rotate right by 16, by 8..1 < r < 16
WRot16(a) == <<a[2], a[1]>>
WRotR(a, r) == LET m == 2^r
                   k == 2^(16 - r)
               IN <<(a[1] \div m) + (a[2] % m) * k, (a[2] \div m) + (a[1] % m) * k>>

IV == << <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
         <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>> >>

Sigma == << <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>,
            <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
            <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>,
            <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
            <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>,
            <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
            <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>,
            <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
            <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>,
            <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>

\* one G on a quadruple
G(a0, b0, c0, d0, x, y) ==
  LET a1 == WAdd(WAdd(a0, b0), x)
      d1 == WRot16(WXor(d0, a1))
      c1 == WAdd(c0, d1)
      b1 == WRotR(WXor(b0, c1), 12)
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == WRotR(WXor(d1, a2), 8)
      c2 == WAdd(c1, d2)
      b2 == WRotR(WXor(b1, c2), 7)
  IN <<a2, b2, c2, d2>>

Round(v, m, s) ==
  LET M(i) == m[s[i] + 1]
      q1 == G(v[1], v[5], v[9],  v[13], M(1), M(2))
      q2 == G(v[2], v[6], v[10], v[14], M(3), M(4))
      q3 == G(v[3], v[7], v[11], v[15], M(5), M(6))
      q4 == G(v[4], v[8], v[12], v[16], M(7), M(8))
      r1 == G(q1[1], q2[2], q3[3], q4[4], M(9), M(10))
      r2 == G(q2[1], q3[2], q4[3], q1[4], M(11), M(12))
      r3 == G(q3[1], q4[2], q1[3], q2[4], M(13), M(14))
      r4 == G(q4[1], q1[2], q2[3], q3[4], M(15), M(16))
  IN << r1[1], r2[1], r3[1], r4[1],
        r4[2], r1[2], r2[2], r3[2],
        r3[3], r4[3], r1[3], r2[3],
        r2[4], r3[4], r4[4], r1[4] >>

Rounds(v, m) == LET step(w, s) == TLCEval(Round(w, m, s)) IN FoldLeft(step, v, Sigma)

\* h: eight words, b: 64 bytes, t: byte count so far (< 2^31), last: final block
Compress(h, b, t, last) ==
  LET m == TLCEval([i \in 1..16 |-> <<b[4*i] * 256 + b[4*i - 1], b[4*i - 2] * 256 + b[4*i - 3]>>])
      v == << h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8],
              IV[1], IV[2], IV[3], IV[4],
              WXor(IV[5], <<t \div W, t % W>>), IV[6],
              IF last THEN WXor(IV[7], <<65535, 65535>>) ELSE IV[7], IV[8] >>
      r == Rounds(v, m)
  IN TLCEval([i \in 1..8 |-> WXor(h[i], WXor(r[i], r[i + 8]))])

Pad(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]
RECURSIVE Absorb(_, _, _)
Absorb(h, msg, pos) ==
  IF Len(msg) - pos > 64
  THEN Absorb(Compress(h, SubSeq(msg, pos + 1, pos + 64), pos + 64, FALSE), msg, pos + 64)
  ELSE Compress(h, Pad(SubSeq(msg, pos + 1, Len(msg)), 64), Len(msg), TRUE)

WordOf(b, i) == <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
\* nn: digest length 1..32; pers: 8 bytes or <<>>
H0(nn, pers) == LET p == Pad(pers, 8) IN
  << WXor(IV[1], <<257, nn>>), IV[2], IV[3], IV[4], IV[5], IV[6],
     WXor(IV[7], WordOf(p, 1)), WXor(IV[8], WordOf(p, 5)) >>
Blake(nn, pers, msg) ==
  LET h == Absorb(H0(nn, pers), msg, 0)
      B(k) == LET w == h[(k \div 4) + 1] IN
              CASE k % 4 = 0 -> w[2] % 256 [] k % 4 = 1 -> w[2] \div 256
                [] k % 4 = 2 -> w[1] % 256 [] k % 4 = 3 -> w[1] \div 256
  IN TLCEval([i \in 1..nn |-> B(i - 1)])

\* the library's personalisation "__fawkes"
Pers == <<95, 95, 102, 97, 119, 107, 101, 115>>
=============================================================================
