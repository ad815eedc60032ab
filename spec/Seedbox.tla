------------------------------- MODULE Seedbox -------------------------------
(***************************************************************************)
(* The deterministic generator.  Its whole behaviour is one stream of      *)
(* 32-bit words per salt; a generator is a position in it.  Words are      *)
(* <<hi, lo>> pairs of 16-bit halves (Blake2s.tla).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Blake2s

LE64(n) == [i \in 1..8 |-> IF i <= 4 THEN (n \div (256^(i-1))) % 256 ELSE 0]   \* n < 2^31
\* the suffix hashed after the counter: nothing, or the hash of the salt
SaltTail(salted, salt) == IF salted THEN Blake(32, <<>>, salt) ELSE <<>>
Block(tail, n) == Blake(32, Pers, LE64(n) \o tail)
WordIn(b, k) == <<b[4*k + 4] * 256 + b[4*k + 3], b[4*k + 2] * 256 + b[4*k + 1]>>
StreamWord(tail, n) == WordIn(Block(tail, n \div 8), n % 8)
\* n words from position pos
RECURSIVE WordsFrom(_, _, _, _, _)
WordsFrom(tail, pos, n, k, b) ==   \* b: the current block
  IF n = 0 THEN <<>>
  ELSE LET i == pos % 8
           bb == IF i = 0 \/ k = 0 THEN Block(tail, pos \div 8) ELSE b
       IN <<WordIn(bb, i)>> \o WordsFrom(tail, pos + 1, n - 1, k + 1, bb)
Words(tail, pos, n) == WordsFrom(tail, pos, n, 0, <<>>)

\* the 64-bit value made of words w1 (high) and w2 (low), little-endian bytes
WBytesLE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
U64BytesLE(w1, w2) == WBytesLE(w2) \o WBytesLE(w1)
=============================================================================
