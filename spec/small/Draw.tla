--------------------------------- MODULE Draw ---------------------------------
(* How the harness's tiny fields draw an element from a word stream: one   *)
(* word modulo p.  Draw(p, tail, pos) = <<element, next position>>.        *)
EXTENDS Seedbox, Field
Draw(p, tail, pos) == LET w == StreamWord(tail, pos)
                      IN <<((w[1] % p) * (65536 % p) + w[2]) % p, pos + 1>>
=============================================================================
