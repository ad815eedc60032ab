------------------------------ MODULE CliModel ------------------------------
(* Random histories of Cli.tla, written to PROGRAMS for replay.  k is the  *)
(* kind of content each file has and t its origin (setup, proof number), so *)
(* that most commands get what fits and many verifications a true statement.*)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
MaxLen == 18
Roles == {"p", "v", "o", "r", "i"}
N == {"1", "2"}
Files == {r \o n : r \in Roles \cup {"s"}, n \in N}
VARIABLES ops, k, t, c, fin
vars == <<ops, k, t, c, fin>>
Emit == Serialize(ToJson([ops |-> ops]) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Rnd(S) == RandomElement(S)
Init == ops = <<>> /\ k = [f \in Files |-> "none"] /\ t = [f \in Files |-> <<0, 0>>] /\ c = 0 /\ fin = FALSE
Do(op) == Len(ops) < MaxLen /\ ops' = Append(ops, op) /\ fin' = FALSE
Set(f, kind, tag) == k' = [k EXCEPT ![f] = kind] /\ t' = [t EXCEPT ![f] = tag]
Same == UNCHANGED <<k, t, c>>
AnyOf(r) == r \o Rnd(N)
Fit(r, kind) == {f \in {r \o n : n \in N} : k[f] = kind}
Late == Len(ops) > 4
Fresh == ops # <<>> /\ ops[Len(ops)].o \notin {"wobj", "gentest", "winp"}
Setup == \E p \in {AnyOf("p")}, v \in {AnyOf("v")} :
           /\ Len(ops) < 9 /\ (c = 0 \/ Len(ops) > 2)
           /\ Do([o |-> "setup", p |-> p, v |-> v]) /\ c' = c + 1
           /\ k' = [k EXCEPT ![p] = "params", ![v] = "key"] /\ t' = [t EXCEPT ![p] = <<c + 1, 0>>, ![v] = <<c + 1, 0>>]
ProveAt(p, ob, r, i) ==
  /\ Do([o |-> "prove", p |-> p, ob |-> ob, r |-> r, i |-> i])
  /\ IF k[p] = "params" /\ k[ob] = "object"
     THEN /\ k' = [k EXCEPT ![r] = "proof", ![i] = "inputs"] /\ c' = c + 1
          /\ t' = [t EXCEPT ![r] = <<t[p][1], c + 1>>, ![i] = <<0, c + 1>>]
     ELSE Same
Prove == Late /\ \E p \in {AnyOf("p")}, ob \in {AnyOf("o")}, r \in {AnyOf("r")}, i \in {AnyOf("i")} : ProveAt(p, ob, r, i)
ProveFit == /\ Fit("p", "params") # {} /\ Fit("o", "object") # {}
            /\ \E p \in {Rnd(Fit("p", "params"))}, ob \in {Rnd(Fit("o", "object"))}, r \in {AnyOf("r")}, i \in {AnyOf("i")} :
                 ProveAt(p, ob, r, i)
ProveFit2 == Fit("r", "proof") = {} /\ ProveFit
Verify == Late /\ \E v \in {AnyOf("v")}, r \in {AnyOf("r")}, i \in {AnyOf("i")} : Do([o |-> "verify", v |-> v, r |-> r, i |-> i]) /\ Same
VerifyFit == /\ Fit("v", "key") # {} /\ Fit("r", "proof") # {} /\ Fit("i", "inputs") # {}
             /\ \E v \in {Rnd(Fit("v", "key"))}, r \in {Rnd(Fit("r", "proof"))}, i \in {Rnd(Fit("i", "inputs"))} :
                  Do([o |-> "verify", v |-> v, r |-> r, i |-> i]) /\ Same
Matching == {m \in Fit("v", "key") \X Fit("r", "proof") \X Fit("i", "inputs") :
               t[m[1]][1] = t[m[2]][1] /\ t[m[2]][2] = t[m[3]][2]}
VerifyMatch == /\ Matching # {}
               /\ \E m \in {Rnd(Matching)} : Do([o |-> "verify", v |-> m[1], r |-> m[2], i |-> m[3]]) /\ Same
\* the same proof and inputs under whatever key there is
VerifyOther == /\ Matching # {} /\ Fit("v", "key") = {"v1", "v2"}
               /\ \E m \in {Rnd(Matching)} : Do([o |-> "verify", v |-> IF m[1] = "v1" THEN "v2" ELSE "v1", r |-> m[2], i |-> m[3]]) /\ Same
\* inputs just written, with whatever key and proof fit each other
VerifyForged == /\ ops # <<>> /\ ops[Len(ops)].o = "winp" /\ Fit("v", "key") # {} /\ Fit("r", "proof") # {}
                /\ \E m \in {Rnd(LET z == {y \in Fit("v", "key") \X Fit("r", "proof") : t[y[1]][1] = t[y[2]][1]}
                                IN IF z = {} THEN Fit("v", "key") \X Fit("r", "proof") ELSE z)} :
                     Do([o |-> "verify", v |-> m[1], r |-> m[2], i |-> ops[Len(ops)].f]) /\ Same
VerifyForged2 == VerifyForged
VerifyForged3 == VerifyForged
VerifyForged4 == VerifyForged
VerifyForged5 == VerifyForged
VerifyForged6 == VerifyForged
Gensol == \E v \in {Rnd(IF Fit("v", "key") # {} /\ Len(ops) % 4 > 0 THEN Fit("v", "key") ELSE {"v1", "v2"})}, s \in {AnyOf("s")} :
            /\ Late /\ Do([o |-> "gensol", v |-> v, s |-> s]) /\ UNCHANGED c
            /\ IF k[v] = "key" THEN Set(s, "sol", <<0, 0>>) ELSE UNCHANGED <<k, t>>
Gentest == \E ob \in {AnyOf("o")} : k[ob] # "object" /\ Do([o |-> "gentest", ob |-> ob]) /\ Set(ob, "object", <<0, 0>>) /\ UNCHANGED c
Good == {"good", "bad1", "bad2", "bad3"}
WobjAt(kind) == Fresh /\ \E f \in {AnyOf("o")} : Do([o |-> "wobj", f |-> f, kind |-> kind])
                                      /\ Set(f, IF kind \in Good THEN "object" ELSE "junk", <<0, 0>>) /\ UNCHANGED c
WobjGood == WobjAt("good")
WobjBad == \E kind \in {Rnd({"bad1", "bad2", "bad3"})} : WobjAt(kind)
WobjJunk == Late /\ \E kind \in {Rnd({"over", "vec3", "vec1", "nosec", "number"})} : WobjAt(kind)
Winp == Late /\ \E f \in {AnyOf("i")} : \E m \in {Rnd({"own", "inc", "swap", "short", "long", "empty", "over", "huge", "max", "ragged"})} :
            /\ Fresh /\ Fit("o", "object") # {} /\ Do([o |-> "winp", f |-> f, m |-> m, n |-> Rnd(0..3)]) /\ UNCHANGED c
            /\ Set(f, IF m \in {"over", "huge", "ragged"} THEN "junk" ELSE "inputs", <<0, 0>>)
Winp2 == Winp
CopyAt(f, g) == Do([o |-> "copy", f |-> f, g |-> g]) /\ Set(g, k[f], t[f]) /\ UNCHANGED c
Copy == Late /\ \E r \in {Rnd(Roles)} : \E n \in {Rnd(N)} : k[r \o n] # "none" /\ CopyAt(r \o n, r \o (IF n = "1" THEN "2" ELSE "1"))
Mix == Late /\ \E f \in {AnyOf(Rnd({"v", "r", "i", "o"}))}, g \in {AnyOf(Rnd({"v", "r", "i"}))} : k[f] # "none" /\ CopyAt(f, g)
Del == Late /\ \E f \in {AnyOf(Rnd(Roles))} : k[f] # "none" /\ Do([o |-> "del", f |-> f]) /\ Set(f, "none", <<0, 0>>) /\ UNCHANGED c
Cut == Late /\ \E f \in {AnyOf(Rnd(Roles))} : k[f] # "none" /\ Do([o |-> "cut", f |-> f]) /\ Set(f, "junk", <<0, 0>>) /\ UNCHANGED c
Pad == \E f \in {AnyOf(Rnd({"v", "o", "r", "i", "s"}))} : k[f] # "proof" /\ Do([o |-> "pad", f |-> f]) /\ Set(f, "junk", <<0, 0>>) /\ UNCHANGED c
\* the junk is overwritten by the command the file belongs to
Padded == IF ops # <<>> /\ ops[Len(ops)].o = "pad" THEN ops[Len(ops)].f ELSE ""
GensolPad == /\ Padded \in {"s1", "s2"} /\ Fit("v", "key") # {}
             /\ \E v \in {Rnd(Fit("v", "key"))} : Do([o |-> "gensol", v |-> v, s |-> Padded]) /\ Set(Padded, "sol", <<0, 0>>) /\ UNCHANGED c
GensolPad2 == GensolPad
GentestPad == Padded \in {"o1", "o2"} /\ Do([o |-> "gentest", ob |-> Padded]) /\ Set(Padded, "object", <<0, 0>>) /\ UNCHANGED c
ProvePad == /\ Padded \in {"r1", "r2", "i1", "i2"} /\ Fit("p", "params") # {} /\ Fit("o", "object") # {}
            /\ \E p \in {Rnd(Fit("p", "params"))}, ob \in {Rnd(Fit("o", "object"))} :
                 ProveAt(p, ob, IF Padded \in {"r1", "r2"} THEN Padded ELSE AnyOf("r"), IF Padded \in {"i1", "i2"} THEN Padded ELSE AnyOf("i"))
ProvePad2 == ProvePad
Neg == \E f \in {AnyOf("r")} : k[f] = "proof" /\ Do([o |-> "negp", f |-> f]) /\ Same
Off == \E f \in {AnyOf("r")} : k[f] = "proof" /\ Do([o |-> "offp", f |-> f]) /\ Set(f, "junk", <<0, 0>>) /\ UNCHANGED c
\* more content behind a key, a proof or inputs that would be accepted
Tails == /\ Matching # {} /\ Len(ops) < MaxLen - 1
        /\ \E m \in {Rnd(Matching)}, j \in {Rnd({1, 2, 3})} :
             /\ ops' = ops \o <<[o |-> "tail", f |-> m[j]], [o |-> "verify", v |-> m[1], r |-> m[2], i |-> m[3]]>>
             /\ fin' = FALSE /\ Set(m[j], "junk", <<0, 0>>) /\ UNCHANGED c
\* inputs that would be accepted, but for one number written in another form
Forge == /\ Matching # {} /\ Len(ops) < MaxLen - 1
         /\ \E m \in {Rnd(Matching)}, n \in {Rnd(0..3)} :
              /\ ops' = ops \o <<[o |-> "winp", f |-> m[3], m |-> "alt", n |-> n], [o |-> "verify", v |-> m[1], r |-> m[2], i |-> m[3]]>>
              /\ fin' = FALSE /\ Set(m[3], "junk", <<0, 0>>) /\ UNCHANGED c
Finish == ~ fin /\ Len(ops) = MaxLen /\ Emit /\ fin' = TRUE /\ UNCHANGED <<ops, k, t, c>>
Next == \/ Setup \/ WobjGood \/ WobjBad \/ WobjJunk \/ Gentest
        \/ Prove \/ ProveFit \/ ProveFit2 \/ Verify \/ VerifyFit \/ VerifyMatch \/ VerifyOther \/ Gensol
        \/ VerifyForged \/ VerifyForged2 \/ VerifyForged3 \/ VerifyForged4 \/ VerifyForged5 \/ VerifyForged6
        \/ Winp \/ Winp2 \/ Copy \/ Mix \/ Del \/ Cut \/ Neg \/ Off \/ Pad \/ Tails \/ Forge \/ GensolPad \/ GensolPad2 \/ GentestPad \/ ProvePad \/ ProvePad2 \/ Finish
Inv == DOMAIN k = Files
=============================================================================
