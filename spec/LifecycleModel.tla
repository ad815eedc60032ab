--------------------------- MODULE LifecycleModel ---------------------------
(* Random histories of Lifecycle.tla, written to PROGRAMS for replay.      *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
MaxLen == 16
Forms == {"data", "json", "borsh", "compressed", "clone"}
VARIABLES ops, nk, np, kc, setups, altk, altp, fin
vars == <<ops, nk, np, kc, setups, altk, altp, fin>>
\* kc: circuit of each key, setups: keys that are original, altk/altp: altered objects
Emit == Serialize(ToJson([ops |-> ops]) \o "\n", IOEnv.PROGRAMS,
               [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Init == ops = <<>> /\ nk = 0 /\ np = 0 /\ kc = <<>> /\ setups = {} /\ altk = {} /\ altp = {} /\ fin = FALSE
Do(op) == Len(ops) < MaxLen /\ ops' = Append(ops, op) /\ fin' = FALSE
Rnd(S) == RandomElement(S)
NPub == <<1, 4, 0, 3, 4>>
Setup == /\ nk < 4 /\ Len(ops) < 8
         /\ \E c \in {Rnd(IF nk > 0 THEN {kc[1], Rnd(1..5)} ELSE 1..5)} :
              Do([o |-> "setup", c |-> c]) /\ kc' = Append(kc, c) /\ setups' = setups \cup {nk + 1}
         /\ nk' = nk + 1 /\ UNCHANGED <<np, altk, altp>>
Prove == /\ nk > 0 /\ np < 5
         /\ Do([o |-> "prove", k |-> Rnd(setups), w |-> Rnd(1..6), bad |-> Rnd({0, 0, 0, 0, 1, 2} \cup 0..2)])
         /\ np' = np + 1 /\ UNCHANGED <<nk, kc, setups, altk, altp>>
Rekey == /\ nk > 0 /\ nk < 7
         /\ \E i \in {Rnd(1..nk)} : /\ Do([o |-> "rekey", i |-> i, f |-> Rnd(Forms)]) /\ kc' = Append(kc, kc[i])
                                    /\ altk' = IF i \in altk THEN altk \cup {nk + 1} ELSE altk
         /\ nk' = nk + 1 /\ UNCHANGED <<np, setups, altp>>
Reproof == /\ np > 0 /\ np < 8
           /\ \E i \in {Rnd(1..np)} : /\ Do([o |-> "reproof", i |-> i, f |-> Rnd(Forms)])
                                      /\ altp' = IF i \in altp THEN altp \cup {np + 1} ELSE altp
           /\ np' = np + 1 /\ UNCHANGED <<nk, kc, setups, altk>>
Altkey == /\ (1..nk) \ altk # {} /\ nk < 8 /\ Len(ops) > 4
          /\ \E i \in {Rnd((1..nk) \ altk)} : \E h \in {Rnd({"ic", "swapic", "alpha", "beta", "gamma", "delta"})} :
               /\ ~ (h = "swapic" /\ NPub[kc[i]] = 0)
               /\ Do([o |-> "altkey", i |-> i, h |-> h,
                      n |-> IF h = "ic" THEN Rnd(1..(NPub[kc[i]] + 1)) ELSE IF h = "swapic" THEN Rnd(1..NPub[kc[i]]) ELSE 0])
               /\ kc' = Append(kc, kc[i])
          /\ altk' = altk \cup {nk + 1} /\ nk' = nk + 1 /\ UNCHANGED <<np, setups, altp>>
Altproof == /\ (1..np) \ altp # {} /\ np < 8
            /\ \E i \in {Rnd((1..np) \ altp)} :
                 Do([o |-> "altproof", i |-> i, h |-> Rnd({"nega", "negb", "negc", "negab", "swapac", "addc", "zeroa", "zerob", "zeroc"})])
            /\ altp' = altp \cup {np + 1} /\ np' = np + 1 /\ UNCHANGED <<nk, kc, setups, altk>>
Verify == /\ nk > 0 /\ np > 0
          /\ Do([o |-> "verify", k |-> Rnd(1..nk), p |-> Rnd(1..np), n |-> Rnd(1..8),
                 m |-> Rnd({"own", "inc", "short", "long", "swap", "other", "zero", "neg"})])
          /\ UNCHANGED <<nk, np, kc, setups, altk, altp>>
VerifyOwn == /\ nk > 0 /\ np > 0
             /\ Do([o |-> "verify", k |-> Rnd(1..nk), p |-> Rnd(1..np), n |-> 1, m |-> "own"])
             /\ UNCHANGED <<nk, np, kc, setups, altk, altp>>
Finish == ~ fin /\ Len(ops) = MaxLen /\ Emit /\ fin' = TRUE /\ UNCHANGED <<ops, nk, np, kc, setups, altk, altp>>
Next == Setup \/ Prove \/ Rekey \/ Reproof \/ Altkey \/ Altproof \/ Verify \/ VerifyOwn \/ Finish
Inv == nk = Len(kc) /\ setups \subseteq 1..nk
=============================================================================
