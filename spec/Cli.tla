--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The programs made of the command-line binding macros, as a state        *)
(* machine over files.  A file stands for                                  *)
(*   [k |-> kind, s |-> setup, x |-> numbers, good |-> witness satisfied,  *)
(*    neg |-> proof with A negated]                                        *)
(* with kind "none" (absent), "junk", "params", "key", "object", "proof",  *)
(* "inputs", "sol".  Commands of the programs: setup, prove, verify,       *)
(* gensol, gentest; the other operations are what users, transports and    *)
(* attackers do to the files.  The circuit of the harness proves           *)
(*    h = x y,  v0 = x + 3 y,  b = (x = 0),  v1 free                       *)
(* for an object <<h, v0, v1, b, x, y>> and publishes <<h, v0, v1, b>>.    *)
(***************************************************************************)
EXTENDS Keys

Files == {r \o n : r \in {"p", "v", "o", "r", "i", "s"}, n \in {"1", "2"}}
F(kind, s, x, good, neg) == [k |-> kind, s |-> s, x |-> x, good |-> good, neg |-> neg]
None == F("none", 0, <<>>, FALSE, FALSE)
Junk == F("junk", 0, <<>>, FALSE, FALSE)
CliInit == [fs |-> [f \in Files |-> None], n |-> 0]

Satisfied(p, x) == /\ x[1] = FMul(p, x[5], x[6])
                   /\ x[2] = FAdd(p, x[5], FMul(p, FN(3), x[6]))
                   /\ x[4] = IF x[5] = F0 THEN F1 ELSE F0
\* what the program's built-in example stands for
Example(p) == <<FN(77), FN(32), FAdd(p, FMul(p, FN(30517), FN(32768)), FN(18951)), F0, FN(11), FN(7)>>

\* the files a command may write
Outputs(op) == CASE op.o = "setup" -> {op.p, op.v}
                 [] op.o = "prove" -> {op.r, op.i}
                 [] op.o = "gensol" -> {op.s}
                 [] op.o = "gentest" -> {op.ob}
                 [] OTHER -> {}
\* prove succeeds on parameters and any well-formed object; the other commands on what they read
Works(s, op) == CASE op.o = "prove" -> s.fs[op.p].k = "params" /\ s.fs[op.ob].k = "object"
                  [] op.o = "gensol" -> s.fs[op.v].k = "key"
                  [] OTHER -> TRUE
CliStep(p, s, op) ==
  CASE op.o = "setup" -> [fs |-> [s.fs EXCEPT ![op.p] = F("params", s.n + 1, <<>>, TRUE, FALSE),
                                              ![op.v] = F("key", s.n + 1, <<>>, TRUE, FALSE)], n |-> s.n + 1]
    [] op.o = "prove" -> IF ~ Works(s, op) THEN s
                         ELSE LET x == s.fs[op.ob].x
                              IN [s EXCEPT !.fs[op.r] = F("proof", s.fs[op.p].s, SubSeq(x, 1, 4), Satisfied(p, x), FALSE),
                                           !.fs[op.i] = F("inputs", 0, SubSeq(x, 1, 4), TRUE, FALSE)]
    [] op.o = "gensol" -> IF Works(s, op) THEN [s EXCEPT !.fs[op.s] = F("sol", 0, <<>>, TRUE, FALSE)] ELSE s
    [] op.o = "gentest" -> [s EXCEPT !.fs[op.ob] = F("object", 0, Example(p), TRUE, FALSE)]
    [] op.o = "verify" -> s
    [] op.o = "wobj" -> [s EXCEPT !.fs[op.f] = IF op.wf THEN F("object", 0, op.x, TRUE, FALSE) ELSE Junk]
    [] op.o = "winp" -> [s EXCEPT !.fs[op.f] = IF op.wf THEN F("inputs", 0, op.x, TRUE, FALSE) ELSE Junk]
    [] op.o = "copy" -> [s EXCEPT !.fs[op.g] = s.fs[op.f]]
    [] op.o = "del" -> [s EXCEPT !.fs[op.f] = None]
    [] op.o = "cut" -> [s EXCEPT !.fs[op.f] = IF @.k = "none" THEN @ ELSE Junk]
    \* longer content of no meaning, whether or not the file existed
    [] op.o = "pad" -> [s EXCEPT !.fs[op.f] = Junk]
    \* more bytes behind the content, in the bindings whose files are read to the end
    [] op.o = "tail" -> [s EXCEPT !.fs[op.f] = IF op.done THEN Junk ELSE @]
    [] op.o = "negp" -> [s EXCEPT !.fs[op.f] = IF @.k = "proof" THEN [@ EXCEPT !.neg = ~ @] ELSE @]
    [] op.o = "offp" -> [s EXCEPT !.fs[op.f] = IF @.k = "proof" THEN Junk ELSE @]

\* the verdict printed: true exactly for a good proof of these inputs under this setup; false if
\* the files are what they should be; on anything else the command may also fail
Verdicts(s, op) ==
  LET k == s.fs[op.v] pr == s.fs[op.r] i == s.fs[op.i]
  IN IF ~ (k.k = "key" /\ pr.k = "proof" /\ i.k = "inputs") THEN {"fail", "false"}
     ELSE IF pr.good /\ ~ pr.neg /\ k.s = pr.s /\ i.x = pr.x THEN {"true"} ELSE {"false"}

\* the files' forms
Le32(a) == FToDigitsLE(a, 256, 32)
IsKey(b, E, o, f) == CASE b = "eth" -> f.k = "doc" /\ IsDoc(ObjTy(E, "key"), ObjData("key", o), f.doc)
                       [] b = "near" -> f.k = "bin" /\ f.bs = ObjBin(E, "key", o)
                       [] OTHER -> f.k = "bin" /\ f.bs = ObjComp(E, "key", o)
IsProof(b, E, o, f) == CASE b = "eth" -> f.k = "doc" /\ IsDoc(ObjTy(E, "proof"), ObjData("proof", o), f.doc)
                         [] b = "near" -> f.k = "bin" /\ f.bs = ObjBin(E, "proof", o)
                         [] OTHER -> f.k = "bin" /\ f.bs = ObjComp(E, "proof", o)
IsInputs(b, fr, x, f) ==
  CASE b = "eth" -> f.k = "doc" /\ IsDoc([k |-> "list", e |-> [k |-> "num", p |-> fr]], x, f.doc)
    [] b = "near" -> f.k = "bin" /\ f.bs = U32(Len(x)) \o Cat([i \in 1..Len(x) |-> Le32(x[i])])
    [] OTHER -> f.k = "bin" /\ f.bs = Cat([i \in 1..Len(x) |-> Rev(Le32(x[i]))])

Command(op) == op.o \in {"setup", "prove", "verify", "gensol", "gentest"}
OpOk(b, E, fr, s, op) ==
  LET p == FPrime(fr) IN
  /\ Command(op) =>
       /\ \A i \in 1..Len(op.ch) : op.ch[i] \in Outputs(op)
       /\ op.o # "verify" => op.out = IF Works(s, op) THEN "ok" ELSE "fail"
       /\ ~ Works(s, op) => op.ch = <<>>
  /\ CASE op.o = "setup" -> Len(op.vk) = 5 /\ Len(op.vk[5]) = 5 /\ IsKey(b, E, op.vk, op.file)
       [] op.o = "prove" -> Works(s, op) => /\ Len(op.pr) = 3 /\ IsProof(b, E, op.pr, op.file)
                                            /\ IsInputs(b, fr, SubSeq(s.fs[op.ob].x, 1, 4), op.inp)
       [] op.o = "gensol" -> Works(s, op) => op.same
       [] op.o = "gentest" -> op.x = Example(p)
       [] op.o = "verify" -> op.out \in Verdicts(s, op)
       [] OTHER -> TRUE
=============================================================================
