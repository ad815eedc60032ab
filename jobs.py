"""Which scenario of the harness and which TLC runs decide each property."""

def J(name, module, lib="small", trace=None, **kw):
    d = dict(name=name, module=module, lib=lib, trace=trace)
    d.update(kw)
    return d

JOBS = {}

JOBS["C01"] = dict(
    scenarios=["C01"],
    jobs=[
        J("bignat", "BigNatCheck", "big", cfg="BigNatCheck.cfg", what="the accelerated big-number operators equal their TLA+ definitions"),
        J("tables", "C01", "small", "small.ndjson",
          what="all operand pairs of tiny fields, all operator forms"),
        J("real", "C01", "big", "big.ndjson",
          what="boundary and random operands of the library's fields and a third-party field"),
    ],
)


def forged(name, lib):
    return J("forged-" + name, "Forged", lib, name + "_forged.ndjson", env={"CIRCUITS": "$WORK/%s_circ.ndjson" % name},
             what="satisfying assignments found by a cheating prover (changes, recomputation and repair of honest ones)")


def gadget_jobs(small="small", big="big", mem="6g"):
    r = []
    if small:
        x = small[5:]
        r += [J("prover" + x, "Prover", "small", small + "_circ.ndjson", cfg="Prover.cfg", mem=mem,
                what="all assignments of the recorded circuits over tiny fields (malicious prover)"),
              J("honest" + x, "Honest", "small", small + "_honest.ndjson",
                env={"CIRCUITS": "$WORK/%s_circ.ndjson" % small},
                what="honest runs over tiny fields")]
    if big:
        r += [J("honest-real", "Honest", "big", big + "_honest.ndjson",
                env={"CIRCUITS": "$WORK/%s_circ.ndjson" % big},
                what="honest runs over the library's fields"),
              forged(big, "big")]
    return r


JOBS["C13"] = dict(scenarios=["C13"], jobs=gadget_jobs())

def trace_jobs(module, small="small.ndjson", big="big.ndjson", ws="all cases over tiny fields and curves",
               wb="boundary and random cases over the library's fields and curves", **kw):
    r = []
    if small:
        r.append(J("tiny", module, "small", small, what=ws, **kw))
    if big:
        r.append(J("real", module, "big", big, what=wb, **kw))
    return r


JOBS["C05"] = dict(scenarios=["C05"], jobs=trace_jobs("C05"))
JOBS["C06"] = dict(scenarios=["C06"], jobs=trace_jobs("C06"))
JOBS["C07"] = dict(scenarios=["C07"], jobs=trace_jobs("C07", small=None))
JOBS["C08"] = dict(scenarios=["C08"], jobs=trace_jobs("C08", big=None, ws="recorded draw histories of one and of several interleaved generators"))


def prm_jobs(module, **kw):
    r = trace_jobs(module, **kw)
    for j in r:
        j["env"] = {"PARAMS": "$WORK/params_%s.ndjson" % j["lib"]}
    return r


JOBS["C09"] = dict(scenarios=["C09"], jobs=prm_jobs("C09"))
JOBS["C10"] = dict(scenarios=["C10"], jobs=prm_jobs("C10") + [
    J("model", "MerkleModel", "small", cfg="MerkleModel.cfg", env={"PARAMS": "$WORK/params_small.ndjson"},
      what="all leaf lists and positions of the specification over GF(5)")])
JOBS["C11"] = dict(scenarios=["C11"], jobs=prm_jobs("C11"))
JOBS["C02"] = dict(scenarios=["C02"], jobs=trace_jobs("C02"))
JOBS["C03"] = dict(scenarios=["C03"], jobs=trace_jobs("C03"))
JOBS["C12"] = dict(
    generate=[J("model", "CNumModel", "small", cfg="CNumModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                what="the register machine over GF(5); every transition becomes a program to replay")],
    scenarios=["C12"],
    jobs=[J("replayed", "C12", "small", "model.ndjson", what="the programs of the model replayed in the code")]
    + trace_jobs("C12", ws="random programs over tiny fields", wb="random programs over real fields"))
JOBS["C14"] = dict(scenarios=["C14"], jobs=gadget_jobs())
JOBS["C15"] = dict(scenarios=["C15"], jobs=[j for k in "1234" for j in gadget_jobs("small" + k, None, "4g")] + gadget_jobs(None, "big"), par=4)

JOBS["C16"] = dict(scenarios=["C16"], par=4, jobs=gadget_jobs("small1", None) + gadget_jobs("small2", None)
                   + [J("honest3", "Honest", "small", "small3_honest.ndjson", env={"CIRCUITS": "$WORK/small3_circ.ndjson"},
                        what="honest and altered signatures over tiny curves"),
                      J("prover3", "Prover", "small", "small3_circ.ndjson", cfg="Prover.cfg", beam=(300, 10000), mem="4g",
                        what="assignments of the signature gadget over tiny curves (malicious prover, beam search)")]
                   + [J("honest4", "Honest", "small", "small4_honest.ndjson", env={"CIRCUITS": "$WORK/small4_circ.ndjson"},
                        what="honest runs of deep Merkle proofs and large trees"),
                      forged("small4", "small")]
                   + gadget_jobs(None, "big")
                   + [J("honest-real2", "Honest", "big", "big2_honest.ndjson", env={"CIRCUITS": "$WORK/big2_circ.ndjson"},
                        what="honest and altered signatures over the BLS12-381 curve"),
                      forged("big2", "big")])

JOBS["C04"] = dict(scenarios=["C04"], jobs=[
    J("bn256", "C04", "big", "bn.ndjson", what="encodings and decodings of proofs and keys, BN256"),
    J("bls12", "C04", "big", "bls.ndjson", what="encodings and decodings of proofs and keys, BLS12-381")], par=2)

JOBS["C17"] = dict(scenarios=["C17"], par=4, jobs=gadget_jobs("small", "big")
                   + [J("honest2", "Honest", "small", "small2_honest.ndjson", env={"CIRCUITS": "$WORK/small2_circ.ndjson"},
                        what="honest runs of larger composites"),
                      forged("small2", "small")]
                   + trace_jobs("C17", ws="read-outs of composites over tiny fields", wb="read-outs over the library's fields"))

JOBS["C18"] = dict(
    generate=[J("model", "CSModel", "small", cfg="CSModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                what="all short programs of allocations, publications and constraints"),
              J("sim", "CSModel", "small", cfg="CSModel.cfg", env={"PROGRAMS": "$WORK/programs2.ndjson", "SIM": "1"}, workers=1,
                args=["-simulate", "num=1500", "-depth", "12", "-seed", "7"], what="random longer programs")],
    scenarios=["C18"], par=4,
    jobs=[J("tiny", "C18", "small", "small.ndjson", env={"CIRCUITS": "$WORK/small_circ.ndjson"},
            what="programs and gadget circuits over tiny fields: test system and recorder"),
          J("programs", "C18", "big", "progs.ndjson", env={"CIRCUITS": "$WORK/bn_circ.ndjson"},
            what="programs behind the proving adapter, both engines"),
          J("bn256", "C18", "big", "bn.ndjson", env={"CIRCUITS": "$WORK/bn_circ.ndjson"}, mem="6g",
            what="gadget circuits in setup, test and proving systems, BN256"),
          J("bls12", "C18", "big", "bls.ndjson", env={"CIRCUITS": "$WORK/bls_circ.ndjson"}, mem="6g",
            what="gadget circuits in setup, test and proving systems, BLS12-381")])

JOBS["C19"] = dict(
    generate=[J("sim", "LifecycleModel", "small", cfg="LifecycleModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                args=["-simulate", "num=400", "-depth", "20", "-seed", "7"], what="random histories of the lifecycle model")],
    scenarios=["C19"], par=2,
    jobs=[J("bn256", "C19", "big", "bn.ndjson", what="histories and key algebra, BN256"),
          J("bls12", "C19", "big", "bls.ndjson", what="histories and key algebra, BLS12-381")])

JOBS["C20"] = dict(scenarios=["C20"], par=4, jobs=[
    J("keys%d" % k, "C20", "big", "keys%d.ndjson" % k, what="executions of contracts of keys with known logarithms") for k in (1, 2, 3, 4)]
    + [J("real", "C20", "big", "real.ndjson", what="executions on proofs made by the prover")])

JOBS["C21"] = dict(
    crate="cli",
    generate=[J("sim", "CliModel", "small", cfg="CliModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                args=["-simulate", "num=1600", "-depth", "20", "-seed", "7"], what="random histories of commands and file operations")],
    scenarios=["C21"], par=4,
    jobs=[J(b, "C21", "big", b + ".ndjson", what="histories of the %s binding" % b) for b in ("eth", "waves", "wavesbn", "near")])

JOBS["C22"] = dict(
    generate=[J("sim", "ProgramModel", "small", cfg="ProgramModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                args=["-simulate", "num=$N", "-depth", "20", "-seed", "7"], n=(800, 6000), what="random programs of gadgets, typed and evaluated")],
    scenarios=["C22"], par=4,
    jobs=[j for k in "1234" for j in gadget_jobs("small" + k, None, "4g")] + gadget_jobs(None, "big")
    + [J("honest-curve", "Honest", "small", "mid_honest.ndjson", env={"CIRCUITS": "$WORK/mid_circ.ndjson"},
         what="honest runs of programs with points over tiny curves"),
       J("prover-curve", "Prover", "small", "mid_circ.ndjson", cfg="Prover.cfg", beam=(40, 2000), mem="4g",
         what="assignments of programs with points over tiny curves (malicious prover, beam search)")])

JOBS["C23"] = dict(
    generate=[J("sim", "EntropyModel", "small", cfg="EntropyModel.cfg", env={"PROGRAMS": "$WORK/programs.ndjson"}, workers=1,
                args=["-simulate", "num=$N", "-depth", "12", "-seed", "7"], n=(60, 600), what="histories of draws, setups and proofs over a failing source")],
    scenarios=["C23"],
    jobs=[J("fresh", "C23", "small", "fresh.ndjson", what="everything delivered by all processes is new, and nothing without entropy"),
          J("stats", "C23", "small", "stats.ndjson", what="collisions, balance and pairwise independence of the bits of draws")])
