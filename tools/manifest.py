#!/usr/bin/env python3
"""writes MANIFEST.json from the table below and properties.jsonl"""
import json
R = "/verif/"
props = [json.loads(l) for l in open(R + "properties.jsonl") if l.strip()]
TRACE = "TLC checks traces recorded from the real code against the TLA+ specification"
CIRC = ("TLC searches all assignments (malicious prover) of constraint systems recorded from the real gadgets "
        "and checks honest-prover traces against the TLA+ specification")
T = {
 "C01": (TRACE, "Exhaustive over all operand tuples of tiny prime fields (generic code instantiated there), boundary and random operands over the library's fields; the field arithmetic oracle is TLA+ (Field/BigNat), its Java accelerators checked against the TLA+ definitions."),
 "C02": (TRACE, "Exhaustive on tiny fields, boundary/random on the library's fields, every machine-integer type at its extremes."),
 "C03": (TRACE, "Specified decoder over all short byte strings/documents of tiny fields and structured corruptions over real fields."),
 "C04": (TRACE, "Specified encoders/decoders of points, proofs and keys of both pairing curves (TLA+ group law, subgroup test); structured corruptions, off-curve and small-subgroup points."),
 "C05": (TRACE, "All point pairs of complete tiny Edwards curves (including all low-order points and projective representatives); boundary points of the two library curves."),
 "C06": (TRACE, "All abscissas, ordinates and scalars of tiny curves; boundary and random ones of the library curves."),
 "C07": (TRACE, "The built-in constants themselves are evaluated in TLA+ (primality is by a recorded certificate/Fermat tests, see DESIGN.md)."),
 "C08": (TRACE, "Draw histories of one and several interleaved generators against an executable TLA+ BLAKE2s stream."),
 "C09": (TRACE, "All inputs of tiny parameter sets; the library parameter sets re-derived from the specified stream."),
 "C10": (TRACE + "; TLC model of trees and proofs", "All small trees and proofs over tiny fields, sizes to hundreds of leaves over real fields."),
 "C11": (TRACE, "All keys, messages and signature candidates of tiny curves; mutations of honest signatures on the library curves."),
 "C12": ("TLC model of a register machine over symbolic numbers; every transition replayed in the real code, plus recorded random programs checked", "Every reachable model transition over GF(5) within the bounds is replayed; random programs over other fields."),
 "C13": (CIRC, "Complete over all assignments of tiny fields for each recorded gadget instance; honest runs over real fields."),
 "C14": (CIRC, "Complete over all assignments of tiny fields for every length and constant in the bounds; honest runs up to full width over real fields."),
 "C15": (CIRC, "Complete over all assignments over tiny complete Edwards curves; honest runs over the library curves."),
 "C16": (CIRC, "Complete over all assignments for tiny fields and curves (within the variable counts recorded); honest runs of the library parameter sets."),
 "C17": (CIRC + "; read-out traces", "Complete over all assignments of tiny fields for each recorded composite instance; honest runs over real fields; 22 type constructors including nestings and a 17-tuple."),
 "C18": ("TLC model of constraint-system programs; its programs replayed in the test, recording and proving systems; TLC checks recorded syntheses of all gadgets against the specification", "Every short program of the model and random longer ones, every gadget family with absent, honest, boundary and random witnesses, both engines' adapters."),
 "C19": ("TLC simulates histories of the lifecycle model; they are replayed with real setups, proofs, encodings and verifications on both engines and the outcomes checked by TLC", "Hundreds of simulated histories over five circuits; the verification equation over keys and proofs of known exponents. Cryptographic soundness is assumed, not proved."),
 "C20": ("The generated contracts are executed by an interpreter (Solidity subset, EVM memory, pairing precompiles) and TLC checks every recorded execution against the TLA+ specification of the decision", "Keys and proofs of known logarithms (including infinity, short coordinates, up to 300 inputs), out-of-range and off-curve coordinates, proofs of the real prover; solc/EVM are not available offline, so the interpreter stands in for them."),
 "C21": ("TLC simulates histories of commands and file operations; they are replayed as processes of a program made of the four binding macros, and TLC checks every outcome, changed file and file content against the TLA+ file-system model", "Hundreds of simulated histories per binding with one circuit; a stand-in for the clap command-line parser, which is not available offline."),
 "C22": ("TLC simulates a typed register machine that composes gadgets; each generated program is replayed on the real circuit operations, the recorded constraint system searched for all assignments (malicious prover) and honest runs checked against the TLA+ composition of the gadget relations", "Hundreds (quick) to thousands (thorough) of generated programs over tiny fields, complete over the assignments of each unless its search exceeds the time limit (then random complete assignments; the evidence says which)."),
 "C23": ("TLC simulates histories of draws, setups and proofs over an entropy source that shortens, interrupts or fails; they are replayed in processes whose entropy system calls are interposed, and TLC checks the joint history against the TLA+ machine (everything new, nothing without entropy)", "Sixty (quick) to six hundred (thorough) simulated histories; freshness is a statement about what was seen (repetition, structure, missing entropy), not a proof of unpredictability."),
}
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in T:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=T[i][0], level="model_checking", level_note=T[i][1]))
    else:
        NA.setdefault(i, "check not built yet")
json.dump(dict(version=1, setup_cmd="python3 check.py build", checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
               notes="No hooks in /repo: the checks use its public interface. known-findings: KNOWN_FINDINGS.txt."),
          open(R + "MANIFEST.json", "w"), indent=1)
