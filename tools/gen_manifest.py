#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (and checks it against properties.jsonl)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SYM = "symbolic execution of the compiled code with a symbolic field type; z3 decides every path condition and assertion; counterexamples replayed natively"
CIR = "constraint system and layout dumped from the compiled circuit; case-split search over all field assignments with z3 deciding each case; counterexamples replayed with MockProver"
IR = "symbolic execution of the compiler's LLVM IR over symbolic 64-bit limbs; z3 (linear integer arithmetic over limbs, carries and limb products) decides every branch and goal; counterexamples replayed natively"
CLAIMS = {
    "C10": (IR, "Every value of every limb for the listed operations, no loop bound needed; the symbolic executor for the IR is trusted (its counterexamples are replayed natively)."),
    "C11": (IR, "Every 32-byte/64-byte string and every element for the listed encodings."),
    "C13": (SYM, "Every value of the symbolic coordinates; Fq12 inversion and cyclotomic squaring on the stated families; square roots and the pairing are outside."),
    "C14": (SYM, "Every pair of points in the stated relations for G1 and secp256k1; G2 by polynomial identities; scalar multiplication is outside."),
    "C15": (SYM, "Every coordinate value and both signs for bn256 G1 and secp256k1; the encoding of a single field element is a stand-in (decided for all limbs by C11); G2 is outside."),
    "C16": (SYM, "Every coefficient vector at the listed sizes."),
    "C17": (SYM, "Commitments are ideal (a handle for the committed polynomial), so binding and hiding of the scheme are outside; every value of evaluations and challenges for the listed circuits; the prover's quotient at coset points with the symbolic witness cells stated in the evidence."),
    "C18": (SYM, "Selector patterns are solver-chosen and explored exhaustively within the bound, cell values are fully symbolic."),
    "C19": (SYM, "Copy sequences are solver-chosen and explored exhaustively within the bound; for each, the solver decides the equivalence for all cell values."),
    "C20": (SYM, "Every value of the unknown inputs and table entries for the listed tables of 10 usable rows."),
    "C21": (SYM, "Selector patterns solver-chosen and exhaustive within the bound; cell values and witnesses symbolic."),
    "C22": (SYM, "Points of the pairing groups are represented by their discrete logarithms and the pairing by a product, so curve arithmetic and the pairing itself are outside; every value of evaluations, challenges, commitments, proof points and coefficients for every query pattern within the bound; opening points are fixed ordinary values."),
    "C24": (SYM, "Every state and every input for the listed widths and round numbers, bn256 Fr only; S-boxes are opaque powers, so the comparison is linear in them."),
    "C01": (IR, "Every value of the free bytes for the listed program shapes (all strings up to 3 bytes, all bracket structures up to 8 positions, long and deep ones with a few free bytes)."),
    "C25": (IR, "Every witness content at the listed program and input lengths, every length of the other witnesses, every outcome of system calls, reading and verification; the libraries below are stand-ins."),
    "C26": (IR, "Every number of steps up to 2^22 for the listed program and input shapes; the row demand of the circuit is measured on the real circuit; the libraries below are stand-ins."),
    "C27": (IR, "Every content of source, compiled program and input at the listed lengths; keys, parameters and proofs are stand-ins that name what they were made from."),
    "C12": (IR, "As C10, for the two secp256k1 fields."),

    "C02": (SYM, "All input bytes (symbolic) for the listed programs within the listed path bounds; trusts the symbolic field runtime (validated by native replay of every path)."),
    "C03": (SYM, "As C02, for every recorded row of the three traces."),
    "C04": (SYM, "As C02, for every gate, lookup and copy of the circuit assignment generated from the run."),
    "C05": (CIR, "Every advice assignment over the whole field for the listed layouts; challenge identities are taken to hold identically (Schwartz-Zippel)."),
    "C06": (CIR, "As C05, public lengths symbolic."),
    "C07": (CIR, "As C05, public inputs and lengths symbolic."),
    "C08": (CIR, "As C05; memory tables out of time order are the known finding and reported as such."),
    "C09": (CIR, "As C05."),
}
NA = {
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt setup.py",
     "checks": [{"property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": CLAIMS[p][0], "level": "model_checking", "level_note": CLAIMS[p][1]}
                for p in props if p in CLAIMS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMS]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
