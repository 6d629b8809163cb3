#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []
def P(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    rows.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [], "hook_needed": None}})

P("C01", "Compiled program equals the source program",
  "For every Brainfuck source with balanced brackets, the compiled form is exactly the source's instruction characters in order, where each bracket is followed by one operand: the position just past the operand of its matching bracket. Characters that are not instructions have no effect on the result, and the field-element form has the same entries as the 16-bit form.",
  ["programs"], "every source byte string with balanced brackets whose compiled form has at most 65535 entries",
  "The tests compile a handful of fixed programs; nesting, comments, empty loops and deep brackets are sampled at most once.",
  ["ckb_bf_vm/src/code.rs"], [("bracket stack", "ckb_bf_vm/src/code.rs:compile_to_u16"), ("field form", "ckb_bf_vm/src/code.rs:compile")])
P("C02", "The VM executes Brainfuck semantics exactly",
  "Running a compiled program on an input produces exactly the outputs, consumed inputs, memory and final position that Brainfuck with wrapping 8-bit cells prescribes: +/- wrap between 255 and 0, , stores the next input byte, . emits the current cell, [ jumps when the cell is zero and ] when it is non-zero. The memory grows to the right with zero cells.",
  ["programs", "inputs"], "every non-empty compiled program and every byte input on which execution stays on the tape and never reads past the input",
  "Tests run about ten programs with fixed inputs; wrap-around, skipped loops and data-dependent jumps depend on every byte value and program shape.",
  ["ckb_bf_vm/src/interpreter.rs"], [("main loop", "ckb_bf_vm/src/interpreter.rs:Interpreter::run")], ["Interpreter fields after run()"])
P("C03", "The recorded trace describes the run faithfully",
  "After a run the processor trace has one row per executed step plus a final row, each with the cycle number, position, current and next instruction, cell pointer, cell value and its inverse (zero for zero) at that moment. The memory trace is the same (cycle, pointer, value) rows ordered by pointer then cycle, and the instruction trace is the program listing plus the executed (position, current, next) rows ordered by position.",
  ["programs", "inputs"], "every terminating run of a compiled program",
  "Tests only look at the traces through a proof of a few programs; a wrong inverse, row or order on some other run is never seen.",
  ["ckb_bf_vm/src/interpreter.rs", "ckb_bf_vm/src/matrix.rs"], [("row recording and sorting", "ckb_bf_vm/src/interpreter.rs:Interpreter::run")])
P("C04", "Every honest run yields a satisfying circuit assignment",
  "For every program and input that terminate with all input consumed, the circuit assignment generated from the recorded run satisfies every gate, lookup and copy constraint of the circuit, with the program and input (each preceded by its length) as the public inputs.",
  ["programs", "inputs"], "every terminating run, every value of the verifier challenges",
  "Tests prove a few programs with one challenge set; a constraint that wrongly rejects some byte value, opcode order or loop pattern is invisible to them.",
  ["ckb_bf_base/src/main_config.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/range_table.rs"],
  [("table loading", "ckb_bf_base/src/*_table.rs:load_table"), ("gates", "ckb_bf_base/src/*_table.rs:configure")])
P("C05", "Consecutive accepted processor rows form a legal step",
  "In every assignment that satisfies the circuit, whenever a processor row holds one of the eight instructions, the next row is exactly the state that instruction leads to: cycle plus one, the right next position (including both outcomes of [ and ]), the right cell pointer, and the right cell value (increment and decrement modulo 256, unchanged for [, ] and .). All cell values of the trace are bytes.",
  ["inputs", "programs"], "every satisfying assignment over the whole prime field, every instruction, every row",
  "Tests never try a dishonest witness except none at all for these gates; an under-constrained gate accepts all honest traces.",
  ["ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/range_table.rs"], [("P0-P3, C0-C1 gates", "ckb_bf_base/src/processor_table.rs:configure"), ("selectors", "ckb_bf_base/src/processor_table.rs:load_table")])
P("C06", "An accepted execution runs the public program",
  "In every assignment that satisfies the circuit, each executed row's (position, current instruction, next instruction) is the entry of the public program at that position and the one after it, with zero past the end. The public program length equals the number of program entries that were checked.",
  ["programs", "inputs"], "every public program, every satisfying assignment, generic challenges",
  "Tests only use honest witnesses; whether a forged instruction table or jump target is accepted cannot be sampled.",
  ["ckb_bf_base/src/instruction_table.rs", "ckb_bf_base/src/program_table.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/main_config.rs"],
  [("instruction permutation argument", "ckb_bf_base/src/instruction_table.rs"), ("program running sum", "ckb_bf_base/src/program_table.rs"), ("copy constraints", "ckb_bf_base/src/main_config.rs:load_table")])
P("C07", "An accepted execution reads the public input and outputs what it prints",
  "In every assignment that satisfies the circuit, the values stored by the read instructions, in execution order, are exactly the public input, and the values present at the write instructions, in order, are exactly the values of the output table. The public input length equals the number of values read.",
  ["inputs", "programs"], "every public input, every satisfying assignment, generic challenges",
  "Tests only use honest witnesses; a running sum that does not bind its values accepts them all.",
  ["ckb_bf_base/src/input_table.rs", "ckb_bf_base/src/output_table.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/main_config.rs"],
  [("running sums", "ckb_bf_base/src/{input,output,processor}_table.rs"), ("copy constraints", "ckb_bf_base/src/main_config.rs:load_table")])
P("C08", "Accepted memory reads return the last value written",
  "In every assignment that satisfies the circuit and whose memory table lists the accesses of each cell in time order, the value of a cell when the pointer comes back to it is the value it had when the pointer left, and zero on the first visit.",
  ["histories", "programs"], "every access pattern of the memory pointer within the bound, every satisfying assignment, generic challenges",
  "Tests only use honest witnesses.",
  ["ckb_bf_base/src/memory_table.rs", "ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/main_config.rs"],
  [("M0-M2 gates and permutation argument", "ckb_bf_base/src/memory_table.rs")])
P("C09", "An accepted execution starts fresh and ends past the program",
  "In every assignment that satisfies the circuit, the first processor row has cycle, position, cell pointer and cell value zero, and the last row's position is just past the end of the public program with current and next instruction zero.",
  ["programs", "inputs"], "every satisfying assignment",
  "Tests only use honest witnesses.",
  ["ckb_bf_base/src/processor_table.rs", "ckb_bf_base/src/instruction_table.rs"], [("B gates", "ckb_bf_base/src/processor_table.rs:configure")])
P("C10", "BN254 field arithmetic is exact",
  "For all field elements of the BN254 scalar and base fields, addition, subtraction, negation, doubling, multiplication, squaring and the conversions from integers return the canonical representative of the mathematical result modulo the prime.",
  ["inputs"], "all pairs of 254-bit canonical operands (all 2^256 / 2^512 integers for conversions)",
  "Random tests practically never hit carry, borrow or final-subtraction corner cases (probability about 2^-64).",
  ["halo2curves/src/derive/field.rs", "halo2curves/src/bn256/fr.rs", "halo2curves/src/bn256/fq.rs", "halo2curves/src/arithmetic.rs"],
  [("limb arithmetic macros", "halo2curves/src/derive/field.rs"), ("carry primitives", "halo2curves/src/arithmetic.rs")])
P("C11", "Field element encodings are canonical and round-trip",
  "Every field element of the BN254 and secp256k1 fields survives encoding and decoding in both the canonical byte form and the raw form, and decoding rejects exactly the encodings whose integer is not below the modulus. Comparison and parity follow the canonical integer.",
  ["inputs"], "all 2^256 byte strings and all field elements",
  "Random strings hit the boundary around the modulus with negligible probability.",
  ["halo2curves/src/derive/field.rs", "halo2curves/src/bn256/fr.rs", "halo2curves/src/bn256/fq.rs", "halo2curves/src/secp256k1/fp.rs", "halo2curves/src/secp256k1/fq.rs"],
  [("range check by borrow", "from_repr / from_raw_bytes / read_raw")])
P("C12", "secp256k1 field arithmetic is exact",
  "For all elements of the secp256k1 base and scalar fields, addition, subtraction, negation, doubling, multiplication, squaring and conversions from integers return the canonical representative of the mathematical result modulo the prime.",
  ["inputs"], "all pairs of 256-bit canonical operands",
  "These primes are close to 2^256, so carry handling matters on inputs random tests practically never draw.",
  ["halo2curves/src/derive/field.rs", "halo2curves/src/secp256k1/fp.rs", "halo2curves/src/secp256k1/fq.rs"],
  [("dense limb arithmetic macros", "halo2curves/src/derive/field.rs")])
P("C13", "BN254 extension-field arithmetic is exact",
  "In the quadratic, sextic and dodecic extension fields, addition, subtraction, negation, doubling, multiplication, squaring, cyclotomic squaring, sparse multiplications, inversion, conjugation, Frobenius maps, zero test, equality and constant-time selection agree with arithmetic in the defining tower modulo its irreducible polynomials.",
  ["inputs"], "all elements of each extension field",
  "Tests sample random elements; special cases such as zero coordinates or single Frobenius powers are sampled rarely.",
  ["halo2curves/src/bn256/fq2.rs", "halo2curves/src/bn256/fq6.rs", "halo2curves/src/bn256/fq12.rs"],
  [("Karatsuba-style formulas and Frobenius constants", "halo2curves/src/bn256/fq*.rs")])
P("C14", "Curve point operations implement the group law",
  "For all curve points, including the identity, equal points and opposite points, in every mix of affine and projective operands, addition (single and batched), subtraction, doubling, negation, equality, the on-curve test, conversion to and from affine and batch normalisation give the group-law result and stay on the curve.",
  ["inputs"], "all points of bn256 G1, G2 and secp256k1 in all coordinate representations",
  "Exceptional cases of the addition formulas are reached by random points with negligible probability.",
  ["halo2curves/src/derive/curve.rs", "halo2curves/src/bn256/curve.rs", "halo2curves/src/secp256k1/curve.rs"],
  [("addition and doubling formulas", "halo2curves/src/derive/curve.rs")])
P("C15", "Curve point encodings round-trip and reject off-curve data",
  "Every point of bn256 G1 and of secp256k1 (the identity included) survives compressed encoding, raw encoding (affine and projective) and every SerdeFormat, in memory, through a reader and through a proof transcript; decoding of any byte string, other than by the calls documented as unchecked, either fails or yields exactly the point on the curve with the encoded coordinates and sign.",
  ["inputs"], "all points and all byte strings of the encoded length",
  "Tests only round-trip random valid points and never feed hostile encodings.",
  ["halo2curves/src/derive/curve.rs", "halo2_proofs/src/helpers.rs", "halo2_proofs/src/transcript.rs"],
  [("on-curve and sign checks", "halo2curves/src/derive/curve.rs")])
P("C16", "Polynomial transforms and arithmetic are exact",
  "For every vector of field elements, forward and inverse transforms between coefficient, Lagrange and extended-coset form are mutually inverse and agree with evaluation of the polynomial at the domain's roots of unity; division by a linear factor, interpolation, evaluation, rotation and vanishing-polynomial division agree with their definitions.",
  ["inputs", "configurations"], "all coefficient vectors for each domain size within the bound",
  "Tests check a few random vectors at one or two sizes.",
  ["halo2_proofs/src/arithmetic.rs", "halo2_proofs/src/poly/domain.rs", "halo2_proofs/src/poly.rs"],
  [("best_fft, EvaluationDomain", "halo2_proofs/src/arithmetic.rs, halo2_proofs/src/poly/domain.rs")])
P("C17", "Prover and verifier evaluate the same constraints",
  "For every circuit and every value of the proof's evaluations, challenges and public inputs, the value the verifier requires of the quotient is the sum, with one power of y per term, of every gate, permutation and lookup constraint of every proof, each commitment is opened at the rotation at which it is queried with the evaluation used in that sum, and everything the prover sends or both sides know is absorbed before the challenges that depend on it, in the same order on both sides; the quotient the prover commits to agrees with that sum for every witness, whether the public inputs are committed or in the clear and for several proofs at once.",
  ["inputs", "configurations"], "all values of all queried cells, evaluations and challenges, for the repository's circuit and a family of test circuits",
  "Tests only see the two agree on satisfying witnesses, where almost every wrong term still evaluates to zero.",
  ["halo2_proofs/src/plonk/evaluation.rs", "halo2_proofs/src/plonk/prover.rs", "halo2_proofs/src/plonk/verifier.rs", "halo2_proofs/src/plonk/permutation", "halo2_proofs/src/plonk/lookup", "halo2_proofs/src/plonk/vanishing"],
  [("GraphEvaluator, Evaluator::evaluate_h", "halo2_proofs/src/plonk/evaluation.rs"), ("verify_proof", "halo2_proofs/src/plonk/verifier.rs"), ("create_proof", "halo2_proofs/src/plonk/prover.rs")])
P("C18", "Selector compression preserves every constraint",
  "After key generation combines selectors into fixed columns, each gate constraint, evaluated on any row with the fixed columns of the key and any values of the other cells, is a nonzero multiple of the original constraint with the original selector values (so it vanishes exactly when the original does), lookup expressions are unchanged in value, the circuit's own fixed columns are unchanged, and the degree of the constraint system is not raised.",
  ["configurations", "inputs"], "all selector activation patterns and all cell values within the bound",
  "Tests compress a few random patterns.",
  ["halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/plonk/circuit.rs", "halo2_proofs/src/plonk/keygen.rs"],
  [("exclusion matrix and expression substitution", "halo2_proofs/src/plonk/circuit/compress_selectors.rs:process")])
P("C19", "Copy constraints tie exactly the cells that were declared equal",
  "After any sequence of copy declarations between cells of columns enabled for equality (advice, fixed or instance), the permutation in the key is one-to-one and a set of cell values is invariant under it exactly when all declared pairs are equal; a copy involving a column not enabled for equality is refused.",
  ["histories"], "all sequences of copy declarations within the bound, all cell values",
  "Tests declare a handful of copies in fixed orders; cycle merging bugs depend on order and sizes.",
  ["halo2_proofs/src/plonk/permutation/keygen.rs", "halo2_proofs/src/plonk/keygen.rs", "halo2_proofs/src/circuit"],
  [("cycle merging", "halo2_proofs/src/plonk/permutation/keygen.rs:Assembly::copy"), ("labels", "halo2_proofs/src/plonk/permutation/keygen.rs:build_vk")])
P("C20", "The lookup prover succeeds exactly for contained inputs",
  "For all input and table values, the lookup prover reports a constraint failure exactly when some input value (or tuple) of a usable row is missing from the table's usable rows, and otherwise produces a proof whose openings satisfy every check of the verifier.",
  ["inputs"], "all input and table value vectors within the bound",
  "Tests use range tables with honest values.",
  ["halo2_proofs/src/plonk/lookup/prover.rs", "halo2_proofs/src/plonk/lookup/verifier.rs"],
  [("permute_expression_pair", "halo2_proofs/src/plonk/lookup/prover.rs")])
P("C21", "A key read back from its encoding is the key that was written",
  "For every circuit, selector activation pattern and encoding format, a verifying key written and read back (through write/read or to_bytes/from_bytes) has the same commitments, size, queries, constraints in value on every row, degree, pinned form and transcript representation, and the whole encoding is consumed; a proving key written and read back produces the same proof for every witness.",
  ["configurations", "inputs"], "all selector patterns within the bound, the three formats, all cell values and witnesses",
  "Tests read back one key of one circuit in one format.",
  ["halo2_proofs/src/plonk.rs", "halo2_proofs/src/plonk/circuit.rs", "halo2_proofs/src/plonk/circuit/compress_selectors.rs", "halo2_proofs/src/plonk/permutation.rs"],
  [("VerifyingKey::write/read", "halo2_proofs/src/plonk.rs"), ("ckb_recreate_side_effect", "halo2_proofs/src/plonk/circuit.rs"), ("Expression::write/read", "halo2_proofs/src/plonk/circuit.rs")])
P("C22", "Opening proofs check the claimed evaluation of every commitment",
  "For every set of queries, evaluations, challenges and proof points, the SHPLONK and GWC verifiers read the whole proof in the order the prover wrote it and accept exactly when the pairing check holds for the protocol's equation, in which every query's claimed evaluation enters with its own power of the batching challenges; a proof made by the prover for any polynomials satisfies that equation with their true evaluations. A batch in which all proofs but one are valid is accepted exactly when that one is. Commitments are the sums of coefficients times the parameters' bases, and the parameters are the powers and Lagrange values of one secret after set-up, down-sizing and reading back; the parameters cut down for the on-chain script read back with the same size, bases, G2 points and nothing left over.",
  ["inputs", "configurations"], "all evaluations, challenges, polynomials and proof points; every assignment of point sets within the bound",
  "Tests only open honest evaluations, for which dropped or shared batching factors go unnoticed.",
  ["halo2_proofs/src/poly/kzg", "halo2_proofs/src/poly/query.rs", "halo2_proofs/src/arithmetic.rs"],
  [("VerifierSHPLONK::verify_proof", "halo2_proofs/src/poly/kzg/multiopen/shplonk/verifier.rs"), ("construct_intermediate_sets", "halo2_proofs/src/poly/kzg/multiopen/shplonk.rs"), ("DualMSM::check", "halo2_proofs/src/poly/kzg/msm.rs"), ("ParamsKZG", "halo2_proofs/src/poly/kzg/commitment.rs")])
P("C24", "Optimised Poseidon equals the reference permutation",
  "For every state, the optimised Poseidon permutation with its pre-computed sparse matrices and constants equals the textbook permutation (round constants and Cauchy matrix from the paper's LFSR, full and partial rounds with x^5); the hasher equals the textbook sponge: capacity 2^64, every input absorbed in order whatever way it is split over update calls, one added after the last input, digest in the second word, and the state carried over from one squeeze to the next.",
  ["inputs"], "all states and inputs of the instantiated widths",
  "Tests compare on random states only for a few parameters.",
  ["poseidon/src/permutation.rs", "poseidon/src/spec.rs", "poseidon/src/poseidon.rs"],
  [("sparse factorisation of the linear layer", "poseidon/src/spec.rs")])
P("C25", "The on-chain verifier accepts only verified proofs of the witnessed program",
  "The on-chain script returns 0 exactly when its five witnesses (parameters, verifying key, proof, program, input) load, parameters and key can be read from them, and verify_proof accepts the witnessed proof under that key and those parameters for the public inputs formed from the program witness (little-endian 16-bit entries preceded by their count) and the input witness (bytes preceded by their count); in every other case, a failing system call included, it ends with a non-zero code or a panic. Programs of up to 1023 entries and inputs of up to 1023 bytes are accepted.",
  ["inputs", "fault_sequences"], "all witness contents up to the bound, all results of loading and verification",
  "The script is not built or run by the test suite at all.",
  ["ckb_bf_verifier/src/main.rs"], [("witness decoding and return codes", "ckb_bf_verifier/src/main.rs:main")])
P("C26", "The prover sizes the circuit so that every terminating run fits",
  "For every terminating run, the circuit size chosen by the prover leaves enough usable rows for all tables, the range table, the public inputs and the blinding rows.",
  ["programs", "inputs"], "every combination of trace lengths",
  "Only runs whose trace length is close to a power of two expose it; tests pick sizes by hand.",
  ["ckb_bf_prover/src/main.rs"], [("k computation", "ckb_bf_prover/src/main.rs:main")])
P("C27", "The prover publishes the proof of the program and input it was given",
  "For every source file and input argument (absent or given), the prover command compiles the source, runs it on the bytes of the argument, makes the proof for the public inputs (program entries and input bytes, each preceded by their count), and writes exactly one transaction whose witnesses are, in the order the on-chain script reads them, the parameters cut down for the script, the verifying key in raw form, the proof, the compiled program as little-endian 16-bit entries and the input bytes; parameters stored by an earlier run are used only for the size they were made for.",
  ["programs", "inputs"], "every source and input, whether or not parameters are stored",
  "The command is a main function no test runs.",
  ["ckb_bf_prover/src/main.rs", "ckb_bf_prover/src/ckb_tx.rs"], [("main and prove_and_verify", "ckb_bf_prover/src/main.rs:main"), ("build_ckb_tx", "ckb_bf_prover/src/ckb_tx.rs:build_ckb_tx")])
with open(OUT, "w") as f:
    for r in rows: f.write(json.dumps(r) + "\n")
print(len(rows))
