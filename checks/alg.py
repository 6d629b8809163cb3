"""Algebraic properties decided by running the real code with symbolic field types
(sym/overlay) over a family of cases (sym/alg), each for every value of its variables."""
import json, subprocess, threading
import ws

IDEAL = "polynomial commitments are ideal: a commitment stands for its polynomial and openings are checked against it (what KZG adds is not covered here)"
GROUPS = {
    "C17": dict(groups=["plonk"], budget=(600, 3000),
                bounds="verifier: all evaluations, challenges and 4-6 public inputs symbolic for 30 (thorough more) circuits with up to 3 phases, 7 permutation columns in chunks, 2 lookups of up to 3 columns, 1-2 proofs, both instance modes, and the brainfuck circuit of two programs (k=9); x fixed to one ordinary value except in the 'any x' cases; prover's quotient: 3 symbolic cells per column (gates), 1-2 symbolic cells (permutations), one symbolic input in 0..1000 (lookups), y and user challenges symbolic, k=4, two coset points; honest proofs at one ordinary point",
                funcs=["create_proof", "verify_proof", "keygen_vk/keygen_pk", "Evaluator::new/evaluate_h, GraphEvaluator", "permutation, lookup and vanishing prover/verifier", "EvaluationDomain"],
                assume=[IDEAL]),
    "C18": dict(groups=["selectors"], budget=(500, 3000),
                bounds="13 (thorough 15) circuits with up to 4 (5) selectors, every activation pattern on 2-5 rows, k=4; every cell value; rows beyond the pattern: one further usable row and the last",
                funcs=["keygen_vk", "ConstraintSystem::compress_selectors", "compress_selectors::process", "Expression::extract_simple_selector"], assume=[IDEAL]),
    "C19": dict(groups=["copies"], budget=(500, 3000),
                bounds="every sequence of 2 copies among 6 cells of 3 columns, of 3 copies among 6 cells (first one of 6), of 3 (thorough 4) among 4 cells, of two chains of up to 5 cells joined twice, of an advice copy and 2 instance copies; k=4",
                funcs=["keygen_vk", "permutation::keygen::Assembly::{new,copy,build_vk}", "Region::constrain_equal, Layouter::constrain_instance, SimpleFloorPlanner"], assume=[IDEAL]),
    "C20": dict(groups=["lookups"], budget=(500, 3000),
                bounds="tables and inputs of 10 usable rows (k=4) with 1-3 (thorough 4) unknown values in 0..2000 each, in one column, two columns and switched by a fixed column",
                funcs=["create_proof", "lookup::prover::{commit_permuted,permute_expression_pair,commit_product}", "verify_proof"], assume=[IDEAL]),
    "C21": dict(groups=["keyio"], budget=(600, 3000),
                bounds="the circuits of C18 with every activation pattern on up to 3 rows, in the three formats; proving key: 64 patterns with one symbolic witness cell; the brainfuck circuit of three programs (k=9)",
                funcs=["VerifyingKey::{write,read,to_bytes,from_bytes,pinned,hash_into}", "ProvingKey::{write,read,to_bytes}", "SelectorAssignment::{write,read}", "Expression::{write,read}", "ConstraintSystem::ckb_recreate_side_effect"], assume=[IDEAL]),
    "C22": dict(groups=["kzg"], budget=(600, 3000),
                bounds="verifiers: 3 commitments at every choice of subsets of 3 points, 2 at subsets of 4 points (zero among them), commitments and linear combinations of them, repeated queries, 2 query orders; provers: 2 polynomials of 4 coefficients at 3 points, 3 at 2, 1 of 8 coefficients at 3 points (thorough: more); batches of 1-3 proofs; parameters up to 2^3, commitments of up to 2^5 terms",
                funcs=["VerifierSHPLONK/ProverSHPLONK, VerifierGWC/ProverGWC", "construct_intermediate_sets", "MSMKZG, PreMSM, DualMSM (append, add, scale, combine, eval, check)", "SingleStrategy, AccumulatorStrategy", "ParamsKZG::{unsafe_setup_with_s,downsize,write,read,write_custom,read_custom,commit,commit_lagrange}", "best_multiexp, g_to_lagrange"],
                assume=["group elements are represented by their discrete logarithms; the pairing is bilinear and non-degenerate", "in best_multiexp each scalar is replaced by a distinct pseudo-random 250-bit number and the coefficients of the result are translated back: the bit decomposition itself is exercised for those numbers only"]),
    "C16": dict(groups=["poly"], budget=(500, 3000),
                bounds="transforms up to 2^5 (thorough 2^7) points, domains k<=4 (5) with quotient degrees up to 8, evaluation, division and interpolation up to 8, 8 and 6 coefficients",
                funcs=["best_fft/serial_fft", "EvaluationDomain::{new,lagrange_to_coeff,coeff_to_extended,coeff_to_extended_part(s),batched_*,extended_from_lagrange_vec,extended_to_coeff,rotate_extended,divide_by_vanishing_poly,rotate_omega,l_i_range}",
                       "eval_polynomial", "compute_inner_product", "kate_division", "lagrange_interpolate", "generate_twiddle_lookup_table", "Polynomial add/sub/mul/rotate"]),
    "C13": dict(groups=["ext"], budget=(500, 3000),
                bounds="all coordinates symbolic for ring operations, sparse products, conjugation, Frobenius powers 0..14, Fq2 and Fq6 inversion; Fq12 inversion with each pair of coordinates symbolic (quick: a third of the pairs) and the other ten fixed; cyclotomic squaring on 12 one-parameter families of the cyclotomic subgroup; square roots are not covered",
                funcs=["Fq2/Fq6/Fq12 add, sub, neg, double, mul, square, *_assign and operators, is_zero, ==, conditional_select, invert, conjugate, frobenius_map",
                       "Fq2 mul_by_nonresidue, mul_by_xi, norm", "Fq6 mul_by_nonresidue, mul_by_v, mul_by_1, mul_by_01", "Fq12 mul_by_014, mul_by_034, cyclotomic_square"],
                assume=["a nonzero element of a field has nonzero norm (-1 is checked to be a non-residue)"]),
    "C15": dict(groups=["codec"], budget=(500, 3000),
                bounds="bn256 G1 and secp256k1: every x and y (and z for projective raw data), both signs, the identity; compressed and raw encodings, the three SerdeFormats, points written to and read from a transcript; one point per encoding",
                funcs=["new_curve_impl!: GroupEncoding and SerdeObject of affine and projective points, is_on_curve, from_xy", "SerdeCurveAffine::{read,write}", "Blake2bRead/Blake2bWrite point and scalar handling"],
                assume=["sqrt returns a root exactly when there is one", "no point of order two (y is nonzero on non-identity points)", "the 32-byte encoding of a field element is a bijection onto canonical strings (C11) and is replaced by a stand-in that carries the element and its parity"]),
    "C24": dict(groups=["poseidon"], budget=(500, 3000),
                bounds="bn256 Fr; permutation: every state, widths 2-6 and 9 (thorough also 7, 8, 10, 12) with round numbers from (2,1) to (8,60); sponge: every sequence of up to 9 inputs split over three updates in every way, widths 2, 3, 5, and two rounds of updates and squeezing with widths 3, 4 (8 full and 5 partial rounds)",
                funcs=["Spec::{new,permute,calculate_optimized_constants,calculate_sparse_matrices}", "MDSMatrix, SparseMDSMatrix, Matrix", "Grain::generate", "State", "Poseidon::{new,update,squeeze}"],
                assume=["the parameters are generated by the LFSR of the Poseidon paper, re-implemented in the harness", "S-boxes are compared as powers of their (linear) input; products are not expanded"]),
    "C14": dict(groups=["curve"], budget=(500, 3000),
                bounds="G1 and secp256k1: all coordinates and denominators symbolic, six relations between the operands; G2: coordinates as polynomial identities with one denominator generic at a time; batches of 4 (thorough 5) points with every pattern of identities, batch_add of 2-3 pairs with every pair of relations; scalar multiplication is not covered",
                funcs=["new_curve_impl!: Add/Sub/Neg in every mix of Jacobian and affine, double, ct_eq, ==, is_identity, to_affine, to_curve, batch_normalize, is_on_curve, from_xy, new_jacobian, conditional_select, Sum",
                       "batch_add!"],
                assume=["no point of order two (y is nonzero on non-identity points)"]),
}


def check(c):
    g = GROUPS[c.prop]
    symbin, natbin = ws.build_alg()
    fails, cases = [], 0
    for grp in g["groups"]:
        p = subprocess.run([symbin, "--group", grp, "--tier", c.tier, "--seconds", str(g["budget"][c.tier == "thorough"])],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=20000)
        for l in p.stdout.split("\n"):
            l = l.strip()
            if not l:
                continue
            d = json.loads(l)
            if "fail" in d:
                fails.append((grp, d))
                continue
            if d.get("skipped"):
                c.note("not reached in the time budget: %s" % d["case"])
                c.count("skipped")
                continue
            cases += 1
            for k in ("paths", "forks", "queries", "checks", "identities", "unknown"):
                c.count(k, d[k])
            c.counts["solver_s"] = round(c.counts.get("solver_s", 0) + d["solver_ms"] / 1000, 2)
            for e in d["errors"] + d["inconclusive"]:
                c.note("undecided in %s: %s" % (d["case"], e[:160]))
                c.count("undecided")
            if not d["complete"] and not d["errors"]:
                c.note("incomplete: %s" % d["case"])
            if len(c.samples) < 12:
                c.samples.append(d["case"])
        if p.returncode != 0:
            c.note("%s ended with %d: %s" % (grp, p.returncode, p.stderr[-300:]))
            c.count("undecided")
    c.count("cases", cases)
    seen = {}
    for grp, d in fails:
        if seen.get(d["fail"], 0) >= 2:
            continue
        for m in d["cands"] or [{}]:
            line = d["fail"] + "\t" + ",".join("%s=%s" % kv for kv in m.items())
            r = subprocess.run([natbin, "--group", grp, "--tier", c.tier], input=line + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if r.stdout.startswith("FAILS") or r.returncode < 0:
                c.violation("%s: %s" % (d["fail"], r.stdout.strip()[6:] or "crash"),
                            "case: %s\nsymbolic failure: %s\nvalues: %s\nnative run: %s\nreplay: echo -e %r | %s --group %s --tier %s" % (
                                d["fail"], d["what"], json.dumps(m), r.stdout.strip(), line, natbin, grp, c.tier))
                seen[d["fail"]] = seen.get(d["fail"], 0) + 1
                break
        else:
            c.note("not confirmed natively: %s %s" % (d["fail"], d["what"][:160]))
            c.count("undecided")
    c.functions = g["funcs"]
    c.bounds = {"cases": g["bounds"]}
    c.assumptions = ["the symbolic field type stands for the prime field (its own arithmetic is the subject of C10-C12)"] + g.get("assume", [])
