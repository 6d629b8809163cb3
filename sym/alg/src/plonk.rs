//! C17: the verifier's combined constraint check and the prover's quotient, for every value of the
//! opened evaluations, witness cells and challenges.
use crate::cx::{Cx, SF};
use crate::ideal::*;
use crate::spec::*;
use crate::Case;
use ff::Field;
use halo2_proofs::plonk::*;
use halo2curves::bn256::{Fr, G1Affine};
use halo2curves::FieldExt;
use std::cell::RefCell;

pub fn same(a: Fr, b: Fr) -> bool {
    #[cfg(feature = "sym")]
    {
        (a - b).ident()
    }
    #[cfg(not(feature = "sym"))]
    {
        a == b
    }
}
pub fn num(seed: u64) -> Fr {
    // fixed, unstructured constants
    let a = Fr::from(0x9e37_79b9_7f4a_7c15u64 ^ seed.wrapping_mul(0x5851_f42d_4c95_7f2d));
    a.square() * a + Fr::from(seed + 3)
}
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.0 >> 33;
        x ^ (x >> 15)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}
impl rand_core::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.next() << 32 | self.next()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next() as u8
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// L_i(x) on the domain of size 2^k
fn lag(k: u32, i: i64, x: Fr) -> Fr {
    let n = 1u64 << k;
    let w = omega(k).pow_vartime(&[i.rem_euclid(n as i64) as u64]);
    w * (x.pow_vartime(&[n]) - Fr::one()) * (Fr::from(n) * (x - w)).invert().unwrap()
}
fn rot(k: u32, x: Fr, r: i32) -> Fr {
    x * omega(k).pow_vartime(&[r.rem_euclid(1 << k) as u64])
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Abs,
    P,
    S,
    C,
}
/// the message flow the protocol prescribes
fn flow(cs: &ConstraintSystem<Fr>, q: bool, inst: &[Vec<Vec<Fr>>]) -> Vec<Kind> {
    let np = inst.len();
    let mut f = vec![Kind::Abs];
    for i in inst {
        for c in i {
            for _ in 0..if q { 1 } else { c.len() } {
                f.push(Kind::Abs);
            }
        }
    }
    let ap = cs.advice_column_phase();
    let cp = cs.challenge_phase();
    for ph in 0..=cs.max_phase() {
        for _ in 0..np {
            f.extend(ap.iter().filter(|p| **p == ph).map(|_| Kind::P));
        }
        f.extend(cp.iter().filter(|p| **p == ph).map(|_| Kind::C));
    }
    let nl = cs.lookups().len();
    f.push(Kind::C);
    f.extend(vec![Kind::P; 2 * nl * np]);
    f.extend([Kind::C, Kind::C]);
    f.extend(vec![Kind::P; np * (sets(cs) + nl) + 1]);
    f.push(Kind::C);
    f.extend(vec![Kind::P; cs.degree() - 1]);
    f.push(Kind::C);
    let mut s = np * cs.advice_queries().len() + cs.fixed_queries().len() + 1 + cs.permutation().get_columns().len();
    if q {
        s += np * cs.instance_queries().len();
    }
    if sets(cs) > 0 {
        s += np * (3 * sets(cs) - 1);
    }
    f.extend(vec![Kind::S; s + np * 5 * nl]);
    f
}
fn sets(cs: &ConstraintSystem<Fr>) -> usize {
    let n = cs.permutation().get_columns().len();
    let c = cs.degree() - 2;
    (n + c - 1) / c
}
fn kinds(log: &[Ev]) -> Vec<Kind> {
    log.iter()
        .map(|e| match e {
            Ev::CommonPt(_) | Ev::CommonSc(_) => Kind::Abs,
            Ev::Pt(_) => Kind::P,
            Ev::Sc(_) => Kind::S,
            Ev::Chal(_) => Kind::C,
        })
        .collect()
}
/// Everything the verifier concluded from `log` and `queries` against an independent statement of
/// the constraints.
pub fn audit(cx: &mut Cx, vk: &VerifyingKey<G1Affine>, k: u32, q: bool, inst: &[Vec<Vec<Fr>>], log: &[Ev], queries: &[Opening]) {
    let cs = vk.cs();
    let np = inst.len();
    let n = 1u64 << k;
    let want = flow(cs, q, inst);
    cx.yes(kinds(log) == want, "order of messages and challenges");
    if kinds(log) != want {
        return;
    }
    let mut absd: Vec<&Ev> = vec![];
    let mut pts = vec![];
    let mut ch = vec![];
    let mut sc = vec![];
    for e in log {
        match e {
            Ev::Pt(i) => pts.push(*i),
            Ev::Chal(c) => ch.push(*c),
            Ev::Sc(s) => sc.push(*s),
            e => absd.push(e),
        }
    }
    // absorbed statement
    let mut inst_com: Vec<Vec<usize>> = vec![vec![]; np];
    let mut at = 1;
    for (p, i) in inst.iter().enumerate() {
        for c in i {
            if q {
                match absd[at] {
                    Ev::CommonPt(h) => {
                        inst_com[p].push(*h);
                        let mut v = c.clone();
                        v.resize(n as usize, Fr::zero());
                        match com(*h) {
                            Com::Lagrange(w) => cx.eqs(&w, &v, "committed instance column"),
                            _ => cx.yes(false, "instance commitment"),
                        }
                    }
                    _ => cx.yes(false, "instance commitment absorbed"),
                }
                at += 1;
            } else {
                for v in c {
                    match absd[at] {
                        Ev::CommonSc(s) => cx.eq(*s, *v, "absorbed instance value"),
                        _ => cx.yes(false, "instance value absorbed"),
                    }
                    at += 1;
                }
            }
        }
    }
    // commitments by role
    let mut ip = pts.into_iter();
    let ap = cs.advice_column_phase();
    let mut adv = vec![vec![usize::MAX; ap.len()]; np];
    let mut chals = vec![Fr::zero(); cs.num_challenges()];
    let mut ic = ch.into_iter();
    for ph in 0..=cs.max_phase() {
        for p in 0..np {
            for (c, x) in ap.iter().enumerate() {
                if *x == ph {
                    adv[p][c] = ip.next().unwrap();
                }
            }
        }
        for (c, x) in cs.challenge_phase().iter().enumerate() {
            if *x == ph {
                chals[c] = ic.next().unwrap();
            }
        }
    }
    let nl = cs.lookups().len();
    let theta = ic.next().unwrap();
    let perm_l: Vec<Vec<(usize, usize)>> = (0..np).map(|_| (0..nl).map(|_| (ip.next().unwrap(), ip.next().unwrap())).collect()).collect();
    let (beta, gamma) = (ic.next().unwrap(), ic.next().unwrap());
    let zs: Vec<Vec<usize>> = (0..np).map(|_| (0..sets(cs)).map(|_| ip.next().unwrap()).collect()).collect();
    let lz: Vec<Vec<usize>> = (0..np).map(|_| (0..nl).map(|_| ip.next().unwrap()).collect()).collect();
    let rnd = ip.next().unwrap();
    let y = ic.next().unwrap();
    let h: Vec<usize> = ip.collect();
    let x = ic.next().unwrap();
    let fixed: Vec<usize> = vk.fixed_commitments().iter().map(id).collect();
    let sigma: Vec<usize> = vk.permutation().commitments().iter().map(id).collect();
    // every evaluation in the proof is opened
    let used = RefCell::new(vec![false; queries.len()]);
    let missing = RefCell::new(vec![]);
    let open = |hd: usize, r: i32, what: &str| -> Fr {
        let pt = rot(k, x, r);
        for (i, o) in queries.iter().enumerate() {
            if !o.msm && o.terms[0].1 == hd && same(o.point, pt) {
                used.borrow_mut()[i] = true;
                return o.eval;
            }
        }
        missing.borrow_mut().push(format!("{} at rotation {} is not opened", what, r));
        Fr::zero()
    };
    let bf = cs.blinding_factors() as i64;
    let l0 = lag(k, 0, x);
    let llast = lag(k, -(bf + 1), x);
    let lblind = (1..=bf).fold(Fr::zero(), |a, i| a + lag(k, -i, x));
    let active = Fr::one() - (llast + lblind);
    let fx = |c: usize, r: i32| open(fixed[c], r, "fixed column");
    let cc = |c: usize| chals[c];
    let mut terms: Vec<Fr> = vec![];
    for p in 0..np {
        let ad = |c: usize, r: i32| open(adv[p][c], r, "advice column");
        let is = |c: usize, r: i32| {
            if q {
                open(inst_com[p][c], r, "instance column")
            } else {
                let pt = rot(k, x, r);
                inst[p][c].iter().enumerate().fold(Fr::zero(), |a, (j, v)| a + *v * lag(k, j as i64, pt))
            }
        };
        for g in cs.gates() {
            for e in g.polynomials() {
                terms.push(evalx(e, &fx, &ad, &is, &cc));
            }
        }
        let z = &zs[p];
        let cols = cs.permutation().get_columns();
        let chunk = cs.degree() - 2;
        let last_rot = -(bf as i32 + 1);
        if !z.is_empty() {
            terms.push(l0 * (Fr::one() - open(z[0], 0, "permutation product")));
            let e = open(z[z.len() - 1], 0, "permutation product");
            terms.push(llast * (e * e - e));
            for i in 1..z.len() {
                terms.push(l0 * (open(z[i], 0, "permutation product") - open(z[i - 1], last_rot, "permutation product")));
            }
            for (i, cs_) in cols.chunks(chunk).enumerate() {
                let mut l = open(z[i], 1, "permutation product");
                let mut r = open(z[i], 0, "permutation product");
                for (j, c) in cs_.iter().enumerate() {
                    let g = i * chunk + j;
                    let v = match c.column_type() {
                        Any::Advice(_) => ad(c.index(), 0),
                        Any::Fixed => fx(c.index(), 0),
                        Any::Instance => is(c.index(), 0),
                    };
                    l *= v + beta * open(sigma[g], 0, "permutation column") + gamma;
                    r *= v + beta * x * Fr::DELTA.pow_vartime(&[g as u64]) + gamma;
                }
                terms.push((l - r) * active);
            }
        }
        for (i, l) in cs.lookups().iter().enumerate() {
            let comp = |es: &Vec<Expression<Fr>>| es.iter().fold(Fr::zero(), |a, e| a * theta + evalx(e, &fx, &ad, &is, &cc));
            let (a, s) = (comp(l.input_expressions()), comp(l.table_expressions()));
            let (pa, ps) = perm_l[p][i];
            let zz = lz[p][i];
            let w = "lookup column";
            terms.push(l0 * (Fr::one() - open(zz, 0, w)));
            terms.push(llast * (open(zz, 0, w) * open(zz, 0, w) - open(zz, 0, w)));
            terms.push((open(zz, 1, w) * (open(pa, 0, w) + beta) * (open(ps, 0, w) + gamma) - open(zz, 0, w) * (a + beta) * (s + gamma)) * active);
            terms.push(l0 * (open(pa, 0, w) - open(ps, 0, w)));
            terms.push((open(pa, 0, w) - open(ps, 0, w)) * (open(pa, 0, w) - open(pa, -1, w)) * active);
        }
    }
    open(rnd, 0, "random polynomial");
    for (c, r) in cs.fixed_queries() {
        open(fixed[c.index()], r.0, "queried fixed column");
    }
    for p in 0..np {
        for (c, r) in cs.advice_queries() {
            open(adv[p][c.index()], r.0, "queried advice column");
        }
        if q {
            for (c, r) in cs.instance_queries() {
                open(inst_com[p][c.index()], r.0, "queried instance column");
            }
        }
    }
    for s in &sigma {
        open(*s, 0, "permutation column");
    }
    let miss = missing.into_inner();
    cx.yes(miss.is_empty(), &format!("{:?}", miss.first()));
    let hq: Vec<&Opening> = queries.iter().filter(|o| o.msm).collect();
    cx.yes(hq.len() == 1, "one quotient opening");
    if hq.len() != 1 {
        return;
    }
    let used = used.into_inner();
    for (i, o) in queries.iter().enumerate() {
        cx.yes(o.msm || used[i], "opening that belongs to no queried cell");
    }
    for s in &sc {
        cx.yes(queries.iter().any(|o| same(o.eval, *s)), "an evaluation of the proof is never opened");
    }
    let xn = x.pow_vartime(&[n]);
    let hq = hq[0];
    cx.yes(same(hq.point, x), "quotient opened at x");
    cx.yes(hq.terms.len() == h.len() && h.iter().all(|c| hq.terms.iter().filter(|t| t.1 == *c).count() == 1), "quotient pieces");
    for (i, c) in h.iter().enumerate() {
        if let Some(t) = hq.terms.iter().find(|t| t.1 == *c) {
            cx.eq(t.0, xn.pow_vartime(&[i as u64]), "quotient piece weight");
        }
    }
    let total = terms.iter().fold(Fr::zero(), |a, t| a * y + t);
    cx.eq(hq.eval * (xn - Fr::one()), total, "combined constraint value");
}
pub fn params(k: u32) -> IdParams {
    IdParams { k }
}
/// run the verifier on a made-up proof
pub fn verify_free(cx: &mut Cx, vk: &VerifyingKey<G1Affine>, k: u32, q: bool, inst: Vec<Vec<Vec<Fr>>>, generic_x: bool) {
    let nc = vk.cs().num_challenges() + 5;
    let chs: Vec<Fr> = (0..nc).map(|i| if i == nc - 1 && !generic_x { num(77) } else { cx.generic(&format!("ch{}", i)) }).collect();
    let p = params(k);
    let iv: Vec<Vec<&[Fr]>> = inst.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let iv2: Vec<&[&[Fr]]> = iv.iter().map(|i| &i[..]).collect();
    let cell = RefCell::new(&mut *cx);
    let mut tr = Tr::new(|i| if i < nc { chs[i] } else { Fr::from(i as u64) });
    tr.scalar = Some(Box::new(|i| cell.borrow_mut().generic(&format!("e{}", i))));
    let r = if q {
        verify_proof::<Ideal, IdVerifier<true>, Ch, _, _>(&p, vk, Strat, &iv2, &mut tr)
    } else {
        verify_proof::<Ideal, IdVerifier<false>, Ch, _, _>(&p, vk, Strat, &iv2, &mut tr)
    };
    let log = tr.log.clone();
    drop(tr);
    drop(cell);
    cx.yes(r.is_ok(), "verifier accepts the message flow");
    let qs = TAB.with(|t| t.borrow().queries.clone());
    if r.is_ok() {
        audit(cx, vk, k, q, &inst, &log, &qs);
    }
}
/// prove, then verify; every opening must be the value of the committed polynomial
pub fn roundtrip(cx: &mut Cx, s: &Spec, circuits: &[SpecCircuit], q: bool, inst: Vec<Vec<Vec<Fr>>>, chal: &dyn Fn(usize, usize) -> Fr) -> Result<(), String> {
    reset();
    install(s);
    let p = params(s.k);
    let vk = keygen_vk::<G1Affine, _, _>(&p, &circuits[0]).map_err(|e| format!("keygen: {:?}", e))?;
    let pk = keygen_pk::<G1Affine, _, _>(&p, vk, &circuits[0]).map_err(|e| format!("keygen: {:?}", e))?;
    let nc = pk.get_vk().cs().num_challenges() + 5;
    let iv: Vec<Vec<&[Fr]>> = inst.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let iv2: Vec<&[&[Fr]]> = iv.iter().map(|i| &i[..]).collect();
    let mut tw = Tr::new(|i| chal(i, nc));
    let rng = Rng(1);
    let r = if q {
        create_proof::<Ideal, IdProver<true>, Ch, _, _, _>(&p, &pk, circuits, &iv2, rng, &mut tw)
    } else {
        create_proof::<Ideal, IdProver<false>, Ch, _, _, _>(&p, &pk, circuits, &iv2, rng, &mut tw)
    };
    r.map_err(|e| format!("prover: {:?}", e))?;
    let wlog = tw.log.clone();
    let mut tr = Tr::new(|i| chal(i, nc));
    tr.replay = Some(wlog.iter().cloned().collect());
    let r = if q {
        verify_proof::<Ideal, IdVerifier<true>, Ch, _, _>(&p, pk.get_vk(), Strat, &iv2, &mut tr)
    } else {
        verify_proof::<Ideal, IdVerifier<false>, Ch, _, _>(&p, pk.get_vk(), Strat, &iv2, &mut tr)
    };
    let rlog = tr.log.clone();
    cx.yes(r.is_ok(), "verifier reads the proof");
    if r.is_err() {
        return Ok(());
    }
    cx.yes(kinds(&rlog) == kinds(&wlog), "prover and verifier agree on the message flow");
    cx.yes(kinds(&rlog) == flow(pk.get_vk().cs(), q, &inst), "message flow");
    if kinds(&rlog) != kinds(&wlog) {
        return Ok(());
    }
    for (a, b) in rlog.iter().zip(wlog.iter()) {
        match (a, b) {
            (Ev::CommonPt(a), Ev::CommonPt(b)) => {
                // the verifier commits the instance again
                let v = |i| match com(i) {
                    Com::Lagrange(v) => v,
                    _ => vec![],
                };
                cx.eqs(&v(*a), &v(*b), "absorbed instance commitment");
            }
            (Ev::CommonSc(a), Ev::CommonSc(b)) => cx.eq(*a, *b, "absorbed scalar"),
            (Ev::Pt(a), Ev::Pt(b)) => cx.yes(a == b, "point"),
            (Ev::Sc(a), Ev::Sc(b)) => cx.eq(*a, *b, "scalar"),
            (Ev::Chal(_), Ev::Chal(_)) => {}
            _ => cx.yes(false, "prover and verifier absorb different things"),
        }
    }
    let (qs, pq) = TAB.with(|t| (t.borrow().queries.clone(), t.borrow().prover_queries.clone()));
    cx.yes(qs.len() == pq.len(), "prover and verifier open the same polynomials");
    for (i, o) in qs.iter().enumerate() {
        let v = o.terms.iter().fold(Fr::zero(), |a, (w, c)| a + *w * value(*c, s.k, o.point));
        let what = if o.msm { "quotient opening".to_string() } else { format!("opening of commitment {}", o.terms[0].1) };
        cx.eq(v, o.eval, &what);
        if i < pq.len() {
            cx.yes(same(pq[i].0, o.point), "opening order: point");
            cx.eq(pq[i].1[0], o.eval, "opening order: value");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ circuits
fn a(c: usize, r: i32) -> E {
    E::Adv(c, r)
}
fn f(c: usize, r: i32) -> E {
    E::Fix(c, r)
}
fn i(c: usize, r: i32) -> E {
    E::Inst(c, r)
}
fn s(c: usize) -> E {
    E::Sel(c)
}
fn c(v: i64) -> E {
    E::C(v)
}
fn ch(v: usize) -> E {
    E::Ch(v)
}
/// a pseudo-random expression of degree at most `deg`
fn gen(r: &mut Rng, sp: &Spec, deg: usize, depth: usize) -> E {
    let leaf = depth == 0 || deg == 0;
    let pick = if leaf { r.below(6) } else { r.below(12) };
    match pick {
        0 => c([0, 1, 2, -1, 5, -7][r.below(6)]),
        1 if !sp.chal.is_empty() => ch(r.below(sp.chal.len())),
        2 if deg > 0 && sp.fix > 0 => f(r.below(sp.fix), r.below(3) as i32 - 1),
        3 if deg > 0 && sp.inst > 0 => i(r.below(sp.inst), r.below(3) as i32 - 1),
        0..=5 if deg == 0 => c(3),
        0..=5 => a(r.below(sp.adv.len()), r.below(4) as i32 - 2),
        6 | 7 => gen(r, sp, deg, depth - 1) + gen(r, sp, deg, depth - 1),
        8 => E::Neg(Box::new(gen(r, sp, deg, depth - 1))),
        9 => gen(r, sp, deg, depth - 1) * [2i64, -3, 0, 1][r.below(4)],
        _ => {
            let d = r.below(deg + 1);
            gen(r, sp, d, depth - 1) * gen(r, sp, deg - d, depth - 1)
        }
    }
}
fn base(k: u32) -> Spec {
    Spec { k, ..Default::default() }
}
/// (name, circuit) with gates only as far as the prover's quotient is concerned
fn gate_specs(tier: &str) -> Vec<(String, Spec)> {
    let mut v = vec![];
    let mut sp = base(4);
    sp.adv = vec![0, 0, 0];
    sp.fix = 2;
    sp.inst = 1;
    sp.sels = vec![true, true];
    sp.gates = vec![
        vec![s(0) * (a(0, 0) * a(1, 0) - a(2, 0)), s(0) * (a(0, 1) - i(0, 0) * 2)],
        vec![s(1) * (a(0, -1) + f(0, 0) * a(2, 1) - f(1, 1))],
        vec![f(0, 0) * (a(1, 0) - E::Neg(Box::new(a(2, 0))) + c(5))],
    ];
    sp.sel_on = vec![vec![0, 3], vec![1, 4]];
    sp.min_degree = 5;
    v.push(("gates".to_string(), sp));
    let mut sp = base(4);
    sp.adv = vec![0, 1, 2];
    sp.chal = vec![0, 0, 1];
    sp.fix = 1;
    sp.inst = 2;
    sp.sels = vec![false];
    sp.gates = vec![
        vec![s(0) * (a(1, 0) - a(0, 0) * ch(0) - ch(1)) + f(0, 0) * ch(2)],
        vec![a(2, 0) * ch(2) - a(1, 1) * i(1, -1) + i(0, 1), (c(1) - s(0)) * a(2, -1)],
    ];
    sp.sel_on = vec![vec![2, 5]];
    sp.min_degree = 3;
    v.push(("challenges and phases".to_string(), sp));
    for seed in 0..if tier == "quick" { 10 } else { 60 } {
        let mut sp = base(4);
        sp.adv = vec![0, 0, 1];
        sp.chal = vec![0, 1];
        sp.fix = 2;
        sp.inst = 1;
        let mut r = Rng(seed * 7919 + 11);
        let d = [3, 5, 5][r.below(3)];
        for _ in 0..3 {
            let g: Vec<E> = (0..1 + r.below(2)).map(|_| gen(&mut r, &sp, d, 4)).collect();
            sp.gates.push(g);
        }
        sp.min_degree = d;
        v.push((format!("random gates {}", seed), sp));
    }
    v
}
/// circuits with permutation and lookup arguments
fn arg_specs() -> Vec<(String, Spec)> {
    let mut v = vec![];
    for (name, cols, deg) in [("one set", 2usize, 4usize), ("chunks of 2", 5, 4), ("chunks of 3", 7, 5), ("full chunks", 4, 4)] {
        let mut sp = base(4);
        sp.adv = vec![0; 4];
        sp.fix = 2;
        sp.inst = 1;
        let all = [Col::A(2), Col::F(1), Col::A(0), Col::I(0), Col::A(3), Col::F(0), Col::A(1)];
        sp.eqs = all[..cols].to_vec();
        sp.gates = vec![vec![f(0, 0) * (a(0, 0) - a(1, 1)), a(3, 0) * f(1, 0)]];
        sp.min_degree = deg;
        v.push((format!("permutation {}", name), sp));
    }
    let mut sp = base(4);
    sp.adv = vec![0, 0, 1];
    sp.chal = vec![0];
    sp.fix = 3;
    sp.inst = 1;
    sp.sels = vec![false];
    sp.lookups = vec![
        vec![(s(0) * a(0, 0), f(0, 0)), (a(1, 1), f(1, 0))],
        vec![(a(2, -1) * ch(0) + i(0, 0), f(2, 0) * ch(0))],
    ];
    sp.gates = vec![vec![a(0, 0) * f(0, 1)]];
    v.push(("lookups".to_string(), sp));
    let mut sp = base(4);
    sp.adv = vec![0, 0, 1, 0];
    sp.chal = vec![0, 1];
    sp.fix = 2;
    sp.inst = 2;
    sp.sels = vec![true, false, true];
    sp.eqs = vec![Col::A(0), Col::A(3), Col::I(1), Col::A(2)];
    sp.lookups = vec![vec![(s(1) * a(0, 0), f(0, 0))], vec![(a(1, 0), a(3, -1))]];
    sp.gates = vec![vec![s(0) * a(0, 1), s(0) * s(1) * (a(1, 0) - i(0, 1))], vec![s(2) * (a(2, 0) * ch(1) - f(1, -1))]];
    sp.sel_on = vec![vec![1, 2], vec![0, 1], vec![2, 5]];
    v.push(("everything".to_string(), sp));
    v
}
fn instances(cx: &mut Cx, sp: &Spec, np: usize) -> Vec<Vec<Vec<Fr>>> {
    (0..np).map(|p| (0..sp.inst).map(|c| (0..(3 + p + c)).map(|j| cx.generic(&format!("i{}_{}_{}", p, c, j))).collect()).collect()).collect()
}
/// coset point number j of the extended domain
fn coset(k: u32, parts: u64, j: u64) -> Fr {
    let ek = k + parts.trailing_zeros();
    Fr::ZETA * omega(ek).pow_vartime(&[j])
}
pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let specs: Vec<(String, Spec)> = gate_specs(tier).into_iter().chain(arg_specs()).collect();
    for (ix, (name, sp)) in specs.iter().enumerate() {
        for (q, np) in [(false, 1), (true, 1), (false, 2), (true, 2)] {
            if np == 2 && tier == "quick" && name.starts_with("random") {
                continue;
            }
            let sp = sp.clone();
            v.push((
                format!("verifier: {}, instances {}, {} proofs", name, if q { "committed" } else { "in the clear" }, np),
                Box::new(move |cx: &mut Cx| {
                    cx.expand::<Fr>();
                    reset();
                    install(&sp);
                    let inst = instances(cx, &sp, np);
                    let vk = keygen_vk::<G1Affine, _, _>(&params(sp.k), &SpecCircuit::default()).unwrap();
                    verify_free(cx, &vk, sp.k, q, inst, false);
                }),
            ));
        }
        let _ = ix;
    }
    // the prover's quotient, for every witness, at points where it is determined by the witness alone
    for (name, sp) in gate_specs(tier) {
        for (q, np, j) in [(false, 1, 3u64), (true, 1, 6), (false, 2, 9)] {
            if tier == "quick" && name.starts_with("random") && (q || np == 2) {
                continue;
            }
            let sp = sp.clone();
            v.push((
                format!("quotient: {}, instances {}, {} proofs", name, if q { "committed" } else { "in the clear" }, np),
                Box::new(move |cx: &mut Cx| {
                    cx.expand::<Fr>();
                    let mut sp = sp.clone();
                    let usable = 9;
                    let mut col = |cx: &mut Cx, name: String, len: usize| -> Vec<Fr> {
                        (0..len).map(|r| if r == 1 || r == 4 || r == 5 { cx.generic(&format!("{}_{}", name, r)) } else { num((r * 31 + name.len()) as u64) }).collect()
                    };
                    sp.fixed = (0..sp.fix).map(|c| (0..usable).map(|r| if r == 2 { cx.generic(&format!("f{}", c)) } else { num((c * 100 + r) as u64) }).collect()).collect();
                    let circ: Vec<SpecCircuit> = (0..np).map(|p| SpecCircuit { advice: Some((0..sp.adv.len()).map(|c| col(cx, format!("a{}_{}", p, c), usable)).collect()) }).collect();
                    let inst: Vec<Vec<Vec<Fr>>> = (0..np).map(|p| (0..sp.inst).map(|c| col(cx, format!("i{}_{}", p, c), 5 + c)).collect()).collect();
                    let nch = sp.chal.len();
                    let cv: Vec<Fr> = (0..nch).map(|x| cx.generic(&format!("ch{}", x))).collect();
                    let y: Fr = cx.generic("y");
                    let x = coset(sp.k, sp.min_degree as u64 - 1, j);
                    let r = roundtrip(cx, &sp, &circ, q, inst, &|n, nc| {
                        if n < nch {
                            cv[n]
                        } else if n == nc - 1 {
                            x
                        } else if n == nc - 2 {
                            y
                        } else {
                            num(n as u64)
                        }
                    });
                    cx.yes(r.is_ok(), &format!("{:?}", r));
                }),
            ));
        }
    }
    // permutation products in the quotient
    for (name, eqs, deg, sym) in [
        ("2 columns, chunks of 1", vec![Col::A(0), Col::A(1)], 3usize, 2usize),
        ("3 columns, one set", vec![Col::A(1), Col::F(0), Col::A(0)], 5, 2),
        ("5 columns, chunks of 3", vec![Col::A(1), Col::F(0), Col::I(0), Col::A(2), Col::A(0)], 5, 1),
        ("7 columns, chunks of 3", vec![Col::A(3), Col::A(1), Col::F(0), Col::I(0), Col::A(2), Col::F(1), Col::A(0)], 5, 1),
        ("6 columns, full chunks", vec![Col::A(3), Col::A(1), Col::F(0), Col::A(2), Col::F(1), Col::A(0)], 5, 1),
    ] {
        for (q, np, j) in [(false, 1, 3u64), (true, 2, 6)] {
            let eqs = eqs.clone();
            v.push((
                format!("quotient: permutation of {}, {} proofs", name, np),
                Box::new(move |cx: &mut Cx| {
                    cx.expand::<Fr>();
                    let mut sp = base(4);
                    sp.adv = vec![0; 4];
                    sp.fix = 2;
                    sp.inst = 1;
                    sp.eqs = eqs.clone();
                    sp.min_degree = deg;
                    sp.gates = vec![vec![f(0, 0) * (a(0, 0) - a(1, 1)), a(3, 0) + f(1, 0) - i(0, 0)]];
                    let pick = |x: &Col| sp.eqs.contains(x);
                    let mut cps = vec![];
                    if pick(&Col::A(0)) && pick(&Col::A(1)) {
                        cps.push(((Col::A(0), 1), (Col::A(1), 2)));
                        cps.push(((Col::A(1), 2), (Col::A(1), 5)));
                    }
                    if pick(&Col::F(0)) {
                        cps.push(((Col::F(0), 2), (Col::A(0), 4)));
                    }
                    if pick(&Col::I(0)) {
                        cps.push(((Col::A(2), 3), (Col::I(0), 1)));
                    }
                    sp.copies = cps;
                    let usable = 9;
                    sp.fixed = (0..sp.fix).map(|c| (0..usable).map(|r| num((c * 100 + r) as u64)).collect()).collect();
                    let circ: Vec<SpecCircuit> = (0..np)
                        .map(|p| SpecCircuit {
                            advice: Some(
                                (0..4)
                                    .map(|c| (0..usable).map(|r| if c < sym && r == 1 + 3 * c && p == 0 { cx.generic(&format!("a{}_{}", p, c)) } else { num((p * 1000 + c * 50 + r) as u64) }).collect())
                                    .collect(),
                            ),
                        })
                        .collect();
                    let inst: Vec<Vec<Vec<Fr>>> = (0..np).map(|p| vec![(0..4).map(|r| if r == 1 && p == 0 { cx.generic("i") } else { num(r + 400) }).collect()]).collect();
                    let x = coset(sp.k, sp.min_degree as u64 - 1, j);
                    let y: Fr = cx.generic("y");
                    let r = roundtrip(cx, &sp, &circ, q, inst, &|n, nc| if n == nc - 1 { x } else if n == nc - 2 { y } else { num(n as u64 + 50) });
                    cx.yes(r.is_ok(), &format!("{:?}", r));
                }),
            ));
        }
    }
    // lookups in the quotient
    for (name, lk, deg) in [
        ("one column", vec![vec![(a(0, 0), a(1, 0))]], 5usize),
        ("rotations and products", vec![vec![(a(0, 0) * f(0, 0) + i(0, 0), a(1, 1) * f(0, 0) + i(0, 0))]], 9),
        ("two lookups of two columns", vec![vec![(a(0, 0), a(1, 0)), (f(0, 0) * 2, f(0, 0) + f(0, 0))], vec![(a(2, 0) + ch(0), ch(0) + a(2, 0)), (f(0, 0), f(0, 0))]], 5),
        ("two symbolic lookups", vec![vec![(a(0, 0), a(1, 0)), (f(0, 0) * 2, f(0, 0) + f(0, 0))], vec![(a(1, 0) + ch(0), a(0, 0) + ch(0)), (a(2, 0), a(2, 0))]], 5),
    ] {
        if tier == "quick" && name == "two symbolic lookups" {
            continue;
        }
        for (q, j) in [(false, 3u64), (true, 5)] {
            let lk = lk.clone();
            v.push((
                format!("quotient: lookup, {}, {}", name, j),
                Box::new(move |cx: &mut Cx| {
                    let mut sp = base(4);
                    sp.adv = vec![0; 4];
                    sp.chal = vec![0];
                    sp.fix = 1;
                    sp.inst = 1;
                    sp.lookups = lk.clone();
                    sp.min_degree = deg;
                    sp.gates = vec![vec![a(3, 0) - f(0, 0), a(3, 0) * a(3, 1)]];
                    let n = 1 << sp.k;
                    let usable = n - 6;
                    sp.fixed = vec![vec![Fr::one(); usable]];
                    let x0: Fr = cx.small("v", 0, 1000);
                    let a0: Vec<Fr> = (0..usable).map(|r| if r == 3 { x0 } else { Fr::from(7 * (r as u64 % 3) + 1) }).collect();
                    let mut a1: Vec<Fr> = a0.clone();
                    a1.rotate_left(1);
                    if name.starts_with("rot") {
                        // the table reads the next row, which is not usable for the last one
                        a1 = a0.clone();
                        a1.rotate_right(1);
                    }
                    let a2: Vec<Fr> = vec![Fr::zero(); usable];
                    let a3: Vec<Fr> = (0..usable).map(|r| num(r as u64)).collect();
                    sp.advice = vec![a0, a1, a2, a3];
                    let x = coset(sp.k, sp.min_degree as u64 - 1, j);
                    let y: Fr = cx.generic("y");
                    let r = roundtrip(cx, &sp, &[SpecCircuit::default()], q, vec![vec![vec![Fr::zero(); 2]]], &|n, nc| if n == nc - 1 { x } else if n == nc - 2 { y } else if n < 2 { Fr::from(5009 + n as u64) } else { num(n as u64 + 90) });
                    cx.yes(r.is_ok(), &format!("{:?}", r));
                }),
            ));
        }
    }
    // honest proofs at an ordinary point
    for (name, deg, what) in [("gates of degree 3", 0usize, 0usize), ("gates of degree 3, quotient of 4 pieces", 6, 0), ("gates and copies", 0, 1), ("gates, copies and a lookup", 0, 2), ("gates, copies and a lookup, 6 pieces", 8, 2)] {
        for (q, np) in [(false, 1), (true, 2)] {
            v.push((
                format!("honest: {}, instances {}, {} proofs", name, if q { "committed" } else { "in the clear" }, np),
                Box::new(move |cx: &mut Cx| {
                    cx.expand::<Fr>();
                    let mut sp = base(4);
                    sp.adv = vec![0; 5];
                    sp.fix = 1;
                    sp.inst = 1;
                    sp.min_degree = deg;
                    sp.gates = vec![vec![f(0, 0) * (a(0, 0) * a(1, 0) - a(2, 0)), f(0, 0) * (a(3, 0) - i(0, 0))]];
                    let usable = 8;
                    sp.fixed = vec![(0..usable).map(|r| if r < 4 { Fr::one() } else { Fr::zero() }).collect()];
                    if what >= 1 {
                        sp.eqs = vec![Col::A(1), Col::A(0), Col::A(2), Col::A(4)];
                        sp.copies = vec![((Col::A(0), 1), (Col::A(1), 2)), ((Col::A(1), 2), (Col::A(4), 5)), ((Col::A(2), 1), (Col::A(4), 2))];
                    }
                    if what >= 2 {
                        sp.lookups = vec![vec![(f(0, 0) * a(4, 0), f(0, 0) * a(4, 0)), (f(0, 0), f(0, 0))]];
                    }
                    let mut insts = vec![];
                    let circ: Vec<SpecCircuit> = (0..np)
                        .map(|p| {
                            let mut c: Vec<Vec<Fr>> = (0..5).map(|c| (0..usable).map(|r| num((p * 1000 + c * 50 + r) as u64)).collect()).collect();
                            let v: Fr = if p == 0 { cx.generic("a") } else { num(77) };
                            let w: Fr = if p == 0 { cx.generic("i") } else { num(78) };
                            c[0][1] = v;
                            c[1][2] = v;
                            for r in 0..4 {
                                c[2][r] = c[0][r] * c[1][r];
                            }
                            c[4][5] = v;
                            c[4][2] = c[2][1];
                            if what >= 2 {
                                // lookup inputs stay concrete
                                c[0][1] = num(5);
                                c[1][2] = num(5);
                                c[4][5] = num(5);
                                c[0][3] = v;
                                for r in 0..4 {
                                    c[2][r] = c[0][r] * c[1][r];
                                }
                                c[4][2] = c[2][1];
                            }
                            let inst: Vec<Fr> = (0..4).map(|r| if r == 2 { w } else { num(300 + r) }).collect();
                            for r in 0..4 {
                                c[3][r] = inst[r];
                            }
                            insts.push(vec![inst]);
                            SpecCircuit { advice: Some(c) }
                        })
                        .collect();
                    let r = roundtrip(cx, &sp, &circ, q, insts, &|n, _| num(n as u64 + 500));
                    cx.yes(r.is_ok(), &format!("{:?}", r));
                }),
            ));
        }
    }
    for (name, sp) in arg_specs() {
        v.push((
            format!("verifier, any x: {}", name),
            Box::new(move |cx: &mut Cx| {
                cx.expand::<Fr>();
                reset();
                install(&sp);
                let inst = instances(cx, &sp, 1);
                let vk = keygen_vk::<G1Affine, _, _>(&params(sp.k), &SpecCircuit::default()).unwrap();
                verify_free(cx, &vk, sp.k, true, inst, true);
            }),
        ));
    }
    // the repository's circuit
    for (prog, input, k) in [(",.", vec![1u64, 2], 9u32), (",[->+<]>.", vec![2], 9)] {
        for q in [false, true] {
            let prog = prog.to_string();
            let input = input.clone();
            v.push((
                format!("verifier: brainfuck circuit for {}, instances {}", prog, if q { "committed" } else { "in the clear" }),
                Box::new(move |cx: &mut Cx| {
                    use ckb_bf_base::main_config::MyCircuit;
                    use ckb_bf_base::utils::DOMAIN;
                    cx.expand::<Fr>();
                    reset();
                    let code = ckb_bf_vm::code::compile(prog.clone().into_bytes());
                    let mut it = ckb_bf_vm::interpreter::Interpreter::new();
                    it.set_code(code);
                    it.set_input(input.iter().map(|x| Fr::from(*x)).collect());
                    it.run();
                    let circuit = MyCircuit::<Fr, DOMAIN>::new(it.matrix);
                    let vk = keygen_vk::<G1Affine, _, _>(&params(k), &circuit).unwrap();
                    let inst = vec![(0..vk.cs().num_instance_columns()).map(|c| (0..6).map(|r| cx.generic(&format!("i{}_{}", c, r))).collect()).collect()];
                    verify_free(cx, &vk, k, q, inst, false);
                }),
            ));
        }
    }
}
