//! The opening arguments of the commitment scheme (SHPLONK and GWC over KZG), run on loggroup.
use crate::cx::Cx;
use crate::loggroup::*;
use crate::Case;
use ff::{Field, PrimeField};
use halo2_proofs::io;
use halo2_proofs::poly::commitment::{Blind, Params, ParamsProver, Prover, Verifier, MSM};
use halo2_proofs::poly::kzg::commitment::{KZGCommitmentScheme, ParamsKZG};
use halo2_proofs::poly::kzg::msm::{DualMSM, MSMKZG};
use halo2_proofs::poly::kzg::multiopen::{ProverGWC, ProverSHPLONK, VerifierGWC, VerifierSHPLONK};
use halo2_proofs::poly::kzg::strategy::{AccumulatorStrategy, GuardKZG, SingleStrategy};
use halo2_proofs::poly::{Coeff, EvaluationDomain, LagrangeCoeff, Polynomial, ProverQuery, VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::Fr;
use halo2curves::FieldExt;
use std::collections::VecDeque;

pub struct Ch(Fr);
impl EncodedChallenge<A1> for Ch {
    type Input = Fr;
    fn new(c: &Fr) -> Self {
        Ch(*c)
    }
    fn get_scalar(&self) -> Fr {
        self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Step {
    Chal,
    Pt,
}
/// transcript with given challenges; points written are decoded, points read are given
struct Tr {
    chal: VecDeque<Fr>,
    pts: VecDeque<Fr>,
    written: Vec<Fr>,
    steps: Vec<Step>,
}
impl Tr {
    fn new(chal: &[Fr], pts: &[Fr]) -> Tr {
        Tr { chal: chal.iter().cloned().collect(), pts: pts.iter().cloned().collect(), written: vec![], steps: vec![] }
    }
}
impl Transcript<A1, Ch> for Tr {
    fn squeeze_challenge(&mut self) -> Ch {
        self.steps.push(Step::Chal);
        Ch(self.chal.pop_front().expect("more challenges than expected"))
    }
    fn common_point(&mut self, _: A1) -> io::Result<()> {
        Ok(())
    }
    fn common_scalar(&mut self, _: Fr) -> io::Result<()> {
        Ok(())
    }
}
impl TranscriptWrite<A1, Ch> for Tr {
    fn write_point(&mut self, p: A1) -> io::Result<()> {
        self.steps.push(Step::Pt);
        self.written.push(decode(p.0));
        Ok(())
    }
    fn write_scalar(&mut self, _: Fr) -> io::Result<()> {
        unimplemented!()
    }
}
impl TranscriptRead<A1, Ch> for Tr {
    fn read_point(&mut self) -> io::Result<A1> {
        self.steps.push(Step::Pt);
        self.pts.pop_front().map(A1).ok_or("proof too short")
    }
    fn read_scalar(&mut self) -> io::Result<Fr> {
        unimplemented!()
    }
}
fn params(k: u32, tau: Fr) -> ParamsKZG<Log> {
    let n = 1u64 << k;
    let mut g = vec![];
    let mut x = Fr::one();
    for _ in 0..n {
        g.push(A1(x));
        x *= tau;
    }
    ParamsKZG { k, n, g_lagrange: g.clone(), g, g2: A2(Fr::one()), s_g2: A2(tau) }
}
/// (commitment, point) in query order, evaluations alongside
#[derive(Clone)]
struct Qs {
    q: Vec<(usize, usize)>,
    pts: Vec<Fr>,
}
fn pt_values() -> Vec<Fr> {
    // an ordinary x, x*w, x/w; their order as numbers is not their order here
    let x = crate::cx::dec::<Fr>("12345678901234567890123456789012345678901");
    let w = crate::ideal::omega(4);
    vec![x * w, x, x * w.invert().unwrap(), Fr::zero()]
}
fn vanish(p: &[Fr], u: Fr) -> Fr {
    p.iter().fold(Fr::one(), |a, x| a * (u - x))
}
fn interp(p: &[Fr], e: &[Fr], u: Fr) -> Fr {
    let mut acc = Fr::zero();
    for k in 0..p.len() {
        let mut t = e[k];
        for m in 0..p.len() {
            if m != k {
                t = t * (u - p[m]) * (p[k] - p[m]).invert().unwrap();
            }
        }
        acc += t;
    }
    acc
}
/// tau*left - right of the SHPLONK verifier, from the protocol
fn shplonk(qs: &Qs, com: &[Fr], ev: &[Fr], ch: &[Fr], h: &[Fr], tau: Fr) -> Fr {
    let (y, v, u) = (ch[0], ch[1], ch[2]);
    let mut order: Vec<usize> = vec![];
    for (c, _) in &qs.q {
        if !order.contains(c) {
            order.push(*c);
        }
    }
    let mut all: Vec<usize> = qs.q.iter().map(|x| x.1).collect();
    all.sort();
    all.dedup();
    let mut sets: Vec<(Vec<usize>, Vec<usize>)> = vec![];
    for c in order {
        let mut s: Vec<usize> = qs.q.iter().filter(|x| x.0 == c).map(|x| x.1).collect();
        s.sort();
        s.dedup();
        match sets.iter_mut().find(|x| x.0 == s) {
            Some(x) => x.1.push(c),
            None => sets.push((s, vec![c])),
        }
    }
    let rest = |s: &Vec<usize>| -> Fr { vanish(&all.iter().filter(|p| !s.contains(p)).map(|p| qs.pts[*p]).collect::<Vec<_>>(), u) };
    let d0 = rest(&sets[0].0).invert().unwrap();
    let z0 = vanish(&sets[0].0.iter().map(|p| qs.pts[*p]).collect::<Vec<_>>(), u);
    let mut right = Fr::zero();
    let mut pv = Fr::one();
    for (i, (s, cs)) in sets.iter().enumerate() {
        let f = if i == 0 { Fr::one() } else { rest(s) * d0 };
        let ps: Vec<Fr> = s.iter().map(|p| qs.pts[*p]).collect();
        let mut py = Fr::one();
        for c in cs {
            let es: Vec<Fr> = s.iter().map(|p| ev[qs.q.iter().position(|x| x.0 == *c && x.1 == *p).unwrap()]).collect();
            right += pv * f * py * (com[*c] - interp(&ps, &es, u));
            py *= y;
        }
        pv *= v;
    }
    right += u * h[1] - z0 * h[0];
    tau * h[1] - right
}
/// the same for GWC
fn gwc(qs: &Qs, com: &[Fr], ev: &[Fr], ch: &[Fr], w: &[Fr], tau: Fr) -> Fr {
    let (v, u) = (ch[0], ch[1]);
    let mut order: Vec<usize> = vec![];
    for (_, p) in &qs.q {
        if !order.contains(p) {
            order.push(*p);
        }
    }
    let mut acc = Fr::zero();
    let mut pu = Fr::one();
    for (i, p) in order.iter().enumerate() {
        let mut pv = Fr::one();
        let mut f = Fr::zero();
        for (n, q) in qs.q.iter().enumerate() {
            if q.1 == *p {
                f += pv * (com[q.0] - ev[n]);
                pv *= v;
            }
        }
        acc += pu * ((tau - qs.pts[*p]) * w[i] - f);
        pu *= u;
    }
    acc
}
fn points_of(qs: &Qs) -> usize {
    let mut s: Vec<usize> = qs.q.iter().map(|x| x.1).collect();
    s.sort();
    s.dedup();
    s.len()
}
/// every way of giving `nc` commitments non-empty sets of points, in one of the query orders
fn queries(cx: &mut Cx, nc: usize, np: usize) -> Qs {
    let mut sets = vec![];
    for c in 0..nc {
        sets.push(1 + cx.choose(&format!("set{}", c), (1 << np) - 1));
    }
    let mut q = vec![];
    match cx.choose("order", 2) {
        0 => {
            for c in 0..nc {
                for p in 0..np {
                    if sets[c] >> p & 1 == 1 {
                        q.push((c, p));
                    }
                }
            }
        }
        _ => {
            for p in (0..np).rev() {
                for c in 0..nc {
                    if sets[c] >> p & 1 == 1 {
                        q.push((c, p));
                    }
                }
            }
        }
    }
    Qs { q, pts: pt_values() }
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Shplonk,
    Gwc,
}
impl Kind {
    fn nchal(self) -> usize {
        if self == Kind::Shplonk {
            3
        } else {
            2
        }
    }
    fn nproof(self, qs: &Qs) -> usize {
        if self == Kind::Shplonk {
            2
        } else {
            points_of(qs)
        }
    }
    fn formula(self, qs: &Qs, com: &[Fr], ev: &[Fr], ch: &[Fr], h: &[Fr], tau: Fr) -> Fr {
        if self == Kind::Shplonk {
            shplonk(qs, com, ev, ch, h, tau)
        } else {
            gwc(qs, com, ev, ch, h, tau)
        }
    }
    fn steps(self, qs: &Qs) -> Vec<Step> {
        use Step::*;
        if self == Kind::Shplonk {
            vec![Chal, Chal, Pt, Chal, Pt]
        } else {
            let mut v = vec![Chal];
            v.resize(1 + points_of(qs), Pt);
            v
        }
    }
}
enum Com {
    Pt(A1),
    Msm(MSMKZG<Log>),
}
fn verify<'a>(
    kind: Kind,
    p: &'a ParamsKZG<Log>,
    acc: DualMSM<'a, Log>,
    tr: &mut Tr,
    qs: &Qs,
    com: &[Com],
    ev: &[Fr],
) -> Result<GuardKZG<'a, Log>, halo2_proofs::plonk::Error> {
    let v: Vec<VerifierQuery<A1, MSMKZG<Log>>> = qs
        .q
        .iter()
        .zip(ev)
        .map(|((c, pt), e)| match &com[*c] {
            Com::Pt(x) => VerifierQuery::new_commitment(x, qs.pts[*pt], *e),
            Com::Msm(m) => VerifierQuery::new_msm(m, qs.pts[*pt], *e),
        })
        .collect();
    let r = if kind == Kind::Shplonk {
        <VerifierSHPLONK<Log> as Verifier<KZGCommitmentScheme<Log>>>::new(p).verify_proof(tr, v, acc)
    } else {
        <VerifierGWC<Log> as Verifier<KZGCommitmentScheme<Log>>>::new(p).verify_proof(tr, v, acc)
    };
    r.map_err(|_| halo2_proofs::plonk::Error::Opening)
}
/// run the single-proof strategy; (accepted, value checked)
fn single(kind: Kind, p: &ParamsKZG<Log>, tr: &mut Tr, qs: &Qs, com: &[Com], ev: &[Fr], answer: bool) -> (bool, Vec<Fr>) {
    CHECKED.with(|t| t.borrow_mut().clear());
    ANSWER.with(|t| *t.borrow_mut() = answer);
    let s = SingleStrategy::new(p);
    let r = if kind == Kind::Shplonk {
        VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierSHPLONK<Log>>::process(s, |acc| verify(kind, p, acc, tr, qs, com, ev))
    } else {
        VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierGWC<Log>>::process(s, |acc| verify(kind, p, acc, tr, qs, com, ev))
    };
    (r.is_ok(), CHECKED.with(|t| t.borrow().clone()))
}
fn start(cx: &mut Cx) {
    cx.expand::<Fr>();
    reset();
    handles(false);
    handles(true);
}
fn verifier_case(cx: &mut Cx, kind: Kind, qs: &Qs, com: Vec<Com>, vals: &[Fr]) {
    let tau: Fr = cx.var("tau");
    let p = params(1, tau);
    let ev: Vec<Fr> = cx.vars("e", qs.q.len());
    let mut ch: Vec<Fr> = vec![];
    for i in 0..kind.nchal() {
        ch.push(cx.generic(&format!("c{}", i)));
    }
    let h: Vec<Fr> = cx.vars("h", kind.nproof(qs));
    for answer in [true, false] {
        let mut tr = Tr::new(&ch, &h);
        let (ok, got) = single(kind, &p, &mut tr, qs, &com, &ev, answer);
        cx.yes(got.len() == 1, "one final check");
        cx.yes(ok == answer, "accepted exactly when the final check holds");
        let mut steps = tr.steps.clone();
        let want = kind.steps(qs);
        if kind == Kind::Gwc {
            // the last challenge comes after all points
            cx.yes(steps.pop() == Some(Step::Chal), "order of the transcript");
        }
        cx.yes(steps == want, "order of the transcript");
        cx.yes(tr.pts.is_empty() && tr.chal.is_empty(), "whole proof read");
        if let Some(v) = got.first() {
            cx.eq(*v, kind.formula(qs, vals, &ev, &ch, &h, tau), "equation checked");
        }
    }
}
fn prover_case(cx: &mut Cx, kind: Kind, k: u32, qs: &Qs, nc: usize) {
    let n = 1usize << k;
    let tau: Fr = cx.var("tau");
    let p = params(k, tau);
    let mut polys: Vec<Polynomial<Fr, Coeff>> = vec![];
    let d = EvaluationDomain::<Fr>::new(2, k);
    for c in 0..nc {
        let mut q = d.empty_coeff();
        for i in 0..n {
            q[i] = cx.var(&format!("p{}_{}", c, i));
        }
        polys.push(q);
    }
    let mut ch: Vec<Fr> = vec![];
    for i in 0..kind.nchal() {
        ch.push(cx.generic(&format!("c{}", i)));
    }
    let v: Vec<ProverQuery<A1>> = qs.q.iter().map(|(c, pt)| halo2_proofs::poly::sym_hooks::prover_query(qs.pts[*pt], &polys[*c], Blind::default())).collect();
    let mut tr = Tr::new(&ch, &[]);
    let r = if kind == Kind::Shplonk {
        <ProverSHPLONK<Log> as Prover<KZGCommitmentScheme<Log>>>::new(&p).create_proof::<Ch, _, _, _>(NoRng, &mut tr, v)
    } else {
        <ProverGWC<Log> as Prover<KZGCommitmentScheme<Log>>>::new(&p).create_proof::<Ch, _, _, _>(NoRng, &mut tr, v)
    };
    cx.yes(r.is_ok(), "proof made");
    cx.yes(tr.steps == kind.steps(qs), "order of the transcript");
    if tr.written.len() != kind.nproof(qs) {
        return;
    }
    let at = |q: &Polynomial<Fr, Coeff>, x: Fr| q[..].iter().rev().fold(Fr::zero(), |a, c| a * x + c);
    let com: Vec<Fr> = polys.iter().map(|q| at(q, tau)).collect();
    let ev: Vec<Fr> = qs.q.iter().map(|(c, pt)| at(&polys[*c], qs.pts[*pt])).collect();
    cx.zero(kind.formula(qs, &com, &ev, &ch, &tr.written, tau), "honest opening accepted");
}
pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    for (kn, kind) in [("shplonk", Kind::Shplonk), ("gwc", Kind::Gwc)] {
        for first in 0..7usize {
            v.push((
                format!("{} verifier: three commitments, first set {}", kn, first + 1),
                Box::new(move |cx: &mut Cx| {
                    start(cx);
                    let mut qs = queries(cx, 2, 3);
                    // a third commitment in front
                    let mut q: Vec<(usize, usize)> = (0..3).filter(|p| (first + 1) >> p & 1 == 1).map(|p| (2, p)).collect();
                    q.extend(qs.q.iter());
                    qs.q = q;
                    let vals: Vec<Fr> = cx.vars("C", 3);
                    let com = vals.iter().map(|x| Com::Pt(A1(*x))).collect();
                    verifier_case(cx, kind, &qs, com, &vals);
                }),
            ));
        }
        v.push((
            format!("{} verifier: combinations of commitments", kn),
            Box::new(move |cx: &mut Cx| {
                start(cx);
                let qs = queries(cx, 3, 2);
                let b: Vec<Fr> = cx.vars("B", 4);
                let s: Vec<Fr> = cx.vars("s", 6);
                let mut m1 = MSMKZG::<Log>::new();
                m1.append_term(s[0], L1(b[0]));
                m1.append_term(s[1], L1(b[1]));
                let mut m2 = MSMKZG::<Log>::new();
                m2.append_term(s[2], L1(b[1]));
                m2.append_term(s[3], L1(b[2]));
                m2.append_term(s[4], L1(b[2]));
                let vals = [s[0] * b[0] + s[1] * b[1], b[3], s[2] * b[1] + (s[3] + s[4]) * b[2]];
                verifier_case(cx, kind, &qs, vec![Com::Msm(m1), Com::Pt(A1(b[3])), Com::Msm(m2)], &vals);
            }),
        ));
        v.push((
            format!("{} verifier: four points, zero among them", kn),
            Box::new(move |cx: &mut Cx| {
                start(cx);
                let qs = queries(cx, 2, 4);
                let vals: Vec<Fr> = cx.vars("C", 2);
                let com = vals.iter().map(|x| Com::Pt(A1(*x))).collect();
                verifier_case(cx, kind, &qs, com, &vals);
            }),
        ));
        v.push((
            format!("{} verifier: the same query twice", kn),
            Box::new(move |cx: &mut Cx| {
                start(cx);
                let mut qs = queries(cx, 2, 2);
                if kind == Kind::Gwc {
                    return;
                }
                let n = qs.q.len();
                let j = cx.choose("again", n);
                let q = qs.q[j];
                qs.q.push(q);
                let vals: Vec<Fr> = cx.vars("C", 2);
                // equal answers for equal queries
                let com: Vec<Com> = vals.iter().map(|x| Com::Pt(A1(*x))).collect();
                let tau: Fr = cx.var("tau");
                let p = params(1, tau);
                let mut ev: Vec<Fr> = cx.vars("e", n);
                ev.push(ev[j]);
                let ch: Vec<Fr> = (0..3).map(|i| cx.generic(&format!("c{}", i))).collect();
                let h: Vec<Fr> = cx.vars("h", 2);
                let (_, got) = single(kind, &p, &mut Tr::new(&ch, &h), &qs, &com, &ev, true);
                cx.eq(got[0], kind.formula(&qs, &vals, &ev, &ch, &h, tau), "equation checked");
            }),
        ));
        for (k, nc, np) in if th { vec![(2, 2, 3), (2, 3, 2), (3, 2, 2), (3, 1, 3), (2, 3, 3)] } else { vec![(2, 2, 3), (2, 3, 2), (3, 1, 3)] } {
            v.push((
                format!("{} prover: {} polynomials of {} coefficients at {} points", kn, nc, 1 << k, np),
                Box::new(move |cx: &mut Cx| {
                    start(cx);
                    let qs = queries(cx, nc, np);
                    prover_case(cx, kind, k, &qs, nc);
                }),
            ));
        }
        v.push((
            format!("{} batch: accepted exactly when the one unknown proof is valid", kn),
            Box::new(move |cx: &mut Cx| {
                start(cx);
                let n = 1 + cx.choose("proofs", 3);
                let pos = cx.choose("place", n);
                let tau: Fr = cx.var("tau");
                let p = params(1, tau);
                let qs = Qs { q: vec![(0, 0), (0, 1), (1, 0)], pts: pt_values() };
                let c: Vec<Fr> = cx.vars("C", 2);
                let ev: Vec<Fr> = cx.vars("e", 3);
                let h: Vec<Fr> = cx.vars("h", 2);
                let ch: Vec<Fr> = (0..kind.nchal()).map(|i| Fr::from(3 + i as u64)).collect();
                let z = vec![Fr::zero(); 3];
                let mut acc = AccumulatorStrategy::new(&p);
                for i in 0..n {
                    let (com, e, hh) = if i == pos { (&c, &ev, &h[..]) } else { (&z, &z, &z[..2]) };
                    let com: Vec<Com> = com.iter().map(|x| Com::Pt(A1(*x))).collect();
                    let mut tr = Tr::new(&ch, hh);
                    let r = if kind == Kind::Shplonk {
                        VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierSHPLONK<Log>>::process(acc, |a| verify(kind, &p, a, &mut tr, &qs, &com, e))
                    } else {
                        VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierGWC<Log>>::process(acc, |a| verify(kind, &p, a, &mut tr, &qs, &com, e))
                    };
                    acc = match r {
                        Ok(a) => a,
                        Err(_) => {
                            cx.yes(false, "batch step failed");
                            return;
                        }
                    };
                }
                let want = kind.formula(&qs, &c, &ev, &ch, &h, tau);
                let valid = cx.choose("valid", 2) == 1;
                CHECKED.with(|t| t.borrow_mut().clear());
                let ans = cx.choose("answer", 2) == 1;
                ANSWER.with(|t| *t.borrow_mut() = ans);
                let ok = if kind == Kind::Shplonk {
                    VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierSHPLONK<Log>>::finalize(acc)
                } else {
                    VerificationStrategy::<KZGCommitmentScheme<Log>, VerifierGWC<Log>>::finalize(acc)
                };
                cx.yes(ok == ans, "accepted exactly when the final check holds");
                let got = CHECKED.with(|t| t.borrow().clone());
                cx.yes(got.len() == 1, "one final check");
                if valid {
                    cx.assume_zero(want);
                } else {
                    cx.assume_nonzero(want);
                }
                cx.yes(bool::from(got[0].is_zero()) == valid, "validity of the batch");
            }),
        ));
    }
    v.push((
        "setup: powers of the secret".into(),
        Box::new(move |cx: &mut Cx| {
            start(cx);
            let k = cx.choose("k", 4) as u32;
            let tau: Fr = cx.generic("tau");
            let p = ParamsKZG::<Log>::unsafe_setup_with_s(k, tau);
            let n = 1usize << k;
            cx.yes(p.g.len() == n && p.g_lagrange.len() == n && p.k == k && p.n == n as u64, "size");
            let w = crate::ideal::omega(k);
            let mut pw = Fr::one();
            let mut wi = Fr::one();
            for i in 0..n {
                cx.eq(p.g[i].0, pw, "power of the secret");
                // L_i(tau) * (tau - w^i) * n = w^i (tau^n - 1)
                let tn = (0..n).fold(Fr::one(), |a, _| a * tau);
                cx.eq(p.g_lagrange[i].0 * (tau - wi) * Fr::from(n as u64), wi * (tn - Fr::one()), "Lagrange basis at the secret");
                pw *= tau;
                wi *= w;
            }
            cx.eq(p.g2.0, Fr::one(), "g2");
            cx.eq(p.s_g2.0, tau, "secret in g2");
        }),
    ));
    v.push((
        "setup: smaller parameters and copies".into(),
        Box::new(move |cx: &mut Cx| {
            start(cx);
            let tau: Fr = cx.generic("tau");
            let p = ParamsKZG::<Log>::unsafe_setup_with_s(3, tau);
            match cx.choose("what", 5) {
                0 => {
                    let k = cx.choose("k", 4) as u32;
                    let mut q = p.clone();
                    q.downsize(k);
                    let w = ParamsKZG::<Log>::unsafe_setup_with_s(k, tau);
                    cx.yes(q.k == k && q.n == 1 << k, "size");
                    let l = |v: &[A1]| v.iter().map(|x| x.0).collect::<Vec<_>>();
                    cx.eqs(&l(&q.g), &l(&w.g), "powers");
                    for i in 0..1usize << k {
                        // both sides times (tau - w^i)
                        let wi = crate::ideal::omega(k).pow_vartime(&[i as u64]);
                        cx.eq(q.g_lagrange[i].0 * (tau - wi), w.g_lagrange[i].0 * (tau - wi), "Lagrange basis");
                    }
                    cx.eq(q.s_g2.0, tau, "secret in g2");
                }
                f => {
                    let q = if f == 4 {
                        let mut b = vec![];
                        p.write(&mut b).unwrap();
                        ParamsKZG::<Log>::read(&mut &b[..]).unwrap()
                    } else {
                        let f = [SerdeFormat::Processed, SerdeFormat::RawBytes, SerdeFormat::RawBytesUnchecked][f - 1];
                        let mut b = vec![];
                        p.write_custom(&mut b, f).unwrap();
                        ParamsKZG::<Log>::read_custom(&mut &b[..], f).unwrap()
                    };
                    cx.yes(q.k == p.k && q.n == p.n, "size");
                    let l = |v: &[A1]| v.iter().map(|x| x.0).collect::<Vec<_>>();
                    cx.eqs(&l(&q.g), &l(&p.g), "powers");
                    cx.eqs(&l(&q.g_lagrange), &l(&p.g_lagrange), "Lagrange basis");
                    cx.eq(q.g2.0, p.g2.0, "g2");
                    cx.eq(q.s_g2.0, p.s_g2.0, "secret in g2");
                }
            }
        }),
    ));
    v.push((
        "setup: parameters cut down for the on-chain script".into(),
        Box::new(move |cx: &mut Cx| {
            start(cx);
            let k = ckb_bf_base::SHRINK_K + cx.choose("k", 5) as u32;
            let n = 1usize << k;
            let g: Vec<Fr> = cx.vars("g", n);
            let gl: Vec<Fr> = cx.vars("l", n);
            let h: Vec<Fr> = cx.vars("h", 2);
            let mut p = ParamsKZG::<Log> {
                k,
                n: n as u64,
                g: g.iter().map(|x| A1(*x)).collect(),
                g_lagrange: gl.iter().map(|x| A1(*x)).collect(),
                g2: A2(h[0]),
                s_g2: A2(h[1]),
            };
            p.shrink(ckb_bf_base::SHRINK_K);
            let mut b = vec![];
            p.write(&mut b).unwrap();
            let mut rest = &b[..];
            let q = ckb_bf_base::utils::read_verifier_params::<Log, _>(&mut rest);
            cx.yes(q.is_ok() && rest.is_empty(), "read whole");
            let q = match q {
                Ok(q) => q,
                Err(_) => return,
            };
            cx.yes(q.k == k && q.n == n as u64, "size");
            cx.yes(!q.g.is_empty() && q.g.len() <= n && q.g_lagrange.len() <= n, "bases left");
            let l = |v: &[A1]| v.iter().map(|x| x.0).collect::<Vec<_>>();
            cx.eqs(&l(&q.g), &g[..q.g.len()], "powers");
            cx.eqs(&l(&q.g_lagrange), &gl[..q.g_lagrange.len()], "Lagrange basis");
            cx.eq(q.g2.0, h[0], "g2");
            cx.eq(q.s_g2.0, h[1], "secret in g2");
            if n > 2 {
                return;
            }
            let cut = cx.choose("cut", b.len());
            cx.yes(ckb_bf_base::utils::read_verifier_params::<Log, _>(&mut &b[..cut]).is_err(), "a prefix is no set of parameters");
        }),
    ));
    v.push((
        "commit: sum of coefficients times bases".into(),
        Box::new(move |cx: &mut Cx| {
            start(cx);
            let k = 1 + cx.choose("k", 5) as u32;
            let n = 1usize << k;
            let g: Vec<Fr> = cx.vars("g", n);
            let gl: Vec<Fr> = cx.vars("l", n);
            let p = ParamsKZG::<Log> {
                k,
                n: n as u64,
                g: g.iter().map(|x| A1(*x)).collect(),
                g_lagrange: gl.iter().map(|x| A1(*x)).collect(),
                g2: A2(Fr::one()),
                s_g2: A2(Fr::one()),
            };
            let c: Vec<Fr> = cx.vars("c", n);
            let d = EvaluationDomain::<Fr>::new(2, k);
            let mut a = d.empty_coeff();
            let mut b = d.empty_lagrange();
            for i in 0..n {
                a[i] = c[i];
                b[i] = c[i];
            }
            let dot = |b: &[Fr]| c.iter().zip(b).fold(Fr::zero(), |a, (x, y)| a + *x * *y);
            cx.eq(decode(p.commit(&a, Blind::default()).0), dot(&g), "commitment to coefficients");
            cx.eq(decode(p.commit_lagrange(&b, Blind::default()).0), dot(&gl), "commitment to values");
        }),
    ));
    v.push((
        "combinations of commitments: scale, add, combine, evaluate".into(),
        Box::new(move |cx: &mut Cx| {
            start(cx);
            let n = cx.choose("n", 4);
            let m = cx.choose("m", 4);
            let b: Vec<Fr> = cx.vars("b", 7);
            let s: Vec<Fr> = cx.vars("s", 8);
            let mut x = MSMKZG::<Log>::new();
            let mut y = MSMKZG::<Log>::new();
            let mut want = Fr::zero();
            for i in 0..n {
                x.append_term(s[i], L1(b[i]));
            }
            for i in 0..m {
                y.append_term(s[3 + i], L1(b[3 + i]));
            }
            let what = cx.choose("what", 4);
            for i in 0..n {
                want += s[i] * b[i];
            }
            match what {
                0 => {
                    x.scale(s[7]);
                    want *= s[7];
                }
                1 => {
                    x.add_msm(&y);
                    for i in 0..m {
                        want += s[3 + i] * b[3 + i];
                    }
                }
                2 => {
                    x.combine_with_base(s[7]);
                    want = Fr::zero();
                    for i in 0..n {
                        want = want * s[7] + s[i] * b[i];
                    }
                }
                _ => {}
            }
            cx.eq(decode(x.eval().0), want, "value");
            let (sc, bs) = (x.scalars(), x.bases());
            cx.eq(sc.iter().zip(&bs).fold(Fr::zero(), |a, (s, b)| a + *s * b.0), want, "terms");
        }),
    ));
}
struct NoRng;
impl rand_core::RngCore for NoRng {
    fn next_u32(&mut self) -> u32 {
        4
    }
    fn next_u64(&mut self) -> u64 {
        4
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.fill(4)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        d.fill(4);
        Ok(())
    }
}
