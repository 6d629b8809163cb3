//! An ideal commitment scheme: a commitment is a curve point standing for the polynomial that was
//! committed; opening queries are handed to the caller instead of being proved.
use ff::{Field, PrimeField};
use group::Curve;
use halo2_proofs::io;
use halo2_proofs::poly::commitment::*;
use halo2_proofs::poly::sym_hooks::{CommitmentReference, Query};
use halo2_proofs::poly::{Coeff, Guard, LagrangeCoeff, Polynomial, ProverQuery, VerificationStrategy, VerifierQuery};
use halo2_proofs::transcript::*;
use halo2curves::bn256::{Fr, G1Affine, G1};
use halo2curves::FieldExt;
use rand_core::RngCore;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Com {
    Lagrange(Vec<Fr>),
    Coeff(Vec<Fr>),
    /// read from a proof, content unknown
    Opaque,
}
#[derive(Default)]
pub struct Table {
    pts: Vec<G1Affine>,
    ids: HashMap<[u8; 32], usize>,
    pub coms: Vec<Com>,
    pub prover_queries: Vec<(Fr, Vec<Fr>)>,
    pub queries: Vec<Opening>,
}
#[derive(Clone, Debug)]
pub struct Opening {
    /// (scalar, commitment)
    pub terms: Vec<(Fr, usize)>,
    pub msm: bool,
    pub point: Fr,
    pub eval: Fr,
}
thread_local! { pub static TAB: RefCell<Table> = RefCell::new(Table::default()); }
pub fn reset() {
    TAB.with(|t| {
        let t = &mut *t.borrow_mut();
        t.coms.clear();
        t.queries.clear();
        t.prover_queries.clear();
    })
}
/// the next commitment handle
pub fn commit(c: Com) -> G1Affine {
    TAB.with(|t| {
        let t = &mut *t.borrow_mut();
        let i = t.coms.len();
        t.coms.push(c);
        if t.pts.len() <= i {
            let g = G1Affine::generator_pt();
            let p = match t.pts.last() {
                None => g,
                Some(q) => (G1::from(*q) + g).to_affine(),
            };
            t.ids.insert(p.x.to_repr(), i);
            t.pts.push(p);
        }
        t.pts[i]
    })
}
trait Gen {
    fn generator_pt() -> Self;
}
impl Gen for G1Affine {
    fn generator_pt() -> Self {
        use group::prime::PrimeCurveAffine;
        <G1Affine as PrimeCurveAffine>::generator()
    }
}
pub fn id(p: &G1Affine) -> usize {
    TAB.with(|t| {
        let t = t.borrow();
        let i = *t.ids.get(&p.x.to_repr()).expect("unknown commitment");
        assert!(t.pts[i] == *p && i < t.coms.len(), "unknown commitment");
        i
    })
}
pub fn com(i: usize) -> Com {
    TAB.with(|t| t.borrow().coms[i].clone())
}
pub fn omega(k: u32) -> Fr {
    let mut w = Fr::root_of_unity();
    for _ in k..<Fr as PrimeField>::S {
        w = w.square();
    }
    w
}
/// value of the committed polynomial at a concrete point
pub fn value(i: usize, k: u32, x: Fr) -> Fr {
    match com(i) {
        Com::Coeff(v) => v.iter().rev().fold(Fr::zero(), |a, c| a * x + c),
        Com::Lagrange(v) => {
            let w = omega(k);
            let n = 1u64 << k;
            assert!(v.len() as u64 == n);
            let common = (x.pow_vartime(&[n]) - Fr::one()) * Fr::from(n).invert().unwrap();
            let mut acc = Fr::zero();
            let mut wj = Fr::one();
            for c in v.iter() {
                acc += *c * (common * wj * (x - wj).invert().unwrap());
                wj *= w;
            }
            acc
        }
        Com::Opaque => panic!("opaque commitment"),
    }
}

#[derive(Clone, Debug)]
pub struct IdParams {
    pub k: u32,
}
#[derive(Clone, Debug, Default)]
pub struct IdMsm(pub Vec<(Fr, G1)>);
impl MSM<G1Affine> for IdMsm {
    fn append_term(&mut self, scalar: Fr, point: G1) {
        self.0.push((scalar, point));
    }
    fn add_msm(&mut self, other: &Self) {
        self.0.extend(other.0.iter().cloned());
    }
    fn scale(&mut self, factor: Fr) {
        self.0.iter_mut().for_each(|t| t.0 *= factor);
    }
    fn check(&self) -> bool {
        unimplemented!()
    }
    fn eval(&self) -> G1 {
        unimplemented!()
    }
    fn bases(&self) -> Vec<G1> {
        self.0.iter().map(|t| t.1).collect()
    }
    fn scalars(&self) -> Vec<Fr> {
        self.0.iter().map(|t| t.0).collect()
    }
}
impl<'p> Params<'p, G1Affine> for IdParams {
    type MSM = IdMsm;
    fn k(&self) -> u32 {
        self.k
    }
    fn n(&self) -> u64 {
        1 << self.k
    }
    fn downsize(&mut self, k: u32) {
        self.k = k
    }
    fn shrink(&mut self, k: u32) {
        self.k = k
    }
    fn empty_msm(&'p self) -> IdMsm {
        IdMsm::default()
    }
    fn commit_lagrange(&self, poly: &Polynomial<Fr, LagrangeCoeff>, _r: Blind<Fr>) -> G1 {
        commit(Com::Lagrange(poly.to_vec())).into()
    }
    fn write<W: io::Write>(&self, _w: &mut W) -> io::Result<()> {
        unimplemented!()
    }
    fn read<R: io::Read>(_r: &mut R) -> io::Result<Self> {
        unimplemented!()
    }
}
impl<'p> ParamsProver<'p, G1Affine> for IdParams {
    type ParamsVerifier = IdParams;
    fn new(k: u32) -> Self {
        IdParams { k }
    }
    fn commit(&self, poly: &Polynomial<Fr, Coeff>, _r: Blind<Fr>) -> G1 {
        commit(Com::Coeff(poly.to_vec())).into()
    }
    fn get_g(&self) -> &[G1Affine] {
        &[]
    }
    fn verifier_params(&'p self) -> &'p IdParams {
        self
    }
}
impl<'p> ParamsVerifier<'p, G1Affine> for IdParams {}
#[derive(Debug)]
pub struct Ideal;
impl CommitmentScheme for Ideal {
    type Scalar = Fr;
    type Curve = G1Affine;
    type ParamsProver = IdParams;
    type ParamsVerifier = IdParams;
    fn new_params(k: u32) -> IdParams {
        IdParams { k }
    }
    fn read_params<R: io::Read>(_r: &mut R) -> io::Result<IdParams> {
        unimplemented!()
    }
}
pub struct Accept;
impl Guard<Ideal> for Accept {
    type MSMAccumulator = ();
}
/// Q: instance columns are committed and queried
pub struct IdProver<const Q: bool>;
impl<'p, const Q: bool> Prover<'p, Ideal> for IdProver<Q> {
    const QUERY_INSTANCE: bool = Q;
    fn new(_: &'p IdParams) -> Self {
        IdProver
    }
    fn create_proof<'com, E: EncodedChallenge<G1Affine>, T: TranscriptWrite<G1Affine, E>, R, I>(
        &self,
        _rng: R,
        _transcript: &mut T,
        queries: I,
    ) -> io::Result<()>
    where
        I: IntoIterator<Item = ProverQuery<'com, G1Affine>> + Clone,
        R: RngCore,
    {
        let v: Vec<(Fr, Fr)> = queries.into_iter().map(|q| (q.get_point(), q.get_eval())).collect();
        TAB.with(|t| t.borrow_mut().prover_queries = v.into_iter().map(|(p, e)| (p, vec![e])).collect());
        Ok(())
    }
}
pub struct IdVerifier<const Q: bool>;
impl<'p, const Q: bool> Verifier<'p, Ideal> for IdVerifier<Q> {
    type Guard = Accept;
    type MSMAccumulator = ();
    const QUERY_INSTANCE: bool = Q;
    fn new(_: &'p IdParams) -> Self {
        IdVerifier
    }
    fn verify_proof<'com, E: EncodedChallenge<G1Affine>, T: TranscriptRead<G1Affine, E>, I>(
        &self,
        _transcript: &mut T,
        queries: I,
        _msm: (),
    ) -> Result<Accept, halo2_proofs::poly::Error>
    where
        'p: 'com,
        I: IntoIterator<Item = VerifierQuery<'com, G1Affine, IdMsm>> + Clone,
    {
        let v: Vec<Opening> = queries
            .into_iter()
            .map(|q| {
                let (terms, msm) = match q.get_commitment() {
                    CommitmentReference::Commitment(c) => (vec![(Fr::one(), id(c))], false),
                    CommitmentReference::MSM(m) => (m.0.iter().map(|(s, p)| (*s, id(&p.to_affine()))).collect(), true),
                };
                Opening { terms, msm, point: q.get_point(), eval: q.get_eval() }
            })
            .collect();
        TAB.with(|t| t.borrow_mut().queries = v);
        Ok(Accept)
    }
}
pub struct Strat;
impl<'p, const Q: bool> VerificationStrategy<'p, Ideal, IdVerifier<Q>> for Strat {
    type Output = ();
    fn new(_: &'p IdParams) -> Self {
        Strat
    }
    fn process(self, f: impl FnOnce(()) -> Result<Accept, halo2_proofs::plonk::Error>) -> Result<(), halo2_proofs::plonk::Error> {
        f(()).map(|_| ())
    }
    fn finalize(self) -> bool {
        true
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// absorbed without being part of the proof
    CommonPt(usize),
    CommonSc(Fr),
    Pt(usize),
    Sc(Fr),
    Chal(Fr),
}
pub struct Ch(Fr);
impl EncodedChallenge<G1Affine> for Ch {
    type Input = Fr;
    fn new(c: &Fr) -> Self {
        Ch(*c)
    }
    fn get_scalar(&self) -> Fr {
        self.0
    }
}
/// Transcript whose challenges come from `chal(i)`; proof elements are recorded (prover), replayed
/// (verifier after prover) or made up by `scalar(i)` / fresh opaque commitments.
pub struct Tr<'a> {
    pub log: Vec<Ev>,
    pub chal: Box<dyn FnMut(usize) -> Fr + 'a>,
    pub nchal: usize,
    pub replay: Option<std::collections::VecDeque<Ev>>,
    pub scalar: Option<Box<dyn FnMut(usize) -> Fr + 'a>>,
    pub nscal: usize,
}
impl<'a> Tr<'a> {
    pub fn new(chal: impl FnMut(usize) -> Fr + 'a) -> Tr<'a> {
        Tr { log: vec![], chal: Box::new(chal), nchal: 0, replay: None, scalar: None, nscal: 0 }
    }
}
impl<'a> Transcript<G1Affine, Ch> for Tr<'a> {
    fn squeeze_challenge(&mut self) -> Ch {
        let c = (self.chal)(self.nchal);
        self.nchal += 1;
        self.log.push(Ev::Chal(c));
        Ch(c)
    }
    fn common_point(&mut self, p: G1Affine) -> io::Result<()> {
        self.log.push(Ev::CommonPt(id(&p)));
        Ok(())
    }
    fn common_scalar(&mut self, s: Fr) -> io::Result<()> {
        self.log.push(Ev::CommonSc(s));
        Ok(())
    }
}
impl<'a> TranscriptWrite<G1Affine, Ch> for Tr<'a> {
    fn write_point(&mut self, p: G1Affine) -> io::Result<()> {
        self.log.push(Ev::Pt(id(&p)));
        Ok(())
    }
    fn write_scalar(&mut self, s: Fr) -> io::Result<()> {
        self.log.push(Ev::Sc(s));
        Ok(())
    }
}
impl<'a> TranscriptRead<G1Affine, Ch> for Tr<'a> {
    fn read_point(&mut self) -> io::Result<G1Affine> {
        let i = match &mut self.replay {
            Some(q) => loop {
                match q.pop_front() {
                    Some(Ev::Pt(i)) => break i,
                    Some(Ev::Sc(_)) => return Err("proof has a scalar where a point is read"),
                    Some(_) => {}
                    None => return Err("proof too short"),
                }
            },
            None => id(&commit(Com::Opaque)),
        };
        self.log.push(Ev::Pt(i));
        Ok(TAB.with(|t| t.borrow().pts[i]))
    }
    fn read_scalar(&mut self) -> io::Result<Fr> {
        let s = match &mut self.replay {
            Some(q) => loop {
                match q.pop_front() {
                    Some(Ev::Sc(s)) => break s,
                    Some(Ev::Pt(_)) => return Err("proof has a point where a scalar is read"),
                    Some(_) => {}
                    None => return Err("proof too short"),
                }
            },
            None => {
                let s = (self.scalar.as_mut().unwrap())(self.nscal);
                self.nscal += 1;
                s
            }
        };
        self.log.push(Ev::Sc(s));
        Ok(s)
    }
}
