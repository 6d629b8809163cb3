//! C14: group law on bn256 G1/G2 and secp256k1, Jacobian and affine.
use crate::cx::{Cx, SF};
use crate::Case;
use ff::Field;
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use halo2curves::bn256::{Fq, Fq2, G1Affine, G2Affine, G1, G2};
use halo2curves::secp256k1::{Fp, Secp256k1, Secp256k1Affine};
use halo2curves::{CurveAffine, CurveAffineExt, CurveExt};

/// base field of a curve: variables, assumptions and checks coordinate-wise
pub trait BF: Field {
    fn var(cx: &mut Cx, n: &str) -> Self;
    fn nz(cx: &mut Cx, v: Self);
    fn chk(cx: &mut Cx, v: Self, w: &str);
    /// assume y^2 = r
    fn square_is(cx: &mut Cx, y: Self, r: Self);
    fn start(_: &mut Cx) {}
    /// projective denominators: index says which one
    fn zvar(cx: &mut Cx, n: &str, _mode: usize) -> Self {
        Self::var(cx, n)
    }
    const ZMODES: usize = 1;
}
impl BF for Fq {
    fn var(cx: &mut Cx, n: &str) -> Self {
        cx.var(n)
    }
    fn nz(cx: &mut Cx, v: Self) {
        cx.assume_nonzero(v)
    }
    fn chk(cx: &mut Cx, v: Self, w: &str) {
        cx.zero(v, w)
    }
    fn square_is(cx: &mut Cx, y: Self, r: Self) {
        cx.relation(y * y, r)
    }
}
impl BF for Fp {
    fn var(cx: &mut Cx, n: &str) -> Self {
        cx.var(n)
    }
    fn nz(cx: &mut Cx, v: Self) {
        cx.assume_nonzero(v)
    }
    fn chk(cx: &mut Cx, v: Self, w: &str) {
        cx.zero(v, w)
    }
    fn square_is(cx: &mut Cx, y: Self, r: Self) {
        cx.relation(y * y, r)
    }
}
// G2: generic coordinates (identities of polynomials; exceptional cases are their own cases)
impl BF for Fq2 {
    fn var(cx: &mut Cx, n: &str) -> Self {
        Fq2 { c0: cx.generic(&format!("{}_0", n)), c1: cx.generic(&format!("{}_1", n)) }
    }
    fn nz(_: &mut Cx, _: Self) {}
    fn start(cx: &mut Cx) {
        cx.expand::<Fq>();
    }
    // one generic denominator at a time, the others fixed
    const ZMODES: usize = 4;
    fn zvar(cx: &mut Cx, n: &str, mode: usize) -> Self {
        let d = n.bytes().last().unwrap() as usize;
        if mode == d - b'0' as usize {
            Self::var(cx, n)
        } else {
            Fq2 { c0: Fq::from(3 + 5 * d as u64), c1: Fq::from(7 + d as u64) }
        }
    }
    fn chk(cx: &mut Cx, v: Self, w: &str) {
        cx.zero(v.c0, w);
        cx.zero(v.c1, w)
    }
    fn square_is(cx: &mut Cx, y: Self, r: Self) {
        // y0^2 - y1^2 = r0, 2 y0 y1 = r1, as a rewriting system closed under overlaps
        let half = Fq::from(2).invert().unwrap();
        cx.relation(y.c0 * y.c0, y.c1 * y.c1 + r.c0);
        cx.relation(y.c0 * y.c1, r.c1 * half);
        cx.relation(y.c1 * y.c1 * y.c1, y.c0 * r.c1 * half - r.c0 * y.c1);
    }
}
/// reference point in affine form; None = identity
#[derive(Clone, Copy)]
pub enum Pt<F> {
    O,
    A(F, F),
}
/// does the Jacobian point stand for num_x/d^2, num_y/d^3 (d nonzero)?
struct Want<F> {
    x: F,
    y: F,
    d: F,
}
pub trait Cv: Sized {
    type B: BF;
    type J: CurveExt<Base = Self::B, AffineExt = Self::A> + Group + Curve<AffineRepr = Self::A>;
    type A: CurveAffine<Base = Self::B, CurveExt = Self::J> + PrimeCurveAffine<Curve = Self::J> + CurveAffineExt;
    fn j(x: Self::B, y: Self::B, z: Self::B) -> Self::J;
    fn a(x: Self::B, y: Self::B) -> Self::A;
    fn xyz(p: &Self::J) -> (Self::B, Self::B, Self::B);
    fn xy(p: &Self::A) -> (Self::B, Self::B);
    fn b() -> u64;
}
macro_rules! cv {
    ($n:ident, $J:ident, $A:ident, $B:ident, $b:expr) => {
        pub struct $n;
        impl Cv for $n {
            type B = $B;
            type J = $J;
            type A = $A;
            fn j(x: $B, y: $B, z: $B) -> $J {
                $J { x, y, z }
            }
            fn a(x: $B, y: $B) -> $A {
                $A { x, y }
            }
            fn xyz(p: &$J) -> ($B, $B, $B) {
                (p.x, p.y, p.z)
            }
            fn xy(p: &$A) -> ($B, $B) {
                (p.x, p.y)
            }
            fn b() -> u64 {
                $b
            }
        }
    };
}
cv!(BnG1, G1, G1Affine, Fq, 3);
cv!(BnG2, G2, G2Affine, Fq2, 0);
cv!(Secp, Secp256k1, Secp256k1Affine, Fp, 7);

fn jac<C: Cv>(cx: &mut Cx, p: Pt<C::B>, z: &str, mode: usize) -> C::J {
    match p {
        // every representation of the identity has z = 0
        Pt::O => {
            let (x, y) = (C::B::var(cx, &format!("ox{}", z)), C::B::var(cx, &format!("oy{}", z)));
            C::j(x, y, C::B::zero())
        }
        Pt::A(x, y) => {
            let z = C::B::zvar(cx, z, mode);
            C::B::nz(cx, z);
            C::j(x * z * z, y * z * z * z, z)
        }
    }
}
fn aff<C: Cv>(p: Pt<C::B>) -> C::A {
    match p {
        Pt::O => <C::A as PrimeCurveAffine>::identity(),
        Pt::A(x, y) => C::a(x, y),
    }
}
/// the group law, denominators kept apart: (X/d^2, Y/d^3)
fn law<F: BF>(p: Pt<F>, q: Pt<F>, rel: usize) -> Option<Want<F>> {
    match (p, q) {
        (Pt::O, Pt::O) => None,
        (Pt::O, Pt::A(x, y)) | (Pt::A(x, y), Pt::O) => Some(Want { x, y, d: F::one() }),
        (Pt::A(x1, y1), Pt::A(x2, y2)) => {
            if rel == 2 {
                return None;
            }
            let (n, d) = if rel == 1 {
                let t = x1 * x1;
                (t + t + t, y1 + y1)
            } else {
                (y2 - y1, x2 - x1)
            };
            // lambda = n/d ; x3 = lambda^2 - x1 - x2 ; y3 = lambda (x1 - x3) - y1
            let d2 = d * d;
            let x3 = n * n - (x1 + x2) * d2;
            let y3 = n * (x1 * d2 - x3) - y1 * d2 * d;
            Some(Want { x: x3, y: y3, d })
        }
    }
}
fn same<C: Cv>(cx: &mut Cx, g: &C::J, w: &Option<Want<C::B>>, what: &str) {
    let (x, y, z) = C::xyz(g);
    match w {
        None => cx.yes(bool::from(g.is_identity()), &format!("{} is the identity", what)),
        Some(w) => {
            let id = bool::from(g.is_identity());
            cx.yes(!id, &format!("{} is not the identity", what));
            if id {
                return;
            }
            C::B::chk(cx, x * w.d.square() - w.x * z.square(), &format!("{}: x", what));
            C::B::chk(cx, y * w.d.square() * w.d - w.y * z.square() * z, &format!("{}: y", what));
        }
    }
}
fn same_aff<C: Cv>(cx: &mut Cx, g: &C::A, p: Pt<C::B>, what: &str) {
    let (x, y) = C::xy(g);
    match p {
        Pt::O => cx.yes(bool::from(PrimeCurveAffine::is_identity(g)), &format!("{} is the identity", what)),
        Pt::A(a, b) => {
            C::B::chk(cx, x - a, &format!("{}: x", what));
            C::B::chk(cx, y - b, &format!("{}: y", what));
        }
    }
}
fn pt<C: Cv>(cx: &mut Cx, n: &str) -> Pt<C::B> {
    let (x, y) = (C::B::var(cx, &format!("x{}", n)), C::B::var(cx, &format!("y{}", n)));
    // no points of order two on these curves
    C::B::nz(cx, y);
    Pt::A(x, y)
}
/// rel: 0 unrelated x, 1 equal, 2 opposite, 3 P=O, 4 Q=O, 5 both O
fn pair<C: Cv>(cx: &mut Cx, rel: usize) -> (Pt<C::B>, Pt<C::B>) {
    let p = pt::<C>(cx, "1");
    let (x1, y1) = match p {
        Pt::A(x, y) => (x, y),
        _ => unreachable!(),
    };
    match rel {
        0 => {
            let q = pt::<C>(cx, "2");
            if let Pt::A(x2, _) = q {
                C::B::nz(cx, x1 - x2);
            }
            (p, q)
        }
        1 => (p, p),
        2 => (p, Pt::A(x1, -y1)),
        3 => (Pt::O, p),
        4 => (p, Pt::O),
        _ => (Pt::O, Pt::O),
    }
}
fn neg<F: BF>(p: Pt<F>) -> Pt<F> {
    match p {
        Pt::O => Pt::O,
        Pt::A(x, y) => Pt::A(x, -y),
    }
}
const REL: [&str; 6] = ["distinct", "equal", "opposite", "left identity", "right identity", "both identity"];
fn ops<C: Cv>(cx: &mut Cx, rel: usize, mode: usize)
where
    for<'a> &'a C::J: core::ops::Add<&'a C::A, Output = C::J> + core::ops::Sub<&'a C::A, Output = C::J> + core::ops::Add<&'a C::J, Output = C::J> + core::ops::Sub<&'a C::J, Output = C::J>,
    for<'a> &'a C::A: core::ops::Add<&'a C::J, Output = C::J> + core::ops::Sub<&'a C::J, Output = C::J> + core::ops::Add<&'a C::A, Output = C::J> + core::ops::Sub<&'a C::A, Output = C::J>,
{
    C::B::start(cx);
    let (p, q) = pair::<C>(cx, rel);
    let w = law(p, q, rel);
    let (pj, qj) = (jac::<C>(cx, p, "z1", mode), jac::<C>(cx, q, "z2", mode));
    let (pa, qa) = (aff::<C>(p), aff::<C>(q));
    // subtraction of the opposite
    let nq = neg(q);
    let (nj, na) = (jac::<C>(cx, nq, "z3", mode), aff::<C>(nq));
    same::<C>(cx, &(&pj + &qj), &w, "J+J");
    same::<C>(cx, &(pj + qj), &w, "J+J by value");
    let mut t = pj;
    t += qj;
    same::<C>(cx, &t, &w, "J+=J");
    let mut t = pj;
    t += qa;
    same::<C>(cx, &t, &w, "J+=A");
    same::<C>(cx, &(&pj + &qa), &w, "J+A");
    same::<C>(cx, &(&pa + &qj), &w, "A+J");
    same::<C>(cx, &(&pa + &qa), &w, "A+A");
    same::<C>(cx, &(&pj - &nj), &w, "J-J");
    let mut t = pj;
    t -= nj;
    same::<C>(cx, &t, &w, "J-=J");
    same::<C>(cx, &(&pj - &na), &w, "J-A");
    same::<C>(cx, &(&pa - &nj), &w, "A-J");
    same::<C>(cx, &(&pa - &na), &w, "A-A");
    // equality
    let eq = rel == 1 || rel == 5;
    cx.yes((pj == qj) == eq, "J == J");
    cx.yes((pa == qa) == eq, "A == A");
    cx.yes((pj != qj) != eq, "J != J");
    use subtle::ConstantTimeEq;
    cx.yes(bool::from(pj.ct_eq(&qj)) == eq, "J ct_eq J");
    cx.yes(bool::from(pa.ct_eq(&qa)) == eq, "A ct_eq A");
    let s: C::J = [pj, qj].iter().sum();
    same::<C>(cx, &s, &w, "sum");
}
fn single<C: Cv>(cx: &mut Cx, o: bool, mode: usize)
where
    for<'a> &'a C::A: core::ops::Neg<Output = C::A>,
    for<'a> &'a C::J: core::ops::Neg<Output = C::J>,
{
    C::B::start(cx);
    let p = if o { Pt::O } else { pt::<C>(cx, "1") };
    let pj = jac::<C>(cx, p, "z1", mode);
    let pa = aff::<C>(p);
    let w2 = if o { None } else { law(p, p, 1) };
    same::<C>(cx, &pj.double(), &w2, "double");
    let w1 = law(Pt::O, p, 3);
    let n1 = law(Pt::O, neg(p), 3);
    same::<C>(cx, &-&pj, &n1, "-J");
    same::<C>(cx, &-pj, &n1, "-J by value");
    same_aff::<C>(cx, &-&pa, neg(p), "-A");
    same_aff::<C>(cx, &-pa, neg(p), "-A by value");
    same_aff::<C>(cx, &pj.to_affine(), p, "to_affine");
    same_aff::<C>(cx, &C::A::from(pj), p, "A from J");
    same::<C>(cx, &PrimeCurveAffine::to_curve(&pa), &w1, "to_curve");
    same::<C>(cx, &C::J::from(pa), &w1, "J from A");
    cx.yes(bool::from(pj.is_identity()) == o, "J is_identity");
    cx.yes(bool::from(PrimeCurveAffine::is_identity(&pa)) == o, "A is_identity");
    same::<C>(cx, &C::J::identity(), &None, "identity");
    same_aff::<C>(cx, &<C::A as PrimeCurveAffine>::identity(), Pt::O, "affine identity");
    use subtle::ConditionallySelectable;
    same::<C>(cx, &C::J::conditional_select(&C::J::identity(), &pj, 1.into()), &w1, "conditional_select 1");
    same::<C>(cx, &C::J::conditional_select(&pj, &C::J::identity(), 0.into()), &w1, "conditional_select 0");
    let (x, y, z) = pj.jacobian_coordinates();
    let (a, b, c) = C::xyz(&pj);
    C::B::chk(cx, x - a, "jacobian x");
    C::B::chk(cx, y - b, "jacobian y");
    C::B::chk(cx, z - c, "jacobian z");
}
/// y^2 = x^3 + b + e : accepted exactly when e = 0
fn oncurve<C: Cv>(cx: &mut Cx, b: C::B, on: bool, z: bool) {
    C::B::start(cx);
    let (x, y) = (C::B::var(cx, "x"), C::B::var(cx, "y"));
    // no points of order two; (0,0) stands for the identity
    C::B::nz(cx, y);
    let e = if on {
        C::B::zero()
    } else {
        let e = C::B::var(cx, "e");
        C::B::nz(cx, e);
        e
    };
    C::B::square_is(cx, y, x * x * x + b + e);
    let what = if on { "accepted" } else { "rejected" };
    let pa = C::a(x, y);
    cx.yes(bool::from(pa.is_on_curve()) == on, &format!("affine is_on_curve: {}", what));
    cx.yes(bool::from(C::A::from_xy(x, y).is_some()) == on, &format!("from_xy: {}", what));
    if z {
        let z = C::B::var(cx, "z");
        C::B::nz(cx, z);
        let pj = C::j(x * z * z, y * z * z * z, z);
        cx.yes(bool::from(pj.is_on_curve()) == on, &format!("Jacobian is_on_curve: {}", what));
        cx.yes(bool::from(C::J::new_jacobian(x * z * z, y * z * z * z, z).is_some()) == on, &format!("new_jacobian: {}", what));
    }
    C::B::chk(cx, <C::A as CurveAffine>::b() - b, "constant b");
    C::B::chk(cx, <C::A as CurveAffine>::a(), "constant a");
    C::B::chk(cx, <C::J as CurveExt>::b() - b, "constant b");
    C::B::chk(cx, <C::J as CurveExt>::a(), "constant a");
    let g = <C::A as PrimeCurveAffine>::generator();
    let (gx, gy) = C::xy(&g);
    C::B::chk(cx, gy * gy - gx * gx * gx - b, "generator is on the curve");
    same::<C>(cx, &C::J::identity().double(), &None, "2 O");
    cx.yes(bool::from(C::J::identity().is_on_curve()), "identity is on the curve");
    cx.yes(bool::from(<C::A as PrimeCurveAffine>::identity().is_on_curve()), "affine identity is on the curve");
}
fn batch<C: Cv>(cx: &mut Cx, mask: usize, n: usize, mode: usize) {
    C::B::start(cx);
    let mut ps = vec![];
    let mut js = vec![];
    for i in 0..n {
        let p = if mask >> i & 1 == 1 { Pt::O } else { pt::<C>(cx, &format!("{}", i)) };
        ps.push(p);
        js.push(jac::<C>(cx, p, &format!("z{}", i), mode));
    }
    let mut out = vec![<C::A as PrimeCurveAffine>::identity(); n];
    C::J::batch_normalize(&js, &mut out);
    for i in 0..n {
        same_aff::<C>(cx, &out[i], ps[i], &format!("batch_normalize[{}]", i));
    }
}
/// batch_add of pairs; rels per pair
fn badd<C: Cv>(cx: &mut Cx, rels: &[usize], complete: bool, load: bool)
where
    for<'a> &'a C::A: core::ops::Neg<Output = C::A>,
{
    C::B::start(cx);
    let mut pts = vec![];
    let mut want = vec![];
    for (i, r) in rels.iter().enumerate() {
        let p = pt::<C>(cx, &format!("1_{}", i));
        let (x1, y1) = match p {
            Pt::A(x, y) => (x, y),
            _ => unreachable!(),
        };
        let (p, q) = match r {
            0 => {
                let q = pt::<C>(cx, &format!("2_{}", i));
                if let Pt::A(x2, _) = q {
                    C::B::nz(cx, x1 - x2);
                }
                (p, q)
            }
            1 => (p, p),
            2 => (p, Pt::A(x1, -y1)),
            3 => (Pt::O, p),
            4 => (p, Pt::O),
            _ => (Pt::O, Pt::O),
        };
        want.push(law(p, q, *r));
        pts.push(aff::<C>(p));
        pts.push(aff::<C>(q));
    }
    let n = pts.len();
    let outs: Vec<u32> = (0..rels.len() as u32).map(|i| n as u32 + (rels.len() as u32 - 1 - i) + 7).collect();
    let blank = vec![<C::A as PrimeCurveAffine>::identity(); rels.len()];
    let mut work;
    if load {
        // even bases are stored negated and loaded with the sign bit
        let bases: Vec<C::A> = pts.iter().enumerate().map(|(i, p)| if i % 2 == 0 { -p } else { *p }).rev().collect();
        let pos: Vec<u32> = (0..n).map(|i| (n - 1 - i) as u32 | if i % 2 == 0 { 0x80000000 } else { 0 }).collect();
        work = vec![<C::A as PrimeCurveAffine>::identity(); n];
        work.extend(blank);
        match complete {
            true => C::A::batch_add::<true, true>(&mut work, &outs, n, 7, &bases, &pos),
            false => C::A::batch_add::<false, true>(&mut work, &outs, n, 7, &bases, &pos),
        }
    } else {
        work = pts.clone();
        work.extend(blank);
        match complete {
            true => C::A::batch_add::<true, false>(&mut work, &outs, n, 7, &[], &[]),
            false => C::A::batch_add::<false, false>(&mut work, &outs, n, 7, &[], &[]),
        }
    }
    for (i, w) in want.iter().enumerate() {
        let got = work[outs[i] as usize - 7];
        let (x, y) = C::xy(&got);
        match w {
            None => cx.yes(bool::from(PrimeCurveAffine::is_identity(&got)), "batch_add: identity"),
            Some(w) => {
                C::B::chk(cx, x * w.d.square() - w.x, "batch_add: x");
                C::B::chk(cx, y * w.d.square() * w.d - w.y, "batch_add: y");
            }
        }
    }
}
fn reg<C: Cv + 'static>(v: &mut Vec<Case>, name: &'static str, b: C::B, th: bool)
where
    for<'a> &'a C::J: core::ops::Add<&'a C::A, Output = C::J> + core::ops::Sub<&'a C::A, Output = C::J> + core::ops::Add<&'a C::J, Output = C::J> + core::ops::Sub<&'a C::J, Output = C::J> + core::ops::Neg<Output = C::J>,
    for<'a> &'a C::A: core::ops::Add<&'a C::J, Output = C::J> + core::ops::Sub<&'a C::J, Output = C::J> + core::ops::Add<&'a C::A, Output = C::J> + core::ops::Sub<&'a C::A, Output = C::J> + core::ops::Neg<Output = C::A>,
    C::B: Send + Sync,
{
    for mode in 0..C::B::ZMODES {
        let m = if mode == 0 { String::new() } else { format!(" z{}", mode) };
        for rel in 0..6 {
            v.push((format!("{} {}{}", name, REL[rel], m), Box::new(move |cx| ops::<C>(cx, rel, mode))));
        }
        v.push((format!("{} single point{}", name, m), Box::new(move |cx| single::<C>(cx, false, mode))));
        v.push((format!("{} identity{}", name, m), Box::new(move |cx| single::<C>(cx, true, mode))));
    }
    for on in [true, false] {
        for z in [true, false] {
            v.push((format!("{} curve equation {} {}", name, if on { "on" } else { "off" }, if z { "Jacobian" } else { "affine" }), Box::new(move |cx| oncurve::<C>(cx, b, on, z))));
        }
    }
    let n = if th { 5 } else { 4 };
    for m in 0..(1 << n) {
        for mode in 0..C::B::ZMODES {
            v.push((format!("{} batch_normalize identities={:b} of {} ({})", name, m, n, mode), Box::new(move |cx| batch::<C>(cx, m, n, mode))));
        }
    }
    for load in [false, true] {
        v.push((format!("{} batch_add incomplete load={}", name, load), Box::new(move |cx| badd::<C>(cx, if C::B::ZMODES == 1 { &[0, 0, 0] } else { &[0, 0] }, false, load))));
        for r1 in 0..6 {
            for r2 in 0..6 {
                v.push((format!("{} batch_add complete {}/{} load={}", name, REL[r1], REL[r2], load), Box::new(move |cx| badd::<C>(cx, &[r1, r2], true, load))));
            }
        }
    }
}
pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    reg::<BnG1>(v, "G1", Fq::from(3), th);
    reg::<Secp>(v, "secp256k1", Fp::from(7), th);
    // twist: b' = 3/(9+u)
    let b2 = Fq2 { c0: Fq::from(9), c1: Fq::one() }.invert().unwrap() * Fq2 { c0: Fq::from(3), c1: Fq::zero() };
    reg::<BnG2>(v, "G2", b2, th);
    let _ = <Fq as SF>::TAG;
}
