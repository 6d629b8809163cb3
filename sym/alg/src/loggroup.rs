//! A pairing-friendly "curve" whose points are their own discrete logarithms: the group is the
//! scalar field, the pairing is the product. Code generic over the pairing engine runs on it with
//! symbolic points, and the argument of the final check is a polynomial that can be compared.
use core::iter::Sum;
use core::ops::*;
use ff::Field;
use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::bn256::Fr;
use halo2curves::pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use halo2curves::serde::SerdeObject;
use halo2curves::{Coordinates, CurveAffine, CurveExt};
use halo2curves::io::{Read, Result as IoResult, Write};
use rand_core::RngCore;
use std::cell::RefCell;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

thread_local! {
    static PTS: RefCell<Vec<Fr>> = RefCell::new(vec![]);
    /// what the last final check was given, and the answer it is to return
    pub static CHECKED: RefCell<Vec<Fr>> = RefCell::new(vec![]);
    pub static ANSWER: RefCell<bool> = RefCell::new(true);
}
pub fn reset() {
    PTS.with(|t| t.borrow_mut().clear());
    CHECKED.with(|t| t.borrow_mut().clear());
}
fn put(v: Fr) -> u64 {
    PTS.with(|t| {
        let t = &mut *t.borrow_mut();
        t.push(v);
        t.len() as u64 - 1
    })
}
fn get(i: u64) -> Option<Fr> {
    PTS.with(|t| t.borrow().get(i as usize).cloned())
}
/// undo the stand-ins for scalars a multi-exponentiation walked over
pub fn decode(v: Fr) -> Fr {
    #[cfg(feature = "sym")]
    return v.sym_decode();
    #[cfg(not(feature = "sym"))]
    return v;
}
pub fn handles(_on: bool) {
    #[cfg(feature = "sym")]
    halo2curves::symcore::set_handles(_on);
}

macro_rules! ops {
    ($t:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident, $rhs:ident, $out:ident, $op:tt) => {
        impl $tr<$rhs> for $t {
            type Output = $out;
            fn $f(self, o: $rhs) -> $out {
                $out(self.0 $op o.0)
            }
        }
        impl<'r> $tr<&'r $rhs> for $t {
            type Output = $out;
            fn $f(self, o: &'r $rhs) -> $out {
                $out(self.0 $op o.0)
            }
        }
    };
}
macro_rules! assign {
    ($t:ident, $tra:ident, $fa:ident, $rhs:ident, $op:tt) => {
        impl $tra<$rhs> for $t {
            fn $fa(&mut self, o: $rhs) {
                self.0 = self.0 $op o.0
            }
        }
        impl<'r> $tra<&'r $rhs> for $t {
            fn $fa(&mut self, o: &'r $rhs) {
                self.0 = self.0 $op o.0
            }
        }
    };
}
macro_rules! basic {
    ($t:ident, $cur:ident) => {
        #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
        pub struct $t(pub Fr);
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t(-self.0)
            }
        }
        impl Mul<Fr> for $t {
            type Output = $cur;
            fn mul(self, s: Fr) -> $cur {
                $cur(self.0 * s)
            }
        }
        impl<'r> Mul<&'r Fr> for $t {
            type Output = $cur;
            fn mul(self, s: &'r Fr) -> $cur {
                $cur(self.0 * *s)
            }
        }
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
    };
}
macro_rules! grp {
    ($c:ident) => {
        basic!($c, $c);
        ops!($c, Add, add, AddAssign, add_assign, $c, $c, +);
        ops!($c, Sub, sub, SubAssign, sub_assign, $c, $c, -);
        assign!($c, AddAssign, add_assign, $c, +);
        assign!($c, SubAssign, sub_assign, $c, -);
        impl MulAssign<Fr> for $c {
            fn mul_assign(&mut self, s: Fr) {
                self.0 *= s
            }
        }
        impl<'r> MulAssign<&'r Fr> for $c {
            fn mul_assign(&mut self, s: &'r Fr) {
                self.0 *= *s
            }
        }
        impl Sum for $c {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold($c(Fr::zero()), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $c> for $c {
            fn sum<I: Iterator<Item = &'a $c>>(i: I) -> Self {
                i.fold($c(Fr::zero()), |a, b| a + b)
            }
        }
    };
}
macro_rules! curve {
    ($c:ident, $a:ident, $pair:ident) => {
        grp!($c);
        basic!($a, $c);
        ops!($c, Add, add, AddAssign, add_assign, $a, $c, +);
        ops!($c, Sub, sub, SubAssign, sub_assign, $a, $c, -);
        assign!($c, AddAssign, add_assign, $a, +);
        assign!($c, SubAssign, sub_assign, $a, -);
        ops!($a, Add, add, AddAssign, add_assign, $a, $c, +);
        ops!($a, Sub, sub, SubAssign, sub_assign, $a, $c, -);
        ops!($a, Add, add, AddAssign, add_assign, $c, $c, +);
        ops!($a, Sub, sub, SubAssign, sub_assign, $c, $c, -);
        impl From<$a> for $c {
            fn from(a: $a) -> $c {
                $c(a.0)
            }
        }
        impl<'a> From<&'a $a> for $c {
            fn from(a: &'a $a) -> $c {
                $c(a.0)
            }
        }
        impl From<$c> for $a {
            fn from(a: $c) -> $a {
                $a(a.0)
            }
        }
        impl Group for $c {
            type Scalar = Fr;
            fn random(rng: impl RngCore) -> Self {
                $c(Fr::random(rng))
            }
            fn identity() -> Self {
                $c(Fr::zero())
            }
            fn generator() -> Self {
                $c(Fr::one())
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn double(&self) -> Self {
                $c(self.0.double())
            }
        }
        impl halo2curves::Group for $c {
            type Scalar = Fr;
            fn group_zero() -> Self {
                $c(Fr::zero())
            }
            fn group_add(&mut self, o: &Self) {
                self.0 += o.0
            }
            fn group_sub(&mut self, o: &Self) {
                self.0 -= o.0
            }
            fn group_scale(&mut self, s: &Fr) {
                self.0 *= *s
            }
        }
        impl Curve for $c {
            type AffineRepr = $a;
            fn batch_normalize(p: &[Self], q: &mut [$a]) {
                assert_eq!(p.len(), q.len());
                for (p, q) in p.iter().zip(q.iter_mut()) {
                    *q = $a(p.0);
                }
            }
            fn to_affine(&self) -> $a {
                $a(self.0)
            }
        }
        impl PrimeGroup for $c {}
        impl PrimeCurve for $c {
            type Affine = $a;
        }
        impl PrimeCurveAffine for $a {
            type Scalar = Fr;
            type Curve = $c;
            fn identity() -> Self {
                $a(Fr::zero())
            }
            fn generator() -> Self {
                $a(Fr::one())
            }
            fn is_identity(&self) -> Choice {
                self.0.is_zero()
            }
            fn to_curve(&self) -> $c {
                $c(self.0)
            }
        }
        impl CurveExt for $c {
            type ScalarExt = Fr;
            type Base = Fr;
            type AffineExt = $a;
            const CURVE_ID: &'static str = "log";
            fn endo(&self) -> Self {
                unimplemented!()
            }
            fn jacobian_coordinates(&self) -> (Fr, Fr, Fr) {
                unimplemented!()
            }
            fn hash_to_curve<'a>(_: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                unimplemented!()
            }
            fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            fn a() -> Fr {
                unimplemented!()
            }
            fn b() -> Fr {
                unimplemented!()
            }
            fn new_jacobian(_: Fr, _: Fr, _: Fr) -> CtOption<Self> {
                unimplemented!()
            }
        }
        impl CurveAffine for $a {
            type ScalarExt = Fr;
            type Base = Fr;
            type CurveExt = $c;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                unimplemented!()
            }
            fn from_xy(_: Fr, _: Fr) -> CtOption<Self> {
                unimplemented!()
            }
            fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
            fn a() -> Fr {
                unimplemented!()
            }
            fn b() -> Fr {
                unimplemented!()
            }
        }
        enc!($c);
        enc!($a);
        impl UncompressedEncoding for $a {
            type Uncompressed = [u8; 32];
            fn from_uncompressed(b: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(b)
            }
            fn from_uncompressed_unchecked(b: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(b)
            }
            fn to_uncompressed(&self) -> [u8; 32] {
                self.to_bytes()
            }
        }
        impl SerdeObject for $a {
            fn from_raw_bytes_unchecked(b: &[u8]) -> Self {
                Self::from_raw_bytes(b).unwrap()
            }
            fn from_raw_bytes(b: &[u8]) -> Option<Self> {
                let mut q = [0; 32];
                q.copy_from_slice(b);
                Option::from(Self::from_bytes(&q))
            }
            fn to_raw_bytes(&self) -> Vec<u8> {
                self.to_bytes().to_vec()
            }
            fn read_raw_unchecked<R: Read>(r: &mut R) -> Self {
                Self::read_raw(r).unwrap()
            }
            fn read_raw<R: Read>(r: &mut R) -> IoResult<Self> {
                let mut q = [0; 32];
                r.read_exact(&mut q[..])?;
                Option::from(Self::from_bytes(&q)).ok_or("bad point")
            }
            fn write_raw<W: Write>(&self, w: &mut W) -> IoResult<()> {
                w.write_all(&self.to_bytes())
            }
        }
        impl PairingCurveAffine for $a {
            type Pair = $pair;
            type PairingResult = Gt;
            fn pairing_with(&self, o: &$pair) -> Gt {
                Gt(self.0 * o.0)
            }
        }
    };
}
macro_rules! enc {
    ($t:ident) => {
        impl GroupEncoding for $t {
            type Repr = [u8; 32];
            fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
                let mut q = [0; 8];
                q.copy_from_slice(&b[..8]);
                let v = get(u64::from_le_bytes(q));
                CtOption::new($t(v.unwrap_or(Fr::zero())), Choice::from(v.is_some() as u8))
            }
            fn from_bytes_unchecked(b: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(b)
            }
            fn to_bytes(&self) -> [u8; 32] {
                let mut b = [0xab; 32];
                b[..8].copy_from_slice(&put(self.0).to_le_bytes());
                b
            }
        }
    };
}
grp!(Gt);
impl Group for Gt {
    type Scalar = Fr;
    fn random(rng: impl RngCore) -> Self {
        Gt(Fr::random(rng))
    }
    fn identity() -> Self {
        Gt(Fr::zero())
    }
    fn generator() -> Self {
        Gt(Fr::one())
    }
    /// records what is asked and answers as told
    fn is_identity(&self) -> Choice {
        CHECKED.with(|t| t.borrow_mut().push(self.0));
        Choice::from(ANSWER.with(|t| *t.borrow()) as u8)
    }
    fn double(&self) -> Self {
        Gt(self.0.double())
    }
}
curve!(L1, A1, A2);
curve!(L2, A2, A1);
#[derive(Clone, Debug)]
pub struct Log;
impl Engine for Log {
    type Scalar = Fr;
    type G1 = L1;
    type G1Affine = A1;
    type G2 = L2;
    type G2Affine = A2;
    type Gt = Gt;
    fn pairing(p: &A1, q: &A2) -> Gt {
        Gt(decode(p.0) * q.0)
    }
}
impl MultiMillerLoop for Log {
    type G2Prepared = A2;
    type Result = Gt;
    fn multi_miller_loop(terms: &[(&A1, &A2)]) -> Gt {
        Gt(terms.iter().fold(Fr::zero(), |a, (p, q)| a + decode(p.0) * q.0))
    }
}
impl MillerLoopResult for Gt {
    type Gt = Gt;
    fn final_exponentiation(&self) -> Gt {
        *self
    }
}
