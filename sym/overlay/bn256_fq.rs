extern crate std;
use super::LegendreSymbol;
use core::fmt;
use core::ops::{Add, Mul, Neg, Sub};
use ff::{Field as _, PrimeField as _};
use pasta_curves::arithmetic::{FieldExt, Group, SqrtRatio};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use crate::serde::SerdeObject as _;
#[path = "fq_real.rs"]
pub mod real;
use crate::{
    impl_add_binop_specify_output, impl_binops_additive,
    impl_binops_additive_specify_output, impl_binops_multiplicative,
    impl_binops_multiplicative_mixed, impl_sub_binop_specify_output,
};
crate::sym_field!(Fq, real::Fq, real::Fq, FQ_ARENA);
impl_binops_additive!(Fq, Fq);
impl_binops_multiplicative!(Fq, Fq);
pub const NEGATIVE_ONE: Fq = Fq::mk(real::NEGATIVE_ONE);
impl Fq {
    pub const fn size() -> usize {
        real::Fq::size()
    }
    pub fn legendre(&self) -> LegendreSymbol {
        self.need("legendre").legendre()
    }
}
pub type FqReal = real::Fq;
