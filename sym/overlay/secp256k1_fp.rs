extern crate std;
use core::fmt;
use core::ops::{Add, Mul, Neg, Sub};
use ff::{Field as _, PrimeField as _};
use pasta_curves::arithmetic::{FieldExt, Group, SqrtRatio};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use crate::serde::SerdeObject as _;
#[path = "fp_real.rs"]
pub mod real;
use crate::{
    impl_add_binop_specify_output, impl_binops_additive,
    impl_binops_additive_specify_output, impl_binops_multiplicative,
    impl_binops_multiplicative_mixed, impl_sub_binop_specify_output,
};
crate::sym_field!(Fp, real::Fp, real::Fp, FP_ARENA);
impl_binops_additive!(Fp, Fp);
impl_binops_multiplicative!(Fp, Fp);
impl Fp {
    pub const fn size() -> usize {
        real::Fp::size()
    }
}
pub type FpReal = real::Fp;
