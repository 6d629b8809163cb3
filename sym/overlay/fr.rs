extern crate std;
use core::fmt;
use core::ops::{Add, Mul, Neg, Sub};
use ff::{Field as _, PrimeField as _};
use pasta_curves::arithmetic::{FieldExt, Group, SqrtRatio};
use rand::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
use crate::serde::SerdeObject as _;
#[path = "fr_real.rs"]
pub mod real;
pub use real::MODULUS as REAL_MODULUS;
use crate::{
    impl_add_binop_specify_output, impl_binops_additive,
    impl_binops_additive_specify_output, impl_binops_multiplicative,
    impl_binops_multiplicative_mixed, impl_sub_binop_specify_output,
};
crate::sym_field!(Fr, real::Fr, real::Fr, FR_ARENA);
impl_binops_additive!(Fr, Fr);
impl_binops_multiplicative!(Fr, Fr);
pub type FrReal = real::Fr;
