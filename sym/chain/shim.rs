//! Stand-ins for what the on-chain script links against: the system calls, reading of keys and
//! parameters and proof verification are left to the environment (vf_* below).
#![allow(warnings)]
extern crate alloc as real_alloc;
#[doc(hidden)]
pub mod prog;

extern "C" {
    /// outcome of loading a witness: >= 0 length, -1 index out of bound, -2 item missing, -3 too long, -4 encoding
    pub fn vf_load(buf: *mut u8, cap: usize, offset: usize, index: usize, source: u64) -> i64;
    /// 0: error, otherwise a handle
    pub fn vf_params(p: *const u8, n: usize) -> u64;
    pub fn vf_vk(p: *const u8, n: usize, format: u64) -> u64;
    /// 1: verified
    pub fn vf_verify(params: u64, vk: u64, strategy: u64, instances: *const u8, n: usize, proof: *const u8, len: usize) -> u64;
}
#[no_mangle]
pub extern "C" fn w_main() -> u64 {
    prog::program_entry() as u8 as u64
}

pub mod shims {
    pub mod alloc {
        pub use real_alloc::{borrow, boxed, rc, slice, string, vec};
        #[macro_export]
        macro_rules! vf_format {
            ($f:literal $(, $a:expr)* $(,)?) => {{ $( let _ = &$a; )* real_alloc::string::String::new() }};
        }
        pub use crate::vf_format as format;
        pub use real_alloc::vec as vec_;
    }
    pub mod ckb_std {
        #[macro_export]
        macro_rules! vf_entry { ($x:path) => {}; }
        pub use crate::vf_entry as entry;
        #[macro_export]
        macro_rules! vf_default_alloc { ($($x:tt)*) => {}; }
        pub use crate::vf_default_alloc as default_alloc;
        #[macro_export]
        macro_rules! vf_debug { ($($x:tt)*) => {}; }
        pub use crate::vf_debug as debug;
        pub mod ckb_constants {
            #[derive(Clone, Copy, PartialEq, Eq, Debug)]
            #[repr(u64)]
            pub enum Source { Input = 1, Output = 2, CellDep = 3, HeaderDep = 4, GroupInput = 0x0100000000000001, GroupOutput = 0x0100000000000002 }
        }
        pub mod error {
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum SysError { IndexOutOfBound, ItemMissing, LengthNotEnough(usize), Encoding, Unknown(u64) }
        }
        pub mod syscalls {
            pub use super::error::SysError;
            use super::ckb_constants::Source;
            pub fn debug(_s: real_alloc::string::String) {}
            pub fn exit(code: i8) -> ! {
                panic!("exit")
            }
            pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, source: Source) -> Result<usize, SysError> {
                let r = unsafe { crate::vf_load(buf.as_mut_ptr(), buf.len(), offset, index, source as u64) };
                if r == -1 { return Err(SysError::IndexOutOfBound); }
                if r == -2 { return Err(SysError::ItemMissing); }
                if r == -3 { return Err(SysError::LengthNotEnough(buf.len() + 1)); }
                if r < 0 { return Err(SysError::Encoding); }
                Ok(r as usize)
            }
        }
    }
    pub mod halo2curves {
        pub mod io {
            pub use self::ErrorKind::*;
            #[derive(Debug, Clone, Copy, PartialEq, Eq)]
            pub enum ErrorKind { Other, InvalidData, UnexpectedEof }
            #[derive(Debug, Clone, Copy)]
            pub struct Error(pub ErrorKind);
            pub type Result<T> = core::result::Result<T, Error>;
            pub trait Read { fn vf_rest(&self) -> &[u8]; }
            impl Read for &[u8] { fn vf_rest(&self) -> &[u8] { self } }
            impl<R: Read> Read for &mut R { fn vf_rest(&self) -> &[u8] { (**self).vf_rest() } }
        }
        pub mod bn256 {
            #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
            pub struct Fr(pub [u64; 4]);
            impl Fr {
                pub const fn zero() -> Fr { Fr([0, 0, 0, 0]) }
                pub const fn one() -> Fr { Fr([1, 0, 0, 0]) }
                pub fn from_u128(v: u128) -> Fr { Fr([v as u64, (v >> 64) as u64, 0, 0]) }
                pub fn double(&self) -> Fr { *self + *self }
            }
            impl From<u64> for Fr { fn from(v: u64) -> Fr { Fr([v, 0, 0, 0]) } }
            impl From<bool> for Fr { fn from(v: bool) -> Fr { Fr([v as u64, 0, 0, 0]) } }
            // sums and products of small integers only: enough for values put together from bytes
            impl core::ops::Add for Fr { type Output = Fr; fn add(self, o: Fr) -> Fr { Fr([self.0[0] + o.0[0], 0, 0, 0]) } }
            impl core::ops::Mul for Fr { type Output = Fr; fn mul(self, o: Fr) -> Fr { Fr([self.0[0] * o.0[0], 0, 0, 0]) } }
            impl core::ops::AddAssign for Fr { fn add_assign(&mut self, o: Fr) { *self = *self + o } }
            #[derive(Debug, Clone, Copy)]
            pub struct G1Affine;
            #[derive(Debug, Clone, Copy)]
            pub struct Bn256;
        }
    }
    pub mod halo2_gadgets { pub use super::halo2curves; }
    pub mod halo2_proofs {
        pub use super::halo2curves;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum SerdeFormat { Processed = 1, RawBytes = 2, RawBytesUnchecked = 3 }
        pub mod plonk {
            use super::super::halo2curves::{bn256::Fr, io};
            use core::marker::PhantomData;
            #[derive(Debug, Clone, Copy)]
            pub enum Error { Synthesis, InvalidInstances, ConstraintSystemFailure, Opening }
            #[derive(Debug, Clone, Copy)]
            pub struct VerifyingKey<C> { pub vf: u64, p: PhantomData<C> }
            impl<C> VerifyingKey<C> {
                pub fn read<R: io::Read, X>(reader: &mut R, format: super::SerdeFormat) -> io::Result<Self> {
                    let b = reader.vf_rest();
                    let vf = unsafe { crate::vf_vk(b.as_ptr(), b.len(), format as u64) };
                    if vf == 0 { Err(io::Error(io::ErrorKind::InvalidData)) } else { Ok(VerifyingKey { vf, p: PhantomData }) }
                }
                pub fn from_bytes<X>(bytes: &[u8], format: super::SerdeFormat) -> io::Result<Self> {
                    Self::read::<_, X>(&mut &*bytes, format)
                }
            }
            pub fn verify_proof<'params, Scheme, V, E, T, Strategy>(
                params: &'params super::poly::kzg::commitment::ParamsVerifierKZG<super::super::halo2curves::bn256::Bn256>,
                vk: &VerifyingKey<super::super::halo2curves::bn256::G1Affine>,
                strategy: Strategy,
                instances: &[&[&[Fr]]],
                transcript: &mut T,
            ) -> Result<(), Error>
            where T: super::transcript::VfBytes, Strategy: super::poly::kzg::strategy::VfParams {
                let b = transcript.vf_bytes();
                let r = unsafe { crate::vf_verify(params.vf, vk.vf, strategy.vf_params(), instances.as_ptr() as *const u8, instances.len(), b.as_ptr(), b.len()) };
                if r == 1 { Ok(()) } else if r == 2 { Err(Error::Opening) } else { Err(Error::ConstraintSystemFailure) }
            }
        }
        pub mod poly {
            pub mod commitment { }
            pub mod kzg {
                pub mod commitment {
                    use core::marker::PhantomData;
                    #[derive(Debug, Clone, Copy)]
                    pub struct ParamsVerifierKZG<E> { pub vf: u64, pub p: PhantomData<E> }
                    pub struct KZGCommitmentScheme<E>(PhantomData<E>);
                }
                pub mod multiopen {
                    use core::marker::PhantomData;
                    pub struct VerifierSHPLONK<'p, E>(PhantomData<&'p E>);
                    pub struct VerifierGWC<'p, E>(PhantomData<&'p E>);
                }
                pub mod strategy {
                    use super::commitment::ParamsVerifierKZG;
                    pub trait VfParams { fn vf_params(&self) -> u64; }
                    #[derive(Debug)]
                    pub struct SingleStrategy<'p, E> { params: &'p ParamsVerifierKZG<E> }
                    impl<'p, E> SingleStrategy<'p, E> { pub fn new(params: &'p ParamsVerifierKZG<E>) -> Self { SingleStrategy { params } } }
                    impl<'p, E> VfParams for SingleStrategy<'p, E> { fn vf_params(&self) -> u64 { self.params.vf } }
                }
            }
        }
        pub mod transcript {
            use core::marker::PhantomData;
            pub struct Challenge255<C>(PhantomData<C>);
            pub struct Blake2bRead<R, C, E> { r: R, p: PhantomData<(C, E)> }
            pub trait TranscriptReadBuffer<R, C, E> { fn init(reader: R) -> Self; }
            impl<R, C, E> TranscriptReadBuffer<R, C, E> for Blake2bRead<R, C, E> { fn init(r: R) -> Self { Blake2bRead { r, p: PhantomData } } }
            pub trait VfBytes { fn vf_bytes(&self) -> &[u8]; }
            impl<'a, C, E> VfBytes for Blake2bRead<&'a [u8], C, E> { fn vf_bytes(&self) -> &[u8] { self.r } }
        }
    }
    pub mod ckb_bf_base {
        pub const GOD_PRIVATE_KEY: u128 = 42;
        pub const SHRINK_K: u32 = 2;
        pub mod main_config { use core::marker::PhantomData; pub struct MyCircuit<F, const R: usize>(PhantomData<F>); }
        pub mod utils {
            use super::super::{halo2_proofs::poly::kzg::commitment::ParamsVerifierKZG, halo2curves::io};
            pub const DOMAIN: usize = 256;
            pub fn read_verifier_params<E, R: io::Read>(reader: &mut R) -> io::Result<ParamsVerifierKZG<E>> {
                let b = reader.vf_rest();
                let vf = unsafe { crate::vf_params(b.as_ptr(), b.len()) };
                if vf == 0 { Err(io::Error(io::ErrorKind::InvalidData)) } else { Ok(ParamsVerifierKZG { vf, p: core::marker::PhantomData }) }
            }
        }
    }
}
