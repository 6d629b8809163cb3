//! Stand-ins for what the prover command links against. Files, arguments, the compiler and the run of
//! the interpreter are the environment's (vf_*); keys, parameters and proofs are byte strings that name
//! what they were made from, and every operation checks that it is given the right ones.
#![allow(warnings)]
#[macro_export]
macro_rules! vf_format {
    ($f:literal $(, $a:expr)* $(,)?) => {{
        let mut s = $crate::shims::String::new();
        for b in $f.as_bytes() { s.0.push(*b); }
        $( s.0.push(255); $crate::shims::VfFmt::vf_fmt(&$a, &mut s.0); )*
        s
    }};
}
#[doc(hidden)]
pub mod prog;
#[doc(hidden)]
pub mod tx;

extern "C" {
    pub fn vf_nargs() -> usize;
    pub fn vf_arglen(i: usize) -> usize;
    pub fn vf_arg(i: usize, buf: *mut u8);
    /// 0: the source, 1: the verifier binary, 2: stored parameters, 3: no such file
    pub fn vf_open(path: *const u8, n: usize) -> u64;
    pub fn vf_srclen() -> usize;
    pub fn vf_src(buf: *mut u8);
    pub fn vf_compile(p: *const u8, n: usize, out: *mut u16) -> usize;
    /// 1 when code and input are those of the source and of the command line
    pub fn vf_run(code: *const u8, n: usize, input: *const u8, m: usize) -> u64;
    pub fn vf_rows(which: u64) -> usize;
    pub fn vf_blinding() -> usize;
    /// 1 when a circuit made from that run fits 2^k rows
    pub fn vf_fits(k: u64) -> u64;
    /// 1 when the public inputs are those of the run
    pub fn vf_instances(p: *const u8, n: usize) -> u64;
    /// the transaction: pointers and lengths of its witnesses
    pub fn vf_tx(w: *const u8, n: usize);
    pub fn vf_written(path: *const u8, n: usize, tx: u64);
}
#[no_mangle]
pub extern "C" fn w_main() -> u64 {
    match prog::main() { Ok(()) => 0, Err(_) => 1 }
}

pub mod shims {
    pub use crate::vf_format as format;
    pub trait VfFmt { fn vf_fmt(&self, o: &mut Vec<u8>); }
    fn put(v: u64, n: usize, o: &mut Vec<u8>) { for i in 0..n { o.push((v >> (8 * i)) as u8); } }
    fn get(b: &[u8], at: usize, n: usize) -> Option<u64> {
        let mut v = 0;
        for i in 0..n { if at + i >= b.len() { return None; } v |= (b[at + i] as u64) << (8 * i); }
        Some(v)
    }
    impl VfFmt for u32 { fn vf_fmt(&self, o: &mut Vec<u8>) { put(*self as u64, 8, o) } }
    impl VfFmt for u64 { fn vf_fmt(&self, o: &mut Vec<u8>) { put(*self, 8, o) } }
    impl VfFmt for usize { fn vf_fmt(&self, o: &mut Vec<u8>) { put(*self as u64, 8, o) } }
    impl<'a, T: VfFmt> VfFmt for &'a T { fn vf_fmt(&self, o: &mut Vec<u8>) { (**self).vf_fmt(o) } }

    pub struct String(pub Vec<u8>);
    impl String {
        pub fn new() -> String { String(Vec::new()) }
        pub fn from_utf8_lossy(b: &[u8]) -> String { String::new() }
        pub fn into_bytes(self) -> Vec<u8> { self.0 }
        pub fn as_bytes(&self) -> &[u8] { &self.0 }
        pub fn as_str(&self) -> &str { unsafe { core::str::from_utf8_unchecked(&self.0) } }
        pub fn len(&self) -> usize { self.0.len() }
        pub fn is_empty(&self) -> bool { self.0.len() == 0 }
    }
    impl Default for String { fn default() -> String { String::new() } }
    impl Clone for String { fn clone(&self) -> String { let mut v = Vec::new(); for b in self.0.iter() { v.push(*b); } String(v) } }
    impl ::std::ops::Deref for String { type Target = str; fn deref(&self) -> &str { self.as_str() } }
    pub trait VfPath { fn vf_path(&self) -> &[u8]; }
    impl VfPath for String { fn vf_path(&self) -> &[u8] { &self.0 } }
    impl VfPath for str { fn vf_path(&self) -> &[u8] { self.as_bytes() } }
    impl<'a, T: VfPath + ?Sized> VfPath for &'a T { fn vf_path(&self) -> &[u8] { (**self).vf_path() } }
    pub trait VfData { fn vf_tx(&self) -> u64 { 0 } }
    impl VfData for Vec<u8> {}
    impl VfData for [u8] {}
    impl VfData for serde_json::Json { fn vf_tx(&self) -> u64 { 1 } }
    impl<'a, T: VfData + ?Sized> VfData for &'a T { fn vf_tx(&self) -> u64 { (**self).vf_tx() } }

    pub mod std {
        pub use ::std::*;
        pub mod env {
            use super::super::String;
            pub struct Args(usize);
            pub fn args() -> Args { Args(0) }
            impl Iterator for Args {
                type Item = String;
                fn next(&mut self) -> Option<String> { unsafe {
                    if self.0 >= crate::vf_nargs() { return None; }
                    let n = crate::vf_arglen(self.0);
                    let mut v = Vec::with_capacity(n + 1);
                    for _ in 0..n { v.push(0); }
                    crate::vf_arg(self.0, v.as_mut_ptr());
                    self.0 += 1;
                    Some(String(v))
                } }
            }
        }
        pub mod fs {
            use super::super::{VfPath, VfData};
            pub struct Error;
            impl ::std::fmt::Debug for Error { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } }
            impl ::std::fmt::Display for Error { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { Ok(()) } }
            impl ::std::error::Error for Error {}
            fn source() -> Vec<u8> { unsafe {
                let n = crate::vf_srclen();
                let mut v = Vec::with_capacity(n + 1);
                for _ in 0..n { v.push(0); }
                crate::vf_src(v.as_mut_ptr());
                v
            } }
            pub fn read<P: VfPath>(p: P) -> Result<Vec<u8>, Error> { unsafe {
                let p = p.vf_path();
                match crate::vf_open(p.as_ptr(), p.len()) {
                    0 => Ok(source()),
                    1 => { let mut v = Vec::new(); v.push(77); Ok(v) }
                    2 => {
                        // the parameters a former run has stored under that name
                        let k = super::super::get(p, p.len() - 8, 8).unwrap();
                        let mut v = Vec::new();
                        super::super::halo2_proofs::poly::kzg::commitment::encode(k as u32, 42, k as u32, &mut v);
                        Ok(v)
                    }
                    _ => Err(Error),
                }
            } }
            pub fn write<P: VfPath, D: VfData>(p: P, d: D) -> Result<(), Error> {
                let p = p.vf_path();
                unsafe { crate::vf_written(p.as_ptr(), p.len(), d.vf_tx()); }
                Ok(())
            }
            pub struct File;
            impl File {
                pub fn open<P: VfPath>(p: P) -> Result<File, Error> {
                    let p = p.vf_path();
                    if unsafe { crate::vf_open(p.as_ptr(), p.len()) } == 0 { Ok(File) } else { Err(Error) }
                }
            }
            impl super::io::Read for File {
                fn read_to_end(&mut self, v: &mut Vec<u8>) -> Result<usize, Error> { let s = source(); for b in s.iter() { v.push(*b); } Ok(s.len()) }
            }
        }
        pub mod io {
            pub use ::std::io::{Result as StdResult};
            pub trait Read { fn read_to_end(&mut self, v: &mut Vec<u8>) -> Result<usize, super::fs::Error>; }
        }
    }
    pub mod log {
        #[macro_export]
        macro_rules! vf_info { ($f:literal $(, $a:expr)* $(,)?) => {{ $( let _ = &$a; )* }}; }
        pub use crate::vf_info as info;
        pub use crate::vf_info as debug;
        pub use crate::vf_info as warn;
        pub use crate::vf_info as error;
    }
    pub mod env_logger { pub fn init() {} }
    pub mod rand { pub trait SeedableRng: Sized { type Seed; fn from_seed(s: Self::Seed) -> Self; } }
    pub mod rand_xorshift {
        pub struct XorShiftRng;
        impl super::rand::SeedableRng for XorShiftRng { type Seed = [u8; 16]; fn from_seed(s: [u8; 16]) -> Self { XorShiftRng } }
    }
    pub mod ckb_bf_prover { pub use crate::tx as ckb_tx; }
    pub mod ckb_hash { pub fn blake2b_256<T>(b: &T) -> [u8; 32] { [5; 32] } }
    pub mod ckb_jsonrpc_types {
        pub struct JsonBytes(pub Vec<u8>);
        impl JsonBytes { pub fn from_vec(v: Vec<u8>) -> JsonBytes { JsonBytes(v) } pub fn from_bytes(v: Vec<u8>) -> JsonBytes { JsonBytes(v) } }
    }
    pub mod ckb_types {
        pub struct H256(pub [u8; 32]);
        impl H256 { pub fn from_slice(b: &[u8]) -> Result<H256, super::std::fs::Error> { Ok(H256([0; 32])) } }
    }
    pub mod ckb_mock_tx_types {
        use super::ckb_jsonrpc_types::JsonBytes;
        use super::ckb_types::H256;
        pub struct Lock { pub code_hash: H256 }
        pub struct Output { pub lock: Lock }
        pub struct Input { pub output: Output }
        pub struct Dep { pub data: JsonBytes }
        pub struct Info { pub inputs: Vec<Input>, pub cell_deps: Vec<Dep> }
        pub struct Tx { pub witnesses: Vec<JsonBytes> }
        pub struct ReprMockTransaction { pub tx: Tx, pub mock_info: Info }
    }
    pub mod serde_json {
        use super::ckb_mock_tx_types::*;
        use super::ckb_jsonrpc_types::JsonBytes;
        use super::ckb_types::H256;
        pub struct Json;
        impl VfNew for ReprMockTransaction {
            fn vf_new() -> Self {
                let mut w = Vec::new();
                for _ in 0..5 { w.push(JsonBytes(Vec::new())); }
                let mut i = Vec::new();
                i.push(Input { output: Output { lock: Lock { code_hash: H256([0; 32]) } } });
                let mut d = Vec::new();
                d.push(Dep { data: JsonBytes(Vec::new()) });
                ReprMockTransaction { tx: Tx { witnesses: w }, mock_info: Info { inputs: i, cell_deps: d } }
            }
        }
        pub trait VfNew { fn vf_new() -> Self; }
        pub fn from_str<T: VfNew>(s: &super::String) -> Result<T, super::std::fs::Error> { Ok(T::vf_new()) }
        pub fn from_slice<T: VfNew>(s: &[u8]) -> Result<T, super::std::fs::Error> { Ok(T::vf_new()) }
        fn tx(t: &ReprMockTransaction) -> Result<Json, super::std::fs::Error> {
            let mut v: Vec<(*const u8, usize)> = Vec::new();
            for w in t.tx.witnesses.iter() { v.push((w.0.as_ptr(), w.0.len())); }
            unsafe { crate::vf_tx(v.as_ptr() as *const u8, v.len()); }
            Ok(Json)
        }
        pub fn to_string_pretty(t: &ReprMockTransaction) -> Result<Json, super::std::fs::Error> { tx(t) }
        pub fn to_string(t: &ReprMockTransaction) -> Result<Json, super::std::fs::Error> { tx(t) }
    }
    pub mod ckb_bf_vm {
        pub mod code {
            use super::super::halo2curves::bn256::Fr;
            pub fn easygen(s: &str) -> Vec<Fr> { let mut v = Vec::new(); for b in s.as_bytes() { v.push(Fr::from(*b as u64)); } v }
            pub fn compile_to_u16(c: Vec<u8>) -> Vec<u16> {
                let mut b = [0u16; 64];
                let n = unsafe { crate::vf_compile(c.as_ptr(), c.len(), b.as_mut_ptr()) };
                let mut v = Vec::new();
                for i in 0..n { v.push(b[i]); }
                v
            }
            pub fn compile(c: Vec<u8>) -> Vec<Fr> { let mut v = Vec::new(); for x in compile_to_u16(c) { v.push(Fr::from(x as u64)); } v }
        }
        pub mod matrix {
            pub struct Rows(pub u64);
            impl Rows { pub fn len(&self) -> usize { unsafe { crate::vf_rows(self.0) } } pub fn is_empty(&self) -> bool { self.len() == 0 } }
            pub struct Matrix { pub processor_matrix: Rows, pub instruction_matrix: Rows, pub memory_matrix: Rows, pub input_matrix: Rows, pub output_matrix: Rows, pub program: Rows, pub ok: u64 }
        }
        pub mod interpreter {
            use super::super::halo2curves::bn256::Fr;
            use super::matrix::*;
            pub struct Interpreter { code: Vec<Fr>, input: Vec<Fr>, pub matrix: Matrix }
            impl Interpreter {
                pub fn new() -> Interpreter { Interpreter { code: Vec::new(), input: Vec::new(),
                    matrix: Matrix { processor_matrix: Rows(9), instruction_matrix: Rows(9), memory_matrix: Rows(9), input_matrix: Rows(9), output_matrix: Rows(9), program: Rows(9), ok: 0 } } }
                pub fn set_code(&mut self, c: Vec<Fr>) { self.code = c; }
                pub fn set_input(&mut self, c: Vec<Fr>) { self.input = c; }
                pub fn run(&mut self) {
                    let ok = unsafe { crate::vf_run(self.code.as_ptr() as *const u8, self.code.len(), self.input.as_ptr() as *const u8, self.input.len()) };
                    self.matrix = Matrix { processor_matrix: Rows(0), instruction_matrix: Rows(1), memory_matrix: Rows(2), input_matrix: Rows(3), output_matrix: Rows(4), program: Rows(5), ok };
                }
            }
        }
    }
    pub mod ckb_bf_base {
        pub const SHRINK_K: u32 = 1;
        pub const GOD_PRIVATE_KEY: u128 = 42;
        pub mod main_config {
            use core::marker::PhantomData;
            pub struct MyCircuit<F, const R: usize> { pub m: super::super::ckb_bf_vm::matrix::Matrix, p: PhantomData<F> }
            impl<F, const R: usize> MyCircuit<F, R> { pub fn new(m: super::super::ckb_bf_vm::matrix::Matrix) -> Self { MyCircuit { m, p: PhantomData } } }
            impl<F, const R: usize> super::super::halo2_proofs::plonk::Circuit<F> for MyCircuit<F, R> {
                fn configure(cs: &mut super::super::halo2_proofs::plonk::ConstraintSystem<F>) {}
                fn vf_ok(&self) -> u64 { self.m.ok }
            }
        }
        pub mod utils {
            pub const DOMAIN: usize = 256;
            use super::super::halo2_proofs::poly::kzg::commitment::{decode, ParamsKZG};
            pub fn read_verifier_params<E>(r: &mut &[u8]) -> Result<ParamsKZG<E>, super::super::std::fs::Error> {
                match decode(*r) {
                    Some(p) if p.left == super::SHRINK_K => { *r = &r[r.len()..]; Ok(p) }
                    _ => Err(super::super::std::fs::Error),
                }
            }
        }
    }
    pub mod halo2curves {
        pub mod bn256 {
            #[derive(Clone, Copy, PartialEq, Eq, Debug)]
            pub struct Fr(pub [u64; 4]);
            impl Fr { pub const fn zero() -> Fr { Fr([0; 4]) } pub const fn one() -> Fr { Fr([1, 0, 0, 0]) } }
            impl From<u64> for Fr { fn from(v: u64) -> Fr { Fr([v, 0, 0, 0]) } }
            impl super::FieldExt for Fr { fn from_u128(v: u128) -> Fr { Fr([v as u64, (v >> 64) as u64, 0, 0]) } }
            #[derive(Clone, Copy)]
            pub struct G1Affine;
            #[derive(Clone, Copy)]
            pub struct Bn256;
        }
        pub trait FieldExt { fn from_u128(v: u128) -> Self; }
    }
    pub mod halo2_gadgets { pub use super::halo2curves; }
    pub mod halo2_proofs {
        pub use super::halo2curves;
        use super::std::fs::Error as E;
        #[derive(Clone, Copy, PartialEq, Eq)]
        pub enum SerdeFormat { Processed = 1, RawBytes = 2, RawBytesUnchecked = 3 }
        pub mod plonk {
            use super::super::halo2curves::bn256::Fr;
            use super::super::{get, put};
            use super::super::std::fs::Error as E;
            use super::poly::kzg::commitment::ParamsKZG;
            use super::transcript::{VfRead, VfWrite};
            use super::SerdeFormat;
            use core::marker::PhantomData;
            pub use super::super::std::fs::Error;
            pub struct ConstraintSystem<F>(PhantomData<F>);
            impl<F> Default for ConstraintSystem<F> { fn default() -> Self { ConstraintSystem(PhantomData) } }
            impl<F> ConstraintSystem<F> {
                pub fn blinding_factors(&self) -> usize { unsafe { crate::vf_blinding() } }
                pub fn minimum_rows(&self) -> usize { self.blinding_factors() + 3 }
            }
            pub trait Circuit<F> { fn configure(cs: &mut ConstraintSystem<F>); fn vf_ok(&self) -> u64; }
            /// k, secret and circuit it belongs to
            pub struct VerifyingKey<C> { k: u32, s: u64, ok: u64, p: PhantomData<C> }
            impl<C> Clone for VerifyingKey<C> { fn clone(&self) -> Self { VerifyingKey { k: self.k, s: self.s, ok: self.ok, p: PhantomData } } }
            impl<C> VerifyingKey<C> {
                pub fn write(&self, v: &mut Vec<u8>, f: SerdeFormat) -> Result<(), E> {
                    v.push(103); v.push(f as u8); put(self.k as u64, 4, v); put(self.s, 8, v); put(self.ok, 1, v); Ok(())
                }
                pub fn to_bytes(&self, f: SerdeFormat) -> Vec<u8> { let mut v = Vec::new(); let _ = self.write(&mut v, f); v }
                pub fn read<R, X>(r: &mut &[u8], f: SerdeFormat) -> Result<Self, E> {
                    if r.len() != 15 || r[0] != 103 || r[1] != f as u8 { return Err(super::super::std::fs::Error); }
                    let k = VerifyingKey { k: get(r, 2, 4).unwrap() as u32, s: get(r, 6, 8).unwrap(), ok: r[14] as u64, p: PhantomData };
                    *r = &r[15..];
                    Ok(k)
                }
            }
            pub struct ProvingKey<C> { vk: VerifyingKey<C> }
            impl<C> ProvingKey<C> { pub fn get_vk(&self) -> &VerifyingKey<C> { &self.vk } }
            pub fn keygen_vk<En, X: Circuit<Fr>>(p: &ParamsKZG<En>, c: &X) -> Result<VerifyingKey<super::super::halo2curves::bn256::G1Affine>, E> {
                if p.left != p.k || unsafe { crate::vf_fits(p.k as u64) } == 0 { return Err(super::super::std::fs::Error); }
                Ok(VerifyingKey { k: p.k, s: p.s, ok: c.vf_ok(), p: PhantomData })
            }
            pub fn keygen_pk<En, C, X: Circuit<Fr>>(p: &ParamsKZG<En>, vk: VerifyingKey<C>, c: &X) -> Result<ProvingKey<C>, E> {
                if p.left != p.k || p.k != vk.k || p.s != vk.s || c.vf_ok() != vk.ok { return Err(super::super::std::fs::Error); }
                Ok(ProvingKey { vk })
            }
            fn good(ins: &[&[&[Fr]]]) -> bool { unsafe { crate::vf_instances(ins.as_ptr() as *const u8, ins.len()) == 1 } }
            pub fn create_proof<Scheme, P, Ch, R, T: VfWrite, X: Circuit<Fr>>(p: &ParamsKZG<super::super::halo2curves::bn256::Bn256>, pk: &ProvingKey<super::super::halo2curves::bn256::G1Affine>, c: &[X], ins: &[&[&[Fr]]], rng: R, t: &mut T) -> Result<(), E> {
                if p.left != p.k || p.k != pk.vk.k || p.s != pk.vk.s || c.len() != 1 || c[0].vf_ok() != 1 || pk.vk.ok != 1 { return Err(super::super::std::fs::Error); }
                let g = good(ins);
                let o = t.vf_out();
                o.push(99); put(p.k as u64, 4, o); put(p.s, 8, o); o.push(g as u8);
                Ok(())
            }
            pub fn verify_proof<'a, Scheme, V, Ch, T: VfRead, S>(p: &ParamsKZG<super::super::halo2curves::bn256::Bn256>, vk: &VerifyingKey<super::super::halo2curves::bn256::G1Affine>, s: S, ins: &[&[&[Fr]]], t: &mut T) -> Result<(), E> {
                let b = t.vf_in();
                let ok = b.len() == 14 && b[0] == 99 && get(b, 1, 4) == Some(vk.k as u64) && get(b, 5, 8) == Some(vk.s) && b[13] == 1;
                if !ok || vk.ok != 1 || p.k != vk.k || p.s != vk.s || !good(ins) { return Err(super::super::std::fs::Error); }
                Ok(())
            }
        }
        pub mod poly {
            pub mod commitment {
                pub trait Params<'a> {}
                pub trait ParamsProver<'a> {}
                pub trait Vf {}
            }
            pub mod kzg {
                pub mod commitment {
                    use super::super::super::super::{get, put, halo2curves::bn256::Fr, std::fs::Error as E};
                    use core::marker::PhantomData;
                    pub struct ParamsKZG<En> { pub k: u32, pub s: u64, pub left: u32, pub p: PhantomData<En> }
                    pub type ParamsVerifierKZG<En> = ParamsKZG<En>;
                    pub struct KZGCommitmentScheme<En>(PhantomData<En>);
                    impl<En> Clone for ParamsKZG<En> { fn clone(&self) -> Self { ParamsKZG { k: self.k, s: self.s, left: self.left, p: PhantomData } } }
                    pub fn encode(k: u32, s: u64, left: u32, v: &mut Vec<u8>) { v.push(101); put(k as u64, 4, v); put(s, 8, v); put(left as u64, 4, v); }
                    pub fn decode<En>(b: &[u8]) -> Option<ParamsKZG<En>> {
                        if b.len() != 17 || b[0] != 101 { return None; }
                        Some(ParamsKZG { k: get(b, 1, 4)? as u32, s: get(b, 5, 8)?, left: get(b, 13, 4)? as u32, p: PhantomData })
                    }
                    impl<En> ParamsKZG<En> {
                        pub fn unsafe_setup_with_s(k: u32, s: Fr) -> Self { ParamsKZG { k, s: s.0[0], left: k, p: PhantomData } }
                        pub fn write(&self, v: &mut Vec<u8>) -> Result<(), E> { encode(self.k, self.s, self.left, v); Ok(()) }
                        pub fn read(r: &mut &[u8]) -> Result<Self, E> {
                            match decode(*r) { Some(p) if p.left == p.k => { *r = &r[17..]; Ok(p) } _ => Err(super::super::super::super::std::fs::Error) }
                        }
                        pub fn verifier_params(&self) -> &ParamsKZG<En> { self }
                        pub fn shrink(&mut self, k: u32) { self.left = k; }
                        pub fn k(&self) -> u32 { self.k }
                    }
                }
                pub mod multiopen {
                    use core::marker::PhantomData;
                    pub struct ProverSHPLONK<'p, E>(PhantomData<&'p E>);
                    pub struct VerifierSHPLONK<'p, E>(PhantomData<&'p E>);
                    pub struct ProverGWC<'p, E>(PhantomData<&'p E>);
                    pub struct VerifierGWC<'p, E>(PhantomData<&'p E>);
                }
                pub mod strategy {
                    use super::commitment::ParamsKZG;
                    pub struct SingleStrategy<'p, E> { p: &'p ParamsKZG<E> }
                    impl<'p, E> SingleStrategy<'p, E> { pub fn new(p: &'p ParamsKZG<E>) -> Self { SingleStrategy { p } } }
                }
            }
        }
        pub mod transcript {
            use core::marker::PhantomData;
            pub struct Challenge255<C>(PhantomData<C>);
            pub struct Blake2bRead<R, C, E> { r: R, p: PhantomData<(C, E)> }
            pub struct Blake2bWrite<W, C, E> { w: W, p: PhantomData<(C, E)> }
            pub trait TranscriptReadBuffer<R, C, E> { fn init(reader: R) -> Self; }
            impl<R, C> TranscriptReadBuffer<R, C, Challenge255<C>> for Blake2bRead<R, C, Challenge255<C>> { fn init(r: R) -> Self { Blake2bRead { r, p: PhantomData } } }
            pub trait TranscriptWriterBuffer<W, C, E> { fn init(w: W) -> Self; fn finalize(self) -> W; }
            impl<W, C> TranscriptWriterBuffer<W, C, Challenge255<C>> for Blake2bWrite<W, C, Challenge255<C>> { fn init(w: W) -> Self { Blake2bWrite { w, p: PhantomData } } fn finalize(self) -> W { self.w } }
            pub trait VfRead { fn vf_in(&self) -> &[u8]; }
            impl<'a, C, E> VfRead for Blake2bRead<&'a [u8], C, E> { fn vf_in(&self) -> &[u8] { self.r } }
            pub trait VfWrite { fn vf_out(&mut self) -> &mut Vec<u8>; }
            impl<C, E> VfWrite for Blake2bWrite<Vec<u8>, C, E> { fn vf_out(&mut self) -> &mut Vec<u8> { &mut self.w } }
        }
    }
}
