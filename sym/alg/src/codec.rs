//! C15: encodings of curve points.
use crate::cx::Cx;
use crate::Case;
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::GroupEncoding;
use halo2_proofs::helpers::SerdeCurveAffine;
use halo2_proofs::transcript::{Blake2bRead, Blake2bWrite, Challenge255, TranscriptRead, TranscriptReadBuffer, TranscriptWrite, TranscriptWriterBuffer};
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Fq, G1Affine, G1};
use halo2curves::secp256k1::{Fp, Secp256k1, Secp256k1Affine};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};

fn start<F: crate::cx::SF>(cx: &mut Cx) {
    cx.expand::<F>();
    #[cfg(feature = "sym")]
    halo2curves::symcore::set_coding(true);
}
macro_rules! codec {
    ($m:ident, $a:ident, $c:ident, $f:ident, $name:literal) => {
        mod $m {
            use super::*;
            fn rhs(x: $f) -> $f {
                x * x * x + $a::b()
            }
            /// any point of the curve other than the identity
            fn point(cx: &mut Cx) -> $a {
                let x: $f = cx.var("x");
                let y: $f = cx.var("y");
                cx.assume_nonzero(x);
                cx.assume_nonzero(y);
                cx.relation(y * y, rhs(x));
                #[cfg(feature = "sym")]
                $f::sym_known_root(&rhs(x), &y);
                let p = $a::from_xy(x, y);
                assert!(bool::from(p.is_some()), "SYMERR: point");
                p.unwrap()
            }
            fn any(cx: &mut Cx) -> $a {
                if cx.choose("identity", 2) == 1 {
                    $a::identity()
                } else {
                    point(cx)
                }
            }
            fn same(cx: &mut Cx, p: Option<$a>, q: $a) {
                cx.yes(p.is_some(), "decodes");
                if let Some(p) = p {
                    cx.eq(p.x, q.x, "x");
                    cx.eq(p.y, q.y, "y");
                }
            }
            const FORMATS: [SerdeFormat; 3] = [SerdeFormat::Processed, SerdeFormat::RawBytes, SerdeFormat::RawBytesUnchecked];
            pub fn cases(v: &mut Vec<Case>) {
                v.push((
                    concat!($name, ": encoding and back").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let p = any(cx);
                        match cx.choose("how", 8) {
                            0 => same(cx, $a::from_bytes(&p.to_bytes()).into(), p),
                            1 => same(cx, $a::from_bytes_unchecked(&p.to_bytes()).into(), p),
                            2 => {
                                let b = $c::from(p).to_bytes();
                                cx.yes(b.as_ref() == p.to_bytes().as_ref(), "same encoding as the affine point");
                                let q: Option<$c> = $c::from_bytes(&b).into();
                                same(cx, q.map(|q| q.into()), p)
                            }
                            3 => same(cx, $a::from_raw_bytes(&p.to_raw_bytes()), p),
                            4 => same(cx, Some($a::from_raw_bytes_unchecked(&p.to_raw_bytes())), p),
                            5 => {
                                let c = $c::from(p);
                                same(cx, $c::from_raw_bytes(&c.to_raw_bytes()).map(|q| q.into()), p)
                            }
                            6 => {
                                let f = FORMATS[cx.choose("format", 3)];
                                let mut b = vec![];
                                SerdeCurveAffine::write(&p, &mut b, f).unwrap();
                                SerdeCurveAffine::write(&p, &mut b, f).unwrap();
                                let mut r = &b[..];
                                let q = <$a as SerdeCurveAffine>::read(&mut r, f).ok();
                                same(cx, q, p);
                                let q = <$a as SerdeCurveAffine>::read(&mut r, f).ok();
                                same(cx, q, p);
                                cx.yes(r.is_empty(), "whole encoding read");
                            }
                            _ => {
                                let mut b = vec![];
                                p.write_raw(&mut b).unwrap();
                                same(cx, $a::read_raw(&mut &b[..]).ok(), p);
                                same(cx, Some($a::read_raw_unchecked(&mut &b[..])), p);
                                let c = $c::from(p);
                                let mut b = vec![];
                                c.write_raw(&mut b).unwrap();
                                same(cx, $c::read_raw(&mut &b[..]).ok().map(|q| q.into()), p);
                            }
                        }
                    }),
                ));
                v.push((
                    concat!($name, ": no point has x = 0").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        cx.yes(bool::from(rhs($f::zero()).sqrt().is_none()), "no point has x = 0");
                    }),
                ));
                v.push((
                    concat!($name, ": opposite points have different encodings").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let p = point(cx);
                        cx.yes(p.to_bytes().as_ref() != (-p).to_bytes().as_ref(), "encoding of the opposite point");
                    }),
                ));
                v.push((
                    concat!($name, ": any compressed string").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let x: $f = cx.var("x");
                        cx.assume_nonzero(rhs(x)); // no point of order two
                        let xb = x.to_repr();
                        let mut b = <$a as GroupEncoding>::Repr::default();
                        b.as_mut()[..32].copy_from_slice(&xb);
                        let n = b.as_ref().len();
                        let flag = cx.choose("flag", 2) as u8;
                        b.as_mut()[n - 1] |= flag << 7;
                        let p: Option<$a> = if cx.choose("projective", 2) == 1 {
                            Option::<$c>::from($c::from_bytes(&b)).map(|q| q.into())
                        } else {
                            $a::from_bytes(&b).into()
                        };
                        let id = flag == 0 && bool::from(x.is_zero());
                        let root: Option<$f> = rhs(x).sqrt().into();
                        cx.yes(p.is_some() == (id || root.is_some()), "accepted exactly when there is such a point");
                        if let Some(p) = p {
                            cx.eq(p.x, x, "x");
                            if id {
                                cx.yes(bool::from(p.is_identity()), "identity");
                            } else {
                                cx.eq(p.y * p.y, rhs(x), "on the curve");
                                cx.yes(p.y.to_repr()[0] & 1 == flag, "sign");
                            }
                        }
                    }),
                ));
                v.push((
                    concat!($name, ": any pair of coordinates").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let x: $f = cx.var("x");
                        let y: $f = cx.var("y");
                        let mut b = x.to_raw_bytes();
                        b.extend(y.to_raw_bytes());
                        let p = match cx.choose("how", 3) {
                            0 => $a::from_raw_bytes(&b),
                            1 => $a::read_raw(&mut &b[..]).ok(),
                            _ => <$a as SerdeCurveAffine>::read(&mut &b[..], SerdeFormat::RawBytes).ok(),
                        };
                        let id = bool::from(x.is_zero()) && bool::from(y.is_zero());
                        let on = y * y == rhs(x);
                        cx.yes(p.is_some() == (on || id), "accepted exactly when on the curve");
                        if let Some(p) = p {
                            cx.eq(p.x, x, "x");
                            cx.eq(p.y, y, "y");
                        }
                    }),
                ));
                v.push((
                    concat!($name, ": any triple of coordinates").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let (x, y, z): ($f, $f, $f) = (cx.var("x"), cx.var("y"), cx.var("z"));
                        let mut b = x.to_raw_bytes();
                        b.extend(y.to_raw_bytes());
                        b.extend(z.to_raw_bytes());
                        let p = match cx.choose("how", 2) {
                            0 => $c::from_raw_bytes(&b),
                            _ => $c::read_raw(&mut &b[..]).ok(),
                        };
                        let id = bool::from(z.is_zero());
                        let z2 = z * z;
                        let on = y * y == x * x * x + z2 * z2 * z2 * $a::b();
                        cx.yes(p.is_some() == (on || id), "accepted exactly when on the curve");
                        if let Some(p) = p {
                            let (a, b, c) = p.jacobian_coordinates();
                            cx.eq(a, x, "x");
                            cx.eq(b, y, "y");
                            cx.eq(c, z, "z");
                        }
                    }),
                ));
                v.push((
                    concat!($name, ": truncated or over-long strings").into(),
                    Box::new(|cx: &mut Cx| {
                        start::<$f>(cx);
                        let p = any(cx);
                        let mut b = p.to_raw_bytes();
                        match cx.choose("how", 5) {
                            0 => {
                                b.push(0);
                                cx.yes($a::from_raw_bytes(&b).is_none(), "over-long raw string");
                            }
                            1 => {
                                b.pop();
                                cx.yes($a::from_raw_bytes(&b).is_none(), "truncated raw string");
                            }
                            2 => {
                                b.pop();
                                cx.yes($a::read_raw(&mut &b[..]).is_err(), "truncated raw stream");
                            }
                            3 => {
                                let mut b = vec![];
                                SerdeCurveAffine::write(&p, &mut b, SerdeFormat::Processed).unwrap();
                                b.pop();
                                cx.yes(<$a as SerdeCurveAffine>::read(&mut &b[..], SerdeFormat::Processed).is_err(), "truncated stream");
                            }
                            _ => {
                                let mut c = $c::from(p).to_raw_bytes();
                                c.pop();
                                cx.yes($c::from_raw_bytes(&c).is_none() && $c::read_raw(&mut &c[..]).is_err(), "truncated projective string");
                            }
                        }
                    }),
                ));
            }
        }
    };
}
codec!(g1, G1Affine, G1, Fq, "bn256 G1");
codec!(secp, Secp256k1Affine, Secp256k1, Fp, "secp256k1");
pub fn cases(v: &mut Vec<Case>, _tier: &str) {
    g1::cases(v);
    secp::cases(v);
    v.push((
        "transcript: a point written is the point read".into(),
        Box::new(|cx: &mut Cx| {
            start::<Fq>(cx);
            let x: Fq = cx.var("x");
            let y: Fq = cx.var("y");
            cx.assume_nonzero(x);
            cx.assume_nonzero(y);
            let r = x * x * x + G1Affine::b();
            cx.relation(y * y, r);
            #[cfg(feature = "sym")]
            Fq::sym_known_root(&r, &y);
            let p = G1Affine::from_xy(x, y).unwrap();
            let mut w = Blake2bWrite::<Vec<u8>, G1Affine, Challenge255<G1Affine>>::init(vec![]);
            cx.yes(w.write_point(p).is_ok(), "written");
            let b = w.finalize();
            let mut t = Blake2bRead::<&[u8], G1Affine, Challenge255<G1Affine>>::init(&b[..]);
            match t.read_point() {
                Ok(q) => {
                    cx.eq(q.x, x, "x");
                    cx.eq(q.y, y, "y");
                }
                Err(_) => cx.yes(false, "read"),
            }
            cx.yes(t.read_point().is_err(), "end of the proof");
        }),
    ));
    v.push((
        "transcript: strings that are no point are refused".into(),
        Box::new(|cx: &mut Cx| {
            start::<Fq>(cx);
            let x: Fq = cx.var("x");
            cx.assume_nonzero(x);
            cx.assume_nonzero(x * x * x + G1Affine::b());
            let mut b = x.to_repr();
            b[31] |= (cx.choose("flag", 2) as u8) << 7;
            let mut t = Blake2bRead::<&[u8], G1Affine, Challenge255<G1Affine>>::init(&b[..]);
            let got = t.read_point();
            let root: Option<Fq> = (x * x * x + G1Affine::b()).sqrt().into();
            cx.yes(got.is_ok() == root.is_some(), "accepted exactly when there is such a point");
        }),
    ));
}
