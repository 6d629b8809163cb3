//! C24: the optimised Poseidon permutation and sponge against the textbook ones.
use crate::cx::Cx;
use crate::Case;
use ff::{Field, PrimeField};
use halo2curves::bn256::Fr;
use halo2curves::FieldExt;
use poseidon::{Poseidon, Spec, State};

/// the parameter generator of the Poseidon paper (supplementary material F)
struct Lfsr {
    s: Vec<bool>,
}
impl Lfsr {
    fn new(t: usize, rf: usize, rp: usize) -> Lfsr {
        let mut s = vec![];
        for (n, v) in [(2, 1u128), (4, 0), (12, 254), (12, t as u128), (10, rf as u128), (10, rp as u128), (30, (1 << 30) - 1)] {
            for i in (0..n).rev() {
                s.push((v >> i) & 1 == 1);
            }
        }
        let mut g = Lfsr { s };
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = self.s[0] ^ self.s[13] ^ self.s[23] ^ self.s[38] ^ self.s[51] ^ self.s[62];
        self.s.remove(0);
        self.s.push(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.step(), self.step());
            if a {
                return b;
            }
        }
    }
    /// 254 bits, most significant first, as little-endian bytes
    fn bytes(&mut self) -> [u8; 64] {
        let mut v = [0u8; 64];
        for i in (0..254).rev() {
            if self.bit() {
                v[i / 8] |= 1 << (i % 8);
            }
        }
        v
    }
    fn rejecting(&mut self) -> Fr {
        loop {
            let b = self.bytes();
            let r: Option<Fr> = Fr::from_repr(b[..32].try_into().unwrap()).into();
            if let Some(f) = r {
                return f;
            }
        }
    }
}
struct Text {
    t: usize,
    rf: usize,
    rp: usize,
    c: Vec<Vec<Fr>>,
    m: Vec<Vec<Fr>>,
}
impl Text {
    fn new(t: usize, rf: usize, rp: usize) -> Text {
        let mut g = Lfsr::new(t, rf, rp);
        let c = (0..rf + rp).map(|_| (0..t).map(|_| g.rejecting()).collect()).collect();
        let xy: Vec<Fr> = (0..2 * t).map(|_| Fr::from_bytes_wide(&g.bytes())).collect();
        let m = (0..t).map(|i| (0..t).map(|j| (xy[i] + xy[t + j]).invert().unwrap()).collect()).collect();
        Text { t, rf, rp, c, m }
    }
    fn permute(&self, s: &[Fr]) -> Vec<Fr> {
        let mut s = s.to_vec();
        let half = self.rf / 2;
        for r in 0..self.rf + self.rp {
            for i in 0..self.t {
                s[i] = s[i] + self.c[r][i];
            }
            let full = r < half || r >= half + self.rp;
            for i in 0..(if full { self.t } else { 1 }) {
                let q = s[i] * s[i];
                s[i] = q * q * s[i];
            }
            s = (0..self.t)
                .map(|i| (0..self.t).fold(Fr::zero(), |a, j| a + self.m[i][j] * s[j]))
                .collect();
        }
        s
    }
}

fn start() {
    #[cfg(feature = "sym")]
    Fr::sym_opaque(true);
}
/// any element: zero or generic
fn elem(cx: &mut Cx, name: &str, zeros: bool) -> Fr {
    if zeros && cx.choose(&format!("zero_{}", name), 2) == 1 {
        Fr::zero()
    } else {
        cx.generic(name)
    }
}
fn permutation<const T: usize, const RATE: usize>(cx: &mut Cx, rf: usize, rp: usize, zeros: bool) {
    start();
    let w: Vec<Fr> = (0..T).map(|i| elem(cx, &format!("s{}", i), zeros)).collect();
    let words: [Fr; T] = w.clone().try_into().unwrap();
    let mut s = State::<Fr, T>::sym_from(words);
    Spec::<Fr, T, RATE>::new(rf, rp).permute(&mut s);
    let e = Text::new(T, rf, rp).permute(&w);
    for i in 0..T {
        cx.eq_opaque(s.words()[i], e[i], &format!("word {} of the permuted state", i));
    }
}
fn sponge<const T: usize, const RATE: usize>(cx: &mut Cx, max: usize, again: bool, zeros: bool) {
    start();
    let (rf, rp) = (8, 5);
    let t = Text::new(T, rf, rp);
    let mut h = Poseidon::<Fr, T, RATE>::new(rf, rp);
    let mut st = vec![Fr::zero(); T];
    st[0] = Fr::from_u128(1 << 64);
    let rounds = if again { 2 } else { 1 };
    let mut k = 0;
    for round in 0..rounds {
        let n = cx.choose(&format!("n{}", round), max + 1);
        let a = cx.choose(&format!("cut{}", round), n + 1);
        let b = a + cx.choose(&format!("more{}", round), n - a + 1);
        let ins: Vec<Fr> = (0..n).map(|i| elem(cx, &format!("i{}", k + i), zeros)).collect();
        k += n;
        h.update(&ins[..a]);
        h.update(&ins[a..b]);
        h.update(&ins[b..]);
        let got = h.squeeze();
        let mut pad = ins.clone();
        pad.push(Fr::one());
        for ch in pad.chunks(RATE) {
            for (i, x) in ch.iter().enumerate() {
                st[i + 1] = st[i + 1] + *x;
            }
            st = t.permute(&st);
        }
        cx.eq_opaque(got, st[1], &format!("digest {}", round));
    }
}
pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    macro_rules! perm {
        ($t:literal, $r:literal, $list:expr) => {
            for (rf, rp) in $list {
                v.push((format!("permutation t={} rf={} rp={}", $t, rf, rp), Box::new(move |cx: &mut Cx| permutation::<$t, $r>(cx, rf, rp, false))));
            }
        };
    }
    let some = [(8usize, 57usize), (8, 1), (2, 2), (4, 3)];
    let all = [(8usize, 57usize), (8, 64), (8, 60), (8, 56), (8, 1), (2, 1), (2, 2), (4, 3), (6, 10), (10, 22)];
    perm!(3, 2, all);
    perm!(5, 4, all);
    if th {
        perm!(2, 1, all);
        perm!(4, 3, all);
        perm!(6, 5, all);
        perm!(7, 6, all);
        perm!(8, 7, all);
        perm!(9, 8, all);
        perm!(10, 9, all);
        perm!(12, 11, all);
    } else {
        perm!(2, 1, some);
        perm!(4, 3, some);
        perm!(6, 5, some);
        perm!(9, 8, some);
    }
    v.push(("sponge t=3".into(), Box::new(move |cx: &mut Cx| sponge::<3, 2>(cx, if th { 9 } else { 6 }, false, false))));
    v.push(("sponge t=5".into(), Box::new(move |cx: &mut Cx| sponge::<5, 4>(cx, if th { 13 } else { 9 }, false, false))));
    v.push(("permutation t=3, some words zero".into(), Box::new(move |cx: &mut Cx| permutation::<3, 2>(cx, 8, 57, true))));
    v.push(("permutation t=5, some words zero".into(), Box::new(move |cx: &mut Cx| permutation::<5, 4>(cx, 8, 6, true))));
    v.push(("sponge t=3, some inputs zero".into(), Box::new(move |cx: &mut Cx| sponge::<3, 2>(cx, if th { 5 } else { 4 }, false, true))));
    v.push(("sponge t=4, some inputs zero".into(), Box::new(move |cx: &mut Cx| sponge::<4, 3>(cx, if th { 5 } else { 4 }, false, true))));
    v.push(("sponge t=2".into(), Box::new(move |cx: &mut Cx| sponge::<2, 1>(cx, 4, false, false))));
    v.push(("sponge t=3, twice".into(), Box::new(move |cx: &mut Cx| sponge::<3, 2>(cx, if th { 5 } else { 3 }, true, false))));
    v.push(("sponge t=4, twice".into(), Box::new(move |cx: &mut Cx| sponge::<4, 3>(cx, if th { 5 } else { 3 }, true, false))));
}
