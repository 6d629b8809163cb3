//! C13: the tower Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-xi), Fq12 = Fq6[w]/(w^2-v), xi = 9+u.
//! Oracle: schoolbook arithmetic on coefficient vectors over Fq2 as pairs, written here.
use crate::cx::Cx;
use crate::Case;
use ff::Field;
use halo2curves::bn256::{Fq, Fq12, Fq2, Fq6};

pub type P2 = (Fq, Fq);
pub fn a2(a: P2, b: P2) -> P2 {
    (a.0 + b.0, a.1 + b.1)
}
pub fn n2(a: P2) -> P2 {
    (-a.0, -a.1)
}
pub fn m2(a: P2, b: P2) -> P2 {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}
fn xi() -> P2 {
    (Fq::from(9), Fq::one())
}
/// polynomials in w over Fq2 with w^6 = xi ; index = power of w
type P12 = [P2; 6];
const Z2: P2 = (Fq::zero(), Fq::zero());
fn m12(a: &P12, b: &P12) -> P12 {
    let mut r = [Z2; 6];
    for i in 0..6 {
        for j in 0..6 {
            let t = m2(a[i], b[j]);
            if i + j < 6 {
                r[i + j] = a2(r[i + j], t);
            } else {
                r[i + j - 6] = a2(r[i + j - 6], m2(t, xi()));
            }
        }
    }
    r
}
fn p2(a: &Fq2) -> P2 {
    (a.c0, a.c1)
}
fn f2(a: P2) -> Fq2 {
    Fq2 { c0: a.0, c1: a.1 }
}
fn p6(a: &Fq6) -> P12 {
    [p2(&a.c0), Z2, p2(&a.c1), Z2, p2(&a.c2), Z2]
}
fn f6(a: [P2; 3]) -> Fq6 {
    Fq6 { c0: f2(a[0]), c1: f2(a[1]), c2: f2(a[2]) }
}
fn p12(a: &Fq12) -> P12 {
    [p2(&a.c0.c0), p2(&a.c1.c0), p2(&a.c0.c1), p2(&a.c1.c1), p2(&a.c0.c2), p2(&a.c1.c2)]
}
fn f12(a: &P12) -> Fq12 {
    Fq12 { c0: f6([a[0], a[2], a[4]]), c1: f6([a[1], a[3], a[5]]) }
}
fn v2(cx: &mut Cx, n: &str) -> P2 {
    (cx.var(&format!("{}x", n)), cx.var(&format!("{}y", n)))
}
fn v6(cx: &mut Cx, n: &str) -> [P2; 3] {
    [v2(cx, &format!("{}0", n)), v2(cx, &format!("{}1", n)), v2(cx, &format!("{}2", n))]
}
fn v12(cx: &mut Cx, n: &str) -> P12 {
    let mut r = [Z2; 6];
    for i in 0..6 {
        r[i] = v2(cx, &format!("{}{}", n, i));
    }
    r
}
fn e2(cx: &mut Cx, a: P2, b: P2, w: &str) {
    cx.eq(a.0, b.0, w);
    cx.eq(a.1, b.1, w);
}
fn e12(cx: &mut Cx, a: &P12, b: &P12, w: &str) {
    for i in 0..6 {
        e2(cx, a[i], b[i], w);
    }
}
fn s6(a: [P2; 3]) -> P12 {
    [a[0], Z2, a[1], Z2, a[2], Z2]
}
fn map12(a: &P12, f: &dyn Fn(P2) -> P2) -> P12 {
    let mut r = *a;
    for i in 0..6 {
        r[i] = f(a[i]);
    }
    r
}
fn zip12(a: &P12, b: &P12, f: &dyn Fn(P2, P2) -> P2) -> P12 {
    let mut r = *a;
    for i in 0..6 {
        r[i] = f(a[i], b[i]);
    }
    r
}
/// (q-1)/d as little-endian limbs
fn qm1_over(d: u64) -> [u64; 4] {
    let q: [u64; 4] = [0x3c208c16d87cfd47, 0x97816a916871ca8d, 0xb85045b68181585d, 0x30644e72e131a029];
    let mut n = q;
    n[0] -= 1;
    let mut r = [0u64; 4];
    let mut rem: u128 = 0;
    for i in (0..4).rev() {
        let cur = (rem << 64) | n[i] as u128;
        r[i] = (cur / d as u128) as u64;
        rem = cur % d as u128;
    }
    assert!(rem == 0);
    r
}
fn pow2(mut b: P2, e: &[u64; 4]) -> P2 {
    let mut r = (Fq::one(), Fq::zero());
    for l in e {
        for i in 0..64 {
            if (l >> i) & 1 == 1 {
                r = m2(r, b);
            }
            b = m2(b, b);
        }
    }
    r
}
/// x -> x^q on the tower: conjugate the Fq2 coefficients, w^q = w * xi^((q-1)/6)
fn frob(a: &P12) -> P12 {
    let g = pow2(xi(), &qm1_over(6));
    let mut gi = (Fq::one(), Fq::zero());
    let mut r = *a;
    for i in 0..6 {
        r[i] = m2((a[i].0, -a[i].1), gi);
        gi = m2(gi, g);
    }
    r
}
/// norm Fq6 -> Fq2 of c0 + c1 v + c2 v^2
fn norm6(c: [P2; 3]) -> P2 {
    let x = xi();
    let c3 = |a: P2| m2(m2(a, a), a);
    let t = m2(m2(c[0], c[1]), c[2]);
    let t3 = a2(t, a2(t, t));
    a2(a2(c3(c[0]), m2(x, c3(c[1]))), a2(m2(m2(x, x), c3(c[2])), n2(m2(x, t3))))
}
/// norm Fq12 -> Fq
fn norm12(a: &P12) -> Fq {
    let mut conj = *a;
    for k in [1, 3, 5] {
        conj[k] = n2(conj[k]);
    }
    let n = m12(a, &conj);
    let n = norm6([n[0], n[2], n[4]]);
    n.0 * n.0 + n.1 * n.1
}
fn kc(i: usize) -> Fq {
    // fixed "random" constants
    let mut x = Fq::from(0x9e3779b97f4a7c15u64 ^ (i as u64).wrapping_mul(0xd1342543de82ef95u64).wrapping_add(7));
    for _ in 0..3 {
        x = x * x + Fq::from(i as u64 + 11);
    }
    x
}

macro_rules! linear {
    ($cx:ident, $T:ty, $mk:expr, $rd:expr, $a:ident, $b:ident) => {{
        let (x, y): ($T, $T) = ($mk(&$a), $mk(&$b));
        let add = zip12(&$a, &$b, &a2);
        let sub = zip12(&$a, &$b, &|p, q| a2(p, n2(q)));
        let neg = map12(&$a, &n2);
        let dbl = map12(&$a, &|p| a2(p, p));
        e12($cx, &$rd(&<$T>::add(&x, &y)), &add, "add");
        e12($cx, &$rd(&(x + y)), &add, "operator +");
        e12($cx, &$rd(&(&x + &y)), &add, "operator & + &");
        let mut t = x;
        t += y;
        e12($cx, &$rd(&t), &add, "+=");
        t = x;
        t += &y;
        e12($cx, &$rd(&t), &add, "+= &");
        e12($cx, &$rd(&<$T>::sub(&x, &y)), &sub, "sub");
        e12($cx, &$rd(&(x - y)), &sub, "operator -");
        t = x;
        t -= y;
        e12($cx, &$rd(&t), &sub, "-=");
        t = x;
        t -= &y;
        e12($cx, &$rd(&t), &sub, "-= &");
        e12($cx, &$rd(&<$T>::neg(&x)), &neg, "neg");
        e12($cx, &$rd(&(-x)), &neg, "operator unary -");
        e12($cx, &$rd(&(-&x)), &neg, "operator unary - &");
        e12($cx, &$rd(&<$T>::double(&x)), &dbl, "double");
        e12($cx, &$rd(&<$T as Field>::double(&x)), &dbl, "Field::double");
        t = x;
        t.double_assign();
        e12($cx, &$rd(&t), &dbl, "double_assign");
        e12($cx, &$rd(&<$T as Field>::zero()), &[Z2; 6], "zero");
        let mut one = [Z2; 6];
        one[0] = (Fq::one(), Fq::zero());
        e12($cx, &$rd(&<$T as Field>::one()), &one, "one");
        let prod = m12(&$a, &$b);
        let sq = m12(&$a, &$a);
        e12($cx, &$rd(&<$T>::mul(&x, &y)), &prod, "mul");
        e12($cx, &$rd(&(x * y)), &prod, "operator *");
        t = x;
        t *= y;
        e12($cx, &$rd(&t), &prod, "*=");
        t = x;
        t *= &y;
        e12($cx, &$rd(&t), &prod, "*= &");
        t = x;
        t.mul_assign(&y);
        e12($cx, &$rd(&t), &prod, "mul_assign");
        e12($cx, &$rd(&<$T>::square(&x)), &sq, "square");
        e12($cx, &$rd(&<$T as Field>::square(&x)), &sq, "Field::square");
        t = x;
        t.square_assign();
        e12($cx, &$rd(&t), &sq, "square_assign");
        use subtle::ConditionallySelectable;
        e12($cx, &$rd(&<$T>::conditional_select(&x, &y, 0.into())), &$a, "conditional_select 0");
        e12($cx, &$rd(&<$T>::conditional_select(&x, &y, 1.into())), &$b, "conditional_select 1");
        let z = <$T as Field>::zero();
        $cx.yes(bool::from(z.is_zero()), "zero is zero");
        $cx.yes(!bool::from(<$T as Field>::one().is_zero()), "one is not zero");
        $cx.yes(!bool::from(z.invert().is_some()), "zero has no inverse");
    }};
}
/// equality of one coordinate at a time: is_zero / == must look at every coordinate
fn detect(cx: &mut Cx, i: usize) {
    let d: Fq = cx.var("d");
    cx.assume_nonzero(d);
    let mut a = [Z2; 6];
    if i % 2 == 0 {
        a[i / 2].0 = d
    } else {
        a[i / 2].1 = d
    }
    let x = f12(&a);
    cx.yes(!bool::from(x.is_zero()), "Fq12 is_zero of a nonzero element");
    cx.yes(x != Fq12::zero(), "Fq12 == of different elements");
    cx.yes(x == x, "Fq12 == of the same element");
    if i / 2 % 2 == 0 {
        let x = f6([a[0], a[2], a[4]]);
        cx.yes(!bool::from(x.is_zero()), "Fq6 is_zero of a nonzero element");
        cx.yes(x != Fq6::zero(), "Fq6 == of different elements");
    }
    if i < 2 {
        let x = f2(a[0]);
        cx.yes(!bool::from(x.is_zero()), "Fq2 is_zero of a nonzero element");
        cx.yes(x != Fq2::zero(), "Fq2 == of different elements");
    }
}

pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    v.push(("fq2 arithmetic".into(), Box::new(|cx| {
        let (x, y) = (v2(cx, "a"), v2(cx, "b"));
        let mut a = [Z2; 6];
        a[0] = x;
        let mut b = [Z2; 6];
        b[0] = y;
        let mk = |p: &P12| f2(p[0]);
        let rd = |f: &Fq2| {
            let mut r = [Z2; 6];
            r[0] = p2(f);
            r
        };
        linear!(cx, Fq2, mk, rd, a, b);
        let mut t = f2(x);
        t.mul_by_nonresidue();
        e2(cx, p2(&t), m2(x, xi()), "mul_by_nonresidue");
        t = f2(x);
        t.mul_by_xi();
        e2(cx, p2(&t), m2(x, xi()), "mul_by_xi");
        t = f2(x);
        t.conjugate();
        e2(cx, p2(&t), (x.0, -x.1), "conjugate");
        cx.eq(f2(x).norm(), x.0 * x.0 + x.1 * x.1, "norm");
        e2(cx, p2(&Fq2::new(x.0, x.1)), x, "new");
    })));
    v.push(("fq6 arithmetic".into(), Box::new(|cx| {
        let (a, b) = (s6(v6(cx, "a")), s6(v6(cx, "b")));
        let mk = |p: &P12| f6([p[0], p[2], p[4]]);
        linear!(cx, Fq6, mk, p6, a, b);
        let x = mk(&a);
        let mut vv = [Z2; 6];
        vv[2] = (Fq::one(), Fq::zero());
        let av = m12(&a, &vv);
        let mut t = x;
        t.mul_by_nonresidue();
        e12(cx, &p6(&t), &av, "mul_by_nonresidue");
        t = x;
        t.mul_by_v();
        e12(cx, &p6(&t), &av, "mul_by_v");
        let (c0, c1) = (v2(cx, "s"), v2(cx, "t"));
        t = x;
        t.mul_by_1(&f2(c1));
        e12(cx, &p6(&t), &m12(&a, &s6([Z2, c1, Z2])), "mul_by_1");
        t = x;
        t.mul_by_01(&f2(c0), &f2(c1));
        e12(cx, &p6(&t), &m12(&a, &s6([c0, c1, Z2])), "mul_by_01");
    })));
    v.push(("fq12 arithmetic".into(), Box::new(|cx| {
        let (a, b) = (v12(cx, "a"), v12(cx, "b"));
        linear!(cx, Fq12, f12, p12, a, b);
        let mut t = f12(&a);
        t.conjugate();
        let mut c = a;
        for i in [1, 3, 5] {
            c[i] = n2(c[i]);
        }
        e12(cx, &p12(&t), &c, "conjugate");
        let (s0, s1, s2) = (v2(cx, "s"), v2(cx, "t"), v2(cx, "r"));
        t = f12(&a);
        t.mul_by_014(&f2(s0), &f2(s1), &f2(s2));
        // c0 + c1 v + c4 v w ; v = w^2
        let mut m = [Z2; 6];
        m[0] = s0;
        m[2] = s1;
        m[3] = s2;
        e12(cx, &p12(&t), &m12(&a, &m), "mul_by_014");
        t = f12(&a);
        t.mul_by_034(&f2(s0), &f2(s1), &f2(s2));
        let mut m = [Z2; 6];
        m[0] = s0;
        m[1] = s1;
        m[3] = s2;
        e12(cx, &p12(&t), &m12(&a, &m), "mul_by_034");
    })));
    for i in 0..12 {
        v.push((format!("equality coordinate {}", i), Box::new(move |cx| detect(cx, i))));
    }
    v.push(("frobenius".into(), Box::new(|cx| {
        let a = v12(cx, "a");
        let mut want = a;
        for p in 0..=14usize {
            let mut t = f12(&a);
            t.frobenius_map(p);
            e12(cx, &p12(&t), &want, &format!("Fq12 frobenius_map({})", p));
            let mut t = f6([a[0], a[2], a[4]]);
            t.frobenius_map(p);
            e12(cx, &p6(&t), &s6([want[0], want[2], want[4]]), &format!("Fq6 frobenius_map({})", p));
            let mut t = f2(a[0]);
            t.frobenius_map(p);
            e2(cx, p2(&t), want[0], &format!("Fq2 frobenius_map({})", p));
            want = frob(&want);
        }
    })));
    v.push(("fq2 inverse".into(), Box::new(|cx| {
        let a = v2(cx, "a");
        // -1 is not a square mod q, so a != 0 exactly when its norm is nonzero
        cx.yes(pow2((-Fq::one(), Fq::zero()), &qm1_over(2)) == (-Fq::one(), Fq::zero()), "-1 is a non-residue");
        cx.assume_nonzero(a.0 * a.0 + a.1 * a.1);
        let i = f2(a).invert();
        cx.yes(bool::from(i.is_some()), "nonzero element has an inverse");
        if bool::from(i.is_some()) {
            e2(cx, m2(p2(&i.unwrap()), a), (Fq::one(), Fq::zero()), "a * invert(a)");
        }
        let i = Field::invert(&f2(a));
        cx.yes(bool::from(i.is_some()), "Field::invert");
        if bool::from(i.is_some()) {
            e2(cx, m2(p2(&i.unwrap()), a), (Fq::one(), Fq::zero()), "a * Field::invert(a)");
        }
    })));
    let g6 = |cx: &mut Cx, a: [P2; 3]| {
        let n = norm6(a);
        cx.assume_nonzero(n.0 * n.0 + n.1 * n.1);
        let i = Field::invert(&f6(a));
        cx.yes(bool::from(i.is_some()), "nonzero element has an inverse");
        if bool::from(i.is_some()) {
            let mut one = [Z2; 6];
            one[0] = (Fq::one(), Fq::zero());
            e12(cx, &m12(&p6(&i.unwrap()), &s6(a)), &one, "a * invert(a)");
        }
    };
    v.push(("fq6 inverse".into(), Box::new(move |cx| {
        let a = v6(cx, "a");
        g6(cx, a)
    })));
    // Fq12 inversion: two or three coordinates arbitrary, the others fixed
    for i in 0..12usize {
        for j in (i + 1)..12 {
            if !th && (i + j) % 3 != 0 {
                continue;
            }
            v.push((format!("fq12 inverse coordinates {} {}", i, j), Box::new(move |cx| {
                let mut a = [Z2; 6];
                for c in 0..12 {
                    let x: Fq = if c == i || c == j { cx.var(&format!("x{}", c)) } else { kc(c) };
                    if c % 2 == 0 {
                        a[c / 2].0 = x
                    } else {
                        a[c / 2].1 = x
                    }
                }
                cx.assume_nonzero(norm12(&a));
                let x = f12(&a);
                for (w, r) in [("invert", x.invert()), ("Field::invert", Field::invert(&x))] {
                    cx.yes(bool::from(r.is_some()), w);
                    if bool::from(r.is_some()) {
                        let mut one = [Z2; 6];
                        one[0] = (Fq::one(), Fq::zero());
                        e12(cx, &m12(&p12(&r.unwrap()), &a), &one, &format!("a * {}(a)", w));
                    }
                }
            })));
        }
    }
    // cyclotomic_square on t -> ((1+...+t w^i)^(q^6-1))^(q^2+1), one coordinate arbitrary
    for c in 0..12usize {
        v.push((format!("cyclotomic square coordinate {}", c), Box::new(move |cx| {
            let mut a = [Z2; 6];
            for k in 0..12 {
                let x: Fq = if c == k { cx.var("t") } else if (k * 7 + c) % 4 == 0 || k == (c + 1) % 12 { kc(k) } else { Fq::zero() };
                if k % 2 == 0 {
                    a[k / 2].0 = x
                } else {
                    a[k / 2].1 = x
                }
            }
            cx.assume_nonzero(norm12(&a));
            let inv = f12(&a).invert().unwrap();
            let mut conj = a;
            for k in [1, 3, 5] {
                conj[k] = n2(conj[k]);
            }
            let g = m12(&conj, &p12(&inv));
            let h = m12(&frob(&frob(&g)), &g);
            let mut t = f12(&h);
            t.cyclotomic_square();
            e12(cx, &p12(&t), &m12(&h, &h), "cyclotomic_square");
        })));
    }
}
