//! C16: polynomial transforms and arithmetic.
use crate::cx::Cx;
use crate::Case;
use ff::{Field, PrimeField};
use halo2_proofs::arithmetic::*;
use halo2_proofs::poly::{EvaluationDomain, Rotation};
use halo2curves::bn256::Fr;

fn pw(mut b: Fr, mut e: u64) -> Fr {
    let mut r = Fr::one();
    while e > 0 {
        if e & 1 == 1 {
            r = r * b;
        }
        b = b * b;
        e >>= 1;
    }
    r
}
/// sum a_i x^i, by definition
fn ev(a: &[Fr], x: Fr) -> Fr {
    let mut s = Fr::zero();
    let mut p = Fr::one();
    for c in a {
        s = s + *c * p;
        p = p * x;
    }
    s
}
fn root(cx: &mut Cx, w: Fr, k: u32, what: &str) {
    let n = 1u64 << k;
    cx.yes(pw(w, n) == Fr::one(), &format!("{}^n == 1", what));
    if k > 0 {
        cx.yes(pw(w, n / 2) == -Fr::one(), &format!("{} has order exactly 2^{}", what, k));
    }
}

pub fn cases(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    let kmax = if th { 7 } else { 5 };
    for k in 0..=kmax {
        v.push((format!("fft k={}", k), Box::new(move |cx| {
            let n = 1usize << k;
            let d = EvaluationDomain::<Fr>::new(2, k);
            let w = d.get_omega();
            root(cx, w, k, "omega");
            let a: Vec<Fr> = cx.vars("a", n);
            let mut b = a.clone();
            best_fft(&mut b, w, k);
            for i in 0..n {
                cx.eq(b[i], ev(&a, pw(w, i as u64)), &format!("fft[{}] is the value at omega^{}", i, i));
            }
            cx.yes(d.get_omega_inv() * w == Fr::one(), "omega inverse");
        })));
    }
    let mut grid: Vec<(u32, u32)> = vec![];
    for k in 1..=(if th { 5 } else { 4 }) {
        for j in [2u32, 3, 4, 5, 6, 9] {
            if k <= 3 || j <= 5 || th {
                grid.push((j, k));
            }
        }
    }
    for (j, k) in grid {
        v.push((format!("domain j={} k={}", j, k), Box::new(move |cx| domain(cx, j, k))));
        v.push((format!("rotate j={} k={}", j, k), Box::new(move |cx| rotate(cx, j, k))));
        v.push((format!("lagrange-basis j={} k={}", j, k), Box::new(move |cx| basis(cx, j, k))));
    }
    for n in 1..=8usize {
        v.push((format!("eval n={}", n), Box::new(move |cx| {
            let a: Vec<Fr> = cx.vars("a", n);
            let x: Fr = cx.generic("x");
            cx.eq(eval_polynomial(&a, x), ev(&a, x), "eval_polynomial");
            cx.eq(eval_polynomial(&[] as &[Fr], x), Fr::zero(), "eval of nothing");
            let b: Vec<Fr> = cx.vars("b", n);
            let mut s = Fr::zero();
            for i in 0..n {
                s = s + a[i] * b[i];
            }
            cx.eq(compute_inner_product(&a, &b), s, "compute_inner_product");
            // a(X) = q(X) (X - b) + a(b)
            let q = kate_division(&a, x);
            cx.yes(q.len() == n - 1, "quotient length");
            let r = ev(&a, x);
            for i in 0..n {
                let mut c = Fr::zero();
                if i > 0 {
                    c = c + q[i - 1];
                }
                if i < n - 1 {
                    c = c - x * q[i];
                }
                if i == 0 {
                    c = c + r;
                }
                cx.eq(c, a[i], &format!("kate_division coefficient {}", i));
            }
        })));
    }
    for n in 1..=(if th { 5 } else { 4 }) as usize {
        v.push((format!("interpolate n={}", n), Box::new(move |cx| {
            let xs: Vec<Fr> = (0..n).map(|i| cx.generic(&format!("x{}", i))).collect();
            let es: Vec<Fr> = cx.vars("e", n);
            let p = lagrange_interpolate(&xs, &es);
            cx.yes(p.len() == n, "as many coefficients as points");
            for i in 0..n {
                cx.eq(ev(&p, xs[i]), es[i], &format!("interpolation at point {}", i));
            }
        })));
    }
    for n in 2..=6usize {
        v.push((format!("interpolate-fixed n={}", n), Box::new(move |cx| {
            // small concrete points, any values
            let xs: Vec<Fr> = (0..n).map(|i| Fr::from((i * i + 3 * i) as u64)).collect();
            let es: Vec<Fr> = cx.vars("e", n);
            let p = lagrange_interpolate(&xs, &es);
            for i in 0..n {
                cx.eq(ev(&p, xs[i]), es[i], &format!("interpolation at point {}", i));
            }
        })));
    }
    for k in 1..=3u32 {
        v.push((format!("poly-ops k={}", k), Box::new(move |cx| {
            let n = 1usize << k;
            let d = EvaluationDomain::<Fr>::new(3, k);
            let a: Vec<Fr> = cx.vars("a", n);
            let b: Vec<Fr> = cx.vars("b", n);
            let s: Fr = cx.var("s");
            let (pa, pb) = (d.coeff_from_vec(a.clone()), d.coeff_from_vec(b.clone()));
            let sum = pa.clone() + &pb;
            let dif = pa.clone() - &pb;
            let sub = &pa - s;
            let mul = pa.clone() * s;
            for i in 0..n {
                cx.eq(sum[i], a[i] + b[i], "sum");
                cx.eq(dif[i], a[i] - b[i], "difference");
                cx.eq(sub[i], if i == 0 { a[0] - s } else { a[i] }, "minus constant");
                cx.eq(mul[i], a[i] * s, "scaled");
            }
            cx.yes(sum.num_coeffs() == n && mul.num_coeffs() == n, "sizes");
            let la = d.lagrange_from_vec(a.clone());
            for r in -(n as i32)..=(n as i32) {
                let t = la.rotate(Rotation(r));
                for i in 0..n {
                    let j = (i as i32 + r).rem_euclid(n as i32) as usize;
                    cx.eq(t[i], a[j], &format!("rotate {}", r));
                }
            }
        })));
    }
    for (ln, sp, last) in [(3u32, 10u32, true), (3, 10, false), (4, 2, true), (4, 2, false), (2, 2, true), (5, 3, false)] {
        v.push((format!("twiddle {} {} {}", ln, sp, last), Box::new(move |cx| {
            let w: Fr = cx.generic("w");
            let t = generate_twiddle_lookup_table(w, ln, sp, last);
            if sp > ln {
                cx.yes(t.len() == 1 << ln, "dense table size");
                for i in 0..t.len() {
                    cx.eq(t[i], pw(w, i as u64), "dense entry");
                }
            } else {
                let lo = 1usize << sp;
                cx.yes(t.len() >= lo, "sparse table size");
                for i in 0..t.len() {
                    let e = if i < lo { i } else { (i - lo) << sp };
                    cx.eq(t[i], pw(w, e as u64), "sparse entry");
                }
            }
        })));
    }
}

fn domain(cx: &mut Cx, j: u32, k: u32) {
    let d = EvaluationDomain::<Fr>::new(j, k);
    let n = 1usize << k;
    let w = d.get_omega();
    let e = d.get_extended_omega();
    let en = d.extended_len();
    root(cx, w, k, "omega");
    root(cx, e, d.extended_k(), "extended omega");
    cx.yes(d.k() == k && en == 1 << d.extended_k(), "sizes");
    cx.yes(pw(e, (en / n) as u64) == w, "omega is a power of the extended omega");
    cx.yes(d.get_quotient_poly_degree() == (j - 1) as usize && en >= n * (j - 1) as usize, "extended domain holds the quotient");
    let a: Vec<Fr> = cx.vars("a", n);
    // Lagrange -> coefficients
    let c = d.lagrange_to_coeff(d.lagrange_from_vec(a.clone()));
    for i in 0..n {
        cx.eq(ev(&c, pw(w, i as u64)), a[i], &format!("lagrange_to_coeff takes value {} at omega^{}", i, i));
    }
    // coefficients -> coset values. The coset generator is read off the identity polynomial.
    let mut xp = vec![Fr::zero(); n];
    xp[1] = Fr::one();
    let pts = d.coeff_to_extended(d.coeff_from_vec(xp));
    let g = pts[0];
    for i in 0..en {
        cx.yes(pts[i] == g * pw(e, i as u64), "coset points are g*e^i");
    }
    cx.yes(pw(g, en as u64) != Fr::one(), "the coset avoids the domain");
    cx.yes(pw(g, n as u64) != Fr::one(), "the vanishing polynomial is non-zero on the coset");
    let x = d.coeff_to_extended(d.coeff_from_vec(a.clone()));
    cx.yes(x.len() == en, "extended length");
    for i in 0..en {
        cx.eq(x[i], ev(&a, pts[i]), &format!("coeff_to_extended[{}]", i));
    }
    // parts
    let parts = d.coeff_to_extended_parts(&d.coeff_from_vec(a.clone()));
    let m = en / n;
    cx.yes(parts.len() == m, "number of parts");
    for p in 0..m {
        for i in 0..n {
            cx.eq(parts[p][i], ev(&a, pts[p + i * m]), &format!("extended part {} value {}", p, i));
        }
        let one = d.coeff_to_extended_part(d.coeff_from_vec(a.clone()), pw(e, p as u64));
        for i in 0..n {
            cx.eq(one[i], parts[p][i], "single part");
        }
    }
    let batch = d.batched_coeff_to_extended_parts(&[d.coeff_from_vec(a.clone()), d.coeff_from_vec(a.iter().map(|x| *x + Fr::one()).collect())]);
    cx.yes(batch.len() == m, "number of batched parts");
    for p in 0..m {
        for i in 0..n {
            cx.eq(batch[p][0][i], parts[p][i], "batched part");
            cx.eq(batch[p][1][i], ev(&a.iter().map(|x| *x + Fr::one()).collect::<Vec<_>>(), pts[p + i * m]), "batched part of the second polynomial");
        }
    }
    let whole = d.extended_from_lagrange_vec(parts);
    for i in 0..en {
        cx.eq(whole[i], x[i], "parts reassembled");
    }
    // coset values -> coefficients: any polynomial of the quotient's degree
    let qn = n * (j - 1) as usize;
    let q: Vec<Fr> = cx.vars("q", qn);
    let mut ext = d.empty_extended();
    for i in 0..en {
        ext[i] = ev(&q, pts[i]);
    }
    let back = d.extended_to_coeff(ext.clone());
    cx.eqs(&back, &q, "extended_to_coeff");
    // division by X^n - 1
    let dv = d.divide_by_vanishing_poly(ext.clone());
    for i in 0..en {
        cx.eq(dv[i] * (pw(pts[i], n as u64) - Fr::one()), ext[i], "divide_by_vanishing_poly");
    }
    for r in -(n.min(3) as i32)..=(n.min(3) as i32) {
        let t = d.rotate_extended(&x, Rotation(r));
        for i in 0..en {
            let s = if r >= 0 { pw(w, r as u64) } else { pw(w.invert().unwrap(), (-r) as u64) };
            cx.eq(t[i], ev(&a, pts[i] * s), &format!("rotate_extended by {}", r));
        }
    }
    let s: Fr = cx.var("s");
    for x in d.constant_lagrange(s).iter().chain(d.constant_extended(s).iter()) {
        cx.eq(*x, s, "constant polynomial");
    }
    for x in d.empty_coeff().iter().chain(d.empty_lagrange().iter()).chain(d.empty_extended().iter()) {
        cx.yes(*x == Fr::zero(), "empty polynomial");
    }
    cx.yes(d.constant_lagrange(s).len() == n && d.constant_extended(s).len() == en && d.empty_coeff().len() == n && d.empty_lagrange().len() == n, "lengths");
}

fn rotate(cx: &mut Cx, j: u32, k: u32) {
    let d = EvaluationDomain::<Fr>::new(j, k);
    let x: Fr = cx.var("x");
    let w = d.get_omega();
    for r in -40i32..=40 {
        let s = if r >= 0 { pw(w, r as u64) } else { pw(w.invert().unwrap(), (-r) as u64) };
        cx.eq(d.rotate_omega(x, Rotation(r)), x * s, &format!("rotate_omega {}", r));
    }
    for r in [1000i32, -1000, i32::MAX, i32::MIN + 1, i32::MIN] {
        let n = 1i64 << k;
        let s = pw(w, (r as i64).rem_euclid(n) as u64);
        cx.eq(d.rotate_omega(x, Rotation(r)), x * s, &format!("rotate_omega {}", r));
    }
}
fn basis(cx: &mut Cx, j: u32, k: u32) {
    let d = EvaluationDomain::<Fr>::new(j, k);
    let n = 1i64 << k;
    let w = d.get_omega();
    let x: Fr = cx.generic("x");
    let xn = pw(x, n as u64);
    let lo = -(n.min(6)) as i32;
    let hi = n.min(7) as i32;
    let l = d.l_i_range(x, xn, lo..=hi);
    cx.yes(l.len() == (hi - lo + 1) as usize, "one value per rotation");
    for (t, r) in (lo..=hi).enumerate() {
        // l_i(x) * prod_{j != i}(w^i - w^j) == prod_{j != i}(x - w^j)
        let i = (r as i64).rem_euclid(n);
        let (mut a, mut b) = (Fr::one(), Fr::one());
        for jj in 0..n {
            if jj != i {
                a = a * (pw(w, i as u64) - pw(w, jj as u64));
                b = b * (x - pw(w, jj as u64));
            }
        }
        cx.eq(l[t] * a, b, &format!("Lagrange basis polynomial {}", r));
    }
    let _ = <Fr as PrimeField>::S;
}
