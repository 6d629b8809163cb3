//! Case context: the same case code runs symbolically (feature "sym", every value of the
//! variables) and natively on the unmodified fields (replay of a counterexample).
use halo2curves::bn256::{Fq, Fr};
use halo2curves::secp256k1::Fp;
use std::collections::BTreeMap;
pub type Model = BTreeMap<String, String>;

pub trait SF: ff::PrimeField<Repr = [u8; 32]> + Copy {
    const TAG: &'static str;
    #[cfg(feature = "sym")]
    fn mk(name: &str, bound: Option<(i64, i64)>, generic: bool) -> Self;
    #[cfg(feature = "sym")]
    fn ident(&self) -> bool;
    #[cfg(feature = "sym")]
    fn differ(a: &Self, b: &Self) -> (Vec<String>, String);
    #[cfg(feature = "sym")]
    fn refute(&self, what: &str) -> Option<Model>;
    #[cfg(feature = "sym")]
    fn assume(&self, zero: bool);
    #[cfg(feature = "sym")]
    fn rule(l: &Self, r: &Self);
    #[cfg(feature = "sym")]
    fn wit(seed: u64) -> Option<Vec<(String, String)>>;
    #[cfg(feature = "sym")]
    fn nonzero_at(&self, m: &Model) -> bool;
    #[cfg(feature = "sym")]
    fn is_const(&self) -> bool;
    #[cfg(feature = "sym")]
    fn expand_all(b: bool);
    #[cfg(feature = "sym")]
    fn opaque(a: &Self, b: &Self) -> (Vec<String>, String, bool);
}
macro_rules! sf {
    ($t:ty, $tag:literal, $real:ty) => {
        impl SF for $t {
            const TAG: &'static str = $tag;
            #[cfg(feature = "sym")]
            fn mk(name: &str, bound: Option<(i64, i64)>, generic: bool) -> Self {
                <$t>::sym_var(name, bound, generic)
            }
            #[cfg(feature = "sym")]
            fn ident(&self) -> bool {
                self.identically_zero()
            }
            #[cfg(feature = "sym")]
            fn differ(a: &Self, b: &Self) -> (Vec<String>, String) {
                <$t>::differ_query(a, b)
            }
            #[cfg(feature = "sym")]
            fn refute(&self, what: &str) -> Option<Model> {
                self.refute_zero(what)
            }
            #[cfg(feature = "sym")]
            fn assume(&self, zero: bool) {
                self.assume_zero(zero)
            }
            #[cfg(feature = "sym")]
            fn rule(l: &Self, r: &Self) {
                <$t>::sym_rule(l, r)
            }
            #[cfg(feature = "sym")]
            fn wit(seed: u64) -> Option<Vec<(String, String)>> {
                <$t>::sym_witness(seed)
            }
            #[cfg(feature = "sym")]
            fn nonzero_at(&self, m: &Model) -> bool {
                let v = self.sym_inject(&|n: &str| -> $real {
                    halo2curves::symcore::from_dec(m.get(n).map(|s| s.as_str()).unwrap_or("0"))
                });
                !bool::from(ff::Field::is_zero(&v))
            }
            #[cfg(feature = "sym")]
            fn is_const(&self) -> bool {
                self.concrete().is_some()
            }
            #[cfg(feature = "sym")]
            fn expand_all(b: bool) {
                <$t>::sym_expand_all(b)
            }
            #[cfg(feature = "sym")]
            fn opaque(a: &Self, b: &Self) -> (Vec<String>, String, bool) {
                <$t>::opaque_query(a, b)
            }
        }
    };
}
#[cfg(feature = "sym")]
mod reals {
    pub type RFr = halo2curves::bn256::FrReal;
    pub type RFq = halo2curves::bn256::FqReal;
    pub type RFp = halo2curves::secp256k1::FpReal;
}
#[cfg(feature = "sym")]
use reals::*;
sf!(Fr, "r", RFr);
sf!(Fq, "q", RFq);
sf!(Fp, "p", RFp);

pub struct Failure {
    pub what: String,
    pub cands: Vec<Model>,
}
pub struct Cx {
    /// concrete values (native replay)
    pub vals: Option<Model>,
    pub fails: Vec<Failure>,
    pub checks: u64,
    pub idents: u64,
    pub rels: u64,
    pub choices: Model,
    pub skipped: Vec<String>,
    /// identities waiting for the solver
    pub pend: Vec<(&'static str, Vec<String>, String)>,
    pub undischarged: u64,
}
pub fn dec<F: SF>(s: &str) -> F {
    let (neg, s) = if s.starts_with('-') { (true, &s[1..]) } else { (false, s) };
    let mut r = F::zero();
    let ten = F::from(10);
    for c in s.chars() {
        r = r * ten + F::from(c.to_digit(10).unwrap() as u64);
    }
    if neg {
        -r
    } else {
        r
    }
}
impl Cx {
    pub fn new(vals: Option<Model>) -> Cx {
        Cx { vals, fails: vec![], checks: 0, idents: 0, rels: 0, choices: Model::new(), skipped: vec![], pend: vec![], undischarged: 0 }
    }
    fn v<F: SF>(&mut self, name: &str, bound: Option<(i64, i64)>, generic: bool) -> F {
        let name = format!("{}_{}", F::TAG, name);
        let _ = (bound, generic);
        #[cfg(feature = "sym")]
        {
            return F::mk(&name, bound, generic);
        }
        #[cfg(not(feature = "sym"))]
        {
            let m = self.vals.as_ref().unwrap();
            return dec(m.get(&name).map(|s| s.as_str()).unwrap_or("0"));
        }
    }
    /// any field element
    pub fn var<F: SF>(&mut self, name: &str) -> F {
        self.v(name, None, false)
    }
    pub fn vars<F: SF>(&mut self, name: &str, n: usize) -> Vec<F> {
        (0..n).map(|i| self.var(&format!("{}{}", name, i))).collect()
    }
    /// integer lo..=hi as field element
    pub fn small<F: SF>(&mut self, name: &str, lo: i64, hi: i64) -> F {
        self.v(name, Some((lo, hi)), false)
    }
    /// generic field element: only polynomial identities in it count
    pub fn generic<F: SF>(&mut self, name: &str) -> F {
        self.v(name, None, true)
    }
    /// multiply out products of generic elements at once
    pub fn expand<F: SF>(&mut self) {
        #[cfg(feature = "sym")]
        F::expand_all(true);
    }
    /// an element with the relation lhs == rhs, lhs being a single monomial
    pub fn relation<F: SF>(&mut self, lhs: F, rhs: F) {
        self.rels += 1;
        #[cfg(feature = "sym")]
        F::rule(&lhs, &rhs);
        #[cfg(not(feature = "sym"))]
        if lhs != rhs {
            std::panic::panic_any(Skip);
        }
    }
    pub fn assume_nonzero<F: SF>(&mut self, v: F) {
        #[cfg(feature = "sym")]
        v.assume(false);
        #[cfg(not(feature = "sym"))]
        if v == F::zero() {
            std::panic::panic_any(Skip);
        }
    }
    pub fn assume_zero<F: SF>(&mut self, v: F) {
        #[cfg(feature = "sym")]
        v.assume(true);
        #[cfg(not(feature = "sym"))]
        if v != F::zero() {
            std::panic::panic_any(Skip);
        }
    }
    #[cfg(feature = "sym")]
    fn candidates(&mut self, bad: &dyn Fn(&Model) -> bool, first: Option<Model>) -> Vec<Model> {
        let mut out = vec![];
        for seed in 0..40u64 {
            let (a, b, c) = (Fr::wit(seed), Fq::wit(seed), Fp::wit(seed));
            if let (Some(a), Some(b), Some(c)) = (a, b, c) {
                let m: Model = a.into_iter().chain(b).chain(c).chain(self.choices.clone()).collect();
                if bad(&m) {
                    out.push(m);
                    if out.len() >= 3 {
                        break;
                    }
                }
            }
        }
        if let Some(m) = first {
            out.push(m);
        }
        out
    }
    /// sends the collected identities to the solver
    pub fn flush(&mut self) {
        #[cfg(feature = "sym")]
        for tag in [Fr::TAG, Fq::TAG, Fp::TAG] {
            let (mut names, mut fs) = (std::collections::BTreeSet::new(), vec![]);
            for (_, n, f) in self.pend.iter().filter(|x| x.0 == tag) {
                names.extend(n.iter().cloned());
                fs.push(f.clone());
            }
            if !fs.is_empty() && !halo2curves::symcore::discharge(&names, &fs) {
                self.undischarged += fs.len() as u64;
            }
        }
        self.pend.clear();
    }
    /// v == 0 for every value of the variables on this path
    pub fn zero<F: SF>(&mut self, v: F, what: &str) {
        self.eq(v, F::zero(), what)
    }
    pub fn eq<F: SF>(&mut self, a: F, b: F, what: &str) {
        self.checks += 1;
        let v = a - b;
        #[cfg(feature = "sym")]
        {
            if v.ident() {
                self.idents += 1;
                let (n, f) = F::differ(&a, &b);
                self.pend.push((F::TAG, n, f));
                if self.pend.len() >= 64 {
                    self.flush();
                }
                return;
            }
            let n = halo2curves::symcore::with(|e| e.inconclusive.len());
            let r = v.refute(what);
            let inc = halo2curves::symcore::with(|e| e.inconclusive.len()) > n;
            if r.is_some() || inc {
                let rels = self.rels;
                let cands = self.candidates(&|m| { let _ = rels; v.nonzero_at(m) }, r);
                self.fails.push(Failure { what: what.to_string(), cands });
            }
        }
        #[cfg(not(feature = "sym"))]
        if v != F::zero() {
            self.fails.push(Failure { what: what.to_string(), cands: vec![] });
        }
    }
    /// as eq, with products of sums left as opaque monomials (no expansion)
    pub fn eq_opaque<F: SF>(&mut self, a: F, b: F, what: &str) {
        self.checks += 1;
        #[cfg(feature = "sym")]
        {
            let (n, f, same) = F::opaque(&a, &b);
            if same {
                self.idents += 1;
                self.pend.push((F::TAG, n, f));
                if self.pend.len() >= 64 {
                    self.flush();
                }
                return;
            }
            let v = a - b;
            let cands = self.candidates(&|m| v.nonzero_at(m), None);
            self.fails.push(Failure { what: what.to_string(), cands });
        }
        #[cfg(not(feature = "sym"))]
        if a != b {
            self.fails.push(Failure { what: what.to_string(), cands: vec![] });
        }
    }
    pub fn eqs<F: SF>(&mut self, a: &[F], b: &[F], what: &str) {
        self.yes(a.len() == b.len(), &format!("{}: length", what));
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.eq(*x, *y, &format!("{}[{}]", what, i));
        }
    }
    /// b holds on this path
    pub fn yes(&mut self, b: bool, what: &str) {
        self.checks += 1;
        if b {
            self.idents += 1;
            return;
        }
        #[cfg(feature = "sym")]
        let cands = {
            let m = halo2curves::symcore::model();
            if m.is_none() {
                return; // infeasible path
            }
            self.candidates(&|_| true, m)
        };
        #[cfg(not(feature = "sym"))]
        let cands = vec![];
        self.fails.push(Failure { what: what.to_string(), cands });
    }
    /// for every assignment of values to cells: the equalities of `want` hold exactly when those of
    /// `got` do
    pub fn same_classes(&mut self, want: &[(usize, usize)], got: &[(usize, usize)], what: &str) {
        self.checks += 1;
        #[cfg(feature = "sym")]
        {
            let mut names = std::collections::BTreeSet::new();
            let mut all = |l: &[(usize, usize)]| {
                let mut s = String::from("(and true");
                for (x, y) in l {
                    names.insert(format!("cell{}", x));
                    names.insert(format!("cell{}", y));
                    s.push_str(&format!(" (= cell{} cell{})", x, y));
                }
                s.push(')');
                s
            };
            let (w, g) = (all(want), all(got));
            if halo2curves::symcore::discharge(&names, &[format!("(and {} (not {}))", w, g), format!("(and {} (not {}))", g, w)]) {
                self.idents += 1;
            } else {
                self.checks -= 1;
                self.yes(false, what);
            }
        }
        #[cfg(not(feature = "sym"))]
        {
            let classes = |l: &[(usize, usize)]| {
                let m = want.iter().chain(got).map(|x| x.0.max(x.1) + 1).max().unwrap_or(0);
                let mut c: Vec<usize> = (0..m).collect();
                loop {
                    let mut ch = false;
                    for (x, y) in l {
                        let t = c[*x].min(c[*y]);
                        ch |= c[*x] != t || c[*y] != t;
                        c[*x] = t;
                        c[*y] = t;
                    }
                    if !ch {
                        return c;
                    }
                }
            };
            if classes(want) != classes(got) {
                self.fails.push(Failure { what: what.to_string(), cands: vec![] });
            }
        }
    }
    /// nondeterministic choice 0..n
    pub fn choose(&mut self, name: &str, n: usize) -> usize {
        let _ = n;
        #[cfg(feature = "sym")]
        {
            let name = format!("c_{}", name);
            halo2curves::symcore::declare(&name, "0", &format!("{}", n - 1));
            let v = halo2curves::symcore::concretize(&name);
            self.choices.insert(name, v.clone());
            return v.parse().unwrap();
        }
        #[cfg(not(feature = "sym"))]
        {
            let m = self.vals.as_ref().unwrap();
            return m.get(&format!("c_{}", name)).map(|s| s.parse().unwrap()).unwrap_or(0);
        }
    }
}
pub struct Skip;
