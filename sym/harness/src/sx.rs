//! Thin layer so that the same check code runs symbolically (feature "sym")
//! and natively on the unmodified field (replay).
use halo2_proofs::halo2curves::bn256::Fr;
use std::collections::BTreeMap;
pub type Model = BTreeMap<String, String>;

#[cfg(feature = "sym")]
mod imp {
    use super::*;
    pub use halo2curves::symcore::{abandon, assume, branch, choose, explore, with, Outcome, Stats};
    pub const SYM: bool = true;
    pub fn var(name: &str, lo: i64, hi: i64) -> Fr {
        Fr::sym_var(name, Some((lo, hi)), false)
    }
    pub fn var_full(name: &str) -> Fr {
        Fr::sym_var(name, None, false)
    }
    pub fn challenge(name: &str) -> Fr {
        Fr::sym_var(name, None, true)
    }
    pub fn refute_zero(a: &Fr, what: &str) -> Option<Model> {
        a.refute_zero(what)
    }
    pub fn refute_in(a: &[Fr], rows: &[Vec<Fr>], what: &str) -> Option<Model> {
        // fast path: all concrete
        let t: Vec<String> = a.iter().map(|x| x.sym_term()).collect();
        if a.len() == 1 {
            // contiguous concrete table => range
            let mut vs: Vec<i64> = vec![];
            let mut ok = true;
            for r in rows {
                match r[0].concrete().and_then(|c| halo2curves::symcore::small(&c)) {
                    Some(v) if v >= 0 => vs.push(v),
                    _ => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok && !vs.is_empty() {
                vs.sort();
                vs.dedup();
                if vs[vs.len() - 1] - vs[0] == vs.len() as i64 - 1 {
                    return a[0].refute_range(vs[0], vs[vs.len() - 1], what);
                }
            }
        }
        let mut ors = vec![];
        for r in rows {
            let ands: Vec<String> =
                r.iter().zip(&t).map(|(x, t)| format!("(= {} {})", t, x.sym_term())).collect();
            ors.push(format!("(and {})", ands.join(" ")));
        }
        halo2curves::symcore::refute(&format!("(not (or false {}))", ors.join(" ")), what)
    }
    pub fn term(a: &Fr) -> String {
        a.sym_term()
    }
    pub fn show(a: &Fr) -> String {
        a.sym_show()
    }
    pub fn path_model() -> Option<Model> {
        halo2curves::symcore::model()
    }
    pub fn reset() {
        Fr::sym_reset();
    }
}
#[cfg(not(feature = "sym"))]
mod imp {
    use super::*;
    pub const SYM: bool = false;
    pub fn refute_zero(a: &Fr, _what: &str) -> Option<Model> {
        if *a == Fr::zero() {
            None
        } else {
            Some(Model::new())
        }
    }
    pub fn refute_in(a: &[Fr], rows: &[Vec<Fr>], _what: &str) -> Option<Model> {
        if rows.iter().any(|r| r.as_slice() == a) {
            None
        } else {
            Some(Model::new())
        }
    }
    pub fn show(a: &Fr) -> String {
        format!("{:?}", a)
    }
    pub struct Abandon;
    pub fn abandon() -> ! {
        std::panic::panic_any(Abandon)
    }
}
pub use imp::*;
pub fn refute_eq(a: &Fr, b: &Fr, what: &str) -> Option<Model> {
    refute_zero(&(*a - *b), what)
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
