//! Symbolic field runtime: dynamic symbolic execution of code that is generic
//! over (or hard-wired to) a prime field, with an SMT solver deciding branches
//! and assertions.  This file is *added* to a scratch copy of /repo/halo2curves.
extern crate std;
use alloc::collections::{BTreeMap, BTreeSet};
use alloc::format;
use alloc::string::{String, ToString};
use alloc::vec;
use alloc::vec::Vec;
use core::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---------------------------------------------------------------- solver
pub struct Z3 {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}
impl Z3 {
    fn new() -> Z3 {
        let bin = std::env::var("SYM_Z3").unwrap_or("z3".to_string());
        let mut child = Command::new(bin)
            .args(&["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("start z3");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let mut z = Z3 { child, stdin, stdout };
        let to = std::env::var("SYM_Z3_MS").unwrap_or("20000".to_string());
        z.send(&format!("(set-option :timeout {})", to));
        z
    }
    fn send(&mut self, s: &str) {
        self.stdin.write_all(s.as_bytes()).unwrap();
        self.stdin.write_all(b"\n").unwrap();
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let n = self.stdout.read_line(&mut l).unwrap();
        if n == 0 {
            panic!("SYMERR: solver process ended");
        }
        l.trim().to_string()
    }
    fn check(&mut self) -> Sat {
        self.send("(check-sat)");
        self.stdin.flush().unwrap();
        loop {
            let l = self.line();
            match l.as_str() {
                "sat" => return Sat::Sat,
                "unsat" => return Sat::Unsat,
                "unknown" | "timeout" => return Sat::Unknown,
                "" => continue,
                e => panic!("SYMERR: solver said {}", e),
            }
        }
    }
    fn value(&mut self, t: &str) -> String {
        self.send(&format!("(eval {})", t));
        self.stdin.flush().unwrap();
        let mut acc = String::new();
        let mut depth: i64;
        loop {
            let l = self.line();
            if l.is_empty() {
                continue;
            }
            acc.push_str(&l);
            acc.push(' ');
            depth = acc.chars().filter(|c| *c == '(').count() as i64
                - acc.chars().filter(|c| *c == ')').count() as i64;
            if depth <= 0 {
                break;
            }
        }
        if acc.contains("error") {
            panic!("SYMERR: solver said {}", acc);
        }
        let neg = acc.contains('-');
        let d: String = acc.chars().filter(|c| c.is_ascii_digit()).collect();
        if neg {
            format!("-{}", d)
        } else {
            d
        }
    }
}
impl Drop for Z3 {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---------------------------------------------------------------- engine
#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool),
    V(String, bool),
}
#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub queries: u64,
    pub unknown: u64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub solver_us: u64,
}
pub struct Engine {
    z3: Z3,
    prefix: Vec<Dec>,
    pos: usize,
    taken: Vec<Dec>,
    work: Vec<Vec<Dec>>,
    pub vars: Vec<String>,
    pub pc: Vec<String>,
    pub stats: Stats,
    pub inconclusive: Vec<String>,
    pub identities: u64,
}
std::thread_local! { pub static ENGINE: RefCell<Option<Engine>> = RefCell::new(None); }

pub struct Abandon;
pub fn abandon() -> ! {
    std::panic::panic_any(Abandon)
}

impl Engine {
    fn check(&mut self) -> Sat {
        let t = std::time::Instant::now();
        self.stats.queries += 1;
        let r = self.z3.check();
        if r == Sat::Unknown {
            self.stats.unknown += 1;
        }
        self.stats.solver_us += t.elapsed().as_micros() as u64;
        r
    }
    fn feasible(&mut self, f: &str) -> Sat {
        self.z3.send("(push)");
        self.z3.send(&format!("(assert {})", f));
        let r = self.check();
        if r == Sat::Unknown && std::env::var("SYM_DUMP").is_ok() { std::eprintln!("UNKNOWN {} || {:?}", f, self.pc); }
        self.z3.send("(pop)");
        r
    }
    fn add(&mut self, f: &str) {
        self.z3.send(&format!("(assert {})", f));
        self.pc.push(f.to_string());
    }
}

pub fn with<T>(f: impl FnOnce(&mut Engine) -> T) -> T {
    ENGINE.with(|e| {
        let mut b = e.borrow_mut();
        if b.is_none() {
            *b = Some(Engine {
                z3: Z3::new(),
                prefix: vec![],
                pos: 0,
                taken: vec![],
                work: vec![],
                vars: vec![],
                pc: vec![],
                stats: Stats::default(),
                inconclusive: vec![],
                identities: 0,
            });
        }
        f(b.as_mut().unwrap())
    })
}

pub fn declare(name: &str, lo: &str, hi: &str) {
    with(|e| {
        e.z3.send(&format!("(declare-const {} Int)", name));
        e.vars.push(name.to_string());
        e.add(&format!("(and (<= {} {}) (<= {} {}))", lo, name, name, hi));
    })
}
pub fn assume(f: &str) {
    with(|e| e.add(f))
}
/// Decide a condition, forking when both outcomes are feasible.
pub fn branch(t: &str, fls: &str) -> bool {
    with(|e| {
        if e.pos < e.prefix.len() {
            let d = e.prefix[e.pos].clone();
            e.pos += 1;
            e.taken.push(d.clone());
            if let Dec::B(b) = d {
                e.add(if b { t } else { fls });
                return b;
            }
            panic!("SYMERR: decision mismatch on replay");
        }
        let ft = e.feasible(t) != Sat::Unsat;
        let ff = if ft { e.feasible(fls) != Sat::Unsat } else { true };
        let b = if ft && ff {
            e.stats.forks += 1;
            let mut alt = e.taken.clone();
            alt.push(Dec::B(false));
            e.work.push(alt);
            true
        } else {
            ft
        };
        e.pos += 1;
        e.prefix.push(Dec::B(b));
        e.taken.push(Dec::B(b));
        e.add(if b { t } else { fls });
        b
    })
}
/// Pick a concrete value for an integer term, forking over all feasible ones.
pub fn concretize(term: &str) -> String {
    loop {
        let r = with(|e| {
            let (v, b);
            if e.pos < e.prefix.len() {
                match e.prefix[e.pos].clone() {
                    Dec::V(x, y) => {
                        v = x;
                        b = y;
                    }
                    _ => panic!("SYMERR: decision mismatch on replay"),
                }
            } else {
                match e.check() {
                    Sat::Sat => {}
                    r => panic!("SYMERR: concretize: {:?}", r),
                }
                v = e.z3.value(term);
                let other = e.feasible(&format!("(not (= {} {}))", term, smt_int(&v))) != Sat::Unsat;
                if other {
                    e.stats.forks += 1;
                    let mut alt = e.taken.clone();
                    alt.push(Dec::V(v.clone(), false));
                    e.work.push(alt);
                }
                b = true;
                e.prefix.push(Dec::V(v.clone(), true));
            }
            e.pos += 1;
            e.taken.push(Dec::V(v.clone(), b));
            let eq = format!("(= {} {})", term, smt_int(&v));
            if b {
                e.add(&eq);
                Some(v)
            } else {
                e.add(&format!("(not {})", eq));
                None
            }
        });
        if let Some(v) = r {
            return v;
        }
    }
}
pub fn smt_int(v: &str) -> String {
    if v.starts_with('-') {
        format!("(- {})", &v[1..])
    } else {
        v.to_string()
    }
}
/// Nondeterministic choice in 0..n (explored exhaustively).
pub fn choose(n: usize) -> usize {
    let name = with(|e| format!("choice{}", e.vars.len()));
    declare(&name, "0", &format!("{}", n - 1));
    concretize(&name).parse().unwrap()
}

pub type Model = BTreeMap<String, String>;
/// Does `neg` (the negated property) have a model under the path condition?
pub fn refute(neg: &str, what: &str) -> Option<Model> {
    with(|e| {
        e.stats.asserts += 1;
        e.stats.assert_queries += 1;
        e.z3.send("(push)");
        e.z3.send(&format!("(assert {})", neg));
        let r = e.check();
        let mut out = None;
        match r {
            Sat::Unsat => {}
            Sat::Unknown => e.inconclusive.push(what.to_string()),
            Sat::Sat => {
                let mut m = Model::new();
                for v in e.vars.clone() {
                    let x = e.z3.value(&v);
                    m.insert(v, x);
                }
                out = Some(m);
            }
        }
        e.z3.send("(pop)");
        out
    })
}
/// discharges a batch of identities: true if the solver shows that none of them can differ
pub fn discharge(names: &BTreeSet<String>, differ: &[String]) -> bool {
    with(|e| {
        e.stats.assert_queries += 1;
        e.z3.send("(push)");
        for n in names {
            if !e.vars.contains(n) {
                e.z3.send(&format!("(declare-const {} Int)", n));
            }
        }
        e.z3.send(&format!("(assert (or false {}))", differ.join(" ")));
        let r = e.check();
        if r == Sat::Unknown && std::env::var("SYM_DUMP").is_ok() { std::eprintln!("UNKNOWN discharge {} || {:?}", differ.join("\n"), e.pc); }
        e.z3.send("(pop)");
        r == Sat::Unsat
    })
}
pub fn model() -> Option<Model> {
    refute("true", "model")
}

pub enum Outcome {
    Ok,
    Abandoned,
    Panic(String, Option<Model>),
}
/// Explore every feasible path of `f`.  `on_end` sees each finished path.
pub fn explore(
    reset: &dyn Fn(),
    max_paths: u64,
    f: &mut dyn FnMut(),
    on_end: &mut dyn FnMut(Outcome) -> bool,
) -> bool {
    with(|e| e.work = vec![vec![]]);
    let mut n = 0;
    loop {
        let job = with(|e| e.work.pop());
        let job = match job {
            None => return true,
            Some(j) => j,
        };
        if n >= max_paths {
            return false;
        }
        n += 1;
        reset();
        with(|e| {
            e.z3.send("(reset)");
            let to = std::env::var("SYM_Z3_MS").unwrap_or("20000".to_string());
            e.z3.send(&format!("(set-option :timeout {})", to));
            e.prefix = job;
            e.pos = 0;
            e.taken.clear();
            e.vars.clear();
            e.pc.clear();
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let o = match r {
            Ok(()) => {
                with(|e| e.stats.paths += 1);
                Outcome::Ok
            }
            Err(p) => {
                if p.downcast_ref::<Abandon>().is_some() {
                    with(|e| e.stats.pruned += 1);
                    Outcome::Abandoned
                } else {
                    let msg = if let Some(s) = p.downcast_ref::<&str>() {
                        s.to_string()
                    } else if let Some(s) = p.downcast_ref::<String>() {
                        s.clone()
                    } else {
                        "panic".to_string()
                    };
                    let m = if msg.starts_with("SYMERR") { None } else { model() };
                    Outcome::Panic(msg, m)
                }
            }
        };
        if !on_end(o) {
            return false;
        }
    }
}

// ---------------------------------------------------------------- polynomials
pub trait Real:
    Copy + Eq + Ord + core::hash::Hash + ff::PrimeField<Repr = [u8; 32]> + 'static
{
}
impl<T: Copy + Eq + Ord + core::hash::Hash + ff::PrimeField<Repr = [u8; 32]> + 'static> Real for T {}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    /// solver variable with bounds (decimal) as index into var table
    Var(u32),
    /// polynomial kept as a factor
    Fac(u32),
}
#[derive(Clone, Debug)]
pub struct VarInfo {
    pub name: String,
    /// small bounds if known (lo, hi); otherwise 0..p-1
    pub bound: Option<(i64, i64)>,
    /// formal challenge: values are generic
    pub challenge: bool,
}
pub type Mono = Vec<(u32, i32)>; // sorted by atom id, exponent != 0
pub type Poly<R> = Vec<(u32, R)>; // sorted by mono id, coeff != 0

pub struct Arena<R: Real> {
    pub vars: Vec<VarInfo>,
    atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, u32>,
    monos: Vec<Mono>,
    mono_ix: HashMap<Mono, u32>,
    polys: Vec<Poly<R>>,
    poly_ix: HashMap<Poly<R>, u32>,
    subst: HashMap<u32, Poly<R>>, // atom id of Var -> poly
    mul_cache: HashMap<(u32, u32), u32>,
    /// expand every product (identity checking) instead of keeping challenge factors
    pub expand_all: bool,
    pub opaque: bool,
    pub limit: usize,
    p_dec: String,
    half: Vec<u8>,
    /// rewrite rules monomial -> polynomial (a Groebner basis of the assumed relations)
    pub rules: Vec<(Mono, Poly<R>)>,
    /// polynomials decided (or assumed) zero / non-zero on this path
    pub decided: Vec<(Poly<R>, bool)>,
    nonzero: std::collections::HashSet<Poly<R>>,
}

fn le_to_dec(b: &[u8]) -> String {
    // little-endian bytes -> decimal
    let mut digits: Vec<u32> = vec![0];
    for byte in b.iter().rev() {
        let mut carry = *byte as u64;
        for d in digits.iter_mut() {
            let v = (*d as u64) * 256 + carry;
            *d = (v % 1_000_000_000) as u32;
            carry = v / 1_000_000_000;
        }
        if carry > 0 {
            digits.push(carry as u32);
        }
    }
    let mut s = format!("{}", digits[digits.len() - 1]);
    for d in digits.iter().rev().skip(1) {
        s.push_str(&format!("{:09}", d));
    }
    s
}
pub fn dec<R: Real>(c: &R) -> String {
    le_to_dec(c.to_repr().as_ref())
}
pub fn from_dec<R: Real>(s: &str) -> R {
    let (neg, s) = if s.starts_with('-') { (true, &s[1..]) } else { (false, s) };
    let mut r = R::zero();
    let ten = R::from(10);
    for ch in s.chars() {
        r = r * ten + R::from(ch.to_digit(10).unwrap() as u64);
    }
    if neg {
        -r
    } else {
        r
    }
}
/// small signed integer value of a field constant, if |v| < 2^31
pub fn small<R: Real>(c: &R) -> Option<i64> {
    let f = |x: &R| -> Option<i64> {
        let r = x.to_repr();
        if r[4..].iter().all(|b| *b == 0) && r[3] < 0x80 {
            Some(u32::from_le_bytes([r[0], r[1], r[2], r[3]]) as i64)
        } else {
            None
        }
    };
    f(c).or_else(|| f(&(-*c)).map(|v| -v))
}

impl<R: Real> Arena<R> {
    pub fn new() -> Self {
        let pm1 = -R::one();
        // p = (p-1) + 1 as bytes
        let mut b = pm1.to_repr().to_vec();
        let mut i = 0;
        loop {
            let (v, o) = b[i].overflowing_add(1);
            b[i] = v;
            if !o {
                break;
            }
            i += 1;
        }
        let p_dec = le_to_dec(&b);
        let two_inv = R::from(2).invert().unwrap();
        let half = (pm1 * two_inv).to_repr().to_vec(); // (p-1)/2
        Arena {
            vars: vec![],
            atoms: vec![],
            atom_ix: HashMap::new(),
            monos: vec![vec![]],
            mono_ix: vec![(vec![], 0u32)].into_iter().collect(),
            polys: vec![vec![]],
            poly_ix: HashMap::new(),
            subst: HashMap::new(),
            mul_cache: HashMap::new(),
            expand_all: false,
            opaque: false,
            limit: 200_000,
            p_dec,
            half,
            rules: vec![],
            decided: vec![],
            nonzero: Default::default(),
        }
    }
    pub fn modulus_dec(&self) -> String {
        self.p_dec.clone()
    }
    pub fn reset(&mut self) {
        let ea = self.expand_all;
        let lim = self.limit;
        *self = Arena::new();
        self.expand_all = ea;
        self.limit = lim;
    }
    fn atom(&mut self, a: Atom) -> u32 {
        if let Some(i) = self.atom_ix.get(&a) {
            return *i;
        }
        self.atoms.push(a.clone());
        self.atom_ix.insert(a, self.atoms.len() as u32 - 1);
        self.atoms.len() as u32 - 1
    }
    fn mono(&mut self, m: Mono) -> u32 {
        if let Some(i) = self.mono_ix.get(&m) {
            return *i;
        }
        self.monos.push(m.clone());
        self.mono_ix.insert(m, self.monos.len() as u32 - 1);
        self.monos.len() as u32 - 1
    }
    pub fn intern(&mut self, p: Poly<R>) -> u32 {
        if let Some(i) = self.poly_ix.get(&p) {
            return *i;
        }
        self.polys.push(p.clone());
        let i = self.polys.len() as u32 - 1;
        self.poly_ix.insert(p, i);
        i
    }
    pub fn poly(&self, id: u32) -> &Poly<R> {
        &self.polys[id as usize]
    }
    pub fn constant(&mut self, c: R) -> Poly<R> {
        if bool::from(c.is_zero()) {
            vec![]
        } else {
            vec![(0, c)]
        }
    }
    pub fn as_const(&self, p: &Poly<R>) -> Option<R> {
        match p.len() {
            0 => Some(R::zero()),
            1 if p[0].0 == 0 => Some(p[0].1),
            _ => None,
        }
    }
    pub fn new_var(&mut self, name: &str, bound: Option<(i64, i64)>, challenge: bool) -> u32 {
        let ix = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), bound, challenge });
        if !challenge {
            match bound {
                Some((l, h)) => declare(name, &smt_int(&format!("{}", l)), &format!("{}", h)),
                None => {
                    let hi = format!("(- {} 1)", self.p_dec);
                    declare(name, "0", &hi)
                }
            }
        }
        let a = self.atom(Atom::Var(ix));
        let m = self.mono(vec![(a, 1)]);
        self.intern(vec![(m, R::one())])
    }
    pub fn add(&self, a: &Poly<R>, b: &Poly<R>, s: R) -> Poly<R> {
        let mut out = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() || j < b.len() {
            if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
                out.push(a[i]);
                i += 1;
            } else if i >= a.len() || b[j].0 < a[i].0 {
                out.push((b[j].0, b[j].1 * s));
                j += 1;
            } else {
                let c = a[i].1 + b[j].1 * s;
                if !bool::from(c.is_zero()) {
                    out.push((a[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        out
    }
    pub fn scale(&self, a: &Poly<R>, s: R) -> Poly<R> {
        if bool::from(s.is_zero()) {
            return vec![];
        }
        a.iter().map(|(m, c)| (*m, *c * s)).collect()
    }
    fn mono_mul(&mut self, a: u32, b: u32) -> u32 {
        if a == 0 {
            return b;
        }
        if b == 0 {
            return a;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.mul_cache.get(&key) {
            return *r;
        }
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut out: Mono = Vec::with_capacity(x.len() + y.len());
        let (mut i, mut j) = (0, 0);
        while i < x.len() || j < y.len() {
            if j >= y.len() || (i < x.len() && x[i].0 < y[j].0) {
                out.push(x[i]);
                i += 1;
            } else if i >= x.len() || y[j].0 < x[i].0 {
                out.push(y[j]);
                j += 1;
            } else {
                let e = x[i].1 + y[j].1;
                if e != 0 {
                    out.push((x[i].0, e));
                }
                i += 1;
                j += 1;
            }
        }
        let r = self.mono(out);
        self.mul_cache.insert(key, r);
        r
    }
    fn collect(&self, mut v: Vec<(u32, R)>) -> Poly<R> {
        v.sort_by_key(|x| x.0);
        let mut out: Poly<R> = Vec::with_capacity(v.len());
        for (m, c) in v {
            if let Some(l) = out.last_mut() {
                if l.0 == m {
                    l.1 = l.1 + c;
                    continue;
                }
            }
            out.push((m, c));
        }
        out.retain(|x| !bool::from(x.1.is_zero()));
        out
    }
    pub fn expand_mul(&mut self, a: &Poly<R>, b: &Poly<R>) -> Poly<R> {
        if a.len() * b.len() > self.limit * 50 {
            panic!("SYMERR: polynomial too large ({}x{})", a.len(), b.len());
        }
        let mut v = Vec::with_capacity(a.len() * b.len());
        for (m, c) in a {
            for (n, d) in b {
                let k = self.mono_mul(*m, *n);
                v.push((k, *c * *d));
            }
        }
        self.collect(v)
    }
    fn atom_challenge(&self, a: u32) -> bool {
        match &self.atoms[a as usize] {
            Atom::Var(v) => self.vars[*v as usize].challenge,
            Atom::Fac(p) => self.has_challenge(&self.polys[*p as usize]),
        }
    }
    pub fn has_challenge(&self, p: &Poly<R>) -> bool {
        p.iter().any(|(m, _)| self.monos[*m as usize].iter().any(|(a, _)| self.atom_challenge(*a)))
    }
    /// as a product: coefficient and monomial, wrapping multi-term polys in a factor atom
    fn as_factor(&mut self, p: &Poly<R>) -> (R, u32) {
        if p.len() == 1 {
            return (p[0].1, p[0].0);
        }
        let lead = p[0].1;
        let inv = lead.invert().unwrap();
        let q = self.scale(p, inv);
        let id = self.intern(q);
        let a = self.atom(Atom::Fac(id));
        let m = self.mono(vec![(a, 1)]);
        (lead, m)
    }
    pub fn mul(&mut self, a: &Poly<R>, b: &Poly<R>) -> Poly<R> {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        if !self.expand_all
            && ((a.len() > 1 && self.has_challenge(a)) || (b.len() > 1 && self.has_challenge(b)))
        {
            let (c, m) = self.as_factor(a);
            let (d, n) = self.as_factor(b);
            let k = self.mono_mul(m, n);
            return vec![(k, c * d)];
        }
        self.expand_mul(a, b)
    }
    /// 1/p, caller guarantees p != 0 on this path
    pub fn inv(&mut self, p: &Poly<R>) -> Poly<R> {
        if let Some(c) = self.as_const(p) {
            return self.constant(c.invert().unwrap());
        }
        let (c, m) = self.as_factor(p);
        let mo: Mono = self.monos[m as usize].iter().map(|(a, e)| (*a, -*e)).collect();
        let k = self.mono(mo);
        vec![(k, c.invert().unwrap())]
    }
    pub fn set_subst(&mut self, var_atom: u32, p: Poly<R>) {
        self.subst.insert(var_atom, p);
    }
    fn needs_subst(&self, p: &Poly<R>) -> bool {
        if self.subst.is_empty() {
            return false;
        }
        p.iter().any(|(m, _)| self.monos[*m as usize].iter().any(|(a, _)| self.atom_subst(*a)))
    }
    fn atom_subst(&self, a: u32) -> bool {
        match &self.atoms[a as usize] {
            Atom::Var(_) => self.subst.contains_key(&a),
            Atom::Fac(p) => self.needs_subst(&self.polys[*p as usize]),
        }
    }
    fn pow(&mut self, p: &Poly<R>, e: i32, expand: bool) -> Poly<R> {
        let base = if e < 0 { self.inv(p) } else { p.clone() };
        let mut r = self.constant(R::one());
        for _ in 0..e.abs() {
            r = if expand { self.expand_mul(&r, &base) } else { self.mul(&r, &base) };
        }
        r
    }
    /// apply the path's equalities
    pub fn resolve(&mut self, p: &Poly<R>) -> Poly<R> {
        let mut p = p.clone();
        let mut guard = 0;
        while self.needs_subst(&p) {
            guard += 1;
            if guard > 64 {
                panic!("SYMERR: substitution loop");
            }
            let mut acc: Vec<(u32, R)> = vec![];
            for (m, c) in p.iter() {
                let mo = self.monos[*m as usize].clone();
                let mut keep: Mono = vec![];
                let mut t = self.constant(*c);
                for (a, e) in mo {
                    if self.atom_subst(a) {
                        let r = match self.atoms[a as usize].clone() {
                            Atom::Var(_) => self.subst[&a].clone(),
                            Atom::Fac(q) => {
                                let q = self.polys[q as usize].clone();
                                self.resolve(&q)
                            }
                        };
                        if r.is_empty() && e < 0 {
                            panic!("SYMERR: inverse of zero");
                        }
                        let f = self.pow(&r, e, false);
                        t = self.mul(&t, &f);
                    } else {
                        keep.push((a, e));
                    }
                }
                let k = self.mono(keep);
                let kp = vec![(k, R::one())];
                let t = self.mul(&t, &kp);
                acc.extend(t);
            }
            p = self.collect(acc);
        }
        p
    }
    /// clear denominators and multiply out all factors
    pub fn normal(&mut self, p: &Poly<R>) -> Poly<R> {
        let mut p = self.resolve(p);
        for _ in 0..64 {
            // denominators
            let mut neg: BTreeMap<u32, i32> = BTreeMap::new();
            for (m, _) in p.iter() {
                for (a, e) in self.monos[*m as usize].iter() {
                    if *e < 0 {
                        let x = neg.entry(*a).or_insert(0);
                        *x = (*x).max(-*e);
                    }
                }
            }
            if !neg.is_empty() {
                let m = self.mono(neg.into_iter().collect());
                let f = vec![(m, R::one())];
                p = self.expand_mul(&p, &f);
            }
            let has_fac = p.iter().any(|(m, _)| {
                self.monos[*m as usize].iter().any(|(a, _)| matches!(self.atoms[*a as usize], Atom::Fac(_)))
            });
            if !has_fac {
                p = self.apply_rules(p);
                if self.needs_subst(&p) {
                    p = self.resolve(&p);
                    continue;
                }
                return p;
            }
            let mut acc: Vec<(u32, R)> = vec![];
            for (m, c) in p.iter() {
                let mo = self.monos[*m as usize].clone();
                let mut keep: Mono = vec![];
                let mut t: Poly<R> = vec![(0, *c)];
                for (a, e) in mo {
                    if let Atom::Fac(q) = self.atoms[a as usize] {
                        let q = self.polys[q as usize].clone();
                        let f = self.pow(&q, e, true);
                        t = self.expand_mul(&t, &f);
                    } else {
                        keep.push((a, e));
                    }
                }
                let k = self.mono(keep);
                let kp = vec![(k, R::one())];
                let t = self.expand_mul(&t, &kp);
                acc.extend(t);
                if acc.len() > self.limit * 20 {
                    panic!("SYMERR: expansion too large");
                }
            }
            p = self.collect(acc);
        }
        panic!("SYMERR: normalisation did not end");
    }
    fn apply_rules(&mut self, mut p: Poly<R>) -> Poly<R> {
        if self.rules.is_empty() {
            return p;
        }
        let rules = self.rules.clone();
        for _ in 0..10_000 {
            let mut acc: Vec<(u32, R)> = vec![];
            let mut changed = false;
            for (m, c) in p.iter() {
                let mo = self.monos[*m as usize].clone();
                let hit = rules.iter().find(|(l, _)| {
                    l.iter().all(|(a, e)| mo.iter().any(|(b, f)| b == a && f >= e))
                });
                match hit {
                    None => acc.push((*m, *c)),
                    Some((l, r)) => {
                        changed = true;
                        let rest: Mono = mo
                            .iter()
                            .map(|(a, e)| (*a, e - l.iter().find(|x| x.0 == *a).map_or(0, |x| x.1)))
                            .filter(|x| x.1 != 0)
                            .collect();
                        let k = self.mono(rest);
                        let t = self.expand_mul(&vec![(k, *c)], r);
                        acc.extend(t);
                    }
                }
            }
            p = self.collect(acc);
            if !changed {
                return p;
            }
        }
        panic!("SYMERR: rewriting did not end");
    }
    /// the single monomial of p
    pub fn lead_mono(&self, p: &Poly<R>) -> Mono {
        self.monos[p[0].0 as usize].clone()
    }
    fn monic(&self, p: &Poly<R>) -> Poly<R> {
        let i = p[0].1.invert().unwrap();
        self.scale(p, i)
    }
    pub fn note(&mut self, q: &Poly<R>, zero: bool) {
        self.decided.push((q.clone(), zero));
        if !zero {
            let m = self.monic(q);
            self.nonzero.insert(m);
        }
    }
    fn atom_nonzero(&mut self, a: u32) -> bool {
        let m = self.mono(vec![(a, 1)]);
        self.nonzero.contains(&vec![(m, R::one())])
    }
    /// is (normalised, non-constant) q certainly non-zero on this path?
    pub fn surely_nonzero(&mut self, q: &Poly<R>) -> bool {
        if q.is_empty() || self.nonzero.is_empty() {
            return false;
        }
        let m = self.monic(q);
        if self.nonzero.contains(&m) {
            return true;
        }
        // divide by everything known to be non-zero
        let mut q = q.clone();
        let known: Vec<Poly<R>> = self.nonzero.iter().cloned().collect();
        for _ in 0..200 {
            if self.as_const(&q).is_some() {
                return true;
            }
            if q.len() > 4000 {
                return false;
            }
            let mut hit = false;
            for k in known.iter() {
                if k.len() > 64 || k.len() > q.len() {
                    continue;
                }
                if let Some(r) = self.exact_div(&q, k) {
                    q = r;
                    hit = true;
                    break;
                }
            }
            if !hit {
                return false;
            }
        }
        false
    }
    /// lexicographic monomial order (atoms by index)
    fn mono_cmp(&self, a: u32, b: u32) -> core::cmp::Ordering {
        let (x, y) = (&self.monos[a as usize], &self.monos[b as usize]);
        let (mut i, mut j) = (0, 0);
        loop {
            match (x.get(i), y.get(j)) {
                (None, None) => return core::cmp::Ordering::Equal,
                (Some(_), None) => return core::cmp::Ordering::Greater,
                (None, Some(_)) => return core::cmp::Ordering::Less,
                (Some(p), Some(q)) => {
                    if p.0 != q.0 {
                        return if p.0 < q.0 { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Less };
                    }
                    if p.1 != q.1 {
                        return p.1.cmp(&q.1);
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
    }
    fn lead(&self, p: &Poly<R>) -> (u32, R) {
        let mut best = p[0];
        for t in p.iter().skip(1) {
            if self.mono_cmp(t.0, best.0) == core::cmp::Ordering::Greater {
                best = *t;
            }
        }
        best
    }
    fn mono_div(&mut self, a: u32, b: u32) -> Option<u32> {
        let (x, y) = (self.monos[a as usize].clone(), self.monos[b as usize].clone());
        let mut out: Mono = vec![];
        for (at, e) in y.iter() {
            match x.iter().find(|t| t.0 == *at) {
                Some(t) if t.1 >= *e => {}
                _ => return None,
            }
        }
        for (at, e) in x {
            let d = y.iter().find(|t| t.0 == at).map_or(0, |t| t.1);
            if e != d {
                out.push((at, e - d));
            }
        }
        Some(self.mono(out))
    }
    /// q / k when k divides q (as polynomials)
    pub fn exact_div(&mut self, q: &Poly<R>, k: &Poly<R>) -> Option<Poly<R>> {
        if k.is_empty() {
            return None;
        }
        let (lm, lc) = self.lead(k);
        let li = lc.invert().unwrap();
        let mut rest = q.clone();
        let mut out: Vec<(u32, R)> = vec![];
        for _ in 0..q.len() * 4 + 8 {
            if rest.is_empty() {
                return Some(self.collect(out));
            }
            let (m, c) = self.lead(&rest);
            let d = self.mono_div(m, lm)?;
            let t = (d, c * li);
            out.push(t);
            let s = self.expand_mul(&vec![t], k);
            rest = self.add(&rest, &s, -R::one());
        }
        None
    }
    /// re-normalise what is known to be non-zero after learning an equality; false: contradiction
    pub fn refresh(&mut self) -> bool {
        let old: Vec<Poly<R>> = self.nonzero.drain().collect();
        for p in old {
            let q = if self.needs_subst(&p) || !self.rules.is_empty() { self.normal(&p) } else { p };
            if q.is_empty() {
                return false;
            }
            if self.as_const(&q).is_none() {
                let m = self.monic(&q);
                self.nonzero.insert(m);
            }
        }
        true
    }
    /// values for all variables consistent with the decisions of this path
    pub fn witness(&mut self, seed: u64) -> Option<Vec<(String, R)>> {
        let mut st = seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
        let mut next = move || {
            st ^= st << 13;
            st ^= st >> 7;
            st ^= st << 17;
            st
        };
        let mut val: HashMap<String, R> = HashMap::new();
        let vars = self.vars.clone();
        for v in vars.iter() {
            let x = match v.bound {
                Some((l, h)) => {
                    let k = l + (next() % ((h - l + 1) as u64)) as i64;
                    if k < 0 { -R::from((-k) as u64) } else { R::from(k as u64) }
                }
                None if seed < 4 => R::from(next() % (7 + seed)),
                None => R::from(next()) * R::from(next()) * R::from(next()) * R::from(next()) * R::from(next()),
            };
            val.insert(v.name.clone(), x);
        }
        for _ in 0..vars.len() + 2 {
            for (i, v) in vars.iter().enumerate() {
                let a = self.atom(Atom::Var(i as u32));
                if let Some(p) = self.subst.get(&a).cloned() {
                    let x = self.eval(&p, &|n| val[n]);
                    val.insert(v.name.clone(), x);
                }
            }
        }
        // square roots for relations y^2 = r
        for (l, r) in self.rules.clone() {
            if l.len() == 1 && l[0].1 == 2 {
                if let Atom::Var(v) = self.atoms[l[0].0 as usize] {
                    if !self.subst.contains_key(&l[0].0) {
                        let x = self.eval(&r, &|n| val[n]);
                        let y: Option<R> = Option::from(x.sqrt());
                        val.insert(self.vars[v as usize].name.clone(), y?);
                    }
                }
            }
        }
        for _ in 0..vars.len() + 2 {
            for (i, v) in vars.iter().enumerate() {
                let a = self.atom(Atom::Var(i as u32));
                if let Some(p) = self.subst.get(&a).cloned() {
                    let x = self.eval(&p, &|n| val[n]);
                    val.insert(v.name.clone(), x);
                }
            }
        }
        for (q, z) in self.decided.iter() {
            let x = self.eval(q, &|n| val[n]);
            if bool::from(x.is_zero()) != *z {
                return None;
            }
        }
        for (l, r) in self.rules.iter() {
            let mut x = R::one();
            for (a, e) in l.iter() {
                if let Atom::Var(v) = self.atoms[*a as usize] {
                    for _ in 0..*e {
                        x = x * val[&self.vars[v as usize].name];
                    }
                }
            }
            if x != self.eval(r, &|n| val[n]) {
                return None;
            }
        }
        for v in vars.iter() {
            if let Some((l, h)) = v.bound {
                match small(&val[&v.name]) {
                    Some(k) if l <= k && k <= h => {}
                    _ => return None,
                }
            }
        }
        Some(vars.iter().map(|v| (v.name.clone(), val[&v.name])).collect())
    }
    fn centred(&self, c: &R) -> (bool, String) {
        // (negative, magnitude)
        let r = c.to_repr();
        let mut gt = false;
        for i in (0..32).rev() {
            if r.as_ref()[i] != self.half[i] {
                gt = r.as_ref()[i] > self.half[i];
                break;
            }
        }
        if gt {
            (true, dec(&(-*c)))
        } else {
            (false, dec(c))
        }
    }
    /// integer linear term, and small interval if known
    fn linear_term(&self, p: &Poly<R>) -> (String, Option<(i128, i128)>) {
        let mut parts: Vec<String> = vec![];
        let mut iv: Option<(i128, i128)> = Some((0, 0));
        for (m, c) in p {
            let (neg, mag) = self.centred(c);
            let sc = small(c);
            let mo = &self.monos[*m as usize];
            let coef = if neg { format!("(- {})", mag) } else { mag };
            if mo.is_empty() {
                parts.push(coef);
                iv = match (iv, sc) {
                    (Some((l, h)), Some(s)) => Some((l + s as i128, h + s as i128)),
                    _ => None,
                };
                continue;
            }
            let name = self.mono_name(mo);
            parts.push(if coef == "1" { name } else { format!("(* {} {})", coef, name) });
            let b = if mo.len() == 1 && mo[0].1 == 1 {
                match &self.atoms[mo[0].0 as usize] {
                    Atom::Var(v) => self.vars[*v as usize].bound,
                    _ => None,
                }
            } else {
                None
            };
            iv = match (iv, sc, b) {
                (Some((l, h)), Some(s), Some((bl, bh))) => {
                    let (x, y) = (s as i128 * bl as i128, s as i128 * bh as i128);
                    Some((l + x.min(y), h + x.max(y)))
                }
                _ => None,
            };
        }
        let t = match parts.len() {
            0 => "0".to_string(),
            1 => parts.pop().unwrap(),
            _ => format!("(+ {})", parts.join(" ")),
        };
        (t, iv)
    }
    /// l != r as an SMT formula over the monomials of the two normal forms (names to declare, formula)
    pub fn differ_query(&mut self, l: &Poly<R>, r: &Poly<R>) -> (Vec<String>, String) {
        let (mut a, mut b) = (self.normal(l), self.normal(r));
        if a != b {
            // the two sides were cleared of different denominators: use the difference
            let d = self.add(l, r, -R::one());
            a = self.normal(&d);
            b = vec![];
        }
        let mut names = vec![];
        for (m, _) in a.iter().chain(b.iter()) {
            let mo = &self.monos[*m as usize];
            if !mo.is_empty() {
                names.push(self.mono_name(mo));
            }
        }
        names.sort();
        names.dedup();
        let (x, y) = (self.linear_term(&a).0, self.linear_term(&b).0);
        (names, format!("(not (= (mod (- {} {}) {}) 0))", x, y, self.p_dec))
    }
    fn mono_name(&self, mo: &Mono) -> String {
        if mo.len() == 1 && mo[0].1 == 1 {
            if let Atom::Var(v) = &self.atoms[mo[0].0 as usize] {
                return self.vars[*v as usize].name.clone();
            }
        }
        // opaque nonlinear monomial: declared on demand by declare_monos
        let mut s = String::from("m");
        for (a, e) in mo {
            s.push_str(&format!("_{}x{}", a, if *e < 0 { format!("n{}", -e) } else { format!("{}", e) }));
        }
        s
    }
    fn declare_monos(&mut self, p: &Poly<R>) {
        for (m, _) in p {
            let mo = self.monos[*m as usize].clone();
            if mo.is_empty() || (mo.len() == 1 && mo[0].1 == 1 && matches!(self.atoms[mo[0].0 as usize], Atom::Var(_))) {
                continue;
            }
            let name = self.mono_name(&mo);
            if !with(|e| e.vars.contains(&name)) {
                let hi = format!("(- {} 1)", self.p_dec);
                declare(&name, "0", &hi);
            }
        }
    }
    /// SMT formulas for p == 0 and p != 0 (p normalised; no challenges)
    fn zero_formula(&mut self, p: &Poly<R>) -> (String, String) {
        if p.is_empty() {
            return ("true".into(), "false".into());
        }
        if self.as_const(p).is_some() {
            return ("false".into(), "true".into());
        }
        // common monomial factor: x*q == 0
        let mut common: Option<BTreeMap<u32, i32>> = None;
        for (m, _) in p.iter() {
            let mm: BTreeMap<u32, i32> = self.monos[*m as usize].iter().cloned().collect();
            common = Some(match common {
                None => mm,
                Some(c) => c
                    .into_iter()
                    .filter_map(|(a, e)| mm.get(&a).map(|f| (a, e.min(*f))))
                    .filter(|(_, e)| *e > 0)
                    .collect(),
            });
        }
        let common = common.unwrap();
        let total: i32 = common.values().sum();
        if total > 0 && !(p.len() == 1 && total == 1) {
            let neg: Mono = common.iter().map(|(a, e)| (*a, -*e)).collect();
            let k = self.mono(neg);
            let q = self.expand_mul(p, &vec![(k, R::one())]);
            let mut ts = vec![];
            let mut fs = vec![];
            for (a, _) in common.iter() {
                let m = self.mono(vec![(*a, 1)]);
                let (t, f) = self.zero_formula(&vec![(m, R::one())]);
                ts.push(t);
                fs.push(f);
            }
            let (t, f) = self.zero_formula(&q);
            ts.push(t);
            fs.push(f);
            return (format!("(or {})", ts.join(" ")), format!("(and {})", fs.join(" ")));
        }
        self.declare_monos(p);
        let (t, iv) = self.linear_term(p);
        if iv.is_some() {
            // |interval| is tiny compared with the modulus: integer equality
            return (format!("(= {} 0)", t), format!("(not (= {} 0))", t));
        }
        // one bounded variable: the roots within its range
        let mut only: Option<u32> = None;
        let mut uni = true;
        for (m, _) in p.iter() {
            for (a, e) in self.monos[*m as usize].iter() {
                match &self.atoms[*a as usize] {
                    Atom::Var(v) if *e > 0 && only.unwrap_or(*v) == *v => only = Some(*v),
                    _ => uni = false,
                }
            }
        }
        if let (true, Some(v)) = (uni, only) {
            if let Some((l, h)) = self.vars[v as usize].bound {
                if h - l <= 4096 {
                    let name = self.vars[v as usize].name.clone();
                    let mut roots = vec![];
                    for x in l..=h {
                        let mut r = R::from(x.unsigned_abs());
                        if x < 0 {
                            r = -r;
                        }
                        if bool::from(self.eval(p, &|_: &str| r).is_zero()) {
                            roots.push(format!("(= {} {})", name, smt_int(&x.to_string())));
                        }
                    }
                    let z = format!("(or false {})", roots.join(" "));
                    return (z.clone(), format!("(not {})", z));
                }
            }
        }
        let z = format!("(= (mod {} {}) 0)", t, self.p_dec);
        (z.clone(), format!("(not {})", z))
    }
    /// all coefficient polynomials w.r.t. challenge variables
    fn challenge_coeffs(&mut self, p: &Poly<R>) -> Vec<Poly<R>> {
        let mut by: BTreeMap<Mono, Vec<(u32, R)>> = BTreeMap::new();
        for (m, c) in p.clone() {
            let mo = self.monos[m as usize].clone();
            let (ch, rest): (Mono, Mono) = mo.into_iter().partition(|(a, _)| self.atom_challenge(*a));
            let k = self.mono(rest);
            by.entry(ch).or_default().push((k, c));
        }
        by.into_iter().map(|(_, v)| self.collect(v)).filter(|v| !v.is_empty()).collect()
    }
    pub fn zero_query(&mut self, p: &Poly<R>) -> (String, String, Poly<R>) {
        if self.opaque && self.rules.is_empty() && self.vars.iter().all(|v| v.challenge) {
            // generic values only: not identically zero means not zero
            let v = self.eval(p, &|n: &str| {
                let mut h: u64 = 0xcbf29ce484222325;
                for b in n.bytes() {
                    h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                }
                let x = R::from(h);
                x * x * x + x
            });
            if !bool::from(v.is_zero()) {
                return ("false".into(), "true".into(), p.clone());
            }
        }
        let q = self.normal(p);
        if q.is_empty() || self.as_const(&q).is_some() {
            let (t, f) = self.zero_formula(&q);
            return (t, f, q);
        }
        if self.has_challenge(&q) {
            let cs = self.challenge_coeffs(&q);
            let mut ts = vec![];
            let mut fs = vec![];
            for c in cs {
                let (t, f) = self.zero_formula(&c);
                if t == "false" {
                    return ("false".into(), "true".into(), q);
                }
                ts.push(t);
                fs.push(f);
            }
            return (format!("(and {})", ts.join(" ")), format!("(or {})", fs.join(" ")), q);
        }
        let (t, f) = self.zero_formula(&q);
        (t, f, q)
    }
    /// canonical integer of p as an SMT term
    pub fn int_term(&mut self, p: &Poly<R>) -> (String, Option<(i128, i128)>) {
        let q = self.resolve(p);
        let q = self.normal_nodenom(&q);
        self.declare_monos(&q);
        let (t, iv) = self.linear_term(&q);
        match iv {
            Some((l, h)) if l >= 0 => (t, Some((l, h))),
            _ => (format!("(mod {} {})", t, self.p_dec), None),
        }
    }
    fn normal_nodenom(&mut self, p: &Poly<R>) -> Poly<R> {
        // only expand factors when there is no denominator
        let neg = p.iter().any(|(m, _)| self.monos[*m as usize].iter().any(|(_, e)| *e < 0));
        if neg {
            p.clone()
        } else {
            self.normal(p)
        }
    }
    /// learn p == 0 on this path: solve for a variable if linear
    pub fn learn_zero(&mut self, q: &Poly<R>) {
        let mut best: Option<(u32, R)> = None;
        for (m, c) in q.iter() {
            let mo = &self.monos[*m as usize];
            if mo.len() == 1 && mo[0].1 == 1 {
                if let Atom::Var(v) = self.atoms[mo[0].0 as usize] {
                    if self.vars[v as usize].challenge {
                        continue;
                    }
                    let a = mo[0].0;
                    let elsewhere = q.iter().any(|(n, _)| {
                        n != m && self.monos[*n as usize].iter().any(|(b, _)| *b == a)
                    });
                    if !elsewhere && best.map_or(true, |(b, _)| b < a) {
                        best = Some((a, *c));
                    }
                }
            }
        }
        if best.is_none() {
            self.learn_monomial(q);
        }
        if let Some((a, c)) = best {
            let k = self.mono(vec![(a, 1)]);
            let rest: Poly<R> = q.iter().filter(|x| x.0 != k).cloned().collect();
            let s = -(c.invert().unwrap());
            let r = self.scale(&rest, s);
            self.set_subst(a, r);
        }
    }
    /// q == 0 with a term c*x*m, x a variable occurring nowhere else, m known non-zero
    fn learn_monomial(&mut self, q: &Poly<R>) {
        for (m, c) in q.iter() {
            let mo = self.monos[*m as usize].clone();
            for (a, e) in mo.iter() {
                if *e != 1 {
                    continue;
                }
                match self.atoms[*a as usize] {
                    Atom::Var(v) if !self.vars[v as usize].challenge => {}
                    _ => continue,
                }
                if q.iter().any(|(n, _)| n != m && self.monos[*n as usize].iter().any(|(b, _)| b == a)) {
                    continue;
                }
                let others: Vec<(u32, i32)> = mo.iter().filter(|x| x.0 != *a).cloned().collect();
                if !others.iter().all(|(b, _)| self.atom_nonzero(*b)) {
                    continue;
                }
                let k = self.mono(others.iter().map(|(b, f)| (*b, -*f)).collect());
                let rest: Poly<R> = q.iter().filter(|x| x.0 != *m).cloned().collect();
                let s = -(c.invert().unwrap());
                let r = self.expand_mul(&rest, &vec![(k, s)]);
                self.set_subst(*a, r);
                return;
            }
        }
    }
    /// l != r with products left as opaque monomials (names, formula), and whether the two sides coincide
    pub fn opaque_query(&mut self, l: &Poly<R>, r: &Poly<R>) -> (Vec<String>, String, bool) {
        let mut names = vec![];
        for (m, _) in l.iter().chain(r.iter()) {
            let mo = &self.monos[*m as usize];
            if !mo.is_empty() {
                names.push(self.mono_name(mo));
            }
        }
        names.sort();
        names.dedup();
        let (x, y) = (self.linear_term(l).0, self.linear_term(r).0);
        (names, format!("(not (= (mod (- {} {}) {}) 0))", x, y, self.p_dec), l == r)
    }
    /// as eval, remembering the value of every factor
    pub fn eval_memo(&self, p: &Poly<R>, val: &dyn Fn(&str) -> R, memo: &mut HashMap<u32, R>) -> R {
        let mut acc = R::zero();
        for (m, c) in p {
            let mut t = *c;
            for (a, e) in self.monos[*m as usize].iter() {
                let b = match &self.atoms[*a as usize] {
                    Atom::Var(v) => val(&self.vars[*v as usize].name),
                    Atom::Fac(q) => match memo.get(q) {
                        Some(b) => *b,
                        None => {
                            let b = self.eval_memo(&self.polys[*q as usize], val, memo);
                            memo.insert(*q, b);
                            b
                        }
                    },
                };
                let b = if *e < 0 { b.invert().unwrap_or(R::zero()) } else { b };
                for _ in 0..e.abs() {
                    t = t * b;
                }
            }
            acc = acc + t;
        }
        acc
    }
    /// evaluate with concrete values for variables
    pub fn eval(&self, p: &Poly<R>, val: &dyn Fn(&str) -> R) -> R {
        self.eval_memo(p, val, &mut HashMap::new())
    }
    pub fn show(&self, p: &Poly<R>) -> String {
        let mut s = vec![];
        for (m, c) in p.iter().take(12) {
            let mut t = match small(c) {
                Some(v) => format!("{}", v),
                None => dec(c),
            };
            for (a, e) in self.monos[*m as usize].iter() {
                let n = match &self.atoms[*a as usize] {
                    Atom::Var(v) => self.vars[*v as usize].name.clone(),
                    Atom::Fac(q) => format!("({})", self.show(&self.polys[*q as usize])),
                };
                t.push_str(&format!("*{}", n));
                if *e != 1 {
                    t.push_str(&format!("^{}", e));
                }
            }
            s.push(t);
        }
        if p.len() > 12 {
            s.push("...".to_string());
        }
        if s.is_empty() {
            "0".to_string()
        } else {
            s.join(" + ")
        }
    }
}

// ---- handles: scalars given to code that walks over their bits (multi-exponentiation)
#[derive(Default)]
struct Handles {
    on: bool,
    coding: bool,
    roots: Vec<([u64; 4], Option<[u64; 4]>)>,
    ids: HashMap<[u64; 4], [u8; 32]>,
    all: Vec<([u8; 32], [u64; 4])>,
}
std::thread_local! { static HANDLES: core::cell::RefCell<Handles> = core::cell::RefCell::new(Handles::default()); }
/// While on, to_repr of a non-zero value is a pseudo-random 250-bit number standing for it.
pub fn set_handles(on: bool) {
    HANDLES.with(|h| {
        *h.borrow_mut() = Handles { on, ..Default::default() };
    })
}
pub fn handles() -> bool {
    HANDLES.with(|h| h.borrow().on)
}
pub fn handle(limbs: [u64; 4], zero: bool) -> [u8; 32] {
    if zero {
        return [0; 32];
    }
    HANDLES.with(|h| {
        let h = &mut *h.borrow_mut();
        if let Some(b) = h.ids.get(&limbs) {
            return *b;
        }
        let mut s = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(h.all.len() as u64 + 1);
        let mut b = [0u8; 32];
        for q in b.chunks_mut(8) {
            s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            q.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
        }
        b[31] &= 3;
        h.ids.insert(limbs, b);
        h.all.push((b, limbs));
        b
    })
}
/// the values whose handles (with sign) add up to c, up to four of them
pub fn unhandle<R: Real>(c: &R) -> Option<Vec<([u64; 4], bool)>> {
    HANDLES.with(|h| {
        let h = h.borrow();
        if bool::from(c.is_zero()) {
            return Some(vec![]);
        }
        let mut v: Vec<(R, usize, bool)> = vec![];
        for (i, x) in h.all.iter().enumerate() {
            let r = R::from_repr(x.0).unwrap();
            v.push((r, i, false));
            v.push((-r, i, true));
        }
        let ix: HashMap<R, usize> = v.iter().enumerate().map(|(i, x)| (x.0, i)).collect();
        let out = |l: &[usize]| Some(l.iter().map(|i| (h.all[v[*i].1].1, v[*i].2)).collect());
        if let Some(i) = ix.get(c) {
            return out(&[*i]);
        }
        for i in 0..v.len() {
            if let Some(j) = ix.get(&(*c - v[i].0)) {
                return out(&[i, *j]);
            }
        }
        let mut pairs: HashMap<R, (usize, usize)> = HashMap::new();
        for i in 0..v.len() {
            for j in i..v.len() {
                pairs.insert(v[i].0 + v[j].0, (i, j));
            }
        }
        for i in 0..v.len() {
            if let Some((j, k)) = pairs.get(&(*c - v[i].0)) {
                return out(&[i, *j, *k]);
            }
        }
        for (s, (i, j)) in pairs.iter() {
            if let Some((k, l)) = pairs.get(&(*c - *s)) {
                return out(&[*i, *j, *k, *l]);
            }
        }
        None
    })
}

// ---- coding mode: symbolic values have stand-in encodings of either parity that decode to them
pub fn set_coding(on: bool) {
    HANDLES.with(|h| {
        *h.borrow_mut() = Handles { coding: on, ..Default::default() };
    })
}
pub fn coding() -> bool {
    HANDLES.with(|h| h.borrow().coding)
}
pub fn code_of(limbs: [u64; 4], neg: [u64; 4]) -> [u8; 32] {
    if let Some(b) = HANDLES.with(|h| h.borrow().ids.get(&limbs).cloned()) {
        return b;
    }
    let odd = choose(2) as u8;
    let mut b = handle(limbs, false);
    let mut c = handle(neg, false);
    b[0] = (b[0] & !1) | odd;
    c[0] = (c[0] & !1) | (1 - odd);
    HANDLES.with(|h| {
        let h = &mut *h.borrow_mut();
        for (l, v) in [(limbs, b), (neg, c)] {
            h.ids.insert(l, v);
            for x in h.all.iter_mut().filter(|x| x.1 == l) {
                x.0 = v;
            }
        }
    });
    b
}
pub fn coded_value(b: &[u8]) -> Option<[u64; 4]> {
    HANDLES.with(|h| {
        let h = h.borrow();
        if !h.coding {
            return None;
        }
        h.all.iter().find(|x| x.0[..] == *b).map(|x| x.1)
    })
}
pub fn roots() -> Vec<([u64; 4], Option<[u64; 4]>)> {
    HANDLES.with(|h| h.borrow().roots.clone())
}
pub fn add_root(q: [u64; 4], r: Option<[u64; 4]>) {
    HANDLES.with(|h| h.borrow_mut().roots.push((q, r)))
}
