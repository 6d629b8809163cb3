//! Circuits described by data, so that a case can build any of them.
use halo2_proofs::circuit::{Layouter, SimpleFloorPlanner, Value};
use halo2_proofs::plonk::*;
use halo2_proofs::poly::Rotation;
use halo2curves::bn256::Fr;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum E {
    C(i64),
    Sel(usize),
    Fix(usize, i32),
    Adv(usize, i32),
    Inst(usize, i32),
    Ch(usize),
    Neg(Box<E>),
    Sum(Box<E>, Box<E>),
    Mul(Box<E>, Box<E>),
    Scale(Box<E>, i64),
}
impl std::ops::Add for E {
    type Output = E;
    fn add(self, o: E) -> E {
        E::Sum(Box::new(self), Box::new(o))
    }
}
impl std::ops::Sub for E {
    type Output = E;
    fn sub(self, o: E) -> E {
        self + E::Neg(Box::new(o))
    }
}
impl std::ops::Mul for E {
    type Output = E;
    fn mul(self, o: E) -> E {
        E::Mul(Box::new(self), Box::new(o))
    }
}
impl std::ops::Mul<i64> for E {
    type Output = E;
    fn mul(self, o: i64) -> E {
        E::Scale(Box::new(self), o)
    }
}
pub fn fr(v: i64) -> Fr {
    if v < 0 {
        -Fr::from((-v) as u64)
    } else {
        Fr::from(v as u64)
    }
}
/// value of an expression of the description
pub fn eval(e: &E, cell: &dyn Fn(&E) -> Fr) -> Fr {
    match e {
        E::C(v) => fr(*v),
        E::Neg(a) => -eval(a, cell),
        E::Sum(a, b) => eval(a, cell) + eval(b, cell),
        E::Mul(a, b) => eval(a, cell) * eval(b, cell),
        E::Scale(a, s) => eval(a, cell) * fr(*s),
        x => cell(x),
    }
}
/// value of a compiled expression
pub fn evalx(e: &Expression<Fr>, fixed: &dyn Fn(usize, i32) -> Fr, advice: &dyn Fn(usize, i32) -> Fr, inst: &dyn Fn(usize, i32) -> Fr, chal: &dyn Fn(usize) -> Fr) -> Fr {
    let r = |a: &Expression<Fr>| evalx(a, fixed, advice, inst, chal);
    match e {
        Expression::Constant(c) => *c,
        Expression::Selector(_) => panic!("selector left in a compiled constraint"),
        Expression::Fixed(q) => fixed(q.column_index(), q.rotation().0),
        Expression::Advice(q) => advice(q.column_index(), q.rotation().0),
        Expression::Instance(q) => inst(q.column_index(), q.rotation().0),
        Expression::Challenge(c) => chal(c.index()),
        Expression::Negated(a) => -r(a),
        Expression::Sum(a, b) => r(a) + r(b),
        Expression::Product(a, b) => r(a) * r(b),
        Expression::Scaled(a, s) => r(a) * s,
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Col {
    A(usize),
    F(usize),
    I(usize),
}
#[derive(Clone, Default)]
pub struct Spec {
    pub k: u32,
    /// phase of each advice column
    pub adv: Vec<u8>,
    pub fix: usize,
    pub inst: usize,
    /// phase after which each challenge is usable
    pub chal: Vec<u8>,
    /// simple?
    pub sels: Vec<bool>,
    pub eqs: Vec<Col>,
    pub gates: Vec<Vec<E>>,
    pub lookups: Vec<Vec<(E, E)>>,
    pub min_degree: usize,
    /// assignments
    pub sel_on: Vec<Vec<usize>>,
    pub fixed: Vec<Vec<Fr>>,
    pub advice: Vec<Vec<Fr>>,
    pub copies: Vec<((Col, usize), (Col, usize))>,
}
thread_local! { pub static SPEC: RefCell<Rc<Spec>> = RefCell::new(Rc::new(Spec::default())); }
pub fn install(s: &Spec) {
    SPEC.with(|c| *c.borrow_mut() = Rc::new(s.clone()));
}
fn spec() -> Rc<Spec> {
    SPEC.with(|c| c.borrow().clone())
}
#[derive(Clone)]
pub struct Cfg {
    a: Vec<Column<Advice>>,
    f: Vec<Column<Fixed>>,
    i: Vec<Column<Instance>>,
    s: Vec<Selector>,
}
/// advice: per-circuit witness (several circuits can share one description)
#[derive(Clone, Default)]
pub struct SpecCircuit {
    pub advice: Option<Vec<Vec<Fr>>>,
}
fn build(e: &E, m: &mut VirtualCells<'_, Fr>, c: &Cfg, ch: &[Challenge]) -> Expression<Fr> {
    match e {
        E::C(v) => Expression::Constant(fr(*v)),
        E::Sel(i) => m.query_selector(c.s[*i]),
        E::Fix(i, r) => m.query_fixed(c.f[*i], Rotation(*r)),
        E::Adv(i, r) => m.query_advice(c.a[*i], Rotation(*r)),
        E::Inst(i, r) => m.query_instance(c.i[*i], Rotation(*r)),
        E::Ch(i) => m.query_challenge(ch[*i]),
        E::Neg(a) => Expression::Negated(Box::new(build(a, m, c, ch))),
        E::Sum(a, b) => Expression::Sum(Box::new(build(a, m, c, ch)), Box::new(build(b, m, c, ch))),
        E::Mul(a, b) => Expression::Product(Box::new(build(a, m, c, ch)), Box::new(build(b, m, c, ch))),
        E::Scale(a, s) => Expression::Scaled(Box::new(build(a, m, c, ch)), fr(*s)),
    }
}
impl Circuit<Fr> for SpecCircuit {
    type Config = Cfg;
    type FloorPlanner = SimpleFloorPlanner;
    fn without_witnesses(&self) -> Self {
        self.clone()
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Cfg {
        let s = spec();
        let a: Vec<_> = s
            .adv
            .iter()
            .map(|p| match p {
                0 => meta.advice_column_in(FirstPhase),
                1 => meta.advice_column_in(SecondPhase),
                _ => meta.advice_column_in(ThirdPhase),
            })
            .collect();
        let f: Vec<_> = (0..s.fix).map(|_| meta.fixed_column()).collect();
        let i: Vec<_> = (0..s.inst).map(|_| meta.instance_column()).collect();
        let ch: Vec<_> = s
            .chal
            .iter()
            .map(|p| match p {
                0 => meta.challenge_usable_after(FirstPhase),
                1 => meta.challenge_usable_after(SecondPhase),
                _ => meta.challenge_usable_after(ThirdPhase),
            })
            .collect();
        let sl: Vec<_> = s.sels.iter().map(|simple| if *simple { meta.selector() } else { meta.complex_selector() }).collect();
        for c in &s.eqs {
            match c {
                Col::A(x) => meta.enable_equality(a[*x]),
                Col::F(x) => meta.enable_equality(f[*x]),
                Col::I(x) => meta.enable_equality(i[*x]),
            }
        }
        let c = Cfg { a, f, i, s: sl };
        for g in &s.gates {
            meta.create_gate("g", |m| g.iter().map(|e| build(e, m, &c, &ch)).collect::<Vec<_>>());
        }
        for l in &s.lookups {
            meta.lookup_any("l", |m| l.iter().map(|(x, t)| (build(x, m, &c, &ch), build(t, m, &c, &ch))).collect());
        }
        if s.min_degree > 0 {
            meta.set_minimum_degree(s.min_degree);
        }
        c
    }
    fn synthesize(&self, c: Cfg, mut layouter: impl Layouter<Fr>) -> Result<(), Error> {
        let s = spec();
        let advice = self.advice.as_ref().unwrap_or(&s.advice);
        layouter.assign_region(
            || "r",
            |mut region| {
                let mut cells = std::collections::HashMap::new();
                for (j, col) in advice.iter().enumerate() {
                    for (r, v) in col.iter().enumerate() {
                        let x = region.assign_advice(|| "", c.a[j], r, || Value::known(*v))?;
                        cells.insert((0, j, r), x.cell());
                    }
                }
                for (j, col) in s.fixed.iter().enumerate() {
                    for (r, v) in col.iter().enumerate() {
                        let x = region.assign_fixed(|| "", c.f[j], r, || Value::known(*v))?;
                        cells.insert((1, j, r), x.cell());
                    }
                }
                for (j, rows) in s.sel_on.iter().enumerate() {
                    for r in rows {
                        c.s[j].enable(&mut region, *r)?;
                    }
                }
                for (x, y) in &s.copies {
                    let key = |p: &(Col, usize)| match p.0 {
                        Col::A(j) => (0, j, p.1),
                        Col::F(j) => (1, j, p.1),
                        Col::I(_) => panic!("instance cell in a plain copy"),
                    };
                    if !matches!(x.0, Col::I(_)) && !matches!(y.0, Col::I(_)) {
                        region.constrain_equal(cells[&key(x)], cells[&key(y)])?;
                    }
                }
                for (x, y) in &s.copies {
                    if let (Col::A(j), Col::I(q)) = (x.0, y.0) {
                        IPAIR.with(|v| v.borrow_mut().push((cells[&(0, j, x.1)], c.i[q], y.1)));
                    }
                }
                Ok(())
            },
        )?;
        let p: Vec<_> = IPAIR.with(|v| v.borrow_mut().drain(..).collect());
        let mut seen = std::collections::HashSet::new();
        for (cell, col, row) in p {
            if seen.insert(format!("{:?}{}{}", cell, col.index(), row)) {
                layouter.constrain_instance(cell, col, row)?;
            }
        }
        Ok(())
    }
}
thread_local! { static IPAIR: RefCell<Vec<(halo2_proofs::circuit::Cell, Column<Instance>, usize)>> = RefCell::new(vec![]); }
