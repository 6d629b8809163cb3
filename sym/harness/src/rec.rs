//! Records what a circuit's synthesis assigns, enables and copies.
use halo2_proofs::circuit::Value;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, HashMap};

pub struct Rec {
    pub advice: BTreeMap<(usize, usize), Fr>,
    pub fixed: BTreeMap<(usize, usize), Fr>,
    pub fill: BTreeMap<usize, (usize, Fr)>,
    pub selectors: HashMap<Selector, std::collections::BTreeSet<usize>>,
    pub copies: Vec<((Any, usize, usize), (Any, usize, usize))>,
    pub instance: Vec<Vec<Fr>>,
    pub challenges: Vec<Fr>,
    pub unknown_advice: Vec<(usize, usize)>,
    pub max_row: usize,
}
impl Rec {
    pub fn new(instance: Vec<Vec<Fr>>, challenges: Vec<Fr>) -> Rec {
        Rec {
            advice: BTreeMap::new(),
            fixed: BTreeMap::new(),
            fill: BTreeMap::new(),
            selectors: HashMap::new(),
            copies: vec![],
            instance,
            challenges,
            unknown_advice: vec![],
            max_row: 0,
        }
    }
    pub fn adv(&self, c: usize, r: i64) -> Fr {
        if r < 0 {
            return Fr::zero();
        }
        *self.advice.get(&(c, r as usize)).unwrap_or(&Fr::zero())
    }
    pub fn fix(&self, c: usize, r: i64) -> Fr {
        if r < 0 {
            return Fr::zero();
        }
        if let Some(v) = self.fixed.get(&(c, r as usize)) {
            return *v;
        }
        if let Some((from, v)) = self.fill.get(&c) {
            if r as usize >= *from {
                return *v;
            }
        }
        Fr::zero()
    }
    pub fn inst(&self, c: usize, r: i64) -> Fr {
        if r < 0 {
            return Fr::zero();
        }
        *self.instance[c].get(r as usize).unwrap_or(&Fr::zero())
    }
    pub fn any(&self, a: &(Any, usize, usize)) -> Fr {
        match a.0 {
            Any::Advice(_) => self.adv(a.1, a.2 as i64),
            Any::Fixed => self.fix(a.1, a.2 as i64),
            Any::Instance => self.inst(a.1, a.2 as i64),
        }
    }
    pub fn sel(&self, s: &Selector, r: usize) -> bool {
        self.selectors.get(s).map_or(false, |x| x.contains(&r))
    }
    pub fn eval(&self, e: &Expression<Fr>, row: usize) -> Fr {
        let r = row as i64;
        match e {
            Expression::Constant(c) => *c,
            Expression::Selector(s) => {
                if self.sel(s, row) {
                    Fr::one()
                } else {
                    Fr::zero()
                }
            }
            Expression::Fixed(q) => self.fix(q.column_index(), r + q.rotation().0 as i64),
            Expression::Advice(q) => self.adv(q.column_index(), r + q.rotation().0 as i64),
            Expression::Instance(q) => self.inst(q.column_index(), r + q.rotation().0 as i64),
            Expression::Challenge(c) => self.challenges[c.index()],
            Expression::Negated(a) => -self.eval(a, row),
            Expression::Sum(a, b) => self.eval(a, row) + self.eval(b, row),
            Expression::Product(a, b) => {
                // a disabled selector makes the product zero without looking at the rest
                let x = self.eval(a, row);
                if is_const_zero(&x) {
                    return Fr::zero();
                }
                let y = self.eval(b, row);
                x * y
            }
            Expression::Scaled(a, c) => self.eval(a, row) * c,
        }
    }
}
#[cfg(feature = "sym")]
fn is_const_zero(a: &Fr) -> bool {
    a.concrete().map_or(false, |c| bool::from(halo2_proofs::arithmetic::Field::is_zero(&c)))
}
#[cfg(not(feature = "sym"))]
fn is_const_zero(a: &Fr) -> bool {
    *a == Fr::zero()
}
fn val(v: Value<Assigned<Fr>>) -> Option<Fr> {
    let mut out = None;
    v.map(|a| out = Some(a.evaluate()));
    out
}
impl Assignment<Fr> for Rec {
    fn enter_region<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn annotate_column<A, AR>(&mut self, _: A, _: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
    }
    fn exit_region(&mut self) {}
    fn enable_selector<A, AR>(&mut self, _: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.max_row = self.max_row.max(row);
        self.selectors.entry(*s).or_default().insert(row);
        Ok(())
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<Fr>, Error> {
        Ok(Value::known(self.inst(column.index(), row as i64)))
    }
    fn assign_advice<V, VR, A, AR>(&mut self, _: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<Fr>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.max_row = self.max_row.max(row);
        match val(to().map(|v| v.into())) {
            Some(v) => {
                self.advice.insert((column.index(), row), v);
            }
            None => self.unknown_advice.push((column.index(), row)),
        }
        Ok(())
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, _: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<Fr>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.max_row = self.max_row.max(row);
        let v = val(to().map(|v| v.into())).ok_or(Error::Synthesis)?;
        self.fixed.insert((column.index(), row), v);
        Ok(())
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.copies.push(((*lc.column_type(), lc.index(), lr), (*rc.column_type(), rc.index(), rr)));
        Ok(())
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<Fr>>) -> Result<(), Error> {
        let v = val(to).ok_or(Error::Synthesis)?;
        self.fill.insert(column.index(), (row, v));
        Ok(())
    }
    fn get_challenge(&self, c: Challenge) -> Value<Fr> {
        Value::known(self.challenges[c.index()])
    }
    fn push_namespace<NR, N>(&mut self, _: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
    }
    fn pop_namespace(&mut self, _: Option<String>) {}
}
