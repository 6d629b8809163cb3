//! Dumps the real constraint system and the layout the real synthesis produces
//! for a given trace shape, and replays forged assignments with MockProver.
use crate::rec::Rec;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use ckb_bf_vm::interpreter::Interpreter;
use ckb_bf_vm::matrix::Matrix;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::circuit::{SimpleFloorPlanner, Value};
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::halo2curves::group::ff::PrimeField;
use halo2_proofs::plonk::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use std::sync::Mutex;

pub fn dec(f: &Fr) -> String {
    // canonical integer in hex
    let r = f.to_repr();
    let mut s = String::from("0x");
    for b in r.as_ref().iter().rev() {
        let _ = write!(s, "{:02x}", b);
    }
    s
}
pub fn parse(s: &str) -> Fr {
    let s = s.trim_start_matches("0x");
    let mut acc = Fr::zero();
    for c in s.chars() {
        acc = acc * Fr::from(16) + Fr::from(c.to_digit(16).expect("hex") as u64);
    }
    acc
}
fn expr(e: &Expression<Fr>, sel: &mut HashMap<Selector, usize>, o: &mut String) {
    match e {
        Expression::Constant(c) => {
            let _ = write!(o, "[\"c\",\"{}\"]", dec(c));
        }
        Expression::Selector(s) => {
            let n = sel.len();
            let i = *sel.entry(*s).or_insert(n);
            let _ = write!(o, "[\"s\",{}]", i);
        }
        Expression::Fixed(q) => {
            let _ = write!(o, "[\"f\",{},{}]", q.column_index(), q.rotation().0);
        }
        Expression::Advice(q) => {
            let _ = write!(o, "[\"a\",{},{}]", q.column_index(), q.rotation().0);
        }
        Expression::Instance(q) => {
            let _ = write!(o, "[\"i\",{},{}]", q.column_index(), q.rotation().0);
        }
        Expression::Challenge(c) => {
            let _ = write!(o, "[\"h\",{}]", c.index());
        }
        Expression::Negated(a) => {
            o.push_str("[\"n\",");
            expr(a, sel, o);
            o.push(']');
        }
        Expression::Sum(a, b) | Expression::Product(a, b) => {
            o.push_str(if let Expression::Sum(..) = e { "[\"+\"," } else { "[\"*\"," });
            expr(a, sel, o);
            o.push(',');
            expr(b, sel, o);
            o.push(']');
        }
        Expression::Scaled(a, c) => {
            o.push_str("[\"k\",");
            expr(a, sel, o);
            let _ = write!(o, ",\"{}\"]", dec(c));
        }
    }
}
pub fn matrix_of(toks: &str, input: &[u64], all_input: &mut Vec<Fr>) -> (Matrix, Vec<Fr>) {
    let (code, _) = crate::vm::compile_ref(toks, |_| panic!());
    let mut i = Interpreter::new();
    i.set_code(code.clone());
    *all_input = input.iter().map(|x| Fr::from(*x)).collect();
    i.set_input(all_input.clone());
    i.run();
    (i.matrix, code)
}
fn synth(m: Matrix, instance: Vec<Vec<Fr>>, nch: usize, cs: &ConstraintSystem<Fr>, config: <MyCircuit<Fr, DOMAIN> as Circuit<Fr>>::Config) -> Rec {
    let ch: Vec<Fr> = (0..nch).map(|k| tag(900000 + k)).collect();
    let mut rec = Rec::new(instance, ch);
    let circuit = MyCircuit::<Fr, DOMAIN>::new(m);
    <MyCircuit<Fr, DOMAIN> as Circuit<Fr>>::FloorPlanner::synthesize(&mut rec, &circuit, config, cs.constants().clone()).expect("synthesize");
    rec
}
fn tag(i: usize) -> Fr {
    Fr::from_u128((i as u128 + 1).wrapping_mul(0x9e3779b97f4a7c15f39cc0605cedc835u128)) * Fr::from_u128(0xdeadbeefcafef00dd15ea5e5b105f00d)
}
/// every matrix entry replaced by its own tag
fn tagged(mut a: Matrix) -> (Matrix, HashMap<[u8; 32], String>) {
    let mut names: HashMap<[u8; 32], String> = HashMap::new();
    let mut n = 0;
    let mut t = |name: String, f: &mut Fr| {
        *f = tag(n);
        n += 1;
        names.insert(f.to_repr(), name);
    };
    for (r, x) in a.processor_matrix.iter_mut().enumerate() {
        t(format!("p.clk.{}", r), &mut x.cycle);
        t(format!("p.ip.{}", r), &mut x.instruction_pointer);
        t(format!("p.ci.{}", r), &mut x.current_instruction);
        t(format!("p.ni.{}", r), &mut x.next_instruction);
        t(format!("p.mp.{}", r), &mut x.memory_pointer);
        t(format!("p.mv.{}", r), &mut x.memory_value);
        t(format!("p.mvi.{}", r), &mut x.memory_value_inverse);
    }
    for (r, x) in a.memory_matrix.iter_mut().enumerate() {
        t(format!("m.clk.{}", r), &mut x.cycle);
        t(format!("m.mp.{}", r), &mut x.memory_pointer);
        t(format!("m.mv.{}", r), &mut x.memory_value);
    }
    for (r, x) in a.instruction_matrix.iter_mut().enumerate() {
        t(format!("i.ip.{}", r), &mut x.instruction_pointer);
        t(format!("i.ci.{}", r), &mut x.current_instruction);
        t(format!("i.ni.{}", r), &mut x.next_instruction);
    }
    for (r, x) in a.output_matrix.iter_mut().enumerate() {
        t(format!("o.val.{}", r), x);
    }
    (a, names)
}
pub fn dump(toks: &str, input: &[u64]) -> String {
    let mut inp = vec![];
    let (m, code) = matrix_of(toks, input, &mut inp);
    let mut cs = ConstraintSystem::default();
    let config = MyCircuit::<Fr, DOMAIN>::configure(&mut cs);
    let mut c = vec![Fr::from(code.len() as u64)];
    c.extend(&code);
    let mut i = vec![Fr::from(inp.len() as u64)];
    i.extend(&inp);
    let instance = vec![c, i];
    let nch = cs.num_challenges();
    let (tm, names) = tagged(matrix_of(toks, input, &mut vec![]).0);
    let shape = (m.processor_matrix.len(), m.instruction_matrix.len(), m.input_matrix.len(), m.output_matrix.len());
    let rec = synth(m, instance.clone(), nch, &cs, config.clone());
    let trec = synth(tm, instance.clone(), nch, &cs, config);
    let mut sel: HashMap<Selector, usize> = HashMap::new();
    let mut o = String::from("{\"gates\":[");
    let mut first = true;
    for g in cs.gates() {
        for p in g.polynomials() {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str("{\"name\":");
            o.push_str(&crate::sx::esc(&format!("{:?}", g).split("name: \"").nth(1).unwrap_or("").chars().take_while(|c| *c != '"').collect::<String>()));
            o.push_str(",\"e\":");
            expr(p, &mut sel, &mut o);
            o.push('}');
        }
    }
    o.push_str("],\"lookups\":[");
    for (k, l) in cs.lookups().iter().enumerate() {
        if k > 0 {
            o.push(',');
        }
        o.push('{');
        for (nm, es) in [("in", &l.input_expressions), ("table", &l.table_expressions)] {
            if nm == "table" {
                o.push(',');
            }
            let _ = write!(o, "\"{}\":[", nm);
            for (j, e) in es.iter().enumerate() {
                if j > 0 {
                    o.push(',');
                }
                expr(e, &mut sel, &mut o);
            }
            o.push(']');
        }
        o.push('}');
    }
    o.push_str("],\"selectors\":{");
    let mut ss: Vec<(usize, Vec<usize>)> = vec![];
    let mut same_layout = trec.copies == rec.copies && trec.fixed == rec.fixed;
    for (s, i) in sel.iter() {
        let rows: Vec<usize> = rec.selectors.get(s).map(|x| x.iter().cloned().collect()).unwrap_or_default();
        same_layout &= trec.selectors.get(s) == rec.selectors.get(s);
        ss.push((*i, rows));
    }
    ss.sort();
    o.push_str(&ss.iter().map(|(i, r)| format!("\"{}\":{:?}", i, r)).collect::<Vec<_>>().join(","));
    let cells = |m: &BTreeMap<(usize, usize), Fr>| m.iter().map(|(k, v)| format!("[{},{},\"{}\"]", k.0, k.1, dec(v))).collect::<Vec<_>>().join(",");
    let _ = write!(o, "}},\"fixed\":[{}],\"advice\":[{}],", cells(&rec.fixed), cells(&rec.advice));
    let _ = write!(o, "\"fill\":[{}],", rec.fill.iter().map(|(c, (r, v))| format!("[{},{},\"{}\"]", c, r, dec(v))).collect::<Vec<_>>().join(","));
    let any = |a: &(Any, usize, usize)| format!("[\"{}\",{},{}]", match a.0 { Any::Advice(_) => "a", Any::Fixed => "f", Any::Instance => "i" }, a.1, a.2);
    let _ = write!(o, "\"copies\":[{}],", rec.copies.iter().map(|(a, b)| format!("[{},{}]", any(a), any(b))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"instance\":[{}],", instance.iter().map(|v| format!("[{}]", v.iter().map(|x| format!("\"{}\"", dec(x))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let mut tags: BTreeMap<String, Vec<(usize, usize)>> = BTreeMap::new();
    for (k, v) in trec.advice.iter() {
        if let Some(n) = names.get(&v.to_repr()) {
            tags.entry(n.clone()).or_default().push(*k);
        }
    }
    let _ = write!(o, "\"tags\":{{{}}},", tags.iter().map(|(n, c)| format!("\"{}\":[{}]", n, c.iter().map(|x| format!("[{},{}]", x.0, x.1)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"same_layout\":{},\"rows\":{},\"shape\":[{},{},{},{}],\"advice_phase\":{:?},\"challenge_phase\":{:?},\"challenges\":[{}]}}",
        same_layout, rec.max_row + 2, shape.0, shape.1, shape.2, shape.3, cs.advice_column_phase(), cs.challenge_phase(),
        rec.challenges.iter().map(|x| format!("\"{}\"", dec(x))).collect::<Vec<_>>().join(","));
    o
}

// ---- replay with forged cells --------------------------------------------------------
static OVER: Mutex<Option<(HashMap<(usize, usize), Fr>, BTreeMap<usize, Fr>)>> = Mutex::new(None);
pub struct Forged(String, Vec<u64>);
pub struct ForgePlanner;
impl FloorPlanner for ForgePlanner {
    fn synthesize<F: Field, CS: Assignment<F>, C: Circuit<F>>(cs: &mut CS, circuit: &C, config: C::Config, constants: Vec<Column<Fixed>>) -> Result<(), Error> {
        let mut o = Over { cs, _f: std::marker::PhantomData };
        SimpleFloorPlanner::synthesize(&mut o, circuit, config, constants)
    }
}
use halo2_proofs::arithmetic::Field;
impl Circuit<Fr> for Forged {
    type Config = <MyCircuit<Fr, DOMAIN> as Circuit<Fr>>::Config;
    type FloorPlanner = ForgePlanner;
    fn without_witnesses(&self) -> Self {
        Forged(self.0.clone(), self.1.clone())
    }
    fn configure(meta: &mut ConstraintSystem<Fr>) -> Self::Config {
        MyCircuit::<Fr, DOMAIN>::configure(meta)
    }
    fn synthesize(&self, config: Self::Config, layouter: impl halo2_proofs::circuit::Layouter<Fr>) -> Result<(), Error> {
        MyCircuit::<Fr, DOMAIN>::new(matrix_of(&self.0, &self.1, &mut vec![]).0).synthesize(config, layouter)
    }
}
struct Over<'a, F: Field, CS: Assignment<F>> {
    cs: &'a mut CS,
    _f: std::marker::PhantomData<F>,
}
fn cast<A: 'static + Copy, B: 'static + Copy>(a: A) -> B {
    *(&a as &dyn std::any::Any).downcast_ref::<B>().expect("field type")
}
impl<'a, F: Field, CS: Assignment<F>> Assignment<F> for Over<'a, F, CS> {
    fn enter_region<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.enter_region(n)
    }
    fn annotate_column<A, AR>(&mut self, a: A, c: Column<Any>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.cs.annotate_column(a, c)
    }
    fn exit_region(&mut self) {
        self.cs.exit_region()
    }
    fn enable_selector<A, AR>(&mut self, a: A, s: &Selector, row: usize) -> Result<(), Error>
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.cs.enable_selector(a, s, row)
    }
    fn query_instance(&self, column: Column<Instance>, row: usize) -> Result<Value<F>, Error> {
        self.cs.query_instance(column, row)
    }
    fn assign_advice<V, VR, A, AR>(&mut self, a: A, column: Column<Advice>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let ov = OVER.lock().unwrap().as_ref().and_then(|(m, _)| m.get(&(column.index(), row)).copied());
        match ov {
            Some(v) => {
                let v: F = cast(v);
                self.cs.assign_advice(a, column, row, || Value::known(Assigned::from(v)))
            }
            None => self.cs.assign_advice(a, column, row, to),
        }
    }
    fn assign_fixed<V, VR, A, AR>(&mut self, a: A, column: Column<Fixed>, row: usize, to: V) -> Result<(), Error>
    where
        V: FnOnce() -> Value<VR>,
        VR: Into<Assigned<F>>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.cs.assign_fixed(a, column, row, to)
    }
    fn copy(&mut self, lc: Column<Any>, lr: usize, rc: Column<Any>, rr: usize) -> Result<(), Error> {
        self.cs.copy(lc, lr, rc, rr)
    }
    fn fill_from_row(&mut self, column: Column<Fixed>, row: usize, to: Value<Assigned<F>>) -> Result<(), Error> {
        self.cs.fill_from_row(column, row, to)
    }
    fn get_challenge(&self, c: Challenge) -> Value<F> {
        let v = self.cs.get_challenge(c);
        v.map(|x| {
            let f: Fr = cast(x);
            OVER.lock().unwrap().as_mut().unwrap().1.insert(c.index(), f);
        });
        self.cs.get_challenge(c)
    }
    fn push_namespace<NR, N>(&mut self, n: N)
    where
        NR: Into<String>,
        N: FnOnce() -> NR,
    {
        self.cs.push_namespace(n)
    }
    fn pop_namespace(&mut self, g: Option<String>) {
        self.cs.pop_namespace(g)
    }
}
/// file: lines "col row hex" (forged advice cells), "inst col row hex" (public values).
/// Prints the challenges MockProver used and ACCEPTED / REJECTED.
pub fn forge(toks: &str, input: &[u64], file: Option<String>) -> String {
    let mut inp = vec![];
    let (m, code) = matrix_of(toks, input, &mut inp);
    let mut c = vec![Fr::from(code.len() as u64)];
    c.extend(&code);
    let mut i = vec![Fr::from(inp.len() as u64)];
    i.extend(&inp);
    let mut instance = vec![c, i];
    let mut map = HashMap::new();
    if let Some(f) = file {
        for l in std::fs::read_to_string(f).unwrap().lines() {
            let t: Vec<&str> = l.split_whitespace().collect();
            if t.is_empty() {
                continue;
            }
            if t[0] == "inst" {
                let (c, r): (usize, usize) = (t[1].parse().unwrap(), t[2].parse().unwrap());
                while instance[c].len() <= r {
                    instance[c].push(Fr::zero());
                }
                instance[c][r] = parse(t[3]);
            } else {
                map.insert((t[0].parse().unwrap(), t[1].parse().unwrap()), parse(t[2]));
            }
        }
    }
    *OVER.lock().unwrap() = Some((map, BTreeMap::new()));
    let rows = m.instruction_matrix.len() + 300;
    let k = (rows.next_power_of_two().trailing_zeros()).max(9);
    let r = halo2_proofs::dev::MockProver::run(k, &Forged(toks.into(), input.to_vec()), instance);
    let ch = OVER.lock().unwrap().as_ref().unwrap().1.clone();
    let mut o = format!("CHALLENGES {}\n", (0..ch.len()).map(|k| dec(&ch[&k])).collect::<Vec<_>>().join(","));
    match r {
        Err(e) => o.push_str(&format!("REJECTED {:?}", e)),
        Ok(p) => match p.verify() {
            Ok(()) => o.push_str("ACCEPTED"),
            Err(e) => o.push_str(&format!("REJECTED {}", e.iter().take(5).map(|x| format!("{:?}", x).chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n  "))),
        },
    }
    o
}
