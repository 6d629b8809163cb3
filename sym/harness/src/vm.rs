//! C02/C03/C04: the interpreter, its trace and the circuit assignment built from it.
use crate::rec::Rec;
use crate::sx;
use ckb_bf_base::main_config::MyCircuit;
use ckb_bf_base::utils::DOMAIN;
use ckb_bf_vm::interpreter::Interpreter;
use halo2_proofs::arithmetic::Field;
use halo2_proofs::arithmetic::FieldExt;
use halo2_proofs::halo2curves::bn256::Fr;
use halo2_proofs::plonk::*;

pub struct Row {
    pub clk: usize,
    pub ip: usize,
    pub ci: Fr,
    pub ni: Fr,
    pub mp: usize,
    pub mv: Fr,
}
pub struct Spec {
    pub code: Vec<Fr>,
    pub rows: Vec<Row>,
    pub input: Vec<Fr>,
    pub output: Vec<Fr>,
    pub mem: Vec<Fr>,
}
pub enum SpecEnd {
    Done(Spec),
    /// leaves the tape to the left / reads past the input / too many steps
    Outside,
}
pub fn fr(v: usize) -> Fr {
    Fr::from(v as u64)
}
/// Matching bracket of position i in compiled code (position of the other bracket).
fn matching(ops: &[Option<u8>], i: usize) -> usize {
    // ops: Some(opcode) at opcode positions, None at operand positions
    let open = ops[i] == Some(b'[');
    let mut depth = 0i64;
    let mut j = i as i64;
    loop {
        match ops[j as usize] {
            Some(b'[') => depth += 1,
            Some(b']') => depth -= 1,
            _ => {}
        }
        if depth == 0 {
            return j as usize;
        }
        j += if open { 1 } else { -1 };
    }
}
/// Brainfuck with wrapping 8-bit cells, straight from the language definition.
/// `code`: compiled entries; `ops`: which positions are opcodes (None = operand).
/// `opcode(i)`: decodes entry i; `read()`: next input value if any.
pub fn reference(
    code: &[Fr],
    shape: &[Option<u8>],
    mem0: Vec<Fr>,
    max_steps: usize,
    read: &mut dyn FnMut(usize) -> Option<Fr>,
) -> SpecEnd {
    let n = code.len();
    let mut ip = 0usize;
    let mut mp = 0usize;
    let mut mem = mem0;
    let mut rows = vec![];
    let mut input = vec![];
    let mut output = vec![];
    let at = |i: usize| if i < n { code[i] } else { Fr::zero() };
    let mut clk = 0;
    loop {
        rows.push(Row { clk, ip, ci: at(ip), ni: if ip < n { at(ip + 1) } else { Fr::zero() }, mp, mv: mem[mp] });
        if ip >= n {
            break;
        }
        if clk >= max_steps {
            return SpecEnd::Outside;
        }
        let op = match shape[ip] {
            Some(b'?') => code[ip].get_lower_128() as u8,
            Some(o) => o,
            None => panic!("SYMERR: reference executes an operand"),
        };
        match op {
            b'>' => {
                mp += 1;
                if mp == mem.len() {
                    mem.push(Fr::zero());
                }
                ip += 1;
            }
            b'<' => {
                if mp == 0 {
                    return SpecEnd::Outside;
                }
                mp -= 1;
                ip += 1;
            }
            b'+' => {
                mem[mp] = if mem[mp] == fr(255) { Fr::zero() } else { mem[mp] + Fr::one() };
                ip += 1;
            }
            b'-' => {
                mem[mp] = if mem[mp] == Fr::zero() { fr(255) } else { mem[mp] - Fr::one() };
                ip += 1;
            }
            b',' => {
                match read(input.len()) {
                    None => return SpecEnd::Outside,
                    Some(v) => {
                        mem[mp] = v;
                        input.push(v);
                    }
                }
                ip += 1;
            }
            b'.' => {
                output.push(mem[mp]);
                ip += 1;
            }
            b'[' => {
                if mem[mp] == Fr::zero() {
                    ip = matching(shape, ip) + 2;
                } else {
                    ip += 2;
                }
            }
            b']' => {
                if mem[mp] != Fr::zero() {
                    ip = matching(shape, ip) + 2;
                } else {
                    ip += 2;
                }
            }
            x => panic!("SYMERR: reference opcode {}", x),
        }
        clk += 1;
    }
    SpecEnd::Done(Spec { code: code.to_vec(), rows, input, output, mem })
}

/// Compiled entries for a token string ('?' = symbolic simple op), from the language
/// definition (not from the code under test).
pub fn compile_ref(toks: &str, mut sym: impl FnMut(usize) -> Fr) -> (Vec<Fr>, Vec<Option<u8>>) {
    let mut code = vec![];
    let mut shape: Vec<Option<u8>> = vec![];
    let mut stack = vec![];
    for t in toks.bytes() {
        match t {
            b'?' => {
                code.push(sym(code.len()));
                shape.push(Some(b'?'));
            }
            b'[' => {
                stack.push(code.len());
                code.push(fr(b'[' as usize));
                code.push(Fr::zero());
                shape.push(Some(b'['));
                shape.push(None);
            }
            b']' => {
                let o = stack.pop().expect("balanced");
                code.push(fr(b']' as usize));
                code.push(fr(o + 2));
                let l = code.len();
                code[o + 1] = fr(l);
                shape.push(Some(b']'));
                shape.push(None);
            }
            t => {
                code.push(fr(t as usize));
                shape.push(Some(t));
            }
        }
    }
    assert!(stack.is_empty());
    (code, shape)
}

pub struct Bad {
    pub prop: &'static str,
    pub what: String,
    pub model: sx::Model,
}
type R = Result<(), Bad>;
fn eq(prop: &'static str, what: String, a: &Fr, b: &Fr) -> R {
    match sx::refute_eq(a, b, &what) {
        None => Ok(()),
        Some(model) => Err(Bad {
            prop,
            what: format!("{}: got {} expected {}", what, sx::show(a), sx::show(b)),
            model,
        }),
    }
}
#[cfg(feature = "sym")]
fn now() -> sx::Model {
    sx::path_model().unwrap_or_default()
}
#[cfg(not(feature = "sym"))]
fn now() -> sx::Model {
    Default::default()
}
fn same_len(prop: &'static str, what: &str, a: usize, b: usize) -> R {
    if a == b {
        Ok(())
    } else {
        Err(Bad { prop, what: format!("{}: {} entries, expected {}", what, a, b), model: now() })
    }
}

/// Compare a finished run of the real interpreter with the specification.
pub fn check_semantics(i: &Interpreter, s: &Spec, unread: usize) -> R {
    let p = "C02";
    let m = &i.matrix;
    same_len(p, "outputs", m.output_matrix.len(), s.output.len())?;
    for (k, (a, b)) in m.output_matrix.iter().zip(&s.output).enumerate() {
        eq(p, format!("output {}", k), a, b)?;
    }
    same_len(p, "inputs consumed", m.input_matrix.len(), s.input.len())?;
    for (k, (a, b)) in m.input_matrix.iter().zip(&s.input).enumerate() {
        eq(p, format!("input {}", k), a, b)?;
    }
    same_len(p, "inputs left", i.input.len(), unread)?;
    if i.memory.len() < s.mem.len() {
        same_len(p, "memory cells", i.memory.len(), s.mem.len())?;
    }
    for (k, a) in i.memory.iter().enumerate() {
        eq(p, format!("memory cell {}", k), a, s.mem.get(k).unwrap_or(&Fr::zero()))?;
    }
    let l = s.rows.last().unwrap();
    eq(p, "final position".into(), &i.register.instruction_pointer, &fr(l.ip))?;
    eq(p, "final cell pointer".into(), &i.register.memory_pointer, &fr(l.mp))?;
    eq(p, "final cell value".into(), &i.register.memory_value, &l.mv)?;
    eq(p, "number of steps".into(), &i.register.cycle, &fr(l.clk))?;
    Ok(())
}
pub fn check_trace(i: &Interpreter, s: &Spec) -> R {
    let p = "C03";
    let m = &i.matrix;
    same_len(p, "processor rows", m.processor_matrix.len(), s.rows.len())?;
    for (k, (a, b)) in m.processor_matrix.iter().zip(&s.rows).enumerate() {
        eq(p, format!("processor row {} cycle", k), &a.cycle, &fr(b.clk))?;
        eq(p, format!("processor row {} position", k), &a.instruction_pointer, &fr(b.ip))?;
        eq(p, format!("processor row {} current instruction", k), &a.current_instruction, &b.ci)?;
        eq(p, format!("processor row {} next instruction", k), &a.next_instruction, &b.ni)?;
        eq(p, format!("processor row {} cell pointer", k), &a.memory_pointer, &fr(b.mp))?;
        eq(p, format!("processor row {} cell value", k), &a.memory_value, &b.mv)?;
        if b.mv == Fr::zero() {
            eq(p, format!("processor row {} inverse of zero", k), &a.memory_value_inverse, &Fr::zero())?;
        } else {
            eq(p, format!("processor row {} value times inverse", k), &(a.memory_value_inverse * b.mv), &Fr::one())?;
        }
    }
    let mut mem: Vec<&Row> = s.rows.iter().collect();
    mem.sort_by_key(|r| (r.mp, r.clk));
    same_len(p, "memory rows", m.memory_matrix.len(), mem.len())?;
    for (k, (a, b)) in m.memory_matrix.iter().zip(mem).enumerate() {
        eq(p, format!("memory row {} cycle", k), &a.cycle, &fr(b.clk))?;
        eq(p, format!("memory row {} cell pointer", k), &a.memory_pointer, &fr(b.mp))?;
        eq(p, format!("memory row {} cell value", k), &a.memory_value, &b.mv)?;
    }
    let n = s.code.len();
    let at = |j: usize| if j < n { s.code[j] } else { Fr::zero() };
    let mut ins: Vec<(usize, Fr, Fr)> = (0..n).map(|j| (j, at(j), at(j + 1))).collect();
    ins.extend(s.rows.iter().map(|r| (r.ip, r.ci, r.ni)));
    ins.sort_by_key(|r| r.0);
    same_len(p, "instruction rows", m.instruction_matrix.len(), ins.len())?;
    for (k, (a, b)) in m.instruction_matrix.iter().zip(ins).enumerate() {
        eq(p, format!("instruction row {} position", k), &a.instruction_pointer, &fr(b.0))?;
        eq(p, format!("instruction row {} current", k), &a.current_instruction, &b.1)?;
        eq(p, format!("instruction row {} next", k), &a.next_instruction, &b.2)?;
    }
    same_len(p, "program listing", m.program.len(), n)?;
    for (k, (a, b)) in m.program.iter().zip(&s.code).enumerate() {
        eq(p, format!("program listing entry {}", k), a, b)?;
    }
    Ok(())
}
pub fn check_circuit(i: Interpreter, s: &Spec, challenges: &mut dyn FnMut(usize) -> Vec<Fr>) -> R {
    let p = "C04";
    let mut cs = ConstraintSystem::default();
    let config = MyCircuit::<Fr, DOMAIN>::configure(&mut cs);
    let mut code = vec![fr(s.code.len())];
    code.extend(&s.code);
    let mut input = vec![fr(s.input.len())];
    input.extend(&s.input);
    let instance = vec![code, input];
    let ch = challenges(cs.num_challenges());
    let mut rec = Rec::new(instance, ch);
    let circuit = MyCircuit::<Fr, DOMAIN>::new(i.matrix);
    <MyCircuit<Fr, DOMAIN> as Circuit<Fr>>::FloorPlanner::synthesize(&mut rec, &circuit, config, cs.constants().clone())
        .map_err(|e| Bad { prop: p, what: format!("synthesize: {:?}", e), model: now() })?;
    if !rec.unknown_advice.is_empty() {
        return Err(Bad { prop: p, what: "cell without a value".into(), model: now() });
    }
    let rows = rec.max_row + 2;
    for g in cs.gates() {
        for (pi, poly) in g.polynomials().iter().enumerate() {
            for r in 0..rows {
                let v = rec.eval(poly, r);
                let what = format!("gate polynomial {} at row {}", pi, r);
                if let Some(model) = sx::refute_zero(&v, &what) {
                    return Err(Bad { prop: p, what: format!("{} of gate {:?}: {}", what, gate_name(g), sx::show(&v)), model });
                }
            }
        }
    }
    for (k, l) in cs.lookups().iter().enumerate() {
        let mut table: Vec<Vec<Fr>> = vec![];
        for r in 0..rows.max(DOMAIN + 2) {
            let t: Vec<Fr> = l.table_expressions.iter().map(|e| rec.eval(e, r)).collect();
            table.push(t);
        }
        for r in 0..rows {
            let v: Vec<Fr> = l.input_expressions.iter().map(|e| rec.eval(e, r)).collect();
            let what = format!("lookup {} at row {}", k, r);
            if let Some(model) = sx::refute_in(&v, &table, &what) {
                return Err(Bad { prop: p, what: format!("{}: {:?}", what, v), model });
            }
        }
    }
    for (a, b) in rec.copies.iter() {
        eq(p, format!("copy {:?} = {:?}", a, b), &rec.any(a), &rec.any(b))?;
    }
    Ok(())
}
fn gate_name(g: &Gate<Fr>) -> String {
    format!("{:?}", g).chars().skip(6).take(60).collect()
}

/// One run: real interpreter vs specification. props: which to check.
pub fn check_run(
    props: &[String],
    spec: &Spec,
    mem0: &[Fr],
    unread: Vec<Fr>,
    challenges: &mut dyn FnMut(usize) -> Vec<Fr>,
) -> R {
    let mut i = Interpreter::new();
    i.set_code(spec.code.clone());
    let mut inp = spec.input.clone();
    let want = |p: &str| props.iter().any(|x| x == p);
    let unread_n = unread.len();
    inp.extend(unread);
    i.set_input(inp);
    if mem0.len() > 0 {
        // arbitrary starting state of the data tape
        i.memory = mem0.to_vec();
        i.register.memory_value = mem0[0];
        i.register.memory_value_inverse =
            if mem0[0] == Fr::zero() { Fr::zero() } else { mem0[0].invert().unwrap() };
    }
    i.run();
    if want("C02") {
        check_semantics(&i, spec, unread_n)?;
    }
    if want("C03") {
        check_trace(&i, spec)?;
    }
    if want("C04") && mem0.is_empty() && unread_n == 0 {
        check_circuit(i, spec, challenges)?;
    }
    Ok(())
}

#[cfg(not(feature = "sym"))]
pub fn native(props: &[String], toks: &str, input: &[u64], unread: &[u64], mem0: &[u64]) -> Result<(), Bad> {
    let (code, shape) = compile_ref(toks, |_| panic!());
    let inp: Vec<Fr> = input.iter().map(|x| Fr::from(*x)).collect();
    let mem: Vec<Fr> = if mem0.is_empty() { vec![Fr::zero()] } else { mem0.iter().map(|x| Fr::from(*x)).collect() };
    let s = match reference(&code, &shape, mem.clone(), 1 << 20, &mut |k| inp.get(k).cloned()) {
        SpecEnd::Done(s) => s,
        SpecEnd::Outside => {
            println!("outside the property's domain");
            return Ok(());
        }
    };
    let mut seed = 0x1234567u64;
    let mut ch = |n: usize| -> Vec<Fr> {
        (0..n)
            .map(|_| {
                let mut b = [0u64; 4];
                for x in b.iter_mut() {
                    seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    *x = seed >> 3;
                }
                b[3] >>= 5;
                Fr::from_raw(b)
            })
            .collect()
    };
    let un: Vec<Fr> = unread.iter().map(|x| Fr::from(*x)).collect();
    let m0: Vec<Fr> = if mem0.is_empty() { vec![] } else { mem };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_run(props, &s, &m0, un.clone(), &mut ch)));
    match r {
        Ok(x) => x?,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let prop: &'static str = if props.len() == 1 && props[0] == "C04" { "C04" } else if props[0] == "C03" { "C03" } else { "C02" };
            return Err(Bad { prop, what: format!("panic: {}", msg), model: Default::default() });
        }
    }
    if props.iter().any(|p| p == "C04") && mem0.is_empty() && unread.is_empty() {
        // the repository's own checker on the unmodified build
        let mut i = Interpreter::new();
        i.set_code(s.code.clone());
        i.set_input(s.input.clone());
        i.run();
        let mut c = vec![fr(s.code.len())];
        c.extend(&s.code);
        let mut inp = vec![fr(s.input.len())];
        inp.extend(&s.input);
        let rows = i.matrix.instruction_matrix.len() + 300;
        let k = (rows.next_power_of_two().trailing_zeros()).max(9);
        let prover = halo2_proofs::dev::MockProver::run(k, &MyCircuit::<Fr, DOMAIN>::new(i.matrix), vec![c, inp])
            .map_err(|e| Bad { prop: "C04", what: format!("MockProver::run {:?}", e), model: Default::default() })?;
        if let Err(e) = prover.verify() {
            return Err(Bad { prop: "C04", what: format!("MockProver: {}", format!("{:?}", e[0]).chars().take(300).collect::<String>()), model: Default::default() });
        }
    }
    Ok(())
}

#[cfg(feature = "sym")]
pub struct Found {
    pub prop: String,
    pub what: String,
    pub task: String,
    pub toks: String,
    pub input: Vec<String>,
    pub unread: Vec<String>,
    pub mem0: Vec<String>,
}
/// Explore all paths of one task: "<tokens>" or "<tokens>@m<k>" (k arbitrary cells) ,
/// with "+u" for an unread input byte at the end.
#[cfg(feature = "sym")]
pub fn run_task(task: &str, props: &[String], steps: usize, max_paths: u64) -> (Vec<Found>, bool, Vec<String>) {
    use std::cell::RefCell;
    let unread = task.ends_with("+u");
    let t0 = task.trim_end_matches("+u");
    let (toks, m) = match t0.split_once('@') {
        Some((a, b)) => (a.to_string(), b[1..].parse::<usize>().unwrap()),
        None => (t0.to_string(), 0),
    };
    let found: RefCell<Vec<Found>> = RefCell::new(vec![]);
    let errs: RefCell<Vec<String>> = RefCell::new(vec![]);
    let cur: RefCell<Option<Bad>> = RefCell::new(None);
    let nin = RefCell::new(0usize);
    let stage = RefCell::new("C02");
    let complete = sx::explore(
        &|| sx::reset(),
        max_paths,
        &mut || {
            *cur.borrow_mut() = None;
            *nin.borrow_mut() = 0;
            *stage.borrow_mut() = "spec";
            let (code, shape) = compile_ref(&toks, |i| {
                let v = sx::var(&format!("op{}", i), 43, 62);
                let t = sx::term(&v);
                let alts: Vec<String> = b"<>+-,.".iter().map(|o| format!("(= {} {})", t, o)).collect();
                sx::assume(&format!("(or {})", alts.join(" ")));
                v
            });
            let mem: Vec<Fr> = if m == 0 {
                vec![Fr::zero()]
            } else {
                (0..m).map(|k| sx::var(&format!("mem{}", k), 0, 255)).collect()
            };
            let mut read = |k: usize| {
                *nin.borrow_mut() = k + 1;
                Some(sx::var(&format!("in{}", k), 0, 255))
            };
            let spec = match reference(&code, &shape, mem.clone(), steps, &mut read) {
                SpecEnd::Done(s) => s,
                SpecEnd::Outside => sx::abandon(),
            };
            let un = if unread { vec![sx::var("unread", 0, 255)] } else { vec![] };
            *stage.borrow_mut() = "run";
            let m0 = if m == 0 { vec![] } else { mem };
            let r = check_run(props, &spec, &m0, un, &mut |n| {
                (0..n).map(|k| sx::challenge(&format!("ch{}", k))).collect()
            });
            if let Err(b) = r {
                *cur.borrow_mut() = Some(b);
            }
        },
        &mut |o| {
            let mut bad = cur.borrow_mut().take();
            if let sx::Outcome::Panic(msg, model) = o {
                if msg.starts_with("SYMERR") || *stage.borrow() == "spec" {
                    errs.borrow_mut().push(format!("{}: {}", task, msg));
                    return true;
                }
                bad = Some(Bad {
                    prop: if props.iter().any(|p| p == "C02") { "C02" } else if props.iter().any(|p| p == "C03") { "C03" } else { "C04" },
                    what: format!("panic: {}", msg),
                    model: model.unwrap_or_default(),
                });
            }
            if let Some(b) = bad {
                let get = |n: &str| b.model.get(n).cloned().unwrap_or("0".into());
                let mut tk = String::new();
                let mut pos = 0;
                for c in toks.chars() {
                    if c == '?' {
                        let v: u8 = get(&format!("op{}", pos)).parse().unwrap_or(b'+');
                        tk.push(v as char);
                        pos += 1;
                    } else {
                        tk.push(c);
                        pos += if c == '[' || c == ']' { 2 } else { 1 };
                    }
                }
                found.borrow_mut().push(Found {
                    prop: b.prop.into(),
                    what: b.what,
                    task: task.into(),
                    toks: tk,
                    input: (0..*nin.borrow()).map(|k| get(&format!("in{}", k))).collect(),
                    unread: if unread { vec![get("unread")] } else { vec![] },
                    mem0: (0..m).map(|k| get(&format!("mem{}", k))).collect(),
                });
                return found.borrow().len() < 3;
            }
            true
        },
    );
    (found.into_inner(), complete, errs.into_inner())
}
