//! C18, C19, C21: what key generation turns selectors, copies and constants into, and what a key
//! read back from its encoding means.
use crate::cx::Cx;
use crate::ideal::*;
use crate::plonk::*;
use crate::spec::*;
use crate::Case;
use ff::Field;
use halo2_proofs::plonk::*;
use halo2_proofs::SerdeFormat;
use halo2curves::bn256::{Fr, G1Affine};
use std::collections::BTreeMap;

fn a(c: usize, r: i32) -> E {
    E::Adv(c, r)
}
fn f(c: usize, r: i32) -> E {
    E::Fix(c, r)
}
fn i(c: usize, r: i32) -> E {
    E::Inst(c, r)
}
fn s(c: usize) -> E {
    E::Sel(c)
}
fn c(v: i64) -> E {
    E::C(v)
}
fn has_simple(e: &E, sp: &Spec) -> bool {
    match e {
        E::Sel(j) => sp.sels[*j],
        E::Neg(a) | E::Scale(a, _) => has_simple(a, sp),
        E::Sum(a, b) | E::Mul(a, b) => has_simple(a, sp) || has_simple(b, sp),
        _ => false,
    }
}
/// a cell value: generic variables per (kind, column, rotation), or fixed numbers
struct Cells {
    vars: std::cell::RefCell<BTreeMap<(u8, usize, i32), Fr>>,
}
fn cells(cx: &mut Cx, sp: &Spec) -> Cells {
    let mut m = BTreeMap::new();
    for r in -1..=1 {
        for q in 0..sp.adv.len() {
            m.insert((0, q, r), cx.generic(&format!("a{}_{}", q, r + 1)));
        }
        for q in 0..sp.inst {
            m.insert((1, q, r), cx.generic(&format!("i{}_{}", q, r + 1)));
        }
    }
    for q in 0..sp.chal.len() {
        m.insert((2, q, 0), cx.generic(&format!("ch{}", q)));
    }
    Cells { vars: std::cell::RefCell::new(m) }
}
impl Cells {
    fn get(&self, k: u8, q: usize, r: i32, sample: Option<u64>) -> Fr {
        match sample {
            None => self.vars.borrow()[&(k, q, r)],
            Some(s) => num(s * 1000 + (k as u64) * 300 + (q as u64) * 7 + (r + 1) as u64),
        }
    }
}
/// the fixed columns behind a key, as committed
fn fixed_of(cx: &mut Cx, vk: &VerifyingKey<G1Affine>) -> Vec<Vec<Fr>> {
    vk.fixed_commitments()
        .iter()
        .map(|p| match com(id(p)) {
            Com::Lagrange(v) => v,
            _ => {
                cx.yes(false, "fixed column committed in another form");
                vec![]
            }
        })
        .collect()
}
fn value_of(e: &Expression<Fr>, fixed: &[Vec<Fr>], row: usize, cl: &Cells, sample: Option<u64>) -> Fr {
    let n = fixed.get(0).map(|v| v.len()).unwrap_or(1);
    evalx(
        e,
        &|q, r| fixed[q][(row as i64 + r as i64).rem_euclid(n as i64) as usize],
        &|q, r| cl.get(0, q, r, sample),
        &|q, r| cl.get(1, q, r, sample),
        &|q| cl.get(2, q, 0, sample),
    )
}
fn wanted(e: &E, sp: &Spec, on: &[Vec<bool>], n: usize, row: usize, cl: &Cells, sample: Option<u64>) -> Fr {
    eval(e, &|x| match x {
        E::Sel(j) => {
            if on[*j].get(row).cloned().unwrap_or(false) {
                Fr::one()
            } else {
                Fr::zero()
            }
        }
        E::Fix(q, r) => {
            let p = (row as i64 + *r as i64).rem_euclid(n as i64) as usize;
            sp.fixed[*q].get(p).cloned().unwrap_or(Fr::zero())
        }
        E::Adv(q, r) => cl.get(0, *q, *r, sample),
        E::Inst(q, r) => cl.get(1, *q, *r, sample),
        E::Ch(q) => cl.get(2, *q, 0, sample),
        _ => unreachable!(),
    })
}
/// the compiled constraints of `vk` say, row by row, what the circuit says
fn same_meaning(cx: &mut Cx, vk: &VerifyingKey<G1Affine>, fixed: &[Vec<Fr>], sp: &Spec, on: &[Vec<bool>], rows: usize) {
    let n = 1usize << sp.k;
    let cl = cells(cx, sp);
    let cs = vk.cs();
    cx.yes(cs.gates().len() == sp.gates.len(), "number of gates");
    cx.yes(cs.lookups().len() == sp.lookups.len(), "number of lookups");
    cx.yes(fixed.iter().all(|v| v.len() == n), "length of the fixed columns");
    let list: Vec<usize> = (0..rows).chain([rows + 2, n - 1]).collect();
    for (g, want) in cs.gates().iter().zip(&sp.gates) {
        let polys: Vec<Expression<Fr>> = g.polynomials().to_vec();
        cx.yes(polys.len() == want.len(), "number of constraints in the gate");
        for (p, w) in polys.iter().zip(want) {
            for row in &list {
                // factor introduced by the combined selector
                let mut k = Fr::one();
                if has_simple(w, sp) {
                    for t in 1..4 {
                        let o = wanted(w, sp, on, n, *row, &cl, Some(t));
                        if !bool::from(o.is_zero()) {
                            k = value_of(p, fixed, *row, &cl, Some(t)) * o.invert().unwrap();
                            cx.yes(!bool::from(k.is_zero()), "constraint switched off on a row where its selector is on");
                            break;
                        }
                    }
                }
                let o = wanted(w, sp, on, n, *row, &cl, None);
                let v = value_of(p, fixed, *row, &cl, None);
                cx.eq(v, k * o, &format!("constraint on row {}", row));
            }
        }
    }
    for (l, want) in cs.lookups().iter().zip(&sp.lookups) {
        let (x, t) = (l.input_expressions(), l.table_expressions());
        cx.yes(x.len() == want.len() && t.len() == want.len(), "lookup width");
        for ((x, t), (wx, wt)) in x.iter().zip(t).zip(want) {
            for row in &list {
                let o = wanted(wx, sp, on, n, *row, &cl, None);
                let v = value_of(x, fixed, *row, &cl, None);
                cx.eq(v, o, &format!("lookup input on row {}", row));
                let o = wanted(wt, sp, on, n, *row, &cl, None);
                let v = value_of(t, fixed, *row, &cl, None);
                cx.eq(v, o, &format!("lookup table on row {}", row));
            }
        }
    }
}
/// chooses where the selectors are on
fn pattern(cx: &mut Cx, sp: &mut Spec, rows: usize) -> Vec<Vec<bool>> {
    let mut on = vec![];
    sp.sel_on = vec![];
    for j in 0..sp.sels.len() {
        let b: Vec<bool> = (0..rows).map(|r| cx.choose(&format!("s{}_{}", j, r), 2) == 1).collect();
        sp.sel_on.push((0..rows).filter(|r| b[*r]).collect());
        on.push(b);
    }
    on
}
fn base(k: u32) -> Spec {
    let mut sp = Spec::default();
    sp.k = k;
    sp.adv = vec![0; 3];
    sp.fix = 1;
    sp.inst = 1;
    sp
}
/// circuits with selectors: (name, circuit, rows with a chosen pattern)
fn sel_specs(tier: &str) -> Vec<(String, Spec, usize)> {
    let th = tier == "thorough";
    let mut v = vec![];
    let mut add = |name: &str, sels: Vec<bool>, gates: Vec<Vec<E>>, lk: Vec<Vec<(E, E)>>, deg: usize, rows: usize| {
        let mut sp = base(4);
        sp.sels = sels;
        sp.gates = gates;
        sp.lookups = lk;
        sp.min_degree = deg;
        sp.fixed = vec![(0..9).map(|r| num(40 + r)).collect()];
        v.push((name.to_string(), sp, rows));
    };
    add("no selectors", vec![], vec![vec![f(0, 0) * (a(0, 0) - a(1, 1))]], vec![], 0, 1);
    add("one simple", vec![true], vec![vec![s(0) * (a(0, 0) - a(1, 1))]], vec![], 0, 5);
    add("two simple, room for both", vec![true; 2], vec![vec![s(0) * (a(0, 0) - a(1, 1))], vec![s(1) * (a(2, 0) + i(0, 0)), s(1) * a(0, -1)]], vec![], 5, 4);
    add("two simple, no room", vec![true; 2], vec![vec![s(0) * a(0, 0) * a(1, 0)], vec![s(1) * a(2, 0) * a(1, 1)]], vec![], 0, 4);
    add("three simple of different degree", vec![true; 3], vec![vec![s(0) * a(0, 0)], vec![s(1) * a(1, 0) * a(2, 0)], vec![s(2) * a(0, 1) * a(1, 1) * a(2, 1)]], vec![], 5, 3);
    add("three simple, room for three", vec![true; 3], vec![vec![s(0) * a(0, 0)], vec![s(1) * (a(1, 0) - c(2))], vec![s(2) * (a(0, 1) * 3 - i(0, 1))]], vec![], 4, 3);
    add("complex between simple", vec![true, false, true], vec![vec![s(0) * a(0, 0)], vec![s(1) * a(1, 0) + a(2, 0)], vec![s(2) * s(1) * a(1, 0)]], vec![vec![(s(1) * a(0, 0), f(0, 0))]], 6, 3);
    add("two complex in lookups", vec![false, false], vec![vec![a(0, 0) - f(0, 1)]], vec![vec![(s(1) * a(0, 0), s(0) * f(0, 0)), (s(0) * a(1, 0) + a(2, 1), s(1))]], 0, 4);
    add("unused selector", vec![true, true, true], vec![vec![s(0) * a(0, 0)], vec![s(2) * a(1, 0)]], vec![], 5, 3);
    add("one selector in several gates", vec![true, true], vec![vec![s(0) * a(0, 0), s(0) * (a(1, 0) * a(1, 1) - a(2, 0))], vec![s(1) * a(0, 1)], vec![s(0) * (c(1) - a(0, 0)) * a(0, 0)]], vec![], 5, 4);
    add("sums and negations", vec![true, true], vec![vec![(a(0, 0) - a(1, 0)) * s(0), E::Neg(Box::new(s(0) * a(2, 0)))], vec![(s(1) * (a(0, 1) + c(5))) * 7]], vec![], 4, 4);
    add("gate without a selector", vec![true, true], vec![vec![a(0, 0) * f(0, 0) - i(0, 0), s(0) * a(1, 0)], vec![s(1) * f(0, 1) * a(2, 0)]], vec![], 6, 4);
    add("four simple", vec![true; 4], (0..4).map(|j| vec![s(j) * (a(j % 3, 0) - c(j as i64))]).collect(), vec![], 4, if th { 3 } else { 2 });
    // a selector in two constraints of different degree, next to one it may share a column with
    let deg = |q: usize, d: usize| (0..d).fold(s(q), |e, j| e * a(j % 3, (j / 3) as i32));
    for d1 in 1..4 {
        for d2 in 1..4 {
            for d3 in [1, 3] {
                let g = vec![vec![deg(0, d1)], vec![deg(0, d2)], vec![deg(1, d3)]];
                add(&format!("degrees {} {} and {}", d1, d2, d3), vec![true; 2], g.clone(), vec![], 0, 2);
                add(&format!("degrees {} {} and {} in one gate", d1, d2, d3), vec![true; 2], vec![g[0].iter().chain(g[2].iter()).chain(g[1].iter()).cloned().collect()], vec![], 5, 2);
            }
        }
    }
    if th {
        add("five simple", vec![true; 5], (0..5).map(|j| vec![s(j) * (a(j % 3, 0) - c(j as i64))]).collect(), vec![], 5, 2);
        add("three simple, longer", vec![true; 3], vec![vec![s(0) * a(0, 0)], vec![s(1) * (a(1, 0) - c(2)) * a(0, 0)], vec![s(2) * (a(0, 1) * 3 - i(0, 1))]], vec![], 5, 4);
    }
    v
}
pub fn selectors(v: &mut Vec<Case>, tier: &str) {
    for (name, sp, rows) in sel_specs(tier) {
        v.push((
            format!("selectors: {}", name),
            Box::new(move |cx: &mut Cx| {
                cx.expand::<Fr>();
                reset();
                let mut sp = sp.clone();
                let on = pattern(cx, &mut sp, rows);
                install(&sp);
                let mut plain = ConstraintSystem::default();
                let _ = SpecCircuit::configure(&mut plain);
                let p = params(sp.k);
                let vk = keygen_vk::<G1Affine, _, _>(&p, &SpecCircuit::default()).unwrap();
                let fixed = fixed_of(cx, &vk);
                cx.yes(vk.cs().degree() <= plain.degree(), "degree raised");
                same_meaning(cx, &vk, &fixed, &sp, &on, rows);
                for q in 0..sp.fix {
                    for r in 0..(1usize << sp.k) {
                        let w = sp.fixed[q].get(r).cloned().unwrap_or(Fr::zero());
                        cx.eq(fixed[q][r], w, "fixed column");
                    }
                }
            }),
        ));
    }
}
// ---------------------------------------------------------------- copies
fn copies_case(cx: &mut Cx, sp: &Spec, cellset: &[(Col, usize)], copies: Vec<(usize, usize)>) {
    reset();
    let mut sp = sp.clone();
    sp.copies = copies.iter().map(|(x, y)| (cellset[*x], cellset[*y])).collect();
    install(&sp);
    let vk = keygen_vk::<G1Affine, _, _>(&params(sp.k), &SpecCircuit::default()).unwrap();
    let n = 1usize << sp.k;
    let w = omega(sp.k);
    let cols: Vec<Column<Any>> = vk.cs().permutation().get_columns();
    let name = |c: &Column<Any>| match c.column_type() {
        Any::Advice(_) => Col::A(c.index()),
        Any::Fixed => Col::F(c.index()),
        Any::Instance => Col::I(c.index()),
    };
    for q in &sp.eqs {
        cx.yes(cols.iter().filter(|x| name(x) == *q).count() == 1, "column takes part in the permutation once");
    }
    let sigma: Vec<Vec<Fr>> = vk
        .permutation()
        .commitments()
        .iter()
        .map(|p| match com(id(p)) {
            Com::Lagrange(v) => v,
            _ => vec![],
        })
        .collect();
    cx.yes(sigma.len() == cols.len() && sigma.iter().all(|v| v.len() == n), "shape of the permutation");
    let mut label = std::collections::HashMap::new();
    let mut d = Fr::one();
    for j in 0..cols.len() {
        let mut x = d;
        for r in 0..n {
            label.insert(ff::PrimeField::to_repr(&x), j * n + r);
            x *= w;
        }
        d *= <Fr as halo2curves::FieldExt>::DELTA;
    }
    cx.yes(label.len() == n * cols.len(), "labels of cells are distinct");
    let mut map = vec![];
    for j in 0..cols.len() {
        for r in 0..n {
            match label.get(&ff::PrimeField::to_repr(&sigma[j][r])) {
                Some(t) => map.push(*t),
                None => {
                    cx.yes(false, "not the label of a cell");
                    return;
                }
            }
        }
    }
    let mut hit = vec![false; map.len()];
    map.iter().for_each(|t| hit[*t] = true);
    cx.yes(hit.iter().all(|b| *b), "permutation is one to one");
    let pos = |p: &(Col, usize)| cols.iter().position(|x| name(x) == p.0).map(|j| j * n + p.1);
    let want: Vec<(usize, usize)> = sp.copies.iter().map(|(x, y)| (pos(x).unwrap(), pos(y).unwrap())).collect();
    let got: Vec<(usize, usize)> = map.iter().enumerate().filter(|(x, y)| x != *y).map(|(x, y)| (x, *y)).collect();
    cx.same_classes(&want, &got, "copied cells");
}
pub fn copies(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    let mk = |eqs: Vec<Col>, adv: usize| {
        let mut sp = base(4);
        sp.adv = vec![0; adv];
        sp.eqs = eqs;
        sp.gates = vec![vec![a(0, 0) - f(0, 0)]];
        sp.fixed = vec![(0..6).map(|r| num(40 + r)).collect()];
        sp.advice = (0..adv).map(|q| (0..6).map(|r| num((90 + q * 10 + r) as u64)).collect()).collect();
        sp
    };
    let two = mk(vec![Col::A(1), Col::F(0), Col::A(0)], 2);
    let set2: Vec<(Col, usize)> = vec![(Col::A(0), 0), (Col::A(0), 5), (Col::A(1), 0), (Col::A(1), 3), (Col::F(0), 0), (Col::F(0), 2)];
    let one = mk(vec![Col::A(0)], 1);
    let set1: Vec<(Col, usize)> = (0..4).map(|r| (Col::A(0), r)).collect();
    let tri = mk(vec![Col::A(2), Col::A(0), Col::A(1)], 3);
    let set3: Vec<(Col, usize)> = (0..3).flat_map(|q| [(Col::A(q), 1), (Col::A(q), 2)]).collect();
    let list: Vec<(&str, &Spec, &Vec<(Col, usize)>, usize, usize)> = vec![
        ("two copies among six cells of three columns", &two, &set2, 2, 0),
        ("three copies among six cells, first fixed", &tri, &set3, 3, 1),
        ("copies among four cells of a column", &one, &set1, if th { 4 } else { 3 }, 0),
    ];
    for (nm, sp, set, len, fixed) in list {
        let firsts: Vec<Option<usize>> = if fixed == 1 { (0..set.len()).map(Some).collect() } else { (0..set.len()).map(Some).collect() };
        for first in firsts {
            let (sp, set) = (sp.clone(), set.clone());
            v.push((
                format!("copies: {}, {} from {}", nm, len, first.unwrap()),
                Box::new(move |cx: &mut Cx| {
                    let m = set.len();
                    let mut cp = vec![];
                    for l in 0..len {
                        let x = if l == 0 { first.unwrap() } else { cx.choose(&format!("l{}", l), m) };
                        let y = if fixed == 1 && l == 0 { (x + 1) % m } else { cx.choose(&format!("r{}", l), m) };
                        cp.push((x, y));
                    }
                    copies_case(cx, &sp, &set, cp);
                }),
            ));
        }
    }
    // chains and merges of larger classes
    let chain = mk(vec![Col::A(0), Col::A(1)], 2);
    let by_col: Vec<(Col, usize)> = (0..2).flat_map(|q| (0..5).map(move |r| (Col::A(q), r))).collect();
    let by_row: Vec<(Col, usize)> = (0..10).map(|t| (Col::A(t % 2), t / 2)).collect();
    for (lay, setc) in [("by column", by_col), ("by row", by_row)] {
        for t in 0..setc.len() {
            let (sp, set) = (chain.clone(), setc.clone());
            v.push((
                format!("copies: two chains of up to five {}, joined from {}", lay, t),
                Box::new(move |cx: &mut Cx| {
                    // two chains, a cell of each joined, then one more copy
                    let la = [0, 1, 2, 4][cx.choose("la", 4)];
                    let lb = [0, 1, 2, 4][cx.choose("lb", 4)];
                    let mut cp: Vec<(usize, usize)> = (0..la).map(|r| (r, r + 1)).chain((0..lb).map(|r| (5 + r, 6 + r))).collect();
                    cp.push((t, cx.choose("join", 10)));
                    cp.push(([0, 1, 4, 6][cx.choose("x", 4)], [1, 9][cx.choose("y", 2)]));
                    copies_case(cx, &sp, &set, cp);
                }),
            ));
        }
    }
    // instance cells
    let inst = mk(vec![Col::A(0), Col::I(0)], 1);
    v.push((
        "copies: to instance cells".to_string(),
        Box::new(move |cx: &mut Cx| {
            let set: Vec<(Col, usize)> = (0..3).map(|r| (Col::A(0), r)).chain((0..4).map(|r| (Col::I(0), r))).collect();
            let mut cp = vec![];
            for l in 0..2 {
                cp.push((cx.choose(&format!("l{}", l), 3), 3 + cx.choose(&format!("r{}", l), 4)));
            }
            cp.insert(0, (cx.choose("p", 3), cx.choose("q", 3)));
            copies_case(cx, &inst, &set, cp);
        }),
    ));
    // a column outside the permutation cannot be copied
    let out = mk(vec![Col::A(0)], 2);
    v.push((
        "copies: column without equality enabled".to_string(),
        Box::new(move |cx: &mut Cx| {
            reset();
            let mut sp = out.clone();
            let (x, y) = (cx.choose("x", 2), cx.choose("y", 2));
            sp.copies = vec![((Col::A(x), 1), (Col::A(y), 2))];
            install(&sp);
            let r = keygen_vk::<G1Affine, _, _>(&params(sp.k), &SpecCircuit::default());
            cx.yes(r.is_ok() == (x == 0 && y == 0), "copy on a column without equality");
        }),
    ));
}
// ---------------------------------------------------------------- keys read back
fn formats() -> Vec<(&'static str, SerdeFormat)> {
    vec![("Processed", SerdeFormat::Processed), ("RawBytes", SerdeFormat::RawBytes), ("RawBytesUnchecked", SerdeFormat::RawBytesUnchecked)]
}
fn same_key(cx: &mut Cx, vk: &VerifyingKey<G1Affine>, vk2: &VerifyingKey<G1Affine>) {
    cx.yes(vk.fixed_commitments() == vk2.fixed_commitments(), "fixed commitments");
    cx.yes(vk.permutation().commitments() == vk2.permutation().commitments(), "permutation commitments");
    cx.yes(vk.get_domain().k() == vk2.get_domain().k(), "size");
    let (c1, c2) = (vk.cs(), vk2.cs());
    cx.yes(c1.degree() == c2.degree(), "degree");
    cx.yes(c1.num_fixed_columns() == c2.num_fixed_columns(), "fixed columns");
    cx.yes(c1.fixed_queries() == c2.fixed_queries() && c1.advice_queries() == c2.advice_queries() && c1.instance_queries() == c2.instance_queries(), "queries");
    cx.yes(format!("{:?}", vk.pinned()) == format!("{:?}", vk2.pinned()), "pinned form");
    let repr = |k: &VerifyingKey<G1Affine>| {
        let mut t = Tr::new(|_| Fr::zero());
        k.hash_into(&mut t).unwrap();
        match &t.log[..] {
            [Ev::CommonSc(x)] => Some(*x),
            _ => None,
        }
    };
    match (repr(vk), repr(vk2)) {
        (Some(x), Some(y)) => cx.eq(x, y, "transcript representation"),
        _ => cx.yes(false, "transcript representation"),
    }
}
pub fn keyio(v: &mut Vec<Case>, tier: &str) {
    for (fname, _) in formats() {
        for (name, sp, rows) in sel_specs(tier) {
            let fname = fname.to_string();
            v.push((
                format!("keys: {}, {}", fname, name),
                Box::new(move |cx: &mut Cx| {
                    let fmt = formats().into_iter().find(|x| x.0 == fname).unwrap().1;
                    cx.expand::<Fr>();
                    reset();
                    let mut sp = sp.clone();
                    sp.eqs = vec![Col::A(1), Col::A(0)];
                    let rows = rows.min(3);
                    let on = pattern(cx, &mut sp, rows);
                    install(&sp);
                    let p = params(sp.k);
                    let vk = keygen_vk::<G1Affine, _, _>(&p, &SpecCircuit::default()).unwrap();
                    let fixed = fixed_of(cx, &vk);
                    let mut buf: Vec<u8> = vec![];
                    vk.write(&mut buf, fmt).unwrap();
                    let mut rest = &buf[..];
                    let vk2 = VerifyingKey::<G1Affine>::read::<&[u8], SpecCircuit>(&mut rest, fmt);
                    cx.yes(vk2.is_ok() && rest.is_empty(), "key read back");
                    let vk2 = match vk2 {
                        Ok(k) => k,
                        Err(_) => return,
                    };
                    same_key(cx, &vk, &vk2);
                    same_meaning(cx, &vk2, &fixed, &sp, &on, rows);
                    let b = vk.to_bytes(fmt);
                    cx.yes(b == buf, "to_bytes");
                    match VerifyingKey::<G1Affine>::from_bytes::<SpecCircuit>(&b, fmt) {
                        Ok(k) => same_key(cx, &vk, &k),
                        Err(_) => cx.yes(false, "from_bytes"),
                    }
                }),
            ));
        }
    }
}

fn transcript(pk: &ProvingKey<G1Affine>, p: &IdParams, circ: &[SpecCircuit], inst: &[Vec<Vec<Fr>>]) -> Result<Vec<Ev>, String> {
    let iv: Vec<Vec<&[Fr]>> = inst.iter().map(|i| i.iter().map(|c| &c[..]).collect()).collect();
    let iv2: Vec<&[&[Fr]]> = iv.iter().map(|i| &i[..]).collect();
    let mut tw = Tr::new(|i| num(700 + i as u64));
    create_proof::<Ideal, IdProver<false>, Ch, _, _, _>(p, pk, circ, &iv2, Rng(1), &mut tw).map_err(|e| format!("{:?}", e))?;
    Ok(tw.log.clone())
}
/// every kind of expression, through the encoding of a selector assignment
fn expressions(v: &mut Vec<Case>) {
    for (fname, _) in formats() {
        v.push((
            format!("keys: {}, expressions", fname),
            Box::new(move |cx: &mut Cx| {
                let fmt = formats().into_iter().find(|x| x.0 == fname).unwrap().1;
                let rot = cx.choose("rotation", 7) as i32 - 3;
                let kind = cx.choose("kind", 8);
                let mut sp = base(4);
                sp.adv = vec![0, 1, 2];
                sp.chal = vec![0, 1];
                sp.fix = 2;
                sp.inst = 2;
                sp.sels = vec![true, false];
                // earlier queries, so that indices differ from columns
                sp.gates.push(vec![a(2, 1) * a(1, 0) + f(1, 0) * i(1, 0) + a(0, 0)]);
                let e = match kind {
                    0 => s(1) * s(1) - c(-1),
                    1 => s(0) * a(1, rot),
                    2 => f(0, rot) * c(77) + f(1, 0),
                    3 => i(1, rot) - i(0, 0) * i(1, 0),
                    4 => a(2, rot) * a(0, 0) + a(1, -rot),
                    5 => E::Ch(0) * a(2, 0) + E::Ch(1),
                    6 => E::Neg(Box::new(a(0, rot) + c(-5))) * (f(0, 0) - f(1, rot)),
                    _ => (a(2, rot) * 9) * -4 + c(0),
                };
                sp.gates.push(vec![e]);
                install(&sp);
                let mut cs = ConstraintSystem::default();
                let _ = SpecCircuit::configure(&mut cs);
                let (n, m) = (cx.choose("selector", 3) * 300, cx.choose("combination", 3) * 70000);
                for g in cs.gates() {
                    for e in g.polynomials() {
                        let x = SelectorAssignment { selector: n, combination_index: m, expression: e.clone() };
                        let mut buf: Vec<u8> = vec![];
                        x.write(&mut buf, fmt).unwrap();
                        let mut rest = &buf[..];
                        let y = SelectorAssignment::<Fr>::read(&mut rest, fmt);
                        cx.yes(rest.is_empty(), "everything read");
                        match y {
                            Ok(y) => {
                                cx.yes(y.selector == n && y.combination_index == m, "indices");
                                cx.yes(format!("{:?}", y.expression) == format!("{:?}", e), "expression");
                            }
                            Err(_) => cx.yes(false, "read"),
                        }
                    }
                }
            }),
        ));
    }
}
pub fn keyio2(v: &mut Vec<Case>, _tier: &str) {
    expressions(v);
    for (fname, _) in formats() {
        let name = fname.to_string();
        v.push((
            format!("keys: {}, proving key", fname),
            Box::new(move |cx: &mut Cx| {
                let fmt = formats().into_iter().find(|x| x.0 == name).unwrap().1;
                cx.expand::<Fr>();
                reset();
                let mut sp = base(4);
                sp.sels = vec![true, false, true];
                sp.gates = vec![vec![s(0) * (a(0, 0) * a(1, 0) - a(2, 0))], vec![s(2) * (a(0, 0) - i(0, 0))]];
                sp.lookups = vec![vec![(s(1) * a(1, 1), s(1) * a(1, 1))]];
                sp.eqs = vec![Col::A(2), Col::A(0)];
                sp.copies = vec![((Col::A(2), 1), (Col::A(0), 2))];
                sp.min_degree = 6;
                let b: Vec<Vec<bool>> = (0..3).map(|j| (0..2).map(|r| cx.choose(&format!("s{}_{}", j, r), 2) == 1).collect()).collect();
                sp.sel_on = b.iter().map(|l| (0..2).filter(|r| l[*r]).collect()).collect();
                sp.fixed = vec![vec![num(3); 4]];
                let x: Fr = cx.generic("x");
                let mut adv: Vec<Vec<Fr>> = (0..3).map(|q| (0..4).map(|r| num(10 * q + r)).collect()).collect();
                adv[0][0] = x;
                sp.advice = adv;
                install(&sp);
                let p = params(sp.k);
                let vk = keygen_vk::<G1Affine, _, _>(&p, &SpecCircuit::default()).unwrap();
                let pk = keygen_pk::<G1Affine, _, _>(&p, vk, &SpecCircuit::default()).unwrap();
                let mut buf: Vec<u8> = vec![];
                pk.write(&mut buf, fmt).unwrap();
                let mut rest = &buf[..];
                let pk2 = ProvingKey::<G1Affine>::read::<&[u8], SpecCircuit>(&mut rest, fmt);
                cx.yes(pk2.is_ok() && rest.is_empty(), "key read back");
                let pk2 = match pk2 {
                    Ok(k) => k,
                    Err(_) => return,
                };
                same_key(cx, pk.get_vk(), pk2.get_vk());
                cx.yes(pk.to_bytes(fmt) == buf && pk2.to_bytes(fmt) == buf, "to_bytes");
                let inst = vec![vec![vec![x]]];
                let (l1, l2) = (transcript(&pk, &p, &[SpecCircuit::default()], &inst), transcript(&pk2, &p, &[SpecCircuit::default()], &inst));
                match (l1, l2) {
                    (Ok(l1), Ok(l2)) => {
                        cx.yes(l1.len() == l2.len(), "proof length");
                        for (x, y) in l1.iter().zip(&l2) {
                            match (x, y) {
                                (Ev::Pt(x), Ev::Pt(y)) | (Ev::CommonPt(x), Ev::CommonPt(y)) => {
                                    let g = |i: usize| match com(i) {
                                        Com::Lagrange(v) => v,
                                        Com::Coeff(v) => v,
                                        Com::Opaque => vec![],
                                    };
                                    cx.eqs(&g(*x), &g(*y), "committed polynomial")
                                }
                                (Ev::Sc(x), Ev::Sc(y)) | (Ev::CommonSc(x), Ev::CommonSc(y)) => cx.eq(*x, *y, "scalar"),
                                (Ev::Chal(_), Ev::Chal(_)) => {}
                                _ => cx.yes(false, "message kind"),
                            }
                        }
                    }
                    _ => cx.yes(false, "proof by the key read back"),
                }
            }),
        ));
        let name = fname.to_string();
        v.push((
            format!("keys: {}, brainfuck circuit", fname),
            Box::new(move |cx: &mut Cx| {
                use ckb_bf_base::main_config::MyCircuit;
                use ckb_bf_base::utils::DOMAIN;
                let fmt = formats().into_iter().find(|x| x.0 == name).unwrap().1;
                reset();
                let prog = [",.", ",[->+<]>.", "+++>,<[>+.<-]", ""][cx.choose("program", 3)];
                let mut it = ckb_bf_vm::interpreter::Interpreter::new();
                it.set_code(ckb_bf_vm::code::compile(prog.as_bytes().to_vec()));
                it.set_input(vec![Fr::from(2)]);
                it.run();
                let circuit = MyCircuit::<Fr, DOMAIN>::new(it.matrix);
                let vk = keygen_vk::<G1Affine, _, _>(&params(9), &circuit).unwrap();
                let mut buf: Vec<u8> = vec![];
                vk.write(&mut buf, fmt).unwrap();
                let mut rest = &buf[..];
                match VerifyingKey::<G1Affine>::read::<&[u8], MyCircuit<Fr, DOMAIN>>(&mut rest, fmt) {
                    Ok(k) => {
                        cx.yes(rest.is_empty(), "everything read");
                        same_key(cx, &vk, &k)
                    }
                    Err(_) => cx.yes(false, "key read back"),
                }
            }),
        ));
    }
}
// ---------------------------------------------------------------- lookups
pub fn lookups(v: &mut Vec<Case>, tier: &str) {
    let th = tier == "thorough";
    // (name, input column, table column): numbers, or 100+j for the j-th unknown in 0..=top
    let u = |j: u64| 100 + j;
    let mut list: Vec<(&str, Vec<u64>, Vec<u64>, i64)> = vec![
        ("one unknown input", vec![1, u(0), 2, 1, 1, 1, 1, 1, 1, 1], vec![1, 2, 5, 2, 1, 1, 1, 1, 1, 4], 2000),
        ("unknown input on the first row", vec![u(0), 3, 2, 3, 1, 1, 1, 1, 1, 1], vec![5, 2, 3, 2, 1, 1, 1, 1, 1, 1], 2000),
        ("unknown input on the last row", vec![1, 3, 2, 3, 1, 1, 1, 1, 1, u(0)], vec![5, 2, 3, 2, 1, 1, 1, 1, 1, 1], 2000),
        ("two unknown inputs", vec![2, u(0), 2, u(1), 1, 1, 1, 1, 1, 1], vec![5, 2, 3, 2, 1, 1, 1, 1, 1, 1], 2000),
        ("unknown table entry", vec![2, 4, 4, 2, 1, 1, 1, 1, 1, 1], vec![5, 2, u(0), 2, 1, 1, 1, 1, 1, 1], 2000),
        ("unknown last table entry", vec![2, 4, 2, 2, 2, 2, 2, 2, 2, 4], vec![5, 2, 3, 2, 6, 7, 8, 9, 10, u(0)], 2000),
        ("unknown input and table entry", vec![2, u(1), 2, 2, 1, 1, 1, 1, 1, 1], vec![5, 2, u(0), 2, 1, 1, 1, 1, 1, 1], 2000),
        ("distinct inputs", vec![10, 9, 8, 7, u(0), 5, 4, 3, 2, 1], vec![1, 2, 3, 4, 5, u(0), 7, 8, 9, 10], 2000),
        ("distinct inputs, one missing", vec![10, 9, 8, 7, u(0), 5, 4, 3, 2, 1], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10], 2000),
        ("zero rows", vec![0, 0, u(0), 0, 0, 0, 0, 0, 0, 0], vec![u(1), 0, 0, 0, 0, 0, 0, 0, 0, 0], 2000),
    ];
    list.push(("two unknown table entries and an input", vec![2, u(2), 2, 3, 1, 1, 1, 1, 1, 1], vec![5, 2, u(0), u(1), 1, 1, 1, 1, 1, 1], 2000));
    if th {
        list.push(("three unknown inputs", vec![2, u(0), 2, u(1), u(2), 1, 1, 1, 1, 1], vec![5, 2, 3, 2, 1, 1, 1, 1, 1, 1], 2000));
        list.push(("two unknown table entries and two inputs", vec![2, u(2), 2, 3, 1, u(3), 1, 1, 1, 1], vec![5, 2, u(0), u(1), 1, 1, 1, 1, 1, 1], 2000));
    }
    for (name, xs, ts, top) in list {
        for form in 0..3usize {
            let (xs, ts) = (xs.clone(), ts.clone());
            v.push((
                format!("lookup: {}, {}", name, ["one column", "two columns", "switched by a fixed column"][form]),
                Box::new(move |cx: &mut Cx| {
                    let mut sp = base(4);
                    sp.fix = 2;
                    sp.gates = vec![vec![f(0, 0) * (a(2, 0) - f(0, 0))]];
                    let m = 10;
                    let un: Vec<Fr> = (0..4).map(|j| if xs.contains(&u(j)) || ts.contains(&u(j)) { cx.small(&format!("u{}", j), 0, top) } else { Fr::zero() }).collect();
                    let put = |l: &[u64]| l.iter().map(|x| if *x >= 100 { un[(*x - 100) as usize] } else { Fr::from(*x) }).collect::<Vec<Fr>>();
                    let (x, t) = (put(&xs), put(&ts));
                    sp.fixed = vec![vec![Fr::from(3); m], (0..m).map(|r| if r % 2 == 1 { Fr::one() } else { Fr::zero() }).collect()];
                    sp.advice = vec![x.clone(), t.clone(), vec![Fr::from(3); m]];
                    sp.lookups = match form {
                        0 => vec![vec![(a(0, 0), a(1, 0))]],
                        1 => vec![vec![(a(0, 0), a(1, 0)), (a(2, 0), f(0, 0))]],
                        _ => vec![vec![(f(1, 0) * a(0, 0) + (c(1) - f(1, 0)) * 2, a(1, 0))]],
                    };
                    let inp: Vec<Fr> = match form {
                        2 => (0..m).map(|r| if r % 2 == 1 { x[r] } else { Fr::from(2) }).collect(),
                        _ => x,
                    };
                    let r = roundtrip(cx, &sp, &[SpecCircuit::default()], false, vec![vec![vec![]]], &|n, _| if n == 0 { Fr::from(17) } else { num(n as u64 + 500) });
                    // every input is in the table
                    let ok = inp.iter().all(|x| t.iter().any(|y| x == y));
                    match r {
                        Ok(()) => cx.yes(ok, "a proof for an input missing from the table"),
                        Err(e) => {
                            cx.yes(e.contains("ConstraintSystemFailure"), &e);
                            cx.yes(!ok, "no proof although every input is in the table");
                        }
                    }
                }),
            ));
        }
    }
}
