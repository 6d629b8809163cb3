mod curve;
mod codec;
mod cx;
mod ext;
mod ideal;
mod keys;
mod kzg;
mod loggroup;
mod plonk;
mod poly;
mod posei;
mod spec;
use cx::{Cx, Failure, Model, Skip};

pub type Case = (String, Box<dyn Fn(&mut Cx) + Send + Sync>);
pub fn cases(group: &str, tier: &str) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    match group {
        "ext" => ext::cases(&mut v, tier),
        "curve" => curve::cases(&mut v, tier),
        "selectors" => keys::selectors(&mut v, tier),
        "copies" => keys::copies(&mut v, tier),
        "lookups" => keys::lookups(&mut v, tier),
        "keyio" => {
            keys::keyio(&mut v, tier);
            keys::keyio2(&mut v, tier)
        }
        "plonk" => plonk::cases(&mut v, tier),
        "kzg" => kzg::cases(&mut v, tier),
        "codec" => codec::cases(&mut v, tier),
        "poseidon" => posei::cases(&mut v, tier),
        "poly" => poly::cases(&mut v, tier),
        x => panic!("unknown group {}", x),
    }
    v
}
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).map(|i| a[i + 1].clone())
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_model(m: &Model) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", esc(k), esc(v))).collect();
    format!("{{{}}}", v.join(","))
}
fn pmsg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// replay: stdin lines  case \t k=v,k=v ; prints HOLDS / FAILS what / SKIP
#[cfg(not(feature = "sym"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let tier = arg(&a, "--tier").unwrap_or("quick".into());
    let cs = cases(&arg(&a, "--group").unwrap(), &tier);
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let (name, m) = l.split_once('\t').unwrap();
        let m: Model = m
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.split_once('=').unwrap())
            .map(|(k, v)| (k.to_string(), v.to_string()))
            .collect();
        let c = cs.iter().find(|c| c.0 == name).unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut cx = Cx::new(Some(m));
            (c.1)(&mut cx);
            cx
        }));
        match r {
            Ok(cx) if cx.fails.is_empty() => println!("HOLDS"),
            Ok(cx) => println!("FAILS {}", cx.fails[0].what.replace('\n', " ")),
            Err(p) if p.downcast_ref::<Skip>().is_some() => println!("SKIP"),
            Err(p) => println!("FAILS panic: {}", pmsg(&p).replace('\n', " ")),
        }
    }
}

#[cfg(feature = "sym")]
fn main() {
    use halo2curves::symcore::{explore, with, Outcome};
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("SYM_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let tier = arg(&a, "--tier").unwrap_or("quick".into());
    let only = arg(&a, "--case");
    let cs: Vec<Case> = cases(&arg(&a, "--group").unwrap(), &tier)
        .into_iter()
        .filter(|c| only.as_ref().map_or(true, |o| c.0.starts_with(o.as_str())))
        .collect();
    let cs = std::sync::Arc::new(cs);
    let threads: usize = arg(&a, "--threads").unwrap_or("8".into()).parse().unwrap();
    let budget: u64 = arg(&a, "--seconds").unwrap_or("100000".into()).parse().unwrap();
    let maxp: u64 = arg(&a, "--max-paths").unwrap_or("100000".into()).parse().unwrap();
    let start = std::time::Instant::now();
    let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (next, cs) = (next.clone(), cs.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= cs.len() {
                        break;
                    }
                    let (name, f) = (&cs[i].0, &cs[i].1);
                    if start.elapsed().as_secs() > budget {
                        println!("{{\"case\":{},\"skipped\":true}}", esc(name));
                        continue;
                    }
                    with(|e| {
                        e.stats = Default::default();
                        e.inconclusive.clear();
                        e.identities = 0;
                    });
                    let t1 = std::time::Instant::now();
                    let cell = std::cell::RefCell::new(Cx::new(None));
                    let mut fails: Vec<Failure> = vec![];
                    let mut errs: Vec<String> = vec![];
                    let (mut checks, mut idents) = (0, 0);
                    let mut tally = |cx: &mut Cx, fails: &mut Vec<Failure>| {
                        checks += cx.checks;
                        idents += cx.idents;
                        fails.append(&mut cx.fails);
                    };
                    let complete = explore(
                        &|| {
                            halo2curves::bn256::Fr::sym_reset();
                            halo2curves::bn256::Fq::sym_reset();
                            halo2curves::secp256k1::Fp::sym_reset();
                            halo2curves::bn256::Fr::sym_expand_all(false);
                            halo2curves::bn256::Fq::sym_expand_all(false);
                            halo2curves::secp256k1::Fp::sym_expand_all(false);
                        },
                        maxp,
                        &mut || {
                            *cell.borrow_mut() = Cx::new(None);
                            let mut cx = Cx::new(None);
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
                            *cell.borrow_mut() = cx;
                            if let Err(p) = r {
                                std::panic::resume_unwind(p);
                            }
                        },
                        &mut |o| {
                            let mut cx = cell.borrow_mut();
                            match o {
                                Outcome::Ok => {}
                                Outcome::Abandoned => {}
                                Outcome::Panic(m, _) if m.starts_with("SYMERR") => errs.push(m),
                                Outcome::Panic(m, model) => {
                                    if model.is_some() {
                                        cx.yes(false, &format!("panic: {}", m));
                                    }
                                }
                            }
                            cx.flush();
                            if cx.undischarged > 0 {
                                errs.push(format!("{} identities not confirmed by the solver", cx.undischarged));
                            }
                            tally(&mut cx, &mut fails);
                            fails.len() < 6
                        },
                    );
                    let (s, inc) = with(|e| (e.stats.clone(), e.inconclusive.clone()));
                    let mut out = String::new();
                    for v in &fails {
                        out.push_str(&format!(
                            "{{\"fail\":{},\"what\":{},\"cands\":[{}]}}\n",
                            esc(name), esc(&v.what), v.cands.iter().map(js_model).collect::<Vec<_>>().join(",")
                        ));
                    }
                    out.push_str(&format!(
                        "{{\"case\":{},\"complete\":{},\"paths\":{},\"forks\":{},\"queries\":{},\"unknown\":{},\"checks\":{},\"identities\":{},\"solver_ms\":{},\"wall_ms\":{},\"errors\":[{}],\"inconclusive\":[{}]}}",
                        esc(name), complete, s.paths, s.forks, s.queries, s.unknown, checks, idents,
                        s.solver_us / 1000, t1.elapsed().as_millis(),
                        errs.iter().map(|e| esc(e)).collect::<Vec<_>>().join(","),
                        inc.iter().map(|e| esc(e)).collect::<Vec<_>>().join(",")
                    ));
                    println!("{}", out);
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
