#[cfg(not(feature = "sym"))]
mod layout;
mod rec;
mod sx;
mod vm;
use sx::esc;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).map(|i| a[i + 1].clone())
}
fn list(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

/// least k of the circuit, and how many of 2^k rows a run cannot use ("NO" if that is not one number)
#[cfg(not(feature = "sym"))]
fn rows() {
    use ckb_bf_base::{main_config::MyCircuit, utils::DOMAIN};
    use halo2_proofs::poly::{commitment::Params, kzg::commitment::ParamsKZG};
    use halo2_proofs::{halo2curves::bn256::*, plonk::{keygen_vk, Circuit, ConstraintSystem}};
    let fits = |p: &ParamsKZG<Bn256>, n: usize| {
        // n rows of the instruction table
        let src = if n % 2 == 1 { "+".repeat((n - 1) / 2) } else { "[]".to_string() + &"+".repeat((n - 6) / 2) };
        let mut vm = ckb_bf_vm::interpreter::Interpreter::new();
        vm.set_code(ckb_bf_vm::code::compile(src.into_bytes()));
        vm.run();
        let m = vm.matrix.instruction_matrix.len();
        assert_eq!(m, n);
        let c = MyCircuit::<Fr, { DOMAIN }>::new(vm.matrix);
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| keygen_vk(p, &c).is_ok())).unwrap_or(false)
    };
    let ps: Vec<_> = (4..=10).map(|k| ParamsKZG::<Bn256>::unsafe_setup_with_s(k, Fr::from(42))).collect();
    let least = (4..=10).find(|k| fits(&ps[*k as usize - 4], 7)).unwrap();
    let f: Vec<bool> = (480..=512).map(|n| fits(&ps[5], n)).collect();
    let free = f.iter().filter(|x| !**x).count();
    let one = f.iter().enumerate().all(|(i, x)| *x == (480 + i + free <= 512)) && fits(&ps[6], 1024 - free) && (free == 0 || !fits(&ps[6], 1025 - free));
    let mut cs = ConstraintSystem::<Fr>::default();
    MyCircuit::<Fr, { DOMAIN }>::configure(&mut cs);
    println!("{} {} {} {}", least, free, if one { "ok" } else { "NO" }, cs.blinding_factors());
}

#[cfg(not(feature = "sym"))]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a[1].as_str() {
        "vm" => {
            let props: Vec<String> = arg(&a, "--props").unwrap().split(',').map(|s| s.to_string()).collect();
            let toks = arg(&a, "--prog").unwrap();
            let r = vm::native(
                &props,
                &toks,
                &list(&arg(&a, "--input").unwrap_or_default()),
                &list(&arg(&a, "--unread").unwrap_or_default()),
                &list(&arg(&a, "--mem").unwrap_or_default()),
            );
            match r {
                Ok(()) => println!("HOLDS"),
                Err(b) => println!("FAILS {} {}", b.prop, b.what),
            }
        }
        "rows" => rows(),
        // one line per "tokens|input" read from stdin
        "layout" => {
            for l in std::io::stdin().lines() {
                let l = l.unwrap();
                let (t, i) = l.split_once('|').unwrap();
                println!("{}", layout::dump(t, &list(i)));
            }
        }
        "forge" => {
            println!("{}", layout::forge(&arg(&a, "--prog").unwrap(), &list(&arg(&a, "--input").unwrap_or_default()), arg(&a, "--cells")));
        }
        x => panic!("unknown {}", x),
    }
}

#[cfg(feature = "sym")]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::env::var("SYM_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a[1].as_str() {
        "vm" => {
            let props: Vec<String> = arg(&a, "--props").unwrap().split(',').map(|s| s.to_string()).collect();
            let steps: usize = arg(&a, "--steps").unwrap().parse().unwrap();
            let threads: usize = arg(&a, "--threads").unwrap_or("8".into()).parse().unwrap();
            let maxp: u64 = arg(&a, "--max-paths").unwrap_or("1000000".into()).parse().unwrap();
            let tasks: Vec<String> = std::fs::read_to_string(arg(&a, "--tasks").unwrap())
                .unwrap()
                .lines()
                .map(|l| l.to_string())
                .filter(|l| !l.is_empty())
                .collect();
            let budget: u64 = arg(&a, "--seconds").unwrap_or("100000".into()).parse().unwrap();
            let start = std::time::Instant::now();
            let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let tasks = std::sync::Arc::new(tasks);
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (next, tasks, props) = (next.clone(), tasks.clone(), props.clone());
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn(move || loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if i >= tasks.len() {
                                break;
                            }
                            let t = tasks[i].clone();
                            if start.elapsed().as_secs() > budget {
                                println!("{{\"task\":{},\"skipped\":true}}", esc(&t));
                                continue;
                            }
                            // per-task "steps" override:  tokens|steps
                            let (tt, st) = match t.split_once('|') {
                                Some((x, y)) => (x.to_string(), y.parse().unwrap()),
                                None => (t.clone(), steps),
                            };
                            sx::with(|e| {
                                e.stats = Default::default();
                                e.inconclusive.clear();
                                e.identities = 0;
                            });
                            let t1 = std::time::Instant::now();
                            let (f, complete, errs) = vm::run_task(&tt, &props, st, maxp);
                            let (s, inc, idn) = sx::with(|e| (e.stats.clone(), e.inconclusive.clone(), e.identities));
                            let mut out = String::new();
                            for v in f {
                                let q = |v: &Vec<String>| v.join(",");
                                out.push_str(&format!(
                                    "{{\"violation\":{},\"what\":{},\"task\":{},\"prog\":{},\"input\":\"{}\",\"unread\":\"{}\",\"mem\":\"{}\"}}\n",
                                    esc(&v.prop), esc(&v.what), esc(&v.task), esc(&v.toks), q(&v.input), q(&v.unread), q(&v.mem0)
                                ));
                            }
                            out.push_str(&format!(
                                "{{\"task\":{},\"complete\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"queries\":{},\"unknown\":{},\"asserts\":{},\"assert_queries\":{},\"identities\":{},\"solver_ms\":{},\"wall_ms\":{},\"errors\":[{}],\"inconclusive\":[{}]}}",
                                esc(&t), complete, s.paths, s.pruned, s.forks, s.queries, s.unknown, s.asserts, s.assert_queries, idn,
                                s.solver_us / 1000, t1.elapsed().as_millis(),
                                errs.iter().map(|e| esc(e)).collect::<Vec<_>>().join(","),
                                inc.iter().map(|e| esc(e)).collect::<Vec<_>>().join(",")
                            ));
                            println!("{}", out);
                        })
                        .unwrap()
                })
                .collect();
            for h in hs {
                h.join().unwrap();
            }
        }
        x => panic!("unknown {}", x),
    }
}
