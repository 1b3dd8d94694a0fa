#![allow(invalid_runtime_symbol_definitions, dead_code, unknown_lints)]
mod alloc;
mod choice;
mod cov;
mod env;
mod interpose;
mod kernel;
mod mapgen;
mod props;
mod runner;
mod specs;
mod sys;
mod wad;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn no_aslr() {
    // addresses order futexes and hash some maps: pin them, then start again
    const ADDR_NO_RANDOMIZE: i64 = 0x0040000;
    let cur = unsafe { sys::sc3(sys::SYS_PERSONALITY, 0xffffffff, 0, 0) };
    if cur >= 0 && cur & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("QSIM_REEXEC").is_none() {
        unsafe {
            sys::sc3(sys::SYS_PERSONALITY, cur | ADDR_NO_RANDOMIZE, 0, 0);
        }
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).env("QSIM_REEXEC", "1").exec();
        eprintln!("qsim: re-exec failed: {}", e);
    }
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            let o = runner::Opt {
                tier: arg("--tier").unwrap_or("quick".into()),
                seed: arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
                workers: arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
                out_dir: arg("--out").unwrap_or("/tmp".into()),
                evidence: arg("--evidence").unwrap_or("/tmp/evidence.json".into()),
                known: arg("--known").unwrap_or_default(),
                runs: arg("--runs").and_then(|s| s.parse().ok()),
                secs: arg("--secs").and_then(|s| s.parse().ok()),
                prop,
            };
            runner::check(&o)
        }
        Some("replay") => match runner::read_replay(&a[2]) {
            None => {
                println!("cannot read {}", a[2]);
                2
            }
            Some((p, c, h, st)) => {
                let (v, m) = runner::one(&p, 1, Some(st));
                println!("workload:\n{}", choice::get_str(&m.desc));
                println!("trace:\n{}", runner::render_trace(m));
                match v {
                    runner::Verdict::Violation(c2, t) => {
                        println!("{}: {}", c2, t);
                        if c2 == c && m.hash == h {
                            println!("VIOLATION property={} replay={}", p, a[2]);
                        } else {
                            println!("a violation, but not the recorded one (class {} hash {:016x})", c, h);
                        }
                        1
                    }
                    v => {
                        println!("{:?}", v);
                        0
                    }
                }
            }
        },
        Some("run") => {
            let prop = a[2].clone();
            let base: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let idx: u64 = arg("--index").and_then(|s| s.parse().ok()).unwrap_or(0);
            let (v, m) = runner::one(&prop, runner::seed_of(base, &prop, idx), None);
            println!("workload:\n{}", choice::get_str(&m.desc));
            println!("trace:\n{}", runner::render_trace(m));
            println!("steps {} draws {:?} hash {:016x}", m.steps, m.n, m.hash);
            println!("{:?}", v);
            0
        }
        _ => {
            println!("qsim check PROP | replay FILE | run PROP --index N");
            2
        }
    };
    std::process::exit(code);
}
