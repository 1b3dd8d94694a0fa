//! Seeded search: forked runs on all cores, aggregation, minimisation, replay files, evidence.
use crate::choice::{self, get_str, Shm, CAP, NSTAT};
use crate::env;
use crate::kernel::{self, FCN, OPN};
use crate::props;
use crate::sys::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

pub const SEEN: usize = 1 << 20;
const MAXW: usize = 64;
const NKNOWN: usize = 32;
const NSAMPLE: usize = 3;

#[repr(C)]
struct Ctl {
    next: AtomicU64,
    stop_at: AtomicU64,      // lowest failing run index so far
    seen: [AtomicU64; SEEN], // distinct non-trivial behaviours
    distinct: AtomicU64,
    w: [WStat; MAXW],
    known: [AtomicU64; NKNOWN],
}
#[repr(C)]
struct WStat {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u64,
    stats: [u64; NSTAT],
    err: [u8; 2000],
    failed: u32,
    fail_idx: u64,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub text: String,
}
pub fn known_findings(path: &str, prop: &str) -> Vec<Known> {
    let mut v = Vec::new();
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // finding: property=<id> class=<class>; <text>
            if let Some(r) = l.strip_prefix("finding: property=") {
                if let Some((p, r)) = r.split_once(" class=") {
                    if let Some((c, t)) = r.split_once("; ") {
                        if p == prop {
                            v.push(Known { property: p.into(), class: c.into(), text: t.into() });
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    choice::mix(choice::mix(base ^ env::hash_bytes(prop.as_bytes())).wrapping_add(i.wrapping_mul(0x9e3779b97f4a7c15)))
}

unsafe fn setrlimit(res: i64, soft: u64, hard: u64) {
    let v = [soft, hard];
    sc3(SYS_SETRLIMIT, res, v.as_ptr() as i64, 0);
}

/// Forks one run and waits for it. Returns false if it had to be killed by wall clock.
fn fork_run(m: *mut Shm, prop: &str, seed: u64, replay: Option<[Vec<u32>; 3]>, wall_ms: u64) -> (i32, bool) {
    unsafe {
        (*m).reset();
        let pid = fork();
        if pid < 0 {
            return (0, false);
        }
        if pid == 0 {
            die_with_parent();
            setrlimit(0, 20, 25); // CPU seconds
            setrlimit(4, 0, 0); // no core file
            setrlimit(9, 12 << 30, 12 << 30); // address space
            choice::init(m, seed, replay);
            env::install_panic_hook();
            kernel::boot(seed);
            let r = std::panic::catch_unwind(|| props::run(prop));
            match r {
                Ok(()) => kernel::finish(1, "", ""),
                Err(_) => kernel::finish(3, "", &format!("harness panic: {}", env::last_panic())),
            }
        }
        // reap
        let t0 = real_now_ns();
        let mut st = 0;
        let mut spins = 0u32;
        loop {
            let r = waitpid(pid, &mut st, if spins < 1 { 1 } else { 1 });
            if r == pid {
                return (st, true);
            }
            spins += 1;
            let el = (real_now_ns() - t0) / 1_000_000;
            if el > wall_ms {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
                return (st, false);
            }
            let us = if spins < 50 { 100 } else { 500 };
            let ts = [0i64, us * 1000];
            sc6(SYS_CLOCK_NANOSLEEP, 1, 0, ts.as_ptr() as i64, 0, 0, 0);
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    Violation(String, String),
    Harness(String),
}
pub fn verdict(m: &Shm, st: i32, in_time: bool) -> Verdict {
    if !in_time {
        return Verdict::Harness("a run did not end within its wall-clock limit".into());
    }
    let sig = st & 127;
    if sig != 0 {
        let (c, t) = match sig {
            24 | 9 => ("hang".to_string(), "the run used up its CPU allowance".to_string()),
            6 => ("abort".into(), "the process aborted (stack exhaustion, allocation failure or panic in a destructor)".to_string()),
            11 | 7 => ("segfault".into(), "the process was killed by a memory fault".to_string()),
            s => (format!("signal {}", s), "the process was killed".to_string()),
        };
        return Verdict::Violation(c, t);
    }
    match m.status {
        1 => Verdict::Held,
        2 => Verdict::Violation(get_str(&m.class), get_str(&m.msg)),
        3 => Verdict::Harness(get_str(&m.msg)),
        _ => Verdict::Violation("exit".into(), format!("the process under test exited (code {})", (st >> 8) & 255)),
    }
}
fn streams(m: &Shm) -> [Vec<u32>; 3] {
    let g = |i: usize| m.st[i][..(m.n[i] as usize).min(CAP)].to_vec();
    [g(0), g(1), g(2)]
}

pub fn render_trace(m: &Shm) -> String {
    let mut s = String::new();
    let n = m.nev as usize;
    let mut skipped = 0;
    for (i, e) in m.ev[..n].iter().enumerate() {
        let op = OPN.get(e.op as usize).copied().unwrap_or("?");
        let quiet = e.fault == 0 && matches!(op, "yield" | "futex_wait" | "futex_wake" | "stdout");
        if quiet && n > 400 {
            skipped += 1;
            continue;
        }
        let _ = writeln!(
            s,
            "  {:5} t{} {:12} file#{} arg={} -> {}{}",
            i,
            e.tid,
            op,
            e.path,
            e.a,
            e.res,
            if e.fault != 0 { format!("   <== {}", FCN.get(e.fault as usize).copied().unwrap_or("?")) } else { String::new() }
        );
        if s.len() > 300_000 {
            s += "  ... (trace cut)\n";
            break;
        }
    }
    if skipped > 0 {
        let _ = writeln!(s, "  ({} lock, wake-up, yield and diagnostic-output events left out)", skipped);
    }
    s
}

pub struct Opt {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub out_dir: String,
    pub evidence: String,
    pub known: String,
    pub runs: Option<u64>,
    pub secs: Option<u64>,
}

fn write_replay(path: &str, prop: &str, seed: u64, idx: u64, m: &Shm, class: &str, msg: &str, st: &[Vec<u32>; 3], note: &str) {
    let mut s = String::new();
    let _ = writeln!(s, "property: {}", prop);
    let _ = writeln!(s, "class: {}", class);
    let _ = writeln!(s, "base-seed: {} run: {} run-seed: {}", seed, idx, seed_of(seed, prop, idx));
    let _ = writeln!(s, "hash: {:016x}", m.hash);
    for (i, n) in ["W", "S", "F"].iter().enumerate() {
        let _ = writeln!(s, "{}: {}", n, st[i].iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" "));
    }
    let _ = writeln!(s, "note: {}", note);
    let _ = writeln!(s, "# violation\n{}", msg);
    let _ = writeln!(s, "# workload\n{}", get_str(&m.desc));
    let _ = writeln!(s, "# schedule and fault trace (thread, call, file, argument -> result)\n{}", render_trace(m));
    let _ = std::fs::write(path, s);
}
pub fn read_replay(path: &str) -> Option<(String, String, u64, [Vec<u32>; 3])> {
    let s = std::fs::read_to_string(path).ok()?;
    let (mut p, mut c, mut h) = (String::new(), String::new(), 0);
    let mut st: [Vec<u32>; 3] = Default::default();
    for l in s.lines() {
        if l.starts_with('#') {
            break;
        }
        if let Some(v) = l.strip_prefix("property: ") {
            p = v.into();
        } else if let Some(v) = l.strip_prefix("class: ") {
            c = v.into();
        } else if let Some(v) = l.strip_prefix("hash: ") {
            h = u64::from_str_radix(v, 16).ok()?;
        } else {
            for (i, n) in ["W:", "S:", "F:"].iter().enumerate() {
                if let Some(v) = l.strip_prefix(n) {
                    st[i] = v.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                }
            }
        }
    }
    Some((p, c, h, st))
}

/// Shrinks a failing run: shorter and simpler streams that still fail in the same class.
fn minimise(m: *mut Shm, prop: &str, class: &str, st: [Vec<u32>; 3], ms: u64) -> ([Vec<u32>; 3], u32) {
    let t0 = real_now_ns();
    let mut best = st;
    let mut tries = 0u32;
    let over = || (real_now_ns() - t0) / 1_000_000 > ms;
    let mut test = |c: &[Vec<u32>; 3], best: &mut [Vec<u32>; 3]| -> bool {
        tries += 1;
        let (s, ok) = fork_run(m, prop, 1, Some(c.clone()), 60_000);
        let mm = unsafe { &*m };
        match verdict(mm, s, ok) {
            Verdict::Violation(cl, _) if cl == class => {
                // what the replay actually consumed is the canonical form
                let mut u = streams(mm);
                for v in u.iter_mut() {
                    while v.last() == Some(&0) {
                        v.pop();
                    }
                }
                let cost = |x: &[Vec<u32>; 3]| -> (usize, u64) {
                    (
                        x.iter().map(|v| v.len()).sum::<usize>() + x.iter().map(|v| v.iter().filter(|e| **e != 0).count()).sum::<usize>(),
                        x.iter().map(|v| v.iter().map(|e| *e as u64).sum::<u64>()).sum(),
                    )
                };
                if cost(&u) < cost(best) {
                    *best = u;
                    return true;
                }
                false
            }
            _ => false,
        }
    };
    for round in 0..4 {
        let before = best.clone();
        // whole streams, then blocks, schedule and faults first
        for s in [1usize, 2, 0] {
            if over() {
                break;
            }
            if s != 0 {
                let mut c = best.clone();
                c[s].clear();
                test(&c, &mut best);
            }
            let mut blk = (best[s].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best[s].len() && !over() {
                    let e = (i + blk).min(best[s].len());
                    // zero the block
                    if best[s][i..e].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        c[s][i..e].iter_mut().for_each(|v| *v = 0);
                        if test(&c, &mut best) {
                            i += blk;
                            continue;
                        }
                    }
                    // delete the block
                    if i < best[s].len() {
                        let e = (i + blk).min(best[s].len());
                        let mut c = best.clone();
                        c[s].drain(i..e);
                        if test(&c, &mut best) {
                            continue;
                        }
                    }
                    i += blk;
                }
                if blk == 1 || over() {
                    break;
                }
                blk = (blk / 2).max(1);
                if best[s].len() > 3000 && blk < best[s].len() / 64 && round == 0 {
                    break;
                }
            }
        }
        // smaller values
        for s in 0..3 {
            let mut i = 0;
            while i < best[s].len() && !over() {
                let v = best[s][i];
                if v > 1 {
                    for nv in [1, v / 2, v - 1] {
                        let mut c = best.clone();
                        if i < c[s].len() && nv < c[s][i] {
                            c[s][i] = nv;
                            if test(&c, &mut best) {
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        if over() || best == before {
            break;
        }
    }
    (best, tries)
}

pub fn one(prop: &str, seed: u64, replay: Option<[Vec<u32>; 3]>) -> (Verdict, &'static Shm) {
    let m = shared_bytes(std::mem::size_of::<Shm>()) as *mut Shm;
    let (s, ok) = fork_run(m, prop, seed, replay, 60_000);
    let mm = unsafe { &*m };
    (verdict(mm, s, ok), mm)
}

pub fn check(o: &Opt) -> i32 {
    let t0 = real_now_ns();
    let spec = props::spec(&o.prop);
    let thorough = o.tier == "thorough";
    let budget = o.runs.unwrap_or(if thorough { spec.runs * 30 } else { spec.runs });
    let secs = o.secs.unwrap_or(if thorough { 600 } else { 60 });
    let known = known_findings(&o.known, &o.prop);
    let ctl = unsafe { &mut *(shared_bytes(std::mem::size_of::<Ctl>()) as *mut Ctl) };
    ctl.stop_at.store(u64::MAX, SeqCst);
    let nw = o.workers.min(MAXW);
    let shms: Vec<*mut Shm> = (0..nw + 1).map(|_| shared_bytes(std::mem::size_of::<Shm>()) as *mut Shm).collect();
    let mut pids = Vec::new();
    for wi in 0..nw {
        let pid = unsafe { fork() };
        if pid == 0 {
            die_with_parent();
            worker(wi, o, ctl, shms[wi], budget, t0, secs, &known);
            exit_now(0);
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe {
            while waitpid(p, &mut st, 0) != p {}
        }
        if st != 0 {
            bad += 1;
        }
    }
    let mut runs = 0;
    let mut nontriv = 0;
    let (mut steps, mut simns) = (0u64, 0u64);
    let mut stats = [0u64; NSTAT];
    let mut fail: Option<(u64, usize)> = None;
    for (i, w) in ctl.w[..nw].iter().enumerate() {
        runs += w.runs;
        nontriv += w.nontrivial;
        steps += w.steps;
        simns += w.sim_ns;
        for j in 0..NSTAT {
            stats[j] += w.stats[j];
        }
        let e = get_str(&w.err);
        if !e.is_empty() {
            println!("HARNESS ERROR property={} {}", o.prop, e);
            bad += 1;
        }
        if w.failed == 1 && fail.map_or(true, |(x, _)| w.fail_idx < x) {
            fail = Some((w.fail_idx, i));
        }
    }
    let search_s = (real_now_ns() - t0) as f64 / 1e9;
    let edges = crate::cov::EDGES.load(SeqCst) as usize;
    let reached = (1..=edges.min(crate::cov::MAX - 1)).filter(|i| shms[..nw].iter().any(|m| unsafe { (**m).cov[*i] } != 0)).count();

    let mut code = 0;
    let mut violations = 0;
    let mut replay_path = String::new();
    if let Some((idx, wi)) = fail {
        violations = 1;
        code = 1;
        let m = unsafe { &*shms[wi] };
        let class = get_str(&m.class);
        let msg0 = get_str(&m.msg);
        let st0 = streams(m);
        let len0: usize = st0.iter().map(|v| v.len()).sum();
        let (best, tries) = minimise(shms[nw], &o.prop, &class, st0.clone(), if thorough { 60_000 } else { 25_000 });
        let (s, ok) = fork_run(shms[nw], &o.prop, 1, Some(best.clone()), 60_000);
        let mut mm = unsafe { &*shms[nw] };
        let v = verdict(mm, s, ok);
        let mut note = format!(
            "minimised from {} recorded choices to {} in {} executions",
            len0,
            best.iter().map(|v| v.len()).sum::<usize>(),
            tries
        );
        let mut fin = best;
        let (mut class_f, mut msg_f) = (class.clone(), msg0.clone());
        match v {
            Verdict::Violation(c, t) if c == class => {
                class_f = c;
                msg_f = t;
            }
            _ => {
                note = "not minimised".into();
                fin = st0;
                fork_run(shms[nw], &o.prop, 1, Some(fin.clone()), 60_000);
                mm = unsafe { &*shms[nw] };
            }
        }
        let _ = std::fs::create_dir_all(&o.out_dir);
        replay_path = format!("{}/{}-{}-{}.replay", o.out_dir, o.prop, o.seed, idx);
        write_replay(&replay_path, &o.prop, o.seed, idx, mm, &class_f, &msg_f, &fin, &note);
        // the file must reproduce the violation exactly
        let mut again = "reproduced exactly";
        if let Some((p, c, h, st)) = read_replay(&replay_path) {
            let (v, m2) = one(&p, 1, Some(st));
            match v {
                Verdict::Violation(c2, _) if c2 == c && m2.hash == h => (),
                _ => again = "NOT reproduced",
            }
        }
        println!("property {} broken in run {} (class: {})", o.prop, idx, class_f);
        println!("  {}", msg_f.replace('\n', "\n  "));
        println!("  {}; replay {}", note, again);
        println!("VIOLATION property={} replay={}", o.prop, replay_path);
    }
    // every run must be a pure function of its seed
    let mut determinism = (0u64, 0u64);
    if code == 0 && bad == 0 {
        for j in 0..if thorough { 60 } else { 12 } {
            let idx = j * 7 + 1;
            let sd = seed_of(o.seed, &o.prop, idx);
            let (s1, k1) = fork_run(shms[nw], &o.prop, sd, None, 60_000);
            let (v1, h1, st) = {
                let m = unsafe { &*shms[nw] };
                (verdict(m, s1, k1), m.hash, streams(m))
            };
            let (s2, k2) = fork_run(shms[nw], &o.prop, 77, Some(st), 60_000);
            let m = unsafe { &*shms[nw] };
            determinism.0 += 1;
            if verdict(m, s2, k2) == v1 && m.hash == h1 {
                determinism.1 += 1;
            }
        }
        if determinism.0 != determinism.1 {
            println!("HARNESS ERROR property={} {} of {} runs did not repeat", o.prop, determinism.0 - determinism.1, determinism.0);
            bad += 1;
        }
    }
    let mut kf = Vec::new();
    for (i, kn) in known.iter().enumerate() {
        let n = ctl.known[i].load(SeqCst);
        if n > 0 || code == 0 {
            println!("KNOWN-FINDING: property={} {} (seen in {} of {} runs)", kn.property, kn.text, n, runs);
        }
        kf.push((kn.class.clone(), n));
    }
    let wall = (real_now_ns() - t0) as f64 / 1e9;
    let distinct = ctl.distinct.load(SeqCst);
    write_evidence(o, &spec, runs, nontriv, distinct, steps, simns, &stats, search_s, wall, violations, determinism, &kf, nw, &replay_path, (reached, edges));
    println!(
        "{} {}: {} runs ({} non-trivial, {} distinct), {:.0} runs/s, {:.1} s, violations {}",
        o.prop,
        o.tier,
        runs,
        nontriv,
        distinct,
        runs as f64 / search_s.max(0.001),
        wall,
        violations
    );
    if bad > 0 && code == 0 {
        return 2;
    }
    code
}

fn worker(wi: usize, o: &Opt, ctl: &mut Ctl, m: *mut Shm, budget: u64, t0: u64, secs: u64, known: &[Known]) {
    unsafe {
        // one CPU per worker: the simulated threads run one at a time anyway
        let mut mask = [0u64; 16];
        let ncpu = 8;
        mask[0] = 1 << (wi % ncpu);
        sc3(SYS_SCHED_SETAFFINITY, 0, 128, mask.as_ptr() as i64);
    }
    let spare = shared_bytes(std::mem::size_of::<Shm>()) as *mut Shm;
    let mut m = m;
    let keep = m;
    let ws = &mut ctl.w[wi];
    let mut failed = false;
    loop {
        let i = ctl.next.fetch_add(1, SeqCst);
        if i >= budget || i >= ctl.stop_at.load(SeqCst) || (real_now_ns() - t0) / 1_000_000_000 >= secs {
            break;
        }
        let (st, ok) = fork_run(m, &o.prop, seed_of(o.seed, &o.prop, i), None, 60_000);
        let mm = unsafe { &mut *m };
        ws.runs += 1;
        ws.steps += mm.steps as u64;
        ws.sim_ns += mm.sim_ns;
        for j in 0..NSTAT {
            ws.stats[j] += mm.stats[j];
        }
        if mm.nontrivial == 1 {
            ws.nontrivial += 1;
            insert(ctl_seen(&ctl.seen), &ctl.distinct, mm.behav);
        }
        match verdict(mm, st, ok) {
            Verdict::Held => (),
            Verdict::Harness(e) => {
                choice::put_str(&mut ws.err, &format!("run {}: {}", i, e));
                break;
            }
            Verdict::Violation(c, t) => {
                if let Some(j) = known.iter().position(|k| k.class == c) {
                    ctl.known[j].fetch_add(1, SeqCst);
                    continue;
                }
                if st & 127 != 0 {
                    choice::put_str(&mut mm.class, &c);
                    choice::put_str(&mut mm.msg, &t);
                }
                ws.failed = 1;
                ws.fail_idx = i;
                failed = true;
                ctl.stop_at.fetch_min(i, SeqCst);
                break;
            }
        }
    }
    if !failed && m == keep {
        m = spare;
    }
    let _ = m;
}
fn ctl_seen(s: &[AtomicU64; SEEN]) -> &[AtomicU64] {
    &s[..]
}
fn insert(t: &[AtomicU64], n: &AtomicU64, h: u64) {
    let h = h | 1;
    let mut i = (choice::mix(h) as usize) & (SEEN - 1);
    for _ in 0..64 {
        match t[i].compare_exchange(0, h, SeqCst, SeqCst) {
            Ok(_) => {
                n.fetch_add(1, SeqCst);
                return;
            }
            Err(x) if x == h => return,
            _ => i = (i + 1) & (SEEN - 1),
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            '\r' => o += "\\r",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[allow(clippy::too_many_arguments)]
fn write_evidence(
    o: &Opt, spec: &props::Spec, runs: u64, nontriv: u64, distinct: u64, steps: u64, simns: u64, stats: &[u64; NSTAT],
    search_s: f64, wall: f64, violations: i32, det: (u64, u64), kf: &[(String, u64)], nw: usize, replay: &str, edges: (usize, usize),
) {
    let mut samples = Vec::new();
    for j in 0..NSAMPLE as u64 {
        let idx = j * 13 + 2;
        let (v, m) = one(&o.prop, seed_of(o.seed, &o.prop, idx), None);
        let tr = render_trace(m);
        let tr: String = tr.lines().take(25).collect::<Vec<_>>().join("\n");
        samples.push(format!(
            "{{\"run\": {}, \"seed\": {}, \"outcome\": {}, \"workload\": {}, \"trace_head\": {}}}",
            idx,
            seed_of(o.seed, &o.prop, idx),
            js(&format!("{:?}", v)),
            js(&env::clip(&get_str(&m.desc), 1500)),
            js(&tr)
        ));
    }
    let mut faults = BTreeMap::new();
    for i in 1..FCN.len() {
        faults.insert(FCN[i].to_string(), stats[i]);
    }
    faults.insert("bad_sector_read".into(), stats[kernel::ST_BADSECTOR]);
    faults.insert("clock_jump_or_stall".into(), stats[kernel::ST_CLOCKJUMP]);
    faults.insert("stored_bytes_damaged".into(), stats[kernel::ST_DAMAGE]);
    faults.insert("preemption".into(), stats[kernel::ST_PREEMPT]);
    faults.insert("preemption_at_static_variable".into(), stats[kernel::ST_SHARED]);
    let f = faults.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
    let probes = spec
        .probes
        .iter()
        .enumerate()
        .map(|(i, n)| format!("{}: {}", js(n), stats[kernel::ST_USER0 + i]))
        .collect::<Vec<_>>()
        .join(", ");
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_per_hour\": {:.0},\n  \"simulated_time_s\": {:.3},\n  \"scheduling_steps\": {},\n  \"context_switches\": {},\n  \"threads_started\": {},\n  \"file_system_calls\": {},\n  \"calls_into_code_under_test\": {{\"ok\": {}, \"err\": {}, \"panic\": {}}},\n  \"faults_injected\": {{{}}},\n  \"situations_reached\": {{{}}},\n  \"control_flow_edges_of_quarchitect\": {{\"reached\": {}, \"compiled\": {}}},\n  \"replayed_for_determinism\": {{\"runs\": {}, \"identical\": {}}},\n  \"known_findings_seen\": {{{}}},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"worker_processes\": {},\n  \"replay\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(&o.prop), js(&o.tier), o.seed, js(spec.level), runs, distinct, nontriv,
        js(&format!("{} A run is non-trivial if {}. Distinct: different hash over the sequence of (thread, call, file, fault) and the workload's shape.", spec.rule, spec.nontrivial)),
        samples.join(",\n   "),
        runs as f64 / search_s.max(0.001) * 3600.0, simns as f64 / 1e9, steps, stats[kernel::ST_SWITCH], stats[kernel::ST_THREADS], stats[kernel::ST_FSOPS],
        stats[kernel::ST_CALLS_OK], stats[kernel::ST_CALLS_ERR], stats[kernel::ST_CALLS_PANIC], f, probes, edges.0, edges.1, det.0, det.1,
        kf.iter().map(|(c, n)| format!("{}: {}", js(c), n)).collect::<Vec<_>>().join(", "),
        js("all of quarchitect, nom, glam, rayon, crossbeam and the Rust standard library, on real OS threads"),
        js("libc entry points for files, standard streams, threads, futexes, clocks, sleeping and randomness (simulated kernel); the scheduler of the operating system"),
        nw, js(replay),
        spec.assumptions.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall, violations
    );
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let mut f = std::fs::File::create(&o.evidence).expect("evidence file");
    f.write_all(s.as_bytes()).expect("evidence");
    let _ = AtomicU32::new(0);
}
