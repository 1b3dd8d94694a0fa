//! What every scenario uses: run configuration, guarded calls into the code under test,
//! fault profiles, violations, and the quiet baseline process.
use crate::choice::{self, fnv, w, Shm};
use crate::kernel::*;
use crate::sys::*;
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn kind(&self) -> &'static str {
        match self {
            Out::Ok(_) => "Ok",
            Out::Err(_) => "Err",
            Out::Panic(_) => "panic",
        }
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(v) => Out::Ok(f(v)),
            Out::Err(e) => Out::Err(e),
            Out::Panic(p) => Out::Panic(p),
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(_) => "Ok".into(),
            Out::Err(e) => format!("Err({})", clip(e, 300)),
            Out::Panic(e) => format!("panic: {}", clip(e, 300)),
        }
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

struct PanicInfo(UnsafeCell<String>);
unsafe impl Sync for PanicInfo {}
static LAST_PANIC: PanicInfo = PanicInfo(UnsafeCell::new(String::new()));
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map_or(String::new(), |l| {
            let f = l.file();
            let f = f.strip_prefix("/repo/").unwrap_or(f);
            let f = if f.contains("/rust") || f.starts_with("/") { f.rsplit('/').next().unwrap_or(f) } else { f };
            format!("{}:{}", f, l.line())
        });
        unsafe { *LAST_PANIC.0.get() = format!("{} at {}", clip(&m, 300), loc) }
    }));
}
pub fn last_panic() -> String {
    unsafe { (*LAST_PANIC.0.get()).clone() }
}
pub fn panic_site(p: &str) -> String {
    p.rsplit(" at ").next().unwrap_or("?").to_string()
}

/// Calls into the code under test without touching the injector (used by client threads).
pub fn guarded<T, E: ToString>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => {
            stat(ST_CALLS_OK);
            Out::Ok(v)
        }
        Ok(Err(e)) => {
            stat(ST_CALLS_ERR);
            Out::Err(e.to_string())
        }
        Err(_) => {
            stat(ST_CALLS_PANIC);
            Out::Panic(last_panic())
        }
    }
}
pub struct Obs {
    pub hard: u64,
    pub std_hard: u64,
    pub actions: u64,
    pub max_alloc: usize,
    pub leaked: i64,
    pub ops: u64,
}
/// One call into the code under test with the schedule and fault streams switched on.
pub fn live<T>(f: impl FnOnce() -> T) -> (T, Obs) {
    let kn = k();
    let (h, s, a, o) = (kn.hard, kn.std_hard, kn.actions_done, choice::shm().stats[ST_FSOPS]);
    let fds = open_fd_count() as i64;
    kn.live_ops = 0;
    MAX_ALLOC.store(0, Relaxed);
    kn.live = true;
    next_gap();
    next_shared();
    let r = f();
    let kn = k();
    kn.live = false;
    crate::alloc::GAP.store(0, Relaxed);
    crate::cov::GAP.store(0, Relaxed);
    crate::cov::SHARED.store(0, Relaxed);
    let ob = Obs {
        hard: kn.hard - h,
        std_hard: kn.std_hard - s,
        actions: kn.actions_done - a,
        max_alloc: MAX_ALLOC.load(Relaxed),
        leaked: open_fd_count() as i64 - fds,
        ops: choice::shm().stats[ST_FSOPS] - o,
    };
    (r, ob)
}
pub fn call<T, E: ToString>(f: impl FnOnce() -> Result<T, E>) -> (Out<T>, Obs) {
    live(|| guarded(f))
}
/// A call with no faults and no scheduling choices.
pub fn quiet<T, E: ToString>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    k().live = false;
    guarded(f)
}

pub fn violate(class: &str, msg: &str) -> ! {
    finish(2, class, msg)
}
/// A panic is a violation everywhere: no property allows one.
pub fn no_panic<T>(o: Out<T>, what: &str) -> Result<T, String> {
    match o {
        Out::Ok(v) => Ok(v),
        Out::Err(e) => Err(e),
        Out::Panic(p) => violate(&format!("panic {}", panic_site(&p)), &format!("{} panicked: {}", what, p)),
    }
}
pub fn describe(s: &str) {
    let m = choice::shm();
    let mut cur = choice::get_str(&m.desc);
    if cur.len() > 50_000 {
        return;
    }
    cur += s;
    cur += "\n";
    choice::put_str(&mut m.desc, &cur);
}
pub fn nontrivial() {
    choice::shm().nontrivial = 1;
}
pub fn behav(v: u64) {
    let m = choice::shm();
    m.behav = fnv(m.behav, v);
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = fnv(h, u64::from_le_bytes(v) ^ c.len() as u64);
    }
    h
}
pub fn probe(i: usize) {
    stat(ST_USER0 + i);
}

extern "C" {
    fn setenv(n: *const u8, v: *const u8, o: i32) -> i32;
}
pub fn set_pool(n: usize) {
    let v = format!("{}\0", n);
    unsafe {
        setenv(b"RAYON_NUM_THREADS\0".as_ptr(), v.as_ptr(), 1);
    }
}

/// Draws what stays fixed during one run: pool size, clock behaviour, hash seed; picks the
/// scheduling strategy.
pub fn setup() {
    let kn = k();
    let pool = w::weighted(&[1, 3, 5, 3, 1, 1, 0, 2]) + 1;
    set_pool(pool);
    kn.ncpu = pool;
    kn.hash_seed = 1 + w::below(1 << 20) as u64;
    kn.clock_mode = w::weighted(&[6, 2, 2]) as u32;
    kn.strat = match kn.priv_rng.below(10) {
        0..=3 => Strat::Random,
        4..=5 => Strat::Sticky(60 + kn.priv_rng.below(39)),
        6..=8 => {
            let n = 1 + kn.priv_rng.below(4);
            let horizon = [60, 300, 1500, 6000][kn.priv_rng.below(4) as usize];
            let pts = (0..n).map(|_| kn.priv_rng.below(horizon)).collect();
            kn.pct_points = pts;
            Strat::Pct
        }
        _ => Strat::Robin,
    };
    // some runs also pre-empt inside computations
    let (scale, edges) = match kn.priv_rng.below(8) {
        0..=1 => ([40, 400, 4000][kn.priv_rng.below(3) as usize], false),
        2..=4 => ([30, 300, 3000, 30_000, 300_000][kn.priv_rng.below(5) as usize], true),
        _ => (0, false),
    };
    kn.gap_scale = scale;
    kn.gap_edges = edges;
    kn.shared_scale = [0, 1, 2, 4, 16, 100][kn.priv_rng.below(6) as usize];
    kn.shared_gaps = [10, 100, 1000][kn.priv_rng.below(3) as usize];
    kn.gap_limit = kn.priv_rng.below(4) as u32;
    kn.gaps = [20, 200, 2000][kn.priv_rng.below(3) as usize];
    describe(&format!("pool={} threads, hash seed {}, clock mode {}", pool, kn.hash_seed, kn.clock_mode));
}
pub const SOFT: u32 = (1 << F_EINTR) | (1 << F_SHORT);
pub const HARD_RD: u32 = (1 << F_EIO) | (1 << F_EACCES) | (1 << F_EMFILE);
pub const HARD_WR: u32 = HARD_RD | (1 << F_ENOSPC);
pub const STD_HARD: u32 = (1 << F_EIO) | (1 << F_ENOSPC) | (1 << F_EPIPE) | (1 << F_EBADF);

/// How often and where faults fire (not recorded; only the fired faults are).
pub fn profile(mask: u32, horizon: u64) -> Profile {
    let kn = k();
    let mut p = Profile { mask, ..Profile::default() };
    let hard = mask & !SOFT;
    let r = &mut kn.priv_rng;
    if mask & SOFT != 0 && r.chance(2, 3) {
        p.rate = [600, 3000, 9000, 20000, 40000][r.below(5) as usize];
    }
    if hard != 0 {
        let codes: Vec<u32> = (0..NFC).filter(|c| hard & (1 << c) != 0).collect();
        let n = match r.below(10) {
            0..=5 => 1,
            6..=8 => 1 + r.below(3),
            _ => 0,
        };
        for _ in 0..n {
            p.targets.push((r.below(horizon.max(1)), codes[r.below(codes.len() as u64) as usize]));
        }
        if n == 0 {
            p.hard_rate = [300, 1500, 6000][r.below(3) as usize];
        }
    }
    p
}
pub fn faults(mask: u32, horizon: u64) {
    let p = profile(mask, horizon);
    k().profile = p;
}
pub fn no_faults() {
    k().profile = Profile::default();
    k().std_profile = Profile::default();
    k().std_closed = 0;
    k().scope = None;
    k().actions.clear();
}
/// Transparent behaviour of the standard streams as well.
pub fn std_soft() {
    let p = profile(SOFT, 100);
    k().std_profile = p;
}

/// Runs `f` in a forked copy of this process with one worker thread, no faults and no
/// scheduling choices, and returns the text it produces: the sequential baseline.
pub fn baseline(hash_seed: u64, f: impl FnOnce() -> String) -> (String, u64) {
    let m: &'static mut Shm = choice::shm();
    m.base_len = u32::MAX;
    // the copy has only the forking thread: there must be no others yet
    assert!(k().thr.len() == 1, "baseline after threads were started");
    let pid = unsafe { fork() };
    if pid == 0 {
        die_with_parent();
        set_pool(1);
        let kn = k();
        kn.live = false;
        kn.hash_seed = hash_seed;
        kn.ncpu = 1;
        let save = (m.hash, m.behav, m.nev, m.stats);
        let s = f();
        m.hash = save.0;
        m.behav = save.1;
        m.nev = save.2;
        m.stats = save.3;
        m.base_hash = hash_bytes(s.as_bytes());
        let b = s.as_bytes();
        let n = b.len().min(m.base.len());
        m.base[..n].copy_from_slice(&b[..n]);
        m.base_len = n as u32;
        exit_now(0);
    }
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && unsafe { *__errno_location() } != EINTR {
            break;
        }
    }
    if m.status == 2 || m.status == 3 {
        // the baseline itself ended the run (deadlock, no progress)
        exit_now(0);
    }
    if m.base_len == u32::MAX {
        violate(&format!("baseline died signal {}", st & 127), "the sequential, fault-free run of the same call died");
    }
    (String::from_utf8_lossy(&m.base[..m.base_len as usize]).into_owned(), m.base_hash)
}
