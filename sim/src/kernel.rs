//! The simulated kernel: one token that decides which thread runs, a futex table, a clock,
//! an in-memory file system, standard streams, and the fault injector.
//!
//! Threads of the code under test are real OS threads, but exactly one runs at any time. It
//! gives the token away only inside an intercepted libc call (see `interpose.rs`), and the
//! next holder is drawn from the schedule stream, so every interleaving at system-call,
//! lock, wake-up, yield and thread-start granularity is decided here and replays exactly.
use crate::choice::{self, draw, fnv, mix, Ev, Rng, EVCAP, F, S};
use crate::sys::*;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};

pub const FD0: i32 = 1000;

// ---- system-call classes (log and fault legality) -------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Op {
    Open = 1,
    Read,
    Write,
    Seek,
    Stat,
    Close,
    Sync,
    Trunc,
    Rename,
    Unlink,
    Other,
    StdW,
    Yield,
    FutexWait,
    FutexWake,
    Spawn,
    Exit,
    Join,
    Sleep,
    Action,
    Note,
}
pub const OPN: [&str; 22] = [
    "-", "open", "read", "write", "lseek", "stat", "close", "fsync", "ftruncate", "rename", "unlink", "other",
    "stdout", "yield", "futex_wait", "futex_wake", "thread_start", "thread_exit", "join", "sleep", "ACTION", "note",
];

// ---- fault codes (entries of the F stream) ---------------------------------------------
pub const NFC: u32 = 11;
pub const F_NONE: u32 = 0;
pub const F_EINTR: u32 = 1;
pub const F_SHORT: u32 = 2;
pub const F_EIO: u32 = 3;
pub const F_EACCES: u32 = 4;
pub const F_EMFILE: u32 = 5;
pub const F_ENOSPC: u32 = 6;
pub const F_EPIPE: u32 = 7;
pub const F_EBADF: u32 = 8;
pub const F_ACTION: u32 = 9;
pub const F_CRASH: u32 = 10;
pub const FCN: [&str; 11] =
    ["-", "EINTR", "short", "EIO", "EACCES", "EMFILE", "ENOSPC", "EPIPE", "EBADF", "file_change", "crash"];

fn legal(op: Op, code: u32) -> bool {
    match code {
        F_EINTR => matches!(op, Op::Open | Op::Read | Op::Write | Op::StdW | Op::Sync),
        F_SHORT => matches!(op, Op::Read | Op::Write | Op::StdW),
        F_EIO => matches!(
            op,
            Op::Open | Op::Read | Op::Write | Op::Seek | Op::Stat | Op::Sync | Op::Trunc | Op::Rename | Op::Unlink | Op::StdW | Op::Other
        ),
        F_EACCES => matches!(op, Op::Open | Op::Rename),
        F_EMFILE => matches!(op, Op::Open),
        F_ENOSPC => matches!(op, Op::Write | Op::StdW | Op::Open),
        F_EPIPE | F_EBADF => matches!(op, Op::StdW),
        F_ACTION => op != Op::StdW,
        F_CRASH => op != Op::StdW,
        _ => false,
    }
}

// statistics slots: 0..16 faults fired by code, then:
pub const ST_SWITCH: usize = 16;
pub const ST_FSOPS: usize = 17;
pub const ST_THREADS: usize = 18;
pub const ST_BADSECTOR: usize = 19;
pub const ST_CLOCKJUMP: usize = 20;
pub const ST_PREEMPT: usize = 21;
pub const ST_CALLS_OK: usize = 22;
pub const ST_CALLS_ERR: usize = 23;
pub const ST_CALLS_PANIC: usize = 24;
pub const ST_DAMAGE: usize = 25;
pub const ST_SHARED: usize = 26;
pub const ST_USER0: usize = 32; // property-specific probes 32..64

pub fn stat(i: usize) {
    choice::shm().stats[i] += 1;
}

// ---- threads ---------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Join(usize),
    Done,
}
pub struct Thr {
    pub go: &'static AtomicU32,
    pub st: St,
    pub last: u64,
    pub prio: u64,
    pub pth: usize,
    pub woken: u8, // 1 woken, 2 timed out
    pub eintr: u32,
    pub dtors: Vec<(usize, usize)>,
}

thread_local! { static TID: Cell<i32> = const { Cell::new(-1) }; }
pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}
pub fn set_tid(v: i32) {
    TID.with(|t| t.set(v))
}
#[inline]
pub fn sim() -> bool {
    ACTIVE.load(Ordering::Relaxed) && tid() >= 0
}

// ---- file system -----------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Inode {
    pub data: Vec<u8>,
    /// what a machine crash leaves for certain: the content at the last fsync
    pub synced: Vec<u8>,
    pub dir: bool,
    pub bad: Vec<(usize, usize)>,
    pub mtime: u64,
    pub mode: u32,
}
#[derive(Clone)]
pub struct OpenFile {
    pub ino: usize,
    pub pos: usize,
    pub r: bool,
    pub w: bool,
    pub append: bool,
    pub path: String,
    pub refs: u32,
}
#[derive(Clone, Debug)]
pub enum Action {
    Replace(String, Vec<u8>),
    Unlink(String),
    Truncate(String, usize),
    Overwrite(String, usize, Vec<u8>),
}

// ---- what the injector does ------------------------------------------------------------
#[derive(Clone, Default, Debug)]
pub struct Profile {
    /// enabled fault codes (bit set)
    pub mask: u32,
    /// chance of a transparent fault per legal system call, in 1/65536
    pub rate: u32,
    /// chance of a hard fault per legal system call, in 1/65536
    pub hard_rate: u32,
    /// fire `code` at the first legal call whose index is >= the first field
    pub targets: Vec<(u64, u32)>,
}
#[derive(Clone, Copy, Debug)]
pub enum Strat {
    Random,
    Sticky(u64),
    Pct,
    Robin,
}

pub enum Fault {
    None,
    Err(i32),
    Short(usize),
}

pub struct Kernel {
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub live: bool,
    pub steps: u64,
    pub max_steps: u64,
    pub mono: u64,
    pub real_off: i64,
    pub clock_mode: u32,
    pub hash_seed: u64,
    /// The working directory of the simulated process.
    pub cwd: String,
    pub rel_names: bool,
    pub rnd: u64,
    pub ncpu: usize,
    // files
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    /// symbolic links: path and what they hold
    pub links: BTreeMap<String, String>,
    pub files: Vec<OpenFile>,
    pub fds: Vec<Option<usize>>,
    pub paths: Vec<String>,
    pub mutations: Vec<(String, String)>, // (call, path) by code under test
    /// locks on inodes: (inode, open file, exclusive)
    pub flocks: Vec<(usize, usize, bool)>,
    /// open directories
    pub dirs: Vec<Option<String>>,
    pub tty: Option<bool>,
    pub opens: Vec<(String, bool, bool)>, // (path, ok, for writing)
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub std_closed: i32, // persistent errno for std streams once broken (0: open)
    // faults
    pub profile: Profile,
    pub std_profile: Profile,
    pub scope: Option<Vec<String>>, // fault only calls on these paths
    pub actions: Vec<Action>,
    pub live_ops: u64,
    pub hard: u64,      // hard faults delivered since reset
    pub soft: u64,      // transparent faults delivered
    pub std_hard: u64,
    pub actions_done: u64,
    pub strat: Strat,
    pub priv_rng: Rng, // decides nothing that is not recorded
    pub pct_points: Vec<u64>,
    /// a crash takes the machine down: what was not synchronised may be lost
    pub machine: bool,
    /// name tables before each change of names since the directory was last synchronised
    pub snaps: Vec<BTreeMap<String, usize>>,
    pub crash_hook: Option<Box<dyn FnOnce(&mut Kernel) -> Result<(), (String, String)>>>,
    pub threads_seen_io: u64, // bit set
    pub gap_scale: u64,
    pub gap_edges: bool,
    /// The same for accesses to static variables.
    pub shared_scale: u64,
    pub shared_gaps: u32,
    pub gap_limit: u32,
    pub gaps: u32,
}
pub struct KP(pub UnsafeCell<*mut Kernel>);
unsafe impl Sync for KP {}
pub static KPTR: KP = KP(UnsafeCell::new(std::ptr::null_mut()));
#[inline]
pub fn k() -> &'static mut Kernel {
    unsafe { &mut **KPTR.0.get() }
}

pub static MAX_ALLOC: AtomicUsize = AtomicUsize::new(0);

/// True while simulator code runs on behalf of the current thread (its own allocations are
/// not counted and never pre-empted).
pub static INK: AtomicBool = AtomicBool::new(false);
pub struct Enter;
impl Drop for Enter {
    fn drop(&mut self) {
        INK.store(false, Ordering::Relaxed);
    }
}
pub fn enter() -> Enter {
    INK.store(true, Ordering::Relaxed);
    Enter
}
pub fn leave() {
    INK.store(false, Ordering::Relaxed);
}
/// A scheduling point inside a computation, at an allocation or at an edge of the control flow;
/// also draws where the next is.
pub fn preempt() {
    let _g = enter();
    if !k().live {
        return;
    }
    sched_point();
    next_gap();
}
/// The same before an access to a static variable.
pub fn preempt_shared() {
    let _g = enter();
    if !k().live {
        return;
    }
    stat(ST_SHARED);
    sched_point();
    next_shared();
}
pub fn next_shared() {
    let g = draw(S, 1 << 12, |_| {
        let kn = k();
        if kn.shared_scale == 0 || kn.shared_gaps == 0 {
            0
        } else {
            kn.shared_gaps -= 1;
            1 + kn.priv_rng.below(kn.shared_scale) as u32
        }
    });
    crate::cov::SHARED.store(g as i64, Ordering::Relaxed);
}
pub fn next_gap() {
    let g = draw(S, 1 << 22, |_| {
        let kn = k();
        if kn.gap_scale == 0 || kn.gaps == 0 {
            0
        } else {
            kn.gaps -= 1;
            let n = 1 + kn.priv_rng.below(kn.gap_scale) as u32;
            n << 3 | kn.gap_limit << 1 | kn.gap_edges as u32
        }
    });
    // even: at an allocation; odd: at an edge passed fewer than so many times before
    crate::cov::LIMIT.store([2, 8, 40, 256][(g >> 1 & 3) as usize], Ordering::Relaxed);
    let n = (g >> 3) as i64;
    let (a, e) = if g & 1 == 0 { (n, 0) } else { (0, n) };
    crate::alloc::GAP.store(a, Ordering::Relaxed);
    crate::cov::GAP.store(e, Ordering::Relaxed);
}

/// Starts the simulation in this process; the caller becomes thread 0.
pub fn boot(seed: u64) {
    let kn = Box::new(Kernel {
        thr: Vec::new(),
        cur: 0,
        live: false,
        steps: 0,
        max_steps: 400_000,
        mono: 1_000_000_000_000,
        real_off: 1_700_000_000_000_000_000,
        clock_mode: 0,
        hash_seed: 1,
        cwd: "/sim".into(),
        rel_names: false,
        rnd: 0,
        ncpu: 4,
        inodes: Vec::new(),
        names: BTreeMap::new(),
        links: BTreeMap::new(),
        files: Vec::new(),
        fds: Vec::new(),
        paths: vec!["-".into(), "<stdout>".into(), "<stderr>".into()],
        mutations: Vec::new(),
        flocks: Vec::new(),
        dirs: Vec::new(),
        tty: None,
        opens: Vec::new(),
        out: Vec::new(),
        err: Vec::new(),
        std_closed: 0,
        profile: Profile::default(),
        std_profile: Profile::default(),
        scope: None,
        actions: Vec::new(),
        live_ops: 0,
        hard: 0,
        soft: 0,
        std_hard: 0,
        actions_done: 0,
        strat: Strat::Random,
        priv_rng: Rng::new(seed ^ 0x1234_5678_9abc),
        pct_points: Vec::new(),
        machine: false,
        snaps: Vec::new(),
        crash_hook: None,
        threads_seen_io: 0,
        gap_scale: 0,
        gap_edges: false,
        shared_scale: 0,
        shared_gaps: 0,
        gap_limit: 0,
        gaps: 0,
    });
    unsafe {
        *KPTR.0.get() = Box::into_raw(kn);
    }
    new_thread();
    set_tid(0);
    ACTIVE.store(true, Ordering::SeqCst);
}
pub fn shutdown() {
    ACTIVE.store(false, Ordering::SeqCst);
    let m = choice::shm();
    m.steps = k().steps as u32;
    m.sim_ns = k().mono - 1_000_000_000_000;
}

pub fn new_thread() -> usize {
    let kn = k();
    let go: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let prio = kn.priv_rng.next() | (1 << 63);
    kn.thr.push(Thr { go, st: St::Run, last: kn.steps, prio, pth: 0, woken: 0, eintr: 0, dtors: Vec::new() });
    kn.thr.len() - 1
}

// ---- log -------------------------------------------------------------------------------
pub fn log(op: Op, fault: u32, path: u8, a: u32, res: i32) {
    let m = choice::shm();
    let t = k().cur as u8;
    m.hash = fnv(m.hash, (t as u64) | ((op as u64) << 8) | ((fault as u64) << 16) | ((path as u64) << 24) | ((a as u64) << 32));
    m.hash = fnv(m.hash, res as u32 as u64);
    if fault != 0 || !matches!(op, Op::Yield | Op::FutexWait | Op::FutexWake | Op::StdW) {
        m.behav = fnv(m.behav, (t as u64) | ((op as u64) << 8) | ((fault as u64) << 16) | ((path as u64) << 24));
    }
    if (m.nev as usize) < EVCAP {
        m.ev[m.nev as usize] = Ev { tid: t, op: op as u8, fault: fault as u8, path, a, res };
        m.nev += 1;
    }
}
pub fn pidx(p: &str) -> u8 {
    let kn = k();
    if let Some(i) = kn.paths.iter().position(|x| x == p) {
        return i.min(255) as u8;
    }
    kn.paths.push(p.into());
    (kn.paths.len() - 1).min(255) as u8
}

// ---- ending a run ----------------------------------------------------------------------
pub fn finish(status: u32, class: &str, msg: &str) -> ! {
    ACTIVE.store(false, Ordering::SeqCst);
    let m = choice::shm();
    m.steps = k().steps as u32;
    m.sim_ns = k().mono - 1_000_000_000_000;
    if status == 2 {
        choice::put_str(&mut m.class, class);
        choice::put_str(&mut m.msg, msg);
    } else if status == 3 {
        choice::put_str(&mut m.msg, msg);
    }
    m.status = status;
    exit_now(0)
}

// ---- scheduling ------------------------------------------------------------------------
fn tick() {
    let kn = k();
    kn.steps += 1;
    let h = mix(kn.steps ^ ((kn.clock_mode as u64) << 40));
    let mut d = 1_000 + h % 50_000;
    match kn.clock_mode {
        1 if h >> 58 == 0 => {
            d = (1 + (h >> 8) % 30) * 1_000_000_000; // a stall of up to 30 s
            stat(ST_CLOCKJUMP);
        }
        2 if h >> 57 == 0 => {
            d = (1 + (h >> 8) % 48) * 3_600_000_000_000; // a jump of hours
            kn.real_off -= ((h >> 16) % 400_000) as i64 * 1_000_000_000; // wall clock set back
            stat(ST_CLOCKJUMP);
        }
        _ => (),
    }
    kn.mono += d;
    if kn.steps > kn.max_steps {
        finish(2, "no-progress", &format!("the call did not finish within {} scheduling steps", kn.max_steps));
    }
}
fn raw_futex_wake(a: &AtomicU32) {
    unsafe {
        sc6(SYS_FUTEX, a as *const _ as i64, 1 | 128, 1, 0, 0, 0);
    }
}
fn park(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) != 1 {
        unsafe {
            sc6(SYS_FUTEX, a as *const _ as i64, 128, 0, 0, 0, 0);
        }
    }
}
fn switch_to(next: usize) {
    let kn = k();
    let me = kn.cur;
    kn.thr[me].last = kn.steps;
    if next == me {
        return;
    }
    stat(ST_SWITCH);
    kn.cur = next;
    let my_go = kn.thr[me].go;
    let go = kn.thr[next].go;
    go.store(1, Ordering::SeqCst);
    raw_futex_wake(go);
    park(my_go);
}
/// Entry of a new OS thread: wait to be given the token for the first time.
pub fn first_park(t: usize, go: &'static AtomicU32) {
    park(go);
    set_tid(t as i32);
}

/// Runnable threads in the order of the choice values: value 0 is the simplest choice.
fn options(include_cur_first: bool, include_cur_last: bool) -> ([u16; 64], usize) {
    let kn = k();
    let n = kn.thr.len();
    let mut o = [0u16; 64];
    let mut c = 0;
    if include_cur_first && kn.thr[kn.cur].st == St::Run {
        o[c] = kn.cur as u16;
        c += 1;
    }
    for i in 1..n {
        let t = (kn.cur + i) % n;
        if kn.thr[t].st == St::Run && c < 63 {
            o[c] = t as u16;
            c += 1;
        }
    }
    if include_cur_last && kn.thr[kn.cur].st == St::Run {
        o[c] = kn.cur as u16;
        c += 1;
    }
    (o, c)
}
fn choose(o: &[u16], yielding: bool) -> usize {
    let kn = k();
    if !kn.live || o.len() == 1 {
        return o[0] as usize;
    }
    let i = draw(S, o.len() as u32, |_| {
        let kn = k();
        // fairness: nobody runnable waits more than 4000 steps
        if let Some(i) = o.iter().position(|t| {
            *t as usize != kn.cur && kn.steps.saturating_sub(kn.thr[*t as usize].last) > 4000
        }) {
            return i as u32;
        }
        match kn.strat {
            Strat::Random => kn.priv_rng.below(o.len() as u64) as u32,
            Strat::Sticky(p) => {
                if kn.priv_rng.chance(p, 100) {
                    0
                } else {
                    kn.priv_rng.below(o.len() as u64) as u32
                }
            }
            Strat::Robin => 1,
            Strat::Pct => {
                let cur = kn.cur;
                if yielding || kn.pct_points.contains(&kn.steps) {
                    kn.thr[cur].prio = (1 << 62) - kn.steps;
                }
                let mut b = 0;
                for (i, t) in o.iter().enumerate() {
                    if kn.thr[*t as usize].prio > kn.thr[o[b] as usize].prio {
                        b = i;
                    }
                }
                b as u32
            }
        }
    });
    let next = o[i as usize] as usize;
    if next != kn.cur && !yielding {
        stat(ST_PREEMPT);
    }
    next
}
pub fn sched_point() {
    tick();
    let (o, c) = options(true, false);
    switch_to(choose(&o[..c], false));
}
pub fn yield_point() {
    tick();
    log(Op::Yield, 0, 0, 0, 0);
    let (o, c) = options(false, true);
    switch_to(choose(&o[..c], true));
}
/// The current thread has been set to a blocked state: run something else until it is woken.
fn block() {
    loop {
        tick();
        let (o, c) = options(false, false);
        if c > 0 {
            switch_to(choose(&o[..c], true));
            return;
        }
        // nobody can run: jump the clock to the next deadline
        let kn = k();
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in kn.thr.iter().enumerate() {
            let d = match t.st {
                St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                St::Sleep { deadline } => deadline,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| d < b) {
                best = Some((d, i));
            }
        }
        match best {
            Some((d, i)) => {
                kn.mono = kn.mono.max(d);
                kn.thr[i].st = St::Run;
                kn.thr[i].woken = 2;
                if i == kn.cur {
                    return;
                }
            }
            None => {
                let mut s = String::new();
                for (i, t) in kn.thr.iter().enumerate() {
                    s += &format!("t{}={:?} ", i, t.st);
                }
                finish(2, "deadlock", &format!("no thread can make progress: {}", s));
            }
        }
    }
}
pub fn futex_wait(addr: usize, val: u32, deadline: u64) -> i64 {
    sched_point();
    let cur_val = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur_val != val {
        log(Op::FutexWait, 0, 0, 0, -EAGAIN);
        return -(EAGAIN as i64);
    }
    let kn = k();
    if deadline != u64::MAX && kn.mono >= deadline {
        return -(ETIMEDOUT as i64);
    }
    log(Op::FutexWait, 0, 0, 1, 0);
    let me = kn.cur;
    kn.thr[me].st = St::Futex { addr, deadline };
    kn.thr[me].woken = 0;
    block();
    if k().thr[me].woken == 2 {
        -(ETIMEDOUT as i64)
    } else {
        0
    }
}
pub fn futex_wake(addr: usize, n: usize) -> i64 {
    let kn = k();
    let mut woke = 0;
    while woke < n {
        let ws: Vec<usize> = (0..kn.thr.len())
            .filter(|i| matches!(kn.thr[*i].st, St::Futex { addr: a, .. } if a == addr))
            .collect();
        if ws.is_empty() {
            break;
        }
        let i = if kn.live && ws.len() > 1 {
            draw(S, ws.len() as u32, |_| k().priv_rng.below(ws.len() as u64) as u32) as usize
        } else {
            0
        };
        let t = ws[i];
        kn.thr[t].st = St::Run;
        kn.thr[t].woken = 1;
        kn.thr[t].last = kn.steps;
        woke += 1;
    }
    log(Op::FutexWake, 0, 0, woke as u32, 0);
    sched_point();
    woke as i64
}
pub fn sleep_ns(ns: u64) {
    let kn = k();
    let me = kn.cur;
    log(Op::Sleep, 0, 0, (ns / 1000) as u32, 0);
    kn.thr[me].st = St::Sleep { deadline: kn.mono.saturating_add(ns) };
    block();
}
pub fn wake_sleepers() {
    let kn = k();
    for t in kn.thr.iter_mut() {
        if let St::Sleep { deadline } = t.st {
            if deadline <= kn.mono {
                t.st = St::Run;
            }
        }
    }
}
pub fn join(t: usize) {
    sched_point();
    let kn = k();
    if kn.thr[t].st == St::Done {
        return;
    }
    let me = kn.cur;
    log(Op::Join, 0, 0, t as u32, 0);
    kn.thr[me].st = St::Join(t);
    block();
}
/// The current thread ends: hand the token over without waiting for it again.
pub fn thread_done() {
    let me = k().cur;
    log(Op::Exit, 0, 0, me as u32, 0);
    let kn = k();
    kn.thr[me].st = St::Done;
    for t in kn.thr.iter_mut() {
        if t.st == St::Join(me) {
            t.st = St::Run;
            t.last = kn.steps;
        }
    }
    let (o, c) = options(false, false);
    if c == 0 {
        // a sleeper may exist; otherwise this is a deadlock
        let kn = k();
        let mut best: Option<(u64, usize)> = None;
        for (i, t) in kn.thr.iter().enumerate() {
            let d = match t.st {
                St::Futex { deadline, .. } if deadline != u64::MAX => deadline,
                St::Sleep { deadline } => deadline,
                _ => continue,
            };
            if best.map_or(true, |(b, _)| d < b) {
                best = Some((d, i));
            }
        }
        match best {
            Some((d, i)) => {
                kn.mono = kn.mono.max(d);
                kn.thr[i].st = St::Run;
                kn.thr[i].woken = 2;
                hand_over(i);
            }
            None => finish(2, "deadlock", "the last runnable thread ended while others wait"),
        }
        return;
    }
    let next = choose(&o[..c], true);
    hand_over(next);
}
fn hand_over(next: usize) {
    let kn = k();
    stat(ST_SWITCH);
    kn.cur = next;
    let go = kn.thr[next].go;
    set_tid(-1);
    go.store(1, Ordering::SeqCst);
    raw_futex_wake(go);
}

// ---- faults ----------------------------------------------------------------------------
fn do_action(a: Action) {
    let kn = k();
    kn.actions_done += 1;
    let name = match &a {
        Action::Replace(p, _) | Action::Unlink(p) | Action::Truncate(p, _) | Action::Overwrite(p, _, _) => p.clone(),
    };
    let code = match a {
        Action::Replace(p, b) => {
            put_new(&p, b);
            1
        }
        Action::Unlink(p) => {
            kn.names.remove(&p);
            2
        }
        Action::Truncate(p, n) => {
            if let Some(i) = kn.names.get(&p) {
                kn.inodes[*i].data.truncate(n);
            }
            3
        }
        Action::Overwrite(p, off, b) => {
            if let Some(i) = kn.names.get(&p) {
                let d = &mut kn.inodes[*i].data;
                for (j, v) in b.iter().enumerate() {
                    if off + j < d.len() {
                        d[off + j] = *v;
                    }
                }
            }
            4
        }
    };
    log(Op::Action, F_ACTION, pidx(&name), code, 0);
}

/// Scheduling point, fault decision and crash point of one system call on a file or stream.
pub fn pre_op(op: Op, path: u8, len: usize) -> Fault {
    sched_point();
    wake_sleepers();
    let kn = k();
    if op != Op::StdW {
        stat(ST_FSOPS);
        if kn.cur < 64 {
            kn.threads_seen_io |= 1 << kn.cur;
        }
    }
    if !kn.live {
        return Fault::None;
    }
    let idx = kn.live_ops;
    kn.live_ops += 1;
    let in_scope = match &kn.scope {
        None => true,
        Some(v) => kn.paths.get(path as usize).map_or(false, |q| {
            // a temporary file beside the named one counts as part of it
            v.iter().any(|p| q.strip_prefix(p.as_str()).map_or(false, |r| r.is_empty() || r.starts_with('.')))
        }),
    };
    let prof = if op == Op::StdW { &kn.std_profile } else { &kn.profile };
    if prof.mask == 0 {
        return Fault::None;
    }
    // what may happen here; also asked in a replay, whose choices may have moved
    let ok = |c: u32, kn: &Kernel| -> bool {
        let p = if op == Op::StdW { &kn.std_profile } else { &kn.profile };
        p.mask & (1 << c) != 0
            && legal(op, c)
            && (in_scope || c == F_ACTION)
            && !(c == F_EINTR && kn.thr[kn.cur].eintr >= 4)
            && !(c == F_ACTION && kn.actions.is_empty())
            && !(c == F_SHORT && len <= 1)
    };
    let code = draw(F, NFC, |_| {
        let kn = k();
        let p = if op == Op::StdW { kn.std_profile.clone() } else { kn.profile.clone() };
        for (i, (at, c)) in p.targets.iter().enumerate() {
            if idx >= *at && ok(*c, kn) {
                let pm = if op == Op::StdW { &mut kn.std_profile } else { &mut kn.profile };
                pm.targets.remove(i);
                return *c;
            }
        }
        for (rate, lo, hi) in [(p.rate, 1, F_SHORT), (p.hard_rate, F_SHORT + 1, NFC - 1)] {
            if rate > 0 && kn.priv_rng.chance(rate as u64, 65536) {
                let cs: Vec<u32> = (lo..=hi).filter(|c| ok(*c, kn)).collect();
                if !cs.is_empty() {
                    return cs[kn.priv_rng.below(cs.len() as u64) as usize];
                }
            }
        }
        0
    });
    let kn = k();
    let code = if ok(code, kn) { code } else { 0 };
    let me = kn.cur;
    if code != F_EINTR {
        kn.thr[me].eintr = 0;
    }
    if code == 0 {
        return Fault::None;
    }
    stat(code as usize);
    let hard = |e: i32| {
        let kn = k();
        if op == Op::StdW {
            kn.std_hard += 1
        } else {
            kn.hard += 1
        }
        Fault::Err(e)
    };
    match code {
        F_EINTR => {
            kn.soft += 1;
            kn.thr[me].eintr += 1;
            Fault::Err(EINTR)
        }
        F_SHORT => {
            kn.soft += 1;
            let n = draw(F, (len - 1).min(1 << 20) as u32, |r| {
                if r.chance(1, 2) {
                    r.below((len as u64 - 1).min(8)) as u32
                } else {
                    r.below(len as u64 - 1) as u32
                }
            }) as usize
                + 1;
            Fault::Short(n)
        }
        F_EIO => hard(EIO),
        F_EACCES => hard(EACCES),
        F_EMFILE => hard(EMFILE),
        F_ENOSPC => hard(ENOSPC),
        F_EPIPE => hard(EPIPE),
        F_EBADF => hard(EBADF),
        F_ACTION => {
            if !kn.actions.is_empty() {
                let a = kn.actions.remove(0);
                do_action(a);
            }
            Fault::None
        }
        F_CRASH => {
            log(op, F_CRASH, path, len as u32, 0);
            if op == Op::Write && len > 0 {
                // the crash falls inside the write: some prefix has reached the file
                let n = draw(F, (len + 1).min(1 << 20) as u32, |r| r.below(len as u64 + 1) as u32) as usize;
                return Fault::Short(n | CRASH_BIT);
            }
            crash()
        }
        _ => Fault::None,
    }
}
pub const CRASH_BIT: usize = 1 << 40;
/// The process under test dies here: only the file system survives.
pub fn crash() -> ! {
    ACTIVE.store(false, Ordering::SeqCst);
    let kn = k();
    if kn.machine {
        lose_unsynced(kn);
    }
    match kn.crash_hook.take() {
        Some(h) => match h(kn) {
            Ok(()) => finish(1, "", ""),
            Err((c, m)) => finish(2, &c, &m),
        },
        None => finish(3, "", "crash without a crash hook"),
    }
}

/// The machine went down: changes of names reached the disk in order, but only up to some
/// point; of unsynchronised file content anything may have reached it.
fn lose_unsynced(kn: &mut Kernel) {
    let n = kn.snaps.len();
    let back = draw(F, n as u32 + 1, |r| r.below(n as u64 + 1) as u32) as usize;
    if back > 0 {
        kn.names = kn.snaps[n - back].clone();
    }
    let live: std::collections::BTreeSet<usize> = kn.names.values().copied().collect();
    for i in live {
        let f = &mut kn.inodes[i];
        if f.data == f.synced {
            continue;
        }
        let len = f.data.len();
        match draw(F, 4, |r| r.below(4) as u32) {
            0 => f.data = f.synced.clone(),
            1 => (),
            2 => {
                // the length was written, not all of the content
                let k = draw(F, (len + 1).min(1 << 20) as u32, |r| r.below(len as u64 + 1) as u32) as usize;
                for b in f.data[k.min(len)..].iter_mut() {
                    *b = 0;
                }
            }
            _ => {
                let k = draw(F, (len + 1).min(1 << 20) as u32, |r| r.below(len as u64 + 1) as u32) as usize;
                f.data.truncate(k);
            }
        }
    }
}

// ---- file operations (token held) -------------------------------------------------------
pub fn put_new(path: &str, data: Vec<u8>) -> usize {
    let kn = k();
    kn.inodes.push(Inode { synced: data.clone(), dir: false, data, bad: Vec::new(), mtime: kn.mono / 1_000_000_000, mode: 0o644 });
    kn.names.insert(path.into(), kn.inodes.len() - 1);
    kn.inodes.len() - 1
}
pub fn file(path: &str) -> Option<&'static mut Inode> {
    let kn = k();
    kn.names.get(&follow(path).ok()?).map(|i| &mut k().inodes[*i])
}
pub fn open_fd_count() -> usize {
    k().fds.iter().filter(|f| f.is_some()).count()
}
fn alloc_fd(of: usize) -> i32 {
    let kn = k();
    let i = match kn.fds.iter().position(|f| f.is_none()) {
        Some(i) => i,
        None => {
            kn.fds.push(None);
            kn.fds.len() - 1
        }
    };
    kn.fds[i] = Some(of);
    FD0 + i as i32
}
pub fn of(fd: i32) -> Option<&'static mut OpenFile> {
    if fd < FD0 {
        return None;
    }
    let kn = k();
    match kn.fds.get((fd - FD0) as usize) {
        Some(Some(i)) => Some(&mut k().files[*i]),
        _ => None,
    }
}
const O_WRONLY: i32 = 1;
const O_RDWR: i32 = 2;
const O_CREAT: i32 = 0o100;
const O_EXCL: i32 = 0o200;
const O_TRUNC: i32 = 0o1000;
const O_APPEND: i32 = 0o2000;
const O_NOFOLLOW: i32 = 0o400000;
pub fn k_is_null() -> bool {
    unsafe { (*KPTR.0.get()).is_null() }
}
pub fn norm(path: &str) -> String {
    let mut v: Vec<&str> = Vec::new();
    if !path.starts_with('/') && !k_is_null() {
        v.extend(k().cwd.split('/').filter(|c| !c.is_empty()));
    }
    for c in path.split('/') {
        match c {
            "" | "." => (),
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("/{}", v.join("/"))
}
/// The path with symbolic links in its last component followed.
pub fn follow(path: &str) -> Result<String, i32> {
    let mut p = norm(path);
    for _ in 0..40 {
        let t = match k().links.get(&p) {
            Some(t) => t,
            None => return Ok(p),
        };
        p = if t.starts_with('/') { norm(t) } else { norm(&format!("{}/../{}", p, t)) };
    }
    Err(40)
}
pub fn k_readlink(path: &str) -> Result<String, i32> {
    let p = norm(path);
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Stat, pi, 0) {
        log(Op::Stat, code_of(e), pi, 1, -e);
        return Err(e);
    }
    let r = match k().links.get(&p) {
        Some(t) => Ok(t.clone()),
        None if k().names.contains_key(&p) || is_dir(&p) => Err(EINVAL),
        None => Err(ENOENT),
    };
    log(Op::Stat, 0, pi, 1, r.as_ref().map_or_else(|e| -*e, |_| 0));
    r
}
pub fn k_chdir(path: &str) -> i64 {
    let p = norm(path);
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Stat, pi, 0) {
        log(Op::Stat, code_of(e), pi, 2, -e);
        return -(e as i64);
    }
    let r = match follow(&p) {
        Ok(p) if is_dir(&p) => {
            k().cwd = p;
            0
        }
        Ok(p) if k().names.contains_key(&p) => -20,
        Ok(_) => -ENOENT,
        Err(e) => -e,
    };
    log(Op::Stat, 0, pi, 2, r);
    r as i64
}
fn is_dir(path: &str) -> bool {
    path == "/" || path == "/sim" || path == "/tmp"
}
pub fn k_open(path: &str, flags: i32, mode: u32) -> i64 {
    let path = norm(path);
    let pi = pidx(&path);
    let acc = flags & 3;
    let wr = acc == O_WRONLY || acc == O_RDWR || flags & (O_TRUNC | O_CREAT) != 0;
    let f = pre_op(Op::Open, pi, 0);
    if let Fault::Err(e) = f {
        log(Op::Open, code_of(e), pi, flags as u32, -e);
        k().opens.push((path, false, wr));
        return -(e as i64);
    }
    let named = path;
    let path = match follow(&named) {
        Ok(_) if flags & O_NOFOLLOW != 0 && k().links.contains_key(&named) => Err(40),
        Ok(_) if flags & O_CREAT != 0 && flags & O_EXCL != 0 && k().links.contains_key(&named) => Err(EEXIST),
        r => r,
    };
    let path = match path {
        Ok(p) => p,
        Err(e) => {
            k().opens.push((named, false, wr));
            log(Op::Open, 0, pi, flags as u32, -e);
            return -(e as i64);
        }
    };
    let kn = k();
    let parent_ok = is_dir(path.rsplit_once('/').map_or("/", |x| if x.0.is_empty() { "/" } else { x.0 }));
    let r = match kn.names.get(&path).copied() {
        Some(_) if flags & O_CREAT != 0 && flags & O_EXCL != 0 => Err(EEXIST),
        Some(i) => Ok(i),
        None if is_dir(&path) && !wr => {
            // a directory, to synchronise it
            kn.inodes.push(Inode { data: Vec::new(), synced: Vec::new(), dir: true, bad: Vec::new(), mtime: 0, mode: 0o755 });
            Ok(kn.inodes.len() - 1)
        }
        None if is_dir(&path) => Err(21),
        None if flags & O_CREAT != 0 && parent_ok => {
            kn.mutations.push(("create".into(), path.clone()));
            kn.snaps.push(kn.names.clone());
            let i = put_new(&path, Vec::new());
            kn.inodes[i].mode = mode & 0o777 & !0o022;
            Ok(i)
        }
        None => Err(ENOENT),
    };
    kn.opens.push((named.clone(), r.is_ok(), wr));
    match r {
        Err(e) => {
            log(Op::Open, 0, pi, flags as u32, -e);
            -(e as i64)
        }
        Ok(ino) => {
            if wr {
                kn.mutations.push(("open-for-writing".into(), path.clone()));
            }
            if flags & O_TRUNC != 0 {
                kn.inodes[ino].data.clear();
                kn.inodes[ino].mtime = kn.mono / 1_000_000_000;
            }
            kn.files.push(OpenFile {
                ino,
                pos: 0,
                r: acc != O_WRONLY,
                w: acc != 0,
                append: flags & O_APPEND != 0,
                path,
                refs: 1,
            });
            let fd = alloc_fd(kn.files.len() - 1);
            log(Op::Open, 0, pi, flags as u32, fd);
            fd as i64
        }
    }
}
fn code_of(e: i32) -> u32 {
    match e {
        EINTR => F_EINTR,
        EIO => F_EIO,
        EACCES => F_EACCES,
        EMFILE => F_EMFILE,
        ENOSPC => F_ENOSPC,
        EPIPE => F_EPIPE,
        EBADF => F_EBADF,
        _ => 0,
    }
}
/// `at`: explicit offset (pread) or the shared position.
pub fn k_read(fd: i32, buf: *mut u8, len: usize, at: Option<i64>) -> i64 {
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let pi = pidx(&o.path);
    // a read can only fall short of what the file still holds
    let pos = at.map_or(o.pos, |x| x.max(0) as usize);
    let left = k().inodes[o.ino].data.len().saturating_sub(pos);
    let f = pre_op(Op::Read, pi, len.min(left));
    if let Fault::Err(e) = f {
        log(Op::Read, code_of(e), pi, len as u32, -e);
        return -(e as i64);
    }
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    if !o.r {
        return -(EBADF as i64);
    }
    let draw_anchor = match f {
        Fault::Short(_) => draw(F, 3, |r| [0, 0, 0, 1, 1, 2][r.below(6) as usize]),
        _ => 0,
    };
    let ino = &k().inodes[o.ino];
    if ino.dir {
        return -21;
    }
    let pos = at.map_or(o.pos, |x| x.max(0) as usize);
    let avail = ino.data.len().saturating_sub(pos);
    let mut n = len.min(avail);
    let mut fc = 0;
    if let Fault::Short(s) = f {
        n = n.min(s);
        fc = F_SHORT;
        // some end where it matters: inside a character, or at the end of a line
        let end = |c: u8| match draw_anchor {
            1 => c & 0xc0 == 0x80,
            _ => c == b'\n',
        };
        if draw_anchor > 0 && n < len.min(avail) {
            let rest = &ino.data[pos + n..pos + len.min(avail)];
            if let Some(i) = rest.iter().take(4096).position(|c| end(*c)) {
                let i = n + i + (draw_anchor - 1) as usize;
                if i < len.min(avail) {
                    n = i;
                }
            }
        }
    }
    for (a, b) in &ino.bad {
        if n > 0 && pos < *b && pos + n > *a {
            if pos >= *a {
                stat(ST_BADSECTOR);
                log(Op::Read, F_EIO, pi, len as u32, -EIO);
                return -(EIO as i64);
            }
            n = n.min(*a - pos);
        }
    }
    if n > 0 {
        unsafe { std::ptr::copy_nonoverlapping(ino.data[pos..].as_ptr(), buf, n) }
    }
    if at.is_none() {
        o.pos += n;
    }
    log(Op::Read, fc, pi, len as u32, n as i32);
    n as i64
}
pub fn k_write(fd: i32, buf: *const u8, len: usize, at: Option<i64>) -> i64 {
    if fd == 1 || fd == 2 {
        return k_std_write(fd, buf, len);
    }
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let pi = pidx(&o.path);
    let f = pre_op(Op::Write, pi, len);
    if let Fault::Err(e) = f {
        log(Op::Write, code_of(e), pi, len as u32, -e);
        return -(e as i64);
    }
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    if !o.w {
        return -(EBADF as i64);
    }
    let mut n = len;
    let mut die = false;
    let mut fc = 0;
    if let Fault::Short(s) = f {
        die = s & CRASH_BIT != 0;
        n = n.min(s & !CRASH_BIT);
        fc = F_SHORT;
    }
    let kn = k();
    let ino = &mut kn.inodes[o.ino];
    let pos = if o.append { ino.data.len() } else { at.map_or(o.pos, |x| x.max(0) as usize) };
    if n > 0 {
        if ino.data.len() < pos + n {
            ino.data.resize(pos + n, 0);
        }
        unsafe { std::ptr::copy_nonoverlapping(buf, ino.data[pos..].as_mut_ptr(), n) }
    }
    ino.mtime = kn.mono / 1_000_000_000;
    if at.is_none() {
        o.pos = pos + n;
    }
    kn.mutations.push(("write".into(), o.path.clone()));
    log(Op::Write, fc, pi, len as u32, n as i32);
    if die {
        crash();
    }
    n as i64
}
fn k_std_write(fd: i32, buf: *const u8, len: usize) -> i64 {
    let pi = fd as u8;
    if k().std_closed != 0 {
        sched_point();
        let e = k().std_closed;
        log(Op::StdW, code_of(e), pi, len as u32, -e);
        k().std_hard += 1;
        stat(code_of(e) as usize);
        return -(e as i64);
    }
    let f = pre_op(Op::StdW, pi, len);
    let mut n = len;
    let mut fc = 0;
    match f {
        Fault::Err(e) => {
            log(Op::StdW, code_of(e), pi, len as u32, -e);
            return -(e as i64);
        }
        Fault::Short(s) => {
            n = n.min(s);
            fc = F_SHORT;
        }
        Fault::None => (),
    }
    let b = unsafe { std::slice::from_raw_parts(buf, n) };
    let kn = k();
    let v = if fd == 1 { &mut kn.out } else { &mut kn.err };
    if v.len() < 4 << 20 {
        v.extend_from_slice(b);
    }
    log(Op::StdW, fc, pi, len as u32, n as i32);
    n as i64
}
pub fn k_lseek(fd: i32, off: i64, whence: i32) -> i64 {
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let pi = pidx(&o.path);
    if let Fault::Err(e) = pre_op(Op::Seek, pi, 0) {
        log(Op::Seek, code_of(e), pi, off as u32, -e);
        return -(e as i64);
    }
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let base = match whence {
        0 => 0,
        1 => o.pos as i64,
        2 => k().inodes[o.ino].data.len() as i64,
        _ => return -(EINVAL as i64),
    };
    let n = match base.checked_add(off) {
        Some(n) if n >= 0 => n,
        _ => return -(EINVAL as i64),
    };
    o.pos = n as usize;
    log(Op::Seek, 0, pi, off as u32, n as i32);
    n
}
pub struct StatOut {
    pub mode: u32,
    pub size: u64,
    pub ino: u64,
    pub mtime: u64,
}
pub fn k_stat(path: Option<&str>, fd: i32, nofollow: bool) -> Result<StatOut, i32> {
    let p = match path {
        Some(p) => norm(p),
        None => match of(fd) {
            Some(o) => o.path.clone(),
            None => return Err(EBADF),
        },
    };
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Stat, pi, 0) {
        log(Op::Stat, code_of(e), pi, 0, -e);
        return Err(e);
    }
    let kn = k();
    let ino = match path {
        Some(_) => {
            if is_dir(&p) {
                return Ok(StatOut { mode: 0o40755, size: 4096, ino: 2, mtime: 0 });
            }
            if let (Some(t), true) = (kn.links.get(&p), nofollow) {
                log(Op::Stat, 0, pi, 0, 0);
                return Ok(StatOut { mode: 0o120777, size: t.len() as u64, ino: 3, mtime: 0 });
            }
            match kn.names.get(&follow(&p)?) {
                Some(i) => *i,
                None => {
                    log(Op::Stat, 0, pi, 0, -ENOENT);
                    return Err(ENOENT);
                }
            }
        }
        None => match of(fd) {
            Some(o) => o.ino,
            None => return Err(EBADF),
        },
    };
    log(Op::Stat, 0, pi, 0, 0);
    Ok(StatOut {
        mode: kn.inodes[ino].mode | if kn.inodes[ino].dir { 0o40000 } else { 0o100000 },
        size: kn.inodes[ino].data.len() as u64,
        ino: ino as u64 + 10,
        mtime: kn.inodes[ino].mtime,
    })
}
pub fn k_close(fd: i32) -> i64 {
    if fd < FD0 {
        return -(EBADF as i64);
    }
    let i = (fd - FD0) as usize;
    let pi = match of(fd) {
        Some(o) => pidx(&o.path),
        None => return -(EBADF as i64),
    };
    let _ = pre_op(Op::Close, pi, 0);
    let kn = k();
    if let Some(Some(f)) = kn.fds.get(i).copied() {
        kn.files[f].refs -= 1;
        kn.fds[i] = None;
        if kn.files[f].refs == 0 {
            kn.flocks.retain(|l| l.1 != f);
        }
    }
    log(Op::Close, 0, pi, fd as u32, 0);
    0
}
pub fn k_dup(fd: i32) -> i64 {
    let o = match of(fd) {
        Some(o) => o,
        None => return -(EBADF as i64),
    };
    let pi = pidx(&o.path);
    if let Fault::Err(e) = pre_op(Op::Open, pi, 0) {
        return -(e as i64);
    }
    let f = match k().fds.get((fd - FD0) as usize) {
        Some(Some(f)) => *f,
        _ => return -(EBADF as i64),
    };
    k().files[f].refs += 1;
    alloc_fd(f) as i64
}
pub fn k_sync(fd: i32) -> i64 {
    let pi = match of(fd) {
        Some(o) => pidx(&o.path),
        None => return -(EBADF as i64),
    };
    if let Fault::Err(e) = pre_op(Op::Sync, pi, 0) {
        log(Op::Sync, code_of(e), pi, 0, -e);
        return -(e as i64);
    }
    log(Op::Sync, 0, pi, 0, 0);
    let kn = k();
    if let Some(o) = of(fd) {
        let f = &mut kn.inodes[o.ino];
        f.synced = f.data.clone();
        if f.dir {
            kn.snaps.clear();
        }
    }
    0
}
pub fn k_ftruncate(fd: i32, len: i64) -> i64 {
    let pi = match of(fd) {
        Some(o) => pidx(&o.path),
        None => return -(EBADF as i64),
    };
    if let Fault::Err(e) = pre_op(Op::Trunc, pi, 0) {
        return -(e as i64);
    }
    let kn = k();
    if let Some(o) = of(fd) {
        if !o.w || len < 0 {
            return -(EINVAL as i64);
        }
        kn.inodes[o.ino].data.resize((len as usize).min(1 << 28), 0);
        kn.mutations.push(("ftruncate".into(), o.path.clone()));
    }
    log(Op::Trunc, 0, pi, len as u32, 0);
    0
}
pub fn k_rename(a: &str, b: &str) -> i64 {
    let (a, b) = (norm(a), norm(b));
    let pi = pidx(&a);
    if let Fault::Err(e) = pre_op(Op::Rename, pi, 0) {
        log(Op::Rename, code_of(e), pi, 0, -e);
        return -(e as i64);
    }
    let kn = k();
    let before = kn.names.clone();
    match kn.names.remove(&a) {
        None => -(ENOENT as i64),
        Some(i) => {
            kn.snaps.push(before);
            kn.links.remove(&b);
            kn.names.insert(b.clone(), i);
            kn.mutations.push(("rename-from".into(), a));
            kn.mutations.push(("rename-to".into(), b));
            log(Op::Rename, 0, pi, 0, 0);
            0
        }
    }
}
pub fn k_unlink(a: &str) -> i64 {
    let a = norm(a);
    let pi = pidx(&a);
    if let Fault::Err(e) = pre_op(Op::Unlink, pi, 0) {
        k().mutations.push(("unlink-failed".into(), a));
        log(Op::Unlink, code_of(e), pi, 0, -e);
        return -(e as i64);
    }
    let kn = k();
    let before = kn.names.clone();
    match kn.names.remove(&a) {
        None if kn.links.remove(&a).is_some() => {
            kn.mutations.push(("unlink".into(), a));
            log(Op::Unlink, 0, pi, 0, 0);
            0
        }
        None => -(ENOENT as i64),
        Some(_) => {
            kn.snaps.push(before);
            kn.mutations.push(("unlink".into(), a));
            log(Op::Unlink, 0, pi, 0, 0);
            0
        }
    }
}
/// Calls that only matter because they would change something (mkdir, chmod, link, ...).
pub fn k_other_mutation(call: &str, path: &str, e: i32) -> i64 {
    let p = norm(path);
    let pi = pidx(&p);
    let _ = pre_op(Op::Other, pi, 0);
    k().mutations.push((call.into(), p));
    log(Op::Other, 0, pi, 0, -e);
    -(e as i64)
}

/// A second name for a file.
pub fn k_link(a: &str, b: &str) -> i64 {
    let (a, b) = (norm(a), norm(b));
    let pi = pidx(&b);
    if let Fault::Err(e) = pre_op(Op::Rename, pi, 0) {
        log(Op::Rename, code_of(e), pi, 1, -e);
        return -(e as i64);
    }
    let kn = k();
    let r = match kn.names.get(&a).copied() {
        None => -(ENOENT as i64),
        Some(_) if kn.names.contains_key(&b) || kn.links.contains_key(&b) => -17,
        Some(i) => {
            let before = kn.names.clone();
            kn.snaps.push(before);
            kn.names.insert(b.clone(), i);
            kn.mutations.push(("link".into(), b));
            0
        }
    };
    log(Op::Rename, 0, pi, 1, r as i32);
    r
}
pub fn k_symlink(to: &str, b: &str) -> i64 {
    let b = norm(b);
    let pi = pidx(&b);
    if let Fault::Err(e) = pre_op(Op::Rename, pi, 0) {
        log(Op::Rename, code_of(e), pi, 2, -e);
        return -(e as i64);
    }
    let kn = k();
    if kn.names.contains_key(&b) || kn.links.contains_key(&b) {
        return -17;
    }
    kn.links.insert(b.clone(), to.into());
    kn.mutations.push(("symlink".into(), b));
    log(Op::Rename, 0, pi, 2, 0);
    0
}
pub fn k_attribute(what: &str, path: &str) -> i64 {
    let p = norm(path);
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Other, pi, 0) {
        log(Op::Other, code_of(e), pi, 0, -e);
        return -(e as i64);
    }
    k().mutations.push((what.into(), p));
    log(Op::Other, 0, pi, 0, 0);
    0
}
pub fn k_isatty(fd: i32) -> bool {
    if fd > 2 {
        return false;
    }
    let t = match k().tty {
        Some(t) => t,
        None => draw(S, 2, |r| r.below(2) as u32) == 1,
    };
    k().tty = Some(t);
    t
}
/// Advisory locks, as `File::lock` and `File::try_lock` take them.
pub fn k_flock(fd: i32, op: i32) -> i64 {
    let f = match k().fds.get((fd - FD0).max(0) as usize) {
        Some(Some(f)) if fd >= FD0 => *f,
        _ => return -(EBADF as i64),
    };
    let (ino, pi) = (k().files[f].ino, pidx(&k().files[f].path));
    sched_point();
    k().flocks.retain(|l| l.1 != f);
    if op & 8 != 0 {
        log(Op::Other, 0, pi, op as u32, 0);
        return 0;
    }
    let excl = op & 2 != 0;
    loop {
        if !k().flocks.iter().any(|l| l.0 == ino && (l.2 || excl)) {
            k().flocks.push((ino, f, excl));
            log(Op::Other, 0, pi, op as u32, 0);
            return 0;
        }
        if op & 4 != 0 {
            log(Op::Other, 0, pi, op as u32, -11);
            return -11;
        }
        yield_point();
    }
}
pub struct Dir {
    pub fd: i32,
    pub left: Vec<(String, u8, usize)>,
    pub ent: [u8; 280],
}
const DIR0: i32 = 0x4000_0000;
pub fn dir_of(fd: i32) -> Option<String> {
    if fd < DIR0 {
        return None;
    }
    k().dirs.get((fd - DIR0) as usize)?.clone()
}
/// The entries of a directory come in any order.
pub fn k_opendir(path: &str) -> Result<Dir, i32> {
    let p = norm(path);
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Stat, pi, 0) {
        log(Op::Stat, code_of(e), pi, 0, -e);
        k().opens.push((p, false, false));
        return Err(e);
    }
    let kn = k();
    let ok = is_dir(&p);
    kn.opens.push((p.clone(), ok, false));
    log(Op::Stat, 0, pi, 0, if ok { 0 } else { -ENOENT });
    if !ok {
        return Err(if kn.names.contains_key(&p) { 20 } else { ENOENT });
    }
    let pre = if p == "/" { "/".to_string() } else { format!("{}/", p) };
    let direct = |q: &String| q.strip_prefix(&pre).filter(|n| !n.is_empty() && !n.contains('/')).map(|n| n.to_string());
    let mut left: Vec<(String, u8, usize)> = vec![(".".into(), 4, 1), ("..".into(), 4, 2)];
    left.extend(kn.names.iter().filter_map(|(q, i)| direct(q).map(|n| (n, 8, *i + 10))));
    left.extend(kn.links.keys().filter_map(|q| direct(q).map(|n| (n, 10, 3))));
    if p == "/" {
        left.extend(["sim", "tmp"].iter().map(|n| (n.to_string(), 4, 4)));
    }
    for i in (1..left.len()).rev() {
        let j = i - draw(S, i as u32 + 1, |r| r.below(i as u64 + 1) as u32) as usize;
        left.swap(i, j);
    }
    kn.dirs.push(Some(p));
    Ok(Dir { fd: DIR0 + kn.dirs.len() as i32 - 1, left, ent: [0; 280] })
}
pub fn k_readdir(d: &mut Dir) -> Result<Option<(String, u8, usize)>, i32> {
    let pi = dir_of(d.fd).map_or(0, |p| pidx(&p));
    if let Fault::Err(e) = pre_op(Op::Stat, pi, 0) {
        log(Op::Stat, code_of(e), pi, 3, -e);
        return Err(e);
    }
    Ok(d.left.pop())
}
pub fn k_closedir(d: &Dir) {
    if let Some(x) = k().dirs.get_mut((d.fd - DIR0) as usize) {
        *x = None;
    }
}
pub fn k_chmod(path: Option<&str>, fd: i32, mode: u32) -> i64 {
    let p = match path {
        Some(p) => norm(p),
        None => of(fd).map_or(String::new(), |o| o.path.clone()),
    };
    let pi = pidx(&p);
    if let Fault::Err(e) = pre_op(Op::Other, pi, 0) {
        log(Op::Other, code_of(e), pi, mode, -e);
        return -(e as i64);
    }
    let kn = k();
    let ino = match path {
        Some(_) => follow(&p).ok().and_then(|q| kn.names.get(&q).copied()),
        None => of(fd).map(|o| o.ino),
    };
    kn.mutations.push(("chmod".into(), p));
    let r = match ino {
        Some(i) => {
            kn.inodes[i].mode = mode & 0o777;
            0
        }
        None => -(ENOENT as i64),
    };
    log(Op::Other, 0, pi, mode, r as i32);
    r
}
