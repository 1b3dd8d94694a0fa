//! The only source of randomness of a simulated run: three recorded streams of bounded
//! integers. A run is a pure function of the three streams (and the code), so a recorded
//! run replays exactly, and deleting or zeroing entries is a valid shrink.
//!   W  workload (what files hold, which calls are made)
//!   S  schedule (which thread runs next, which waiter is woken)
//!   F  faults   (which system call fails and how, crashes, concurrent file changes)
//! Entry 0 is always the simplest choice: smallest workload, keep running, no fault.
use std::cell::UnsafeCell;

pub const CAP: usize = 1 << 17;
pub const EVCAP: usize = 1 << 16;
pub const NSTAT: usize = 64;

#[repr(C)]
#[derive(Clone, Copy, Default)]
pub struct Ev {
    pub tid: u8,
    pub op: u8,
    pub fault: u8,
    pub path: u8,
    pub a: u32,
    pub res: i32,
}

/// Memory shared between one worker and the run it has forked; the run's outcome survives
/// even if the run dies.
#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 running, 1 held, 2 violation, 3 harness error
    pub class: [u8; 192],
    pub msg: [u8; 6000],
    pub desc: [u8; 60000],
    pub n: [u32; 3],
    pub st: [[u32; CAP]; 3],
    pub nev: u32,
    pub ev: [Ev; EVCAP],
    pub stats: [u64; NSTAT],
    pub hash: u64,      // whole event log
    pub behav: u64,     // interleaving and fault signature
    pub nontrivial: u32,
    pub steps: u32,
    pub sim_ns: u64,
    pub base_len: u32,
    pub base_hash: u64,
    pub base: [u8; 65536],
    /// edges of the code under test reached so far by this worker
    pub cov: [u8; crate::cov::MAX],
}
impl Shm {
    pub fn reset(&mut self) {
        self.status = 0;
        self.class[0] = 0;
        self.msg[0] = 0;
        self.desc[0] = 0;
        self.n = [0; 3];
        self.nev = 0;
        self.stats = [0; NSTAT];
        self.hash = 0xcbf29ce484222325;
        self.behav = 0xcbf29ce484222325;
        self.nontrivial = 0;
        self.steps = 0;
        self.sim_ns = 0;
    }
}
pub fn put_str(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let mut n = b.len().min(dst.len() - 1);
    while n > 0 && !s.is_char_boundary(n) {
        n -= 1;
    }
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
pub fn get_str(src: &[u8]) -> String {
    let n = src.iter().position(|c| *c == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

#[derive(Clone, Copy)]
#[derive(Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(17) ^ mix(v)
}

pub const W: usize = 0;
pub const S: usize = 1;
pub const F: usize = 2;

pub struct Choices {
    pub shm: *mut Shm,
    pub rng: [Rng; 3],
    pub replay: Option<[Vec<u32>; 3]>,
    pub idx: [usize; 3],
}
pub struct Global(pub UnsafeCell<Option<Choices>>);
unsafe impl Sync for Global {}
static CH: Global = Global(UnsafeCell::new(None));

pub fn init(shm: *mut Shm, seed: u64, replay: Option<[Vec<u32>; 3]>) {
    unsafe {
        *CH.0.get() = Some(Choices {
            shm,
            rng: [Rng::new(seed), Rng::new(seed ^ 0x5555_0001), Rng::new(seed ^ 0xaaaa_0002)],
            replay,
            idx: [0; 3],
        })
    }
}
#[allow(clippy::mut_from_ref)]
pub fn ch() -> &'static mut Choices {
    unsafe { (*CH.0.get()).as_mut().unwrap() }
}
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *ch().shm }
}
pub fn shm_if() -> Option<&'static mut Shm> {
    unsafe { (*CH.0.get()).as_ref().map(|c| &mut *c.shm) }
}

/// One recorded choice in `[0, n)`. `f` decides it in a recording run; a replay reads it back.
pub fn draw(s: usize, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let c = ch();
    let i = c.idx[s];
    if i >= CAP {
        return 0;
    }
    c.idx[s] += 1;
    let v = match &c.replay {
        Some(r) => r[s].get(i).copied().unwrap_or(0).min(n - 1),
        None => f(&mut c.rng[s]).min(n - 1),
    };
    let m = shm();
    m.st[s][i] = v;
    m.n[s] = (i + 1) as u32;
    v
}

/// Workload draws.
pub mod w {
    use super::*;
    pub fn int(lo: i64, hi: i64) -> i64 {
        let n = (hi - lo + 1) as u32;
        lo + draw(W, n, |r| r.below(n as u64) as u32) as i64
    }
    pub fn below(n: usize) -> usize {
        draw(W, n as u32, |r| r.below(n as u64) as u32) as usize
    }
    /// Small values are much more likely; the whole range is reachable.
    pub fn small(lo: i64, hi: i64) -> i64 {
        let n = (hi - lo + 1) as u32;
        lo + draw(W, n, |r| {
            let k = r.below(4);
            let m = match k {
                0 => 2,
                1 => 4,
                2 => (n as u64).min(9),
                _ => n as u64,
            };
            r.below(m) as u32
        }) as i64
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(num: u64, den: u64) -> bool {
        draw(W, 2, |r| r.chance(num, den) as u32) == 1
    }
    pub fn pick<T: Clone>(v: &[T]) -> T {
        v[below(v.len())].clone()
    }
    /// Index with the given weights.
    pub fn weighted(ws: &[u32]) -> usize {
        let tot: u32 = ws.iter().sum();
        draw(W, ws.len() as u32, |r| {
            let mut x = r.below(tot as u64) as u32;
            for (i, w) in ws.iter().enumerate() {
                if x < *w {
                    return i as u32;
                }
                x -= *w;
            }
            0
        }) as usize
    }
}
