//! The single source of every decision a simulated run makes.
//!
//! A run is a pure function of a sequence of choices.  In search mode the choices come from a PRNG
//! seeded from (VERIF_SEED, property, run index); in replay mode they come from a file.  A choice of 0
//! is always the simplest one, so that a missing choice in a (minimised) replay means "simplest".
use std::cell::UnsafeCell;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
    /// When set, every choice is also appended to this fd at once (used to recover the choices of a run
    /// that kills its process).
    sink: i32,
}

struct G(UnsafeCell<Option<Src>>);
// Only the thread that holds the simulator's baton draws choices.
unsafe impl Sync for G {}
static SRC: G = G(UnsafeCell::new(None));

fn src() -> &'static mut Src {
    unsafe { (*SRC.0.get()).as_mut().expect("no choice source") }
}

pub fn start_random(seed: u64, sink: i32) {
    unsafe {
        *SRC.0.get() = Some(Src {
            rng: Some(Rng::new(seed)),
            replay: vec![],
            pos: 0,
            rec: Vec::with_capacity(256),
            sink,
        })
    }
}
pub fn start_replay(choices: &[u64], sink: i32) {
    unsafe {
        *SRC.0.get() = Some(Src {
            rng: None,
            replay: choices.to_vec(),
            pos: 0,
            rec: Vec::with_capacity(choices.len() + 16),
            sink,
        })
    }
}
pub fn recorded() -> Vec<u64> {
    src().rec.clone()
}

/// Draws a value in `0..n`.
pub fn below(n: u64) -> u64 {
    let _g = crate::seam::Quiet::new();
    let s = src();
    let v = match s.rng {
        Some(ref mut r) => r.below(n),
        None => {
            let v = s.replay.get(s.pos).copied().unwrap_or(0);
            s.pos += 1;
            if n == 0 {
                0
            } else if v < n {
                v
            } else {
                v % n
            }
        }
    };
    s.rec.push(v);
    if s.sink >= 0 {
        let b = v.to_le_bytes();
        unsafe {
            libc::syscall(libc::SYS_write, s.sink, b.as_ptr(), 8usize);
        }
    }
    v
}
pub fn below_usize(n: usize) -> usize {
    below(n as u64) as usize
}
/// In `lo..=hi`; `lo` is the simplest.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + below(hi - lo + 1)
}
/// True with probability num/den; false is the simplest.
pub fn chance(num: u64, den: u64) -> bool {
    below(den) >= den - num
}
pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[below_usize(xs.len())]
}
/// A sub-seed for a local PRNG (used where one choice per event would make replays needlessly long).
pub fn subseed() -> u64 {
    below(1 << 32)
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;
