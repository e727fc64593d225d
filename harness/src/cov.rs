//! Edge counters of the crate under test (it alone is compiled with them, see
//! tools/rustc-cov.sh) and the choice sequences that reached something new.

use std::sync::atomic::{AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);

/// Called before main by the instrumented code, perhaps once per unit with
/// the same section.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    let (s, e) = (start as usize, stop as usize);
    if a == 0 {
        START.store(s, Ordering::Relaxed);
        STOP.store(e, Ordering::Relaxed);
    } else {
        START.store(a.min(s), Ordering::Relaxed);
        STOP.store(b.max(e), Ordering::Relaxed);
    }
}

fn counters() -> &'static mut [u8] {
    let (a, b) = (START.load(Ordering::Relaxed), STOP.load(Ordering::Relaxed));
    if a == 0 {
        return &mut [];
    }
    unsafe { std::slice::from_raw_parts_mut(a as *mut u8, b - a) }
}

pub fn edges() -> usize {
    counters().len()
}

pub fn reset() {
    counters().fill(0);
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// What the cases so far have reached: how often each edge was taken, roughly.
pub struct Seen(Vec<u8>);

impl Seen {
    pub fn new() -> Seen {
        Seen(vec![0; counters().len()])
    }
    /// The counters since the last reset: is there anything new?
    pub fn novel(&mut self) -> bool {
        let mut new = false;
        let c = counters();
        let words = c.len() / 8;
        for w in 0..words {
            let at = w * 8;
            if u64::from_ne_bytes(c[at..at + 8].try_into().unwrap()) != 0 {
                for i in at..at + 8 {
                    let b = bucket(c[i]);
                    new |= b & !self.0[i] != 0;
                    self.0[i] |= b;
                }
            }
        }
        for i in words * 8..c.len() {
            let b = bucket(c[i]);
            new |= b & !self.0[i] != 0;
            self.0[i] |= b;
        }
        new
    }
    pub fn covered(&self) -> usize {
        self.0.iter().filter(|b| **b != 0).count()
    }
}

/// A small xorshift generator, seeded from the run's seed.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: &[u8]) -> Rng {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in seed {
            h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Rng(h | 1)
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
}

/// A few edits of a choice sequence.
pub fn mutate(r: &mut Rng, base: &[u16], other: &[u16], max: usize) -> Vec<u16> {
    let mut v = base.to_vec();
    for _ in 0..1 + r.below(4) {
        let n = v.len();
        let at = r.below(n + 1);
        match r.below(9) {
            0 | 1 if n > 0 => v[at.min(n - 1)] = r.next() as u16,
            2 if n > 0 => {
                let i = at.min(n - 1);
                v[i] = match r.below(3) {
                    0 => v[i].wrapping_add(1),
                    1 => v[i].wrapping_sub(1),
                    _ => r.below(32) as u16,
                };
            }
            3 => {
                for _ in 0..1 + r.below(4) {
                    v.insert(at, r.next() as u16);
                }
            }
            4 if n > 0 => {
                let k = 1 + r.below(8.min(n));
                let a = at.min(n - 1);
                v.drain(a..(a + k).min(n));
            }
            // repeat a stretch
            5 if n > 0 => {
                let a = at.min(n - 1);
                let k = (1 + r.below(16)).min(n - a);
                let part = v[a..a + k].to_vec();
                for _ in 0..1 + r.below(3) {
                    for (i, x) in part.iter().enumerate() {
                        v.insert(a + i, *x);
                    }
                }
            }
            // a stretch of another sequence, put in or put over
            6 if !other.is_empty() => {
                let a = r.below(other.len());
                let k = (1 + r.below(24)).min(other.len() - a);
                for (i, x) in other[a..a + k].iter().enumerate() {
                    v.insert((at + i).min(v.len()), *x);
                }
            }
            7 if !other.is_empty() => {
                let a = r.below(other.len());
                let k = (1 + r.below(24)).min(other.len() - a);
                for (i, x) in other[a..a + k].iter().enumerate() {
                    if at + i < v.len() {
                        v[at + i] = *x;
                    }
                }
            }
            // the head of one, the tail of another
            _ if !other.is_empty() => {
                v.truncate(at);
                let a = r.below(other.len());
                v.extend_from_slice(&other[a..]);
            }
            _ => {}
        }
    }
    v.truncate(max);
    v
}
