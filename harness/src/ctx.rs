use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// What the monitors observed in this worker.
#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    pub desc: String,
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub evals: u64,
    pub seed: u64,
    pub scratch: String,
}
impl Ctx {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counters.get_mut(k) {
            *x += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// signature of a distinct, non-trivial case
    pub fn sig(&mut self, h: u64) {
        if self.sigs.len() < 2_000_000 {
            self.sigs.insert(h);
        }
    }
    pub fn d(&mut self, s: impl AsRef<str>) {
        if self.desc.len() < 20_000 {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(s.as_ref());
        }
    }
}
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
/// allocations and reallocations so far
pub static ALLOCS: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let c = CUR.fetch_add(n, Relaxed) + n;
            PEAK.fetch_max(c, Relaxed);
            CUR.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}
/// Run `f`, returning its result and the peak of heap bytes above the level at entry.
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    let t = f();
    (t, PEAK.load(Relaxed).saturating_sub(base))
}
