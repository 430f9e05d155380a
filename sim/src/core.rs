//! Deterministic simulation core: seeded randomness, plans (config + schedule),
//! fault controller behind the seams, event log, statistics.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ---------------------------------------------------------------- randomness
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0xA5A5_1234_9E37_79B9))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

// -------------------------------------------------------------------- plans
/// One scheduled action: an op of the world plus raw operands, which the world
/// interprets modulo its current state (so any sub-schedule is again valid).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Step {
    pub op: u16,
    pub a: [u32; 5],
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cfg(pub BTreeMap<String, u64>);

impl Cfg {
    pub fn get(&self, k: &str) -> u64 {
        *self.0.get(k).unwrap_or(&0)
    }
    pub fn us(&self, k: &str) -> usize {
        self.get(k) as usize
    }
    pub fn on(&self, k: &str) -> bool {
        self.get(k) != 0
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.0.insert(k.to_string(), v);
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub world: String,
    pub seed: u64,
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}

// --------------------------------------------------------------- violations
#[derive(Clone, Debug)]
pub struct Violation {
    pub step: usize,
    pub msg: String,
}

pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

// ------------------------------------------------------------ oracle classes
pub const FUNC: u32 = 1; // results equal the reference model
pub const CANON: u32 = 2; // identity <=> equality, ordered, reduced, unique
pub const GC: u32 = 4; // collection is exact, arena bounded
pub const PROB: u32 = 8;
pub const ENUM: u32 = 16; // counts, iterators, size statistics
pub const MINSOL: u32 = 32;
pub const RPN: u32 = 64;
pub const DOT: u32 = 128;
pub const META: u32 = 256; // labels, levels, order, children
pub const INTERVAL: u32 = 512; // interval-valued queries enclose every point value
pub const LOSS: u32 = 1024; // what the memo tables promise
// Stability of live handles and absence of panics are always checked.

// -------------------------------------------------------------- run context
#[derive(Default)]
pub struct Ctx {
    pub oracles: u32,
    pub digest: u64,
    pub events: u64,
    pub step: usize,
    pub ops: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub checks: BTreeMap<&'static str, u64>,
    pub states: Vec<u64>,
    pub max_live: u64,
    /// executed basic blocks: all measured calls, largest one
    pub ticks: u64,
    pub max_ticks: u64,
    pub trace: Option<Vec<String>>,
}

impl Ctx {
    pub fn new(oracles: u32) -> Self {
        Ctx { oracles, ..Default::default() }
    }
    pub fn on(&self, class: u32) -> bool {
        self.oracles & class != 0
    }
    pub fn event(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x).wrapping_add(x).rotate_left(17);
        self.events += 1;
    }
    pub fn event_str(&mut self, s: &str) {
        self.event(hash_bytes(s.as_bytes()));
    }
    pub fn op(&mut self, name: &'static str) {
        *self.ops.entry(name).or_insert(0) += 1;
    }
    pub fn fault(&mut self, name: &'static str) {
        *self.faults.entry(name).or_insert(0) += 1;
    }
    pub fn faults_n(&mut self, name: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(name).or_insert(0) += n;
        }
    }
    pub fn check(&mut self, name: &'static str) {
        *self.checks.entry(name).or_insert(0) += 1;
    }
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(t) = &mut self.trace {
            let s = format!("  step {}: {}", self.step, f());
            t.push(s);
        }
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_i64s(v: &[i64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64 ^ v.len() as u64;
    for &x in v {
        h = (h.rotate_left(5) ^ x as u64).wrapping_mul(0x9E3779B97F4A7C15);
    }
    mix(h)
}

// ------------------------------------------------- fault controller (seams)
/// State of the seams on this thread: memo-table faults, cut points, value
/// arithmetic faults. All decisions come from its own seeded generator.
pub struct Faults {
    pub rng: u64,
    /// per-1024 probability of a forced miss / lost store
    pub forget: u64,
    pub lose: u64,
    /// remaining memo accesses until the operation is cut (panic); 0 = off
    pub cut_in: u64,
    /// remaining value-arithmetic calls until they panic; 0 = off
    pub arith_in: u64,
    pub n_forget: u64,
    pub n_lose: u64,
    pub n_cut: u64,
    pub n_arith: u64,
}

const QUIET_FAULTS: Faults = Faults {
    rng: 0, forget: 0, lose: 0, cut_in: 0, arith_in: 0,
    n_forget: 0, n_lose: 0, n_cut: 0, n_arith: 0,
};

thread_local! {
    pub static FAULTS: RefCell<Faults> = const { RefCell::new(QUIET_FAULTS) };
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
    static UNWINDS: Cell<u64> = const { Cell::new(0) };
}

pub const CUT: &str = "simulated cut";

fn draw(f: &mut Faults, per1024: u64) -> bool {
    if per1024 == 0 {
        return false;
    }
    f.rng = f.rng.wrapping_add(0x9E3779B97F4A7C15);
    (mix(f.rng) & 1023) < per1024
}

fn cut_point(f: &mut Faults) -> bool {
    if f.cut_in > 0 {
        f.cut_in -= 1;
        if f.cut_in == 0 {
            f.n_cut += 1;
            return true;
        }
    }
    false
}

#[allow(dead_code)]
fn hook_get() -> bool {
    let (cut, miss) = FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        let cut = cut_point(&mut f);
        let p = f.forget;
        let miss = draw(&mut f, p);
        if miss {
            f.n_forget += 1;
        }
        (cut, miss)
    });
    if cut {
        std::panic::panic_any(CUT);
    }
    miss
}

#[allow(dead_code)]
fn hook_put() -> bool {
    let (cut, lose) = FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        let cut = cut_point(&mut f);
        let p = f.lose;
        let lose = draw(&mut f, p);
        if lose {
            f.n_lose += 1;
        }
        (cut, lose)
    });
    if cut {
        std::panic::panic_any(CUT);
    }
    lose
}

/// Called by the simulated user arithmetic on every operation.
pub fn arith_point() {
    let cut = FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        if f.arith_in > 0 {
            f.arith_in -= 1;
            if f.arith_in == 0 {
                f.n_arith += 1;
                return true;
            }
        }
        false
    });
    if cut {
        std::panic::panic_any(CUT);
    }
}

pub const HOOKED: bool = cfg!(relib_sim);

/// Arms the memo-table seam for a run (`bits` = 0 keeps the shipped sizes).
pub fn arm(seed: u64, forget: u64, lose: u64, init_bits: u64, max_bits: u64) {
    UNWINDS.with(|u| u.set(0));
    FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        *f = Faults {
            rng: mix(seed ^ 0x5151),
            forget,
            lose,
            cut_in: 0,
            arith_in: 0,
            n_forget: 0,
            n_lose: 0,
            n_cut: 0,
            n_arith: 0,
        };
    });
    BITS.with(|b| b.set((init_bits, max_bits)));
    #[cfg(relib_sim)]
    common::sim::install(common::sim::Hooks {
        cache_get: Some(hook_get),
        cache_put: Some(hook_put),
        init_bits: if init_bits == 0 { None } else { Some(init_bits as u32 - 1) },
        max_bits: if max_bits == 0 { None } else { Some(max_bits as u32) },
    });
}

/// The state of the seam, detached so that two worlds can alternate on it.
#[derive(Default)]
pub struct Seam {
    f: Option<Faults>,
    bits: (u64, u64),
}

thread_local! {
    static BITS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}

impl Seam {
    pub fn new(seed: u64, cfg: &Cfg) -> Self {
        arm_cfg(seed, cfg);
        Seam::leave()
    }
    /// Makes this seam the active one.
    pub fn enter(self) {
        if let Some(f) = self.f {
            arm(0, 0, 0, self.bits.0, self.bits.1);
            FAULTS.with(|x| *x.borrow_mut() = f);
        }
    }
    /// Detaches the active seam and leaves a quiet one.
    pub fn leave() -> Seam {
        let bits = BITS.with(|b| b.get());
        let f = FAULTS.with(|x| std::mem::replace(&mut *x.borrow_mut(), QUIET_FAULTS));
        arm(0, 0, 0, 0, 0);
        Seam { f: Some(f), bits }
    }
}

pub fn arm_cfg(seed: u64, cfg: &Cfg) {
    crate::space::set_naming(cfg.get("names"));
    arm(seed, cfg.get("forget"), cfg.get("lose"), cfg.get("init_bits"), cfg.get("max_bits"));
}

pub fn disarm_cuts() {
    FAULTS.with(|f| {
        let mut f = f.borrow_mut();
        f.cut_in = 0;
        f.arith_in = 0;
    });
}

pub fn fault_counts() -> (u64, u64, u64, u64) {
    FAULTS.with(|f| {
        let f = f.borrow();
        (f.n_forget, f.n_lose, f.n_cut, f.n_arith)
    })
}

/// Runs `op`, which may be cut; `Ok(None)` = it was cut by the simulator.
/// Any other panic propagates (and is reported as a violation by the runner).
pub fn maybe_cut<T>(op: impl FnOnce() -> T) -> Option<T> {
    let r = quiet(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(op)));
    disarm_cuts();
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            if e.downcast_ref::<&'static str>() == Some(&CUT) {
                UNWINDS.with(|u| u.set(u.get() + 1));
                None
            } else {
                std::panic::resume_unwind(e)
            }
        }
    }
}

/// Runs `op` expecting it may panic for its own (documented) reasons.
pub fn may_panic<T>(op: impl FnOnce() -> T) -> Result<T, String> {
    quiet(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(op))).map_err(|e| {
        UNWINDS.with(|u| u.set(u.get() + 1));
        panic_msg(&e)
    })
}

/// Calls of this run that ended by unwinding so far.
pub fn unwinds() -> u64 {
    UNWINDS.with(|u| u.get())
}

pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let old = QUIET.with(|q| q.replace(true));
    let r = f();
    QUIET.with(|q| q.set(old));
    r
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Now and then very many handles to one node exist at once and go away again.
pub fn crowd<T: Clone>(h: &T, raw: u32, ctx: &mut Ctx) {
    let n = match raw % 8192 {
        x if x % 512 == 0 => 300,
        1 => 70_000,
        _ => return,
    };
    ctx.op("handle-crowd");
    let v = vec![h.clone(); n];
    drop(v);
}

/// Now and then a collection or clearing happens very many times in a row
/// (counters and stamps kept per collection wrap around): extra repetitions.
pub fn storm(raw: u32, ctx: &mut Ctx) -> usize {
    let n = match raw % 8192 {
        x if x % 256 == 0 => 254 + x as usize / 256 % 4,
        1 => 65_535,
        2 => 65_536,
        _ => return 0,
    };
    ctx.fault("collection-storm");
    n
}

// ------------------------------------------------------------------- worlds
pub trait World {
    fn step(&mut self, s: &Step, ctx: &mut Ctx) -> R;
    /// Final checks over everything still alive.
    fn finish(&mut self, ctx: &mut Ctx) -> R;
    /// Node identities and statistics visible to the user.
    fn fingerprint(&self) -> u64 {
        0
    }
}

/// A distinct-count sketch (HyperLogLog, 2^12 registers).
#[derive(Clone)]
pub struct Hll(pub Vec<u8>);

impl Hll {
    pub fn new() -> Self {
        Hll(vec![0; 4096])
    }
    pub fn add(&mut self, h: u64) {
        let h = mix(h);
        let i = (h >> 52) as usize;
        let r = ((h << 12) | 0x800).leading_zeros() as u8 + 1;
        if self.0[i] < r {
            self.0[i] = r;
        }
    }
    pub fn merge(&mut self, o: &Hll) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a = (*a).max(*b);
        }
    }
    pub fn estimate(&self) -> u64 {
        let m = 4096f64;
        let s: f64 = self.0.iter().map(|&r| 2f64.powi(-(r as i32))).sum();
        let e = 0.7213 / (1.0 + 1.079 / m) * m * m / s;
        let zeros = self.0.iter().filter(|&&r| r == 0).count() as f64;
        if e <= 2.5 * m && zeros > 0.0 {
            (m * (m / zeros).ln()).round() as u64
        } else {
            e.round() as u64
        }
    }
}
