//! Monitor core: guarded calls into the code under test, instrumented storage,
//! deterministic randomness, case bookkeeping.

use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::Hash;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub type H = [u8; 32];
pub const ZERO: H = [0; 32];

#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::core::Violation { msg: format!($($a)*) }) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::viol!($($a)*) } };
}
#[macro_export]
macro_rules! tr {
    ($ctx:expr, $($a:tt)*) => { if $ctx.tracing { let s = format!($($a)*); $ctx.push_trace(s); } };
}

pub fn hx(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b.iter().take(80) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 80 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

// ---------------------------------------------------------------- randomness

pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn mix_str(seed: u64, s: &str) -> u64 {
    let mut h = mix(seed);
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        if lo == 0 && hi_incl == u64::MAX {
            return self.u64();
        }
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn h(&mut self) -> H {
        let mut out = [0u8; 32];
        for c in out.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        out
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------- guarded calls

pub struct Progress {
    pub seq: AtomicU64,
    pub in_call: AtomicU64,
    pub tid: AtomicU64,
    pub case: AtomicU64,
    pub workload: AtomicU64,
}

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    pub static PROGRESS: RefCell<Option<Arc<Progress>>> = const { RefCell::new(None) };
}

/// Storage steps one guarded call may take before it counts as non-terminating.
pub const STEP_BUDGET: u64 = 400_000;

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_SUT.with(|c| c.get()) {
            let msg = info.to_string();
            LAST_PANIC.with(|p| *p.borrow_mut() = msg);
        } else {
            default(info);
        }
    }));
}

pub fn calls_made() -> u64 {
    CALLS.with(|c| c.get())
}

pub fn step() {
    STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        if n > STEP_BUDGET {
            s.set(0);
            panic!("storage-step budget exceeded in one call: not terminating");
        }
    });
}

/// Runs one call into the code under test; a panic is returned as text.
pub fn try_sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    STEPS.with(|s| s.set(0));
    CALLS.with(|c| c.set(c.get() + 1));
    PROGRESS.with(|p| {
        if let Some(p) = p.borrow().as_ref() {
            p.seq.fetch_add(1, Ordering::Relaxed);
            p.in_call.store(1, Ordering::Relaxed);
        }
    });
    IN_SUT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(false));
    PROGRESS.with(|p| {
        if let Some(p) = p.borrow().as_ref() {
            p.in_call.store(0, Ordering::Relaxed);
        }
    });
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().replace('\n', " ")))
}

/// As `try_sut`, but a panic is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    try_sut(f).map_err(|m| Violation {
        msg: format!("{what} panicked: {m}"),
    })
}

// ------------------------------------------------------ instrumented storage

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fault(pub u64);
impl std::fmt::Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "fault number {}", self.0)
    }
}
impl std::error::Error for Fault {}

pub struct Tab<K, V>(PhantomData<(K, V)>);
impl<K, V> std::fmt::Debug for Tab<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Tab")
    }
}
impl<K, V: Clone> Mappable for Tab<K, V> {
    type Key = K;
    type SetValue = V;
    type GetValue = V;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FaultMode {
    /// the call fails and has no effect
    Before,
    /// the call takes effect, then reports failure
    After,
}

#[derive(Default)]
pub struct Ctl {
    pub gets: Cell<u64>,
    pub inserts: Cell<u64>,
    pub removes: Cell<u64>,
    pub arm_at: Cell<Option<u64>>,
    pub arm_after: Cell<bool>,
    pub since_arm: Cell<u64>,
    pub fired: Cell<Option<u64>>,
    pub fault_id: Cell<u64>,
}

impl Ctl {
    pub fn calls(&self) -> u64 {
        self.gets.get() + self.inserts.get() + self.removes.get()
    }
    pub fn writes(&self) -> u64 {
        self.inserts.get() + self.removes.get()
    }
    /// fail the `at`-th storage call from now on (0-based)
    pub fn arm(&self, at: u64, mode: FaultMode) -> u64 {
        self.arm_at.set(Some(at));
        self.arm_after.set(mode == FaultMode::After);
        self.since_arm.set(0);
        self.fired.set(None);
        let id = self.fault_id.get() + 1;
        self.fault_id.set(id);
        id
    }
    pub fn disarm(&self) -> Option<u64> {
        self.arm_at.set(None);
        self.fired.take()
    }
    pub fn gate(&self) -> Option<(Fault, bool)> {
        step();
        if let Some(at) = self.arm_at.get() {
            let n = self.since_arm.get();
            self.since_arm.set(n + 1);
            if n == at {
                let id = self.fault_id.get();
                self.fired.set(Some(id));
                return Some((Fault(id), self.arm_after.get()));
            }
        }
        None
    }
}

fn bump(c: &Cell<u64>) {
    c.set(c.get() + 1)
}

pub struct Store<K, V> {
    pub map: Rc<RefCell<HashMap<K, V>>>,
    pub ctl: Rc<Ctl>,
}
impl<K, V> Clone for Store<K, V> {
    fn clone(&self) -> Self {
        Store {
            map: self.map.clone(),
            ctl: self.ctl.clone(),
        }
    }
}
impl<K: Eq + Hash + Clone, V: Clone> Store<K, V> {
    pub fn new() -> Self {
        Store {
            map: Rc::new(RefCell::new(HashMap::new())),
            ctl: Rc::new(Ctl::default()),
        }
    }
    pub fn from_map(m: HashMap<K, V>) -> Self {
        Store {
            map: Rc::new(RefCell::new(m)),
            ctl: Rc::new(Ctl::default()),
        }
    }
    pub fn snapshot(&self) -> HashMap<K, V> {
        self.map.borrow().clone()
    }
    pub fn fork(&self) -> Self {
        Self::from_map(self.snapshot())
    }
}
impl<K, V> std::fmt::Debug for Store<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Store({})", self.map.borrow().len())
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageInspect<Tab<K, V>> for Store<K, V> {
    type Error = Fault;
    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Fault> {
        bump(&self.ctl.gets);
        if let Some((f, _)) = self.ctl.gate() {
            return Err(f);
        }
        Ok(self.map.borrow().get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, Fault> {
        bump(&self.ctl.gets);
        if let Some((f, _)) = self.ctl.gate() {
            return Err(f);
        }
        Ok(self.map.borrow().contains_key(key))
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageMutate<Tab<K, V>> for Store<K, V> {
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Fault> {
        bump(&self.ctl.inserts);
        match self.ctl.gate() {
            Some((f, after)) => {
                if after {
                    self.map.borrow_mut().insert(key.clone(), value.clone());
                }
                Err(f)
            }
            None => Ok(self.map.borrow_mut().insert(key.clone(), value.clone())),
        }
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, Fault> {
        bump(&self.ctl.removes);
        match self.ctl.gate() {
            Some((f, after)) => {
                if after {
                    self.map.borrow_mut().remove(key);
                }
                Err(f)
            }
            None => Ok(self.map.borrow_mut().remove(key)),
        }
    }
}

// ------------------------------------------------------------ case bookkeeping

#[derive(Default)]
pub struct Ctx {
    pub tracing: bool,
    pub trace: Vec<String>,
    pub evaluations: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub findings: BTreeMap<String, String>,
    pub case_digest: u64,
    pub digest: u64,
    /// (tree type, root, content digest, description) for the uniqueness checker
    pub roots: Vec<(u8, H, u64)>,
    pub thorough: bool,
    pub tiny: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        if *e < n {
            *e = n;
        }
    }
    /// one oracle evaluation of a case/state identified by `key`
    pub fn eval(&mut self, nontrivial: bool, key: u64) {
        self.evaluations += 1;
        if nontrivial && self.distinct.len() < 2_000_000 {
            self.distinct.insert(key);
        }
    }
    pub fn evalh(&mut self, nontrivial: bool, h: &H) {
        let mut b = [0u8; 8];
        b.copy_from_slice(&h[..8]);
        self.eval(nontrivial, u64::from_le_bytes(b));
    }
    pub fn push_trace(&mut self, s: String) {
        if self.trace.len() < 4000 {
            self.trace.push(s);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            s.truncate(600);
            self.samples.push(s);
        }
    }
    pub fn dig(&mut self, b: &[u8]) {
        let mut h = self.case_digest;
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            h = mix(h ^ u64::from_le_bytes(x)).wrapping_add(c.len() as u64);
        }
        self.case_digest = mix(h ^ 0xabcd);
    }
    #[allow(dead_code)]
    pub fn finding(&mut self, sig: &str, msg: String) {
        self.findings.entry(sig.to_string()).or_insert(msg);
    }
}

pub fn h64(b: &[u8]) -> u64 {
    let mut h = 0x1234567u64;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x)).wrapping_add(c.len() as u64);
    }
    h
}
