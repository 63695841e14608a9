//! C01..C07: binary Merkle tree.

use crate::core::*;
use crate::gen;
use crate::model::*;
use fuel_merkle::binary::{MerkleTree, MerkleTreeError};
use fuel_merkle::storage::{StorageInspect, StorageMutate};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type BV = (u64, H);
pub type BTab = Tab<u64, BV>;
pub type BStore = Store<u64, BV>;
pub type BT<S> = MerkleTree<BTab, S>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BE {
    Invalid(u64),
    Load(u64),
    Storage(u64),
    Other,
}
pub fn be(e: MerkleTreeError<Fault>) -> BE {
    #[allow(unreachable_patterns)]
    match e {
        MerkleTreeError::InvalidProofIndex(i) => BE::Invalid(i),
        MerkleTreeError::LoadError(i) => BE::Load(i),
        MerkleTreeError::StorageError(f) => BE::Storage(f.0),
        _ => BE::Other,
    }
}

pub fn bpush<S: StorageMutate<BTab, Error = Fault>>(t: &mut BT<S>, d: &[u8]) -> R<Result<(), BE>> {
    Ok(sut("binary push", || t.push(d))?.map_err(be))
}
pub fn broot<S: StorageInspect<BTab, Error = Fault>>(t: &BT<S>) -> R<H> {
    sut("binary root", || t.root())
}
pub fn bprove<S: StorageInspect<BTab, Error = Fault>>(t: &BT<S>, i: u64) -> R<Result<(H, Vec<H>), BE>> {
    Ok(sut("binary prove", || t.prove(i))?.map_err(be))
}
pub fn bload<S: StorageInspect<BTab, Error = Fault>>(s: S, n: u64) -> R<Result<BT<S>, BE>> {
    Ok(sut("binary load", || BT::<S>::load(s, n))?.map_err(be))
}
pub fn bnew<S: StorageInspect<BTab, Error = Fault>>(s: S) -> R<BT<S>> {
    sut("binary new", || BT::<S>::new(s))
}

pub fn ok<T>(what: &str, r: Result<T, BE>) -> R<T> {
    r.map_err(|e| Violation {
        msg: format!("{what} failed on intact storage: {e:?}"),
    })
}

/// Leaves of one random style.
pub fn leaves(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let style = r.below(6);
    let mut hs: Vec<H> = vec![];
    let fixed = gen::data(r, &[]);
    let width = r.us(80);
    let mut out: Vec<Vec<u8>> = Vec::with_capacity(n);
    for i in 0..n {
        let d = match style {
            0 => gen::data(r, &hs),
            1 => fixed.clone(),
            2 => r.bytes(width),
            3 => (i as u64).to_be_bytes().to_vec(),
            4 => {
                if i > 0 && r.chance(1, 2) {
                    out[r.us(i)].clone()
                } else {
                    gen::data(r, &hs)
                }
            }
            _ => {
                let l = r.us(4);
                r.bytes(l)
            }
        };
        if hs.len() < 64 {
            hs.push(leaf_hash(&d));
            if hs.len() >= 2 {
                let k = hs.len();
                hs.push(node_hash(&hs[k - 2], &hs[k - 1]));
            }
        }
        out.push(d);
    }
    out
}

pub fn build(ls: &[Vec<u8>]) -> R<(BT<BStore>, BStore, Seq)> {
    let store = BStore::new();
    let mut t = bnew(store.clone())?;
    let mut m = Seq::default();
    for d in ls {
        ok("push", bpush(&mut t, d)?)?;
        m.push(d);
    }
    Ok((t, store, m))
}

pub fn check_proof<C: Complete, S: StorageInspect<BTab, Error = Fault>>(t: &BT<S>, m: &C, i: u64, n: u64, root: &H) -> R {
    let (pr, ps) = match bprove(t, i)? {
        Ok(x) => x,
        Err(e) => viol!("prove({i}) of a {n}-leaf tree failed: {e:?}"),
    };
    ensure!(pr == *root, "prove({i}) of a {n}-leaf tree returned root {} instead of {}", hx(&pr), hx(root));
    let mut want = vec![m.complete(0, i)];
    want.extend(audit(m, i, n));
    ensure!(
        ps == want,
        "proof for leaf {i} of {n}: got {} elements [{}], want {} [{}]",
        ps.len(),
        ps.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>().join(" "),
        want.len(),
        want.iter().map(|h| hx(&h[..4])).collect::<Vec<_>>().join(" ")
    );
    ensure!(
        recombine(i, n, &ps[0], &ps[1..]) == Some(*root),
        "proof for leaf {i} of {n} does not recombine to the root"
    );
    Ok(())
}

// ------------------------------------------------------- huge virtual storage

#[derive(Clone)]
pub struct VStore {
    pub base: Rc<Big>,
    pub over: Rc<RefCell<HashMap<u64, BV>>>,
    pub missing: Rc<RefCell<HashSet<u64>>>,
    pub ctl: Rc<Ctl>,
}
impl VStore {
    /// storage of n0 leaves, with a few probed indices (and those near `near`)
    pub fn new(r: &mut Rng, n0: u64, near: &[u64]) -> Self {
        let mut probes = vec![];
        if n0 > 0 {
            let pool = gen::indices(r, n0, 8);
            for _ in 0..3 {
                probes.push(*r.pick(&pool));
            }
            probes.push(n0 - 1);
            probes.push(r.below(n0));
        }
        for m in near {
            probes.push(m.saturating_sub(1));
            probes.push(*m);
        }
        probes.sort();
        probes.dedup();
        VStore {
            base: Big::new(r.u64(), n0, probes),
            over: Default::default(),
            missing: Default::default(),
            ctl: Default::default(),
        }
    }
    /// indices to ask about: the probed ones and distinguished others
    pub fn ask(&self, r: &mut Rng, n: u64, k: usize) -> Vec<u64> {
        let mut v = gen::indices(r, n, 6);
        r.shuffle(&mut v);
        v.truncate(k);
        v.extend(self.base.probes.iter().filter(|p| **p < n));
        v.sort();
        v.dedup();
        v
    }
    fn look(&self, k: u64) -> Option<BV> {
        if self.missing.borrow().contains(&k) {
            return None;
        }
        if let Some(v) = self.over.borrow().get(&k) {
            return Some(*v);
        }
        let (h, idx) = from_in_order(k);
        if h < 64 && ((idx as u128 + 1) << h) <= self.base.n0 as u128 {
            Some((k, self.base.complete(h, idx)))
        } else {
            None
        }
    }
}
impl StorageInspect<BTab> for VStore {
    type Error = Fault;
    fn get(&self, key: &u64) -> Result<Option<Cow<'_, BV>>, Fault> {
        self.ctl.gets.set(self.ctl.gets.get() + 1);
        if let Some((f, _)) = self.ctl.gate() {
            return Err(f);
        }
        Ok(self.look(*key).map(Cow::Owned))
    }
    fn contains_key(&self, key: &u64) -> Result<bool, Fault> {
        self.ctl.gets.set(self.ctl.gets.get() + 1);
        if let Some((f, _)) = self.ctl.gate() {
            return Err(f);
        }
        Ok(self.look(*key).is_some())
    }
}
impl StorageMutate<BTab> for VStore {
    fn insert(&mut self, key: &u64, v: &BV) -> Result<Option<BV>, Fault> {
        self.ctl.inserts.set(self.ctl.inserts.get() + 1);
        let gate = self.ctl.gate();
        if let Some((f, false)) = gate {
            return Err(f);
        }
        let old = self.look(*key);
        self.over.borrow_mut().insert(*key, *v);
        gate.map_or(Ok(old), |(f, _)| Err(f))
    }
    fn remove(&mut self, key: &u64) -> Result<Option<BV>, Fault> {
        self.ctl.removes.set(self.ctl.removes.get() + 1);
        let gate = self.ctl.gate();
        if let Some((f, false)) = gate {
            return Err(f);
        }
        let old = self.look(*key);
        self.over.borrow_mut().remove(key);
        gate.map_or(Ok(old), |(f, _)| Err(f))
    }
}

pub const HUGE: u64 = 1 << 62;

fn huge(r: &mut Rng) -> R<(BT<VStore>, VStore, Virtual)> {
    let n0 = gen::big_count(r, HUGE - 200);
    let st = VStore::new(r, n0, &[]);
    let t = ok("load of a complete storage", bload(st.clone(), n0)?)?;
    let v = Virtual::of(&st.base, n0);
    Ok((t, st, v))
}

// ------------------------------------------------------------------------- C01

pub fn c01_exhaustive(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // every sequence over a 3-letter alphabet up to length 7: case encodes the letters
    let alphabet: [Vec<u8>; 3] = [vec![], vec![0], {
        let a = leaf_hash(&[]);
        let b = leaf_hash(&[0]);
        let mut v = vec![if r.chance(1, 2) { 1u8 } else { 0 }];
        if r.chance(1, 2) {
            v.clear()
        }
        v.extend_from_slice(&a);
        v.extend_from_slice(&b);
        v
    }];
    let store = BStore::new();
    let mut t = bnew(store)?;
    let mut m = Seq::default();
    ensure!(broot(&t)? == empty_hash(), "root of the empty tree is {}", hx(&broot(&t)?));
    let mut x = case;
    for i in 0..7 {
        let d = &alphabet[(x % 3) as usize];
        x /= 3;
        ok("push", bpush(&mut t, d)?)?;
        m.push(d);
        let got = broot(&t)?;
        tr!(c, "push #{i} {} -> root {}", hx(d), hx(&got));
        ensure!(got == m.root(), "after appending leaf {i}: root {} want {}", hx(&got), hx(&m.root()));
        c.evalh(i > 0, &got);
    }
    Ok(())
}

fn c01_run(c: &mut Ctx, ls: &[Vec<u8>]) -> R {
    let mut t = bnew(BStore::new())?;
    let mut m = Seq::default();
    ensure!(broot(&t)? == empty_hash(), "root of the empty tree is wrong");
    for (i, d) in ls.iter().enumerate() {
        ok("push", bpush(&mut t, d)?)?;
        m.push(d);
        let got = broot(&t)?;
        tr!(c, "push #{i} {} -> root {}", hx(d), hx(&got));
        ensure!(
            got == m.root(),
            "after appending leaf {i} ({} bytes): root {} want {}",
            d.len(),
            hx(&got),
            hx(&m.root())
        );
        c.evalh(i > 0, &got);
    }
    c.max("largest leaf count built by appends", ls.len() as u64);
    c.max("longest leaf (bytes)", ls.iter().map(|d| d.len() as u64).max().unwrap_or(0));
    Ok(())
}
pub fn c01_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.us(300);
    let ls = leaves(r, n);
    c.sample(|| {
        format!(
            "{} leaves, first ones: {}",
            n,
            ls.iter().take(4).map(|d| hx(&d[..d.len().min(20)])).collect::<Vec<_>>().join(" | ")
        )
    });
    c01_run(c, &ls)
}
pub fn c01_long(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 1_100_000 } else if case == 1 || c.thorough { 120_000 } else { 5_000 } + r.us(2000);
    let ls: Vec<Vec<u8>> = (0..n).map(|i| vec![i as u8, (i >> 8) as u8, r.u64() as u8]).collect();
    c01_run(c, &ls)
}
pub fn c01_bigleaf(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let sizes = [
        255usize, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 100_000, 1 << 20, (1 << 20) + 1, 1 << 16, 1000, 8191,
    ];
    let n = 2 + r.us(4);
    let ls: Vec<Vec<u8>> = (0..n)
        .map(|i| {
            let s = sizes[(case as usize + i) % sizes.len()];
            if r.chance(1, 3) {
                vec![r.u64() as u8; s]
            } else {
                r.bytes(s)
            }
        })
        .collect();
    c01_run(c, &ls)
}
pub fn c01_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (mut t, _st, mut v) = huge(r)?;
    tr!(c, "restored virtual tree of {} leaves", v.n0);
    c.sample(|| format!("restored tree of {} leaves (virtual storage), then appends", v.n0));
    let k = 1 + r.us(40);
    for i in 0..=k {
        let got = broot(&t)?;
        let want = mth(&v, 0, v.n());
        ensure!(got == want, "root of the {}-leaf tree: {} want {}", v.n(), hx(&got), hx(&want));
        c.evalh(true, &got);
        c.max("largest leaf count restored", v.n());
        if i < k {
            let d = gen::data(r, &[got]);
            ok("push", bpush(&mut t, &d)?)?;
            v.added.push(leaf_hash(&d));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C02

pub fn c02_allpairs(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = case + 1;
    let ls = leaves(r, n as usize);
    let (t, _s, m) = build(&ls)?;
    let root = broot(&t)?;
    ensure!(root == m.root(), "root of a {n}-leaf tree differs from its leaves' hash");
    for i in 0..n {
        check_proof(&t, &m, i, n, &root)?;
        c.eval(n > 1, mix(n) ^ i);
    }
    c.count("all (size, index) pairs of a size", 1);
    Ok(())
}
pub fn c02_grow(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // proofs interleaved with appends on one living tree
    let n = 2 + r.us(90);
    let ls = leaves(r, n);
    let mut t = bnew(BStore::new())?;
    let mut m = Seq::default();
    for (k, d) in ls.iter().enumerate() {
        ok("push", bpush(&mut t, d)?)?;
        m.push(d);
        let nn = k as u64 + 1;
        for i in gen::indices(r, nn, 2) {
            check_proof(&t, &m, i, nn, &m.root())?;
            c.eval(nn > 1, mix(nn) ^ i);
        }
    }
    c.sample(|| format!("tree grown to {n} leaves with proofs at every size"));
    Ok(())
}
pub fn c02_large(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 1_100_000 } else { 200 } + r.us(if case < 2 || c.thorough { 80_000 } else { 4_000 });
    // the sizes the source mentions
    let n = if case >= 2 && r.chance(1, 4) { gen::new_num(r, if case < 8 { 300_000 } else { 20_000 }).filter(|_| !c.tiny).unwrap_or(n as u64).max(1) as usize } else { n };
    let ls: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(5)).collect();
    let (t, _s, m) = build(&ls)?;
    let root = m.root();
    for i in gen::indices(r, n as u64, 30) {
        check_proof(&t, &m, i, n as u64, &root)?;
        c.eval(true, mix(n as u64) ^ i);
    }
    c.max("largest leaf count built by appends", n as u64);
    Ok(())
}
pub fn c02_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (mut t, st, mut v) = huge(r)?;
    for _ in 0..r.us(6) {
        let d = gen::data(r, &[]);
        ok("push", bpush(&mut t, &d)?)?;
        v.added.push(leaf_hash(&d));
    }
    let n = v.n();
    if n == 0 {
        return Ok(());
    }
    let root = mth(&v, 0, n);
    for i in st.ask(r, n, 40) {
        check_proof(&t, &v, i, n, &root)?;
        c.eval(n > 1, mix(n) ^ i);
    }
    c.max("largest leaf count proved", n);
    Ok(())
}

// ------------------------------------------------------------------------- C03

fn c03_reject<S: StorageInspect<BTab, Error = Fault>>(c: &mut Ctx, t: &BT<S>, n: u64, i: u64) -> R {
    match bprove(t, i)? {
        Err(BE::Invalid(j)) => {
            ensure!(i == j, "prove({i}) of a {n}-leaf tree reported index {j}")
        }
        Err(e) => viol!("prove({i}) of a {n}-leaf tree: {e:?} instead of the invalid-index error"),
        Ok(_) => viol!("prove({i}) of a {n}-leaf tree returned a proof"),
    }
    c.eval(true, mix(n) ^ i);
    Ok(())
}
pub fn c03_sizes(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = case;
    let ls = leaves(r, n as usize + 5);
    let (mut t, _s, _m) = build(&ls[..n as usize])?;
    let (mut twin, _s2, _m2) = build(&ls[..n as usize])?;
    let mut mem = sut("in-memory new", fuel_merkle::binary::in_memory::MerkleTree::new)?;
    for d in &ls[..n as usize] {
        sut("in-memory push", || mem.push(d))?;
    }
    for k in 0..5usize {
        let nn = n + k as u64;
        for i in gen::bad_indices(r, nn) {
            c03_reject(c, &t, nn, i)?;
            let got = sut("in-memory prove", || mem.prove(i))?;
            ensure!(got.is_none(), "in-memory prove({i}) of a {nn}-leaf tree returned a proof");
            ensure!(broot(&t)? == broot(&twin)?, "a rejected prove({i}) changed the root ({nn} leaves)");
        }
        ensure!(
            sut("in-memory root", || mem.root())? == broot(&twin)?,
            "a rejected in-memory prove changed the root ({nn} leaves)"
        );
        for i in gen::indices(r, nn.max(1), 2) {
            if i < nn {
                let (a, b) = (bprove(&t, i)?, bprove(&twin, i)?);
                ensure!(a == b, "after rejected proofs, prove({i}) of a {nn}-leaf tree differs");
            }
        }
        let d = &ls[nn as usize];
        let (a, b) = (bpush(&mut t, d)?, bpush(&mut twin, d)?);
        sut("in-memory push", || mem.push(d))?;
        ensure!(a == b, "after rejected proofs a push behaves differently");
        ensure!(broot(&t)? == broot(&twin)?, "after rejected proofs a push gives another root");
    }
    Ok(())
}
/// Trees restored at fewer leaves than their storage holds, and then grown again.
pub fn c03_restored(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = 1 + if case < 60 { case } else { r.below(300) };
    let ls = leaves(r, n as usize + 6);
    let (_t, st, _m) = build(&ls[..n as usize])?;
    for _ in 0..8 {
        let m = r.below(n + 1);
        let fork = st.fork();
        let mut t = match bload(fork, m)? {
            Ok(t) => t,
            Err(e) => viol!("load of {m} leaves from storage of {n} failed: {e:?}"),
        };
        c.sample(|| format!("storage of {n} leaves restored at {m}"));
        for k in 0..4 {
            let mm = m + k;
            let mut bad = gen::bad_indices(r, mm);
            bad.extend((mm..=n + 2).take(6));
            bad.extend((0..4).map(|_| mm + r.below(n + 2)));
            bad.push(n - 1);
            bad.push(n);
            bad.retain(|i| *i >= mm);
            for i in bad {
                c03_reject(c, &t, mm, i)?;
            }
            c.count("restored trees asked beyond their leaves", 1);
            let d = &ls[(m + k) as usize];
            bpush(&mut t, d)?.map_err(|e| Violation { msg: format!("append failed on intact storage: {e:?}") })?;
        }
    }
    Ok(())
}
pub fn c03_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (t, _st, v) = huge(r)?;
    let before = broot(&t)?;
    for i in gen::bad_indices(r, v.n()) {
        c03_reject(c, &t, v.n(), i)?;
    }
    ensure!(broot(&t)? == before, "rejected proofs changed the root of a {}-leaf tree", v.n());
    c.max("largest leaf count", v.n());
    Ok(())
}

// ------------------------------------------------------------------------- C04

fn same_tree<A, B>(what: &str, a: &BT<A>, b: &BT<B>, n: u64, idx: &[u64]) -> R
where
    A: StorageInspect<BTab, Error = Fault>,
    B: StorageInspect<BTab, Error = Fault>,
{
    let (x, y) = (broot(a)?, broot(b)?);
    ensure!(x == y, "{what}: root {} but the twin of {n} leaves has {}", hx(&x), hx(&y));
    for &i in idx {
        let (x, y) = (bprove(a, i)?, bprove(b, i)?);
        ensure!(x == y, "{what}: prove({i}) differs from the twin's ({n} leaves): {x:?} / {y:?}");
    }
    Ok(())
}
fn all_idx(n: u64) -> Vec<u64> {
    // one past the end included: shows the leaf count
    (0..=n).collect()
}

pub fn c04_prefix(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // all prefixes of an N-leaf storage, N = case + 1 (0-leaf prefix included)
    let n = case + 1;
    let ls = leaves(r, n as usize);
    let (_t, st, _m) = build(&ls)?;
    for m in 0..=n {
        let fork = st.fork();
        let mut a = match bload(fork.clone(), m)? {
            Ok(t) => t,
            Err(e) => viol!("load of {m} leaves from storage of {n} failed: {e:?}"),
        };
        let (mut b, _bs, _) = build(&ls[..m as usize])?;
        same_tree(&format!("load({m}) of {n} stored leaves"), &a, &b, m, &all_idx(m))?;
        c.eval(m > 0, mix(n) ^ m);
        // divergent continuation, then restarts at every count so far
        let k = r.us(9);
        let mut all: Vec<Vec<u8>> = ls[..m as usize].to_vec();
        for j in 0..k {
            let d = gen::data(r, &[]);
            ok("push", bpush(&mut a, &d)?)?;
            ok("push", bpush(&mut b, &d)?)?;
            all.push(d);
            let nn = m + j as u64 + 1;
            let idx = if nn <= 24 { all_idx(nn) } else { gen::indices(r, nn, 2) };
            same_tree(&format!("load({m}) of {n}, then {} appends", j + 1), &a, &b, nn, &idx)?;
        }
        let nn = m + k as u64;
        for _ in 0..3 {
            let q = r.range(0, nn);
            let a2 = match bload(fork.clone(), q)? {
                Ok(t) => t,
                Err(e) => viol!("second load({q}) after load({m})+{k} appends failed: {e:?}"),
            };
            let (b2, _s, _) = build(&all[..q as usize])?;
            same_tree(
                &format!("second load({q}) after load({m}) of {n} and {k} appends"),
                &a2,
                &b2,
                q,
                &gen::indices(r, q.max(1), 2),
            )?;
            c.eval(q > 0, mix(n) ^ mix(m) ^ mix(q) ^ k as u64);
        }
    }
    c.count("storages restored at every prefix", 1);
    Ok(())
}
pub fn c04_restart_always(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // tree closed and reopened after every append, against one that never is
    let n = 2 + r.us(150);
    let ls = leaves(r, n);
    let st = BStore::new();
    let mut twin = bnew(BStore::new())?;
    let mut extra_loads = 0;
    for (k, d) in ls.iter().enumerate() {
        let mut a = ok("load", bload(st.clone(), k as u64)?)?;
        ok("push", bpush(&mut a, d)?)?;
        ok("push", bpush(&mut twin, d)?)?;
        let nn = k as u64 + 1;
        let mut idx = gen::indices(r, nn, 1);
        r.shuffle(&mut idx);
        idx.truncate(6);
        same_tree("restarted before every append", &a, &twin, nn, &idx)?;
        c.eval(true, mix(nn) ^ r.u64());
        if r.chance(1, 6) && nn > 1 {
            // roll back some leaves and replay
            let m = r.range(0, nn);
            let mut a = ok("load", bload(st.clone(), m)?)?;
            for d in &ls[m as usize..nn as usize] {
                ok("push", bpush(&mut a, d)?)?;
            }
            same_tree("rolled back and replayed", &a, &twin, nn, &idx)?;
            extra_loads += 1;
        }
    }
    c.count("rollback-and-replay", extra_loads);
    c.sample(|| format!("{n} appends with a restart before each, {extra_loads} rollbacks with replay"));
    Ok(())
}
pub fn c04_large(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 600_000 } else { 300 } + r.us(if case < 2 || c.thorough { 80_000 } else { 3_000 });
    let ls: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(4)).collect();
    let (_t, st, m) = build(&ls)?;
    for _ in 0..12 {
        let q = if let (Some(q), true) = (gen::new_num(r, n as u64), r.chance(1, 3)) { q } else if r.chance(1, 2) { gen::big_count(r, n as u64) } else { r.range(0, n as u64) };
        let t = ok("load", bload(st.clone(), q)?)?;
        let root = broot(&t)?;
        ensure!(root == m.root_at(q), "load({q}) of {n} stored leaves: root differs");
        if q > 0 {
            for i in gen::indices(r, q, 2) {
                check_proof(&t, &m, i, q, &root)?;
            }
        }
        c.eval(q > 0, mix(q) ^ n as u64);
    }
    c.max("largest storage restored from", n as u64);
    Ok(())
}
pub fn c04_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // huge storage of n0 leaves, restored at smaller counts and continued
    let n0 = gen::big_count(r, HUGE - 200);
    for _ in 0..3 {
        let m = if n0 == 0 { 0 } else { gen::big_count(r, n0) };
        let st = VStore::new(r, n0, &[m]);
        let mut t = match bload(st.clone(), m)? {
            Ok(t) => t,
            Err(e) => viol!("load({m}) from a complete storage of {n0} leaves failed: {e:?}"),
        };
        let mut v = Virtual::of(&st.base, m);
        for j in 0..6 {
            let n = v.n();
            let root = broot(&t)?;
            ensure!(root == mth(&v, 0, n), "load({m}) of {n0} leaves + {j}: root differs");
            if n > 0 {
                for i in st.ask(r, n, 4) {
                    check_proof(&t, &v, i, n, &root)?;
                }
            }
            c.eval(true, mix(n0) ^ mix(m) ^ j);
            let d = gen::data(r, &[]);
            ok("push", bpush(&mut t, &d)?)?;
            v.added.push(leaf_hash(&d));
        }
        c.max("largest leaf count restored", m);
    }
    Ok(())
}

// ------------------------------------------------------------------------- C05

fn diff_storage(want: &HashMap<u64, BV>, got: &HashMap<u64, BV>, n: u64) -> R {
    for (k, v) in want {
        match got.get(k) {
            None => viol!("{n} leaves: stored entry for position {k} is missing"),
            Some(g) => {
                ensure!(g.0 == v.0, "{n} leaves: entry at {k} carries position {}", g.0);
                ensure!(g.1 == v.1, "{n} leaves: entry at {k} holds hash {} want {}", hx(&g.1), hx(&v.1));
            }
        }
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "{n} leaves: unexpected stored entry at position {k}");
    }
    Ok(())
}
pub fn c05_every(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.us(130);
    let ls = leaves(r, n);
    let st = BStore::new();
    let mut t = bnew(st.clone())?;
    let mut m = Seq::default();
    let mut prev: HashMap<u64, BV> = HashMap::new();
    let reopen = r.chance(1, 2);
    for (i, d) in ls.iter().enumerate() {
        if reopen && r.chance(1, 4) {
            t = ok("load", bload(st.clone(), i as u64)?)?;
        }
        ok("push", bpush(&mut t, d)?)?;
        m.push(d);
        if r.chance(1, 3) {
            broot(&t)?;
            let _ = bprove(&t, r.range(0, i as u64 + 1))?;
        }
        let now = st.snapshot();
        for (k, v) in &prev {
            ensure!(
                now.get(k) == Some(v),
                "appending leaf {i} changed the stored entry at position {k}"
            );
        }
        diff_storage(&m.storage(), &now, i as u64 + 1)?;
        tr!(c, "push #{i}: {} entries", now.len());
        c.eval(i > 0, mix(i as u64) ^ h64(&m.root()));
        c.count("stored entries compared", now.len() as u64);
        prev = now;
    }
    c.sample(|| format!("{n} appends, storage compared after each; {} entries at the end", prev.len()));
    Ok(())
}
pub fn c05_long(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 600_000 } else { 1000 } + r.us(if case < 2 || c.thorough { 60_000 } else { 3_000 });
    let st = BStore::new();
    let mut t = bnew(st.clone())?;
    let mut m = Seq::default();
    for i in 0..n as u64 {
        let d = r.bytes(6);
        ok("push", bpush(&mut t, &d)?)?;
        m.push(&d);
        let want = 2 * (i + 1) - (i + 1).count_ones() as u64;
        let got = st.map.borrow().len() as u64;
        ensure!(got == want, "{} leaves: {got} stored entries instead of {want}", i + 1);
        if i % (701 + n as u64 / 50) == 0 || i + 1 == n as u64 || (gen::special(i + 1) && r.chance(1, 4)) {
            diff_storage(&m.storage(), &st.snapshot(), i + 1)?;
            c.eval(true, mix(i) ^ h64(&m.root()));
        }
    }
    c.max("largest leaf count", n as u64);
    Ok(())
}
pub fn c05_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (mut t, st, mut v) = huge(r)?;
    let n0 = v.n0;
    for j in 0..30u64 {
        let d = gen::data(r, &[]);
        ok("push", bpush(&mut t, &d)?)?;
        v.added.push(leaf_hash(&d));
        let n = v.n();
        // expected: every complete subtree that ends in n0+1..=n
        let mut want: HashMap<u64, BV> = HashMap::new();
        for end in n0 + 1..=n {
            for h in 0..=end.trailing_zeros() {
                let idx = (end >> h) - 1;
                let p = in_order(h, idx);
                want.insert(p, (p, v.complete(h, idx)));
            }
        }
        diff_storage(&want, &st.over.borrow(), n)?;
        c.eval(true, mix(n0) ^ j);
    }
    c.max("largest leaf count", v.n());
    Ok(())
}

// ------------------------------------------------------------------------- C06

fn c06_check(c: &mut Ctx, r: &mut Rng, st: &BStore, seq: &Seq, removed: &[u64], what: &str) -> R {
    let n = seq.len();
    let mut counts: Vec<u64> = (0..=n + 3).collect();
    if n > 24 {
        r.shuffle(&mut counts);
        counts.truncate(16);
    }
    for m in counts {
        match bload(st.clone(), m)? {
            Err(BE::Storage(_)) | Err(BE::Invalid(_)) | Err(BE::Other) => {
                viol!("{what}: load({m}) reported an error of the wrong kind")
            }
            Err(BE::Load(_)) => {
                ensure!(!(removed.is_empty() && m <= n), "{what}: load({m}) of {n} intact leaves failed");
                c.count("loads refused", 1);
            }
            Ok(t) => {
                ensure!(m <= n, "{what}: load({m}) succeeded with only {n} leaves stored");
                let root = broot(&t)?;
                ensure!(root == seq.root_at(m), "{what}: load({m}) gave root {} want {}", hx(&root), hx(&seq.root_at(m)));
                let mut idx: Vec<u64> = (0..=m).collect();
                if m > 24 {
                    r.shuffle(&mut idx);
                    idx.truncate(12);
                }
                for i in idx {
                    match bprove(&t, i)? {
                        Ok((pr, ps)) => {
                            ensure!(i < m, "{what}: prove({i}) of {m} leaves returned a proof");
                            ensure!(
                                pr == root && ps == seq.proof_at(i, m),
                                "{what}: prove({i}) of {m} leaves on incomplete storage returned a wrong proof"
                            );
                            c.count("correct proofs on incomplete storage", 1);
                        }
                        Err(e) => {
                            ensure!(
                                !(removed.is_empty() && i < m),
                                "{what}: prove({i}) of {m} intact leaves failed: {e:?}"
                            );
                            c.count("proofs refused", 1);
                        }
                    }
                }
            }
        }
        c.eval(true, mix(m) ^ mix(n) ^ h64(what.as_bytes()));
    }
    Ok(())
}
pub fn c06_single(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // every single missing entry of an N-leaf storage
    let n = case + 1;
    let ls = leaves(r, n as usize);
    let (t, st, seq) = build(&ls)?;
    c06_check(c, r, &st, &seq, &[], "intact")?;
    let mut ks: Vec<u64> = st.map.borrow().keys().copied().collect();
    ks.sort();
    if ks.len() > 70 {
        r.shuffle(&mut ks);
        ks.truncate(70);
    }
    for k in ks {
        let f = st.fork();
        f.map.borrow_mut().remove(&k);
        c06_check(c, r, &f, &seq, &[k], &format!("{n} leaves, entry {k} missing"))?;
        // the living tree on damaged storage, then repaired
        let v = st.map.borrow_mut().remove(&k).unwrap();
        ensure!(broot(&t)? == seq.root(), "root of a living tree changed when entry {k} went missing");
        for i in gen::indices(r, n, 1) {
            if let Ok((pr, ps)) = bprove(&t, i)? {
                ensure!(
                    pr == seq.root() && ps == seq.proof_at(i, n),
                    "living tree of {n}, entry {k} missing: prove({i}) returned a wrong proof"
                );
            }
        }
        st.map.borrow_mut().insert(k, v);
        let i = r.below(n);
        check_proof(&t, &seq, i, n, &seq.root())?;
    }
    Ok(())
}
pub fn c06_subset(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.below(80);
    let ls = leaves(r, n as usize);
    let (mut t, st, mut seq) = build(&ls)?;
    let mut ks: Vec<u64> = st.map.borrow().keys().copied().collect();
    ks.sort();
    r.shuffle(&mut ks);
    let q = match r.below(4) {
        0 => 2.min(ks.len()),
        1 => ks.len(),
        2 => ks.len() - 1,
        _ => r.us(ks.len()) + 1,
    };
    ks.truncate(q);
    let f = st.fork();
    for k in &ks {
        f.map.borrow_mut().remove(k);
        st.map.borrow_mut().remove(k);
    }
    c06_check(c, r, &f, &seq, &ks, &format!("{n} leaves, {q} entries missing"))?;
    c.sample(|| format!("{n} leaves, {q} entries removed: {:?}", &ks[..ks.len().min(8)]));
    // a living tree goes on appending on damaged storage
    for _ in 0..6 {
        let d = gen::data(r, &[]);
        ok("push on storage with missing entries", bpush(&mut t, &d)?)?;
        seq.push(&d);
        ensure!(broot(&t)? == seq.root(), "append on a damaged storage gave a wrong root");
        for i in gen::indices(r, seq.len(), 1) {
            if let Ok((pr, ps)) = bprove(&t, i)? {
                ensure!(
                    pr == seq.root() && ps == seq.proof_at(i, seq.len()),
                    "living tree on damaged storage: prove({i}) returned a wrong proof"
                );
            }
        }
    }
    Ok(())
}
pub fn c06_extreme(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // leaf counts far beyond what is stored, up to u64::MAX
    let n = if r.chance(1, 4) { 0 } else { r.below(70) };
    let ls = leaves(r, n as usize);
    let (_t, st, seq) = build(&ls)?;
    let mut counts = vec![u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 62, u32::MAX as u64, 1 << 32];
    for _ in 0..16 {
        counts.push(gen::big_count(r, u64::MAX));
        counts.push((1u64 << r.below(64)).wrapping_add(n));
        counts.push((1u64 << 63) | r.below(n + 2));
    }
    for m in counts {
        let v = bload(st.clone(), m)?;
        if m <= n {
            continue;
        }
        ensure!(v.is_err(), "load({m}) succeeded with only {n} leaves stored");
        if let Err(e) = v {
            ensure!(matches!(e, BE::Load(_)), "load({m}) of {n} stored leaves: error {e:?}");
        }
        c.eval(true, mix(m) ^ n);
        c.count("extreme counts refused", 1);
    }
    ensure!(st.snapshot() == seq.storage(), "refused loads changed the storage");
    Ok(())
}
pub fn c06_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // a huge storage with holes
    let n0 = gen::big_count(r, HUGE).max(2);
    let st = VStore::new(r, n0, &[]);
    let v = Virtual::of(&st.base, n0);
    let t = ok("load", bload(st.clone(), n0)?)?;
    let root = mth(&v, 0, n0);
    for _ in 0..6 {
        let pool = st.ask(r, n0, 6);
        let i = *r.pick(&pool);
        // positions the proof may use: stored siblings on the path and the leaf
        let mut cand: Vec<u64> = vec![2 * i];
        let mut h = 0;
        while h < 63 {
            let sib = (i >> h) ^ 1;
            if ((sib as u128 + 1) << h) <= n0 as u128 {
                cand.push(in_order(h, sib));
            }
            h += 1;
        }
        let k = *r.pick(&cand);
        st.missing.borrow_mut().insert(k);
        match bprove(&t, i)? {
            Ok((pr, ps)) => {
                let mut want = vec![v.complete(0, i)];
                want.extend(audit(&v, i, n0));
                ensure!(pr == root && ps == want, "{n0} leaves, entry {k} missing: prove({i}) returned a wrong proof");
                c.count("correct proofs on incomplete storage", 1);
            }
            Err(e) => {
                ensure!(matches!(e, BE::Load(_)), "{n0} leaves, entry {k} missing: prove({i}): {e:?}");
                c.count("proofs refused", 1);
            }
        }
        match bload(st.clone(), n0)? {
            Ok(t2) => ensure!(broot(&t2)? == root, "{n0} leaves, entry {k} missing: load gave a wrong root"),
            Err(e) => ensure!(matches!(e, BE::Load(_)), "{n0} leaves, entry {k} missing: load: {e:?}"),
        }
        st.missing.borrow_mut().clear();
        check_proof(&t, &v, i, n0, &root)?;
        c.eval(true, mix(n0) ^ mix(i) ^ k);
    }
    // one leaf more than stored
    for d in [1u64, 2, 3, 64] {
        if let Ok(_t) = bload(st.clone(), n0 + d)? {
            viol!("load({}) succeeded with {n0} leaves stored", n0 + d);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C07

const MODES: [FaultMode; 2] = [FaultMode::Before, FaultMode::After];

fn state_equal(what: &str, t: &BT<BStore>, twin: &BT<BStore>, n: u64, r: &mut Rng) -> R {
    let idx = if n <= 20 { all_idx(n) } else {
        let mut v = gen::indices(r, n, 2);
        v.push(n);
        v
    };
    same_tree(what, t, twin, n, &idx)
}

fn twin_of(ls: &[Vec<u8>]) -> R<BT<BStore>> {
    let mut t = bnew(BStore::new())?;
    for d in ls {
        ok("push", bpush(&mut t, d)?)?;
    }
    Ok(t)
}

/// A tree with the given leaves: grown, or restored from storage.
fn subject(ls: &[Vec<u8>], restored: bool) -> R<(BT<BStore>, BStore)> {
    let (t, st, _) = build(ls)?;
    if restored {
        let t2 = ok("load", bload(st.clone(), ls.len() as u64)?)?;
        return Ok((t2, st));
    }
    Ok((t, st))
}

pub fn c07_enum(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // every storage call of the append that makes leaf n+1, both modes
    let n = case;
    let ls = leaves(r, n as usize + 8);
    let base = &ls[..n as usize];
    let next = &ls[n as usize];
    // number of storage calls of this append
    let calls = {
        let (mut t, st) = subject(base, false)?;
        let before = st.ctl.calls();
        ok("push", bpush(&mut t, next)?)?;
        st.ctl.calls() - before
    };
    for restored in [false, true] {
        for at in 0..calls {
            for mode in MODES {
                let (mut t, st) = subject(base, restored)?;
                let twin0 = twin_of(base)?;
                let id = st.ctl.arm(at, mode);
                let res = bpush(&mut t, next)?;
                let fired = st.ctl.disarm();
                let what = format!("append #{n} failing at storage call {at}/{calls} ({mode:?}, restored={restored})");
                tr!(c, "{what}: result {res:?}");
                if fired.is_none() {
                    ensure!(res.is_ok(), "{what}: error {res:?} though storage did not fail");
                    continue;
                }
                ensure!(res == Err(BE::Storage(id)), "{what}: result {res:?} instead of the storage error");
                state_equal(&what, &t, &twin0, n, r)?;
                c.eval(true, mix(n) ^ mix(at) ^ ((mode == FaultMode::After) as u64) ^ ((restored as u64) << 9));
                c.count("storage failures injected", 1);
                // retry and go on
                let mut twin = twin_of(base)?;
                let alt = r.chance(1, 4);
                let other = gen::data(r, &[]);
                let first = if alt { &other } else { next };
                ok("retried push", bpush(&mut t, first)?)?;
                ok("push", bpush(&mut twin, first)?)?;
                state_equal(&format!("{what}, after the retry"), &t, &twin, n + 1, r)?;
                let mut all: Vec<Vec<u8>> = base.to_vec();
                all.push(first.clone());
                for d in &ls[n as usize + 1..] {
                    ok("push", bpush(&mut t, d)?)?;
                    ok("push", bpush(&mut twin, d)?)?;
                    all.push(d.clone());
                }
                let nn = all.len() as u64;
                state_equal(&format!("{what}, after retry and more appends"), &t, &twin, nn, r)?;
                // and it can be restored at any count
                let q = r.range(0, nn);
                let t2 = ok("load after a failed append", bload(st.clone(), q)?)?;
                let tw = twin_of(&all[..q as usize])?;
                state_equal(&format!("{what}, restored at {q}"), &t2, &tw, q, r)?;
            }
        }
    }
    // the same append failing at every call in turn on one tree
    let (mut t, st) = subject(base, false)?;
    let twin0 = twin_of(base)?;
    for at in (0..calls).chain((0..calls).rev()) {
        for mode in MODES {
            let id = st.ctl.arm(at, mode);
            let res = bpush(&mut t, next)?;
            let fired = st.ctl.disarm();
            if fired.is_none() {
                // fewer calls than the first time: the append went through
                ensure!(res.is_ok(), "append #{n}, retried: {res:?} though storage did not fail");
                let mut twin = twin0;
                ok("push", bpush(&mut twin, next)?)?;
                return state_equal(&format!("append #{n} after repeated failures"), &t, &twin, n + 1, r);
            }
            ensure!(res == Err(BE::Storage(id)), "repeated failure at call {at} of append #{n}: {res:?}");
            state_equal(&format!("append #{n} failed repeatedly (call {at}, {mode:?})"), &t, &twin0, n, r)?;
            c.count("storage failures injected", 1);
            c.eval(true, mix(n) ^ mix(at) ^ 77 ^ (mode == FaultMode::After) as u64);
        }
    }
    let mut twin = twin0;
    for d in &ls[n as usize..] {
        ok("push", bpush(&mut t, d)?)?;
        ok("push", bpush(&mut twin, d)?)?;
    }
    state_equal(&format!("append #{n} after repeated failures"), &t, &twin, n + 8, r)
}
pub fn c07_reads(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // storage failures during proofs and restores
    let n = case + 1;
    let ls = leaves(r, n as usize + 3);
    let (mut t, st) = subject(&ls[..n as usize], r.chance(1, 2))?;
    let mut twin = twin_of(&ls[..n as usize])?;
    for i in gen::indices(r, n, 2) {
        let before = st.ctl.calls();
        let good = ok("prove", bprove(&t, i)?)?;
        let calls = st.ctl.calls() - before;
        for at in 0..calls {
            let id = st.ctl.arm(at, FaultMode::Before);
            let res = bprove(&t, i)?;
            let fired = st.ctl.disarm();
            if fired.is_some() {
                ensure!(
                    res == Err(BE::Storage(id)),
                    "prove({i}) of {n} leaves with storage call {at} failing: {res:?} instead of the storage error"
                );
                c.count("storage failures injected", 1);
            }
            ensure!(bprove(&t, i)? == Ok(good.clone()), "after a failed proof, prove({i}) of {n} differs");
            c.eval(true, mix(n) ^ mix(i) ^ at ^ 0x77);
        }
    }
    let before = st.ctl.calls();
    ok("load", bload(st.clone(), n)?)?;
    let calls = st.ctl.calls() - before;
    for at in 0..calls {
        let id = st.ctl.arm(at, FaultMode::Before);
        let res = bload(st.clone(), n)?.map(|_| ());
        if st.ctl.disarm().is_some() {
            ensure!(res == Err(BE::Storage(id)), "load({n}) with storage call {at} failing: {res:?}");
            c.count("storage failures injected", 1);
        }
        let t2 = ok("load", bload(st.clone(), n)?)?;
        ensure!(broot(&t2)? == broot(&twin)?, "load({n}) after a failed load: wrong root");
        c.eval(true, mix(n) ^ at ^ 0x78);
    }
    for d in &ls[n as usize..] {
        ok("push", bpush(&mut t, d)?)?;
        ok("push", bpush(&mut twin, d)?)?;
    }
    state_equal("after failed reads", &t, &twin, n + 3, r)
}
pub fn c07_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // long histories on flaky storage
    let n = 20 + r.us(120);
    let ls = leaves(r, n);
    let st = BStore::new();
    let mut t = bnew(st.clone())?;
    let mut twin = bnew(BStore::new())?;
    let mut fails = 0;
    let rate = 1 + r.below(4);
    for (k, d) in ls.iter().enumerate() {
        loop {
            let armed = r.below(5) < rate;
            let id = if armed {
                st.ctl.arm(r.below(1 + (k as u64 + 1).trailing_zeros() as u64), *r.pick(&MODES))
            } else {
                0
            };
            let res = bpush(&mut t, d)?;
            let fired = st.ctl.disarm();
            match (&res, fired) {
                (Ok(()), None) => break,
                (Err(BE::Storage(x)), Some(_)) if *x == id => {
                    fails += 1;
                    if r.chance(1, 3) {
                        state_equal(&format!("flaky storage, append #{k} failed"), &t, &twin, k as u64, r)?;
                    }
                    if r.chance(1, 8) {
                        t = ok("load", bload(st.clone(), k as u64)?)?;
                    }
                }
                _ => viol!("flaky storage, append #{k}: result {res:?}, failure injected: {fired:?}"),
            }
        }
        ok("push", bpush(&mut twin, d)?)?;
        ensure!(broot(&t)? == broot(&twin)?, "flaky storage: root differs after append #{k} ({fails} failures so far)");
    }
    state_equal("flaky storage, end", &t, &twin, n as u64, r)?;
    c.count("storage failures injected", fails);
    c.eval(fails > 0, r.u64());
    c.sample(|| format!("{n} appends on flaky storage, {fails} injected failures"));
    Ok(())
}

/// Failing appends, proofs and restores of trees of up to 2^62 leaves: some
/// dozens of appends from an enormous leaf count, so that joins of every
/// height up to 61 happen, each failing at chosen calls before it goes through.
pub fn c07_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (mut t, st, mut v) = huge(r)?;
    let n0 = v.n();
    c.max("largest leaf count with failing storage", n0);
    let mut fails = 0;
    for _ in 0..3 + r.us(6) {
        let n = v.n();
        let d = gen::data(r, &[]);
        let root0 = mth(&v, 0, n);
        // the calls of the append that makes leaf n: the leaf, and a node per join
        let joins = (n + 1).trailing_zeros() as u64;
        let mut ats: Vec<u64> = match r.below(4) {
            0 => (0..=joins).collect(),
            1 => vec![joins],
            2 => vec![r.below(joins + 1), 0],
            _ => vec![],
        };
        r.shuffle(&mut ats);
        for at in ats {
            for mode in MODES {
                let id = st.ctl.arm(at, mode);
                let res = bpush(&mut t, &d)?;
                let fired = st.ctl.disarm();
                if fired.is_none() {
                    ensure!(res.is_ok(), "append #{n} failed without a storage failure: {res:?}");
                    // it needed fewer calls than expected, and went through
                    return Ok(());
                }
                let what = format!("append #{n} failing at storage call {at} ({mode:?})");
                ensure!(res == Err(BE::Storage(id)), "{what}: result {res:?} instead of the storage error");
                fails += 1;
                let got = broot(&t)?;
                ensure!(got == root0, "{what}: the root changed to {}", hx(&got));
                ensure!(bprove(&t, n)?.is_err(), "{what}: there is a proof for leaf {n}");
                if n > 0 {
                    let ask = st.ask(r, n, 2);
                    check_proof(&t, &v, *r.pick(&ask), n, &root0)?;
                    if n > n0 {
                        check_proof(&t, &v, r.range(n0, n - 1), n, &root0)?;
                    }
                }
                if r.chance(1, 4) {
                    t = ok(&format!("load({n}) after a failed append"), bload(st.clone(), n)?)?;
                    ensure!(broot(&t)? == root0, "{what}: restored at {n}, the root is another");
                }
                c.eval(true, mix(n) ^ mix(at) ^ (mode == FaultMode::After) as u64);
            }
        }
        ok("retried push", bpush(&mut t, &d)?)?;
        v.added.push(leaf_hash(&d));
        let n = v.n();
        let root = mth(&v, 0, n);
        let got = broot(&t)?;
        ensure!(got == root, "root after retried append to {n} leaves is {}", hx(&got));
        check_proof(&t, &v, n - 1, n, &root)?;
    }
    let n = v.n();
    let root = mth(&v, 0, n);
    // failing reads
    let ask = st.ask(r, n, 3);
    let i = *r.pick(&ask);
    let before = st.ctl.calls();
    let good = ok("prove", bprove(&t, i)?)?;
    let calls = st.ctl.calls() - before;
    for at in 0..calls {
        let id = st.ctl.arm(at, FaultMode::Before);
        let res = bprove(&t, i)?;
        if st.ctl.disarm().is_some() {
            ensure!(res == Err(BE::Storage(id)), "prove({i}) of {n} with storage call {at} failing: {res:?}");
            fails += 1;
        }
    }
    ensure!(bprove(&t, i)? == Ok(good), "after failed proofs, prove({i}) of {n} differs");
    let before = st.ctl.calls();
    ok("load", bload(st.clone(), n)?)?;
    let calls = st.ctl.calls() - before;
    for at in 0..calls {
        let id = st.ctl.arm(at, FaultMode::Before);
        let res = bload(st.clone(), n)?.map(|_| ());
        if st.ctl.disarm().is_some() {
            ensure!(res == Err(BE::Storage(id)), "load({n}) with storage call {at} failing: {res:?}");
            fails += 1;
        }
    }
    let t2 = ok(&format!("load({n})"), bload(st.clone(), n)?)?;
    ensure!(broot(&t2)? == root && broot(&t)? == root, "after failed reads the root of {n} leaves differs");
    for i in ask {
        check_proof(&t, &v, i, n, &root)?;
        check_proof(&t2, &v, i, n, &root)?;
    }
    c.count("storage failures injected", fails);
    c.eval(fails > 0, mix(n) ^ h64(&root));
    Ok(())
}
