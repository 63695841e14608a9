//! C22, C23, C24, C26, C27, C28, C30: properties that relate several trees,
//! builds or backends.

use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::p_binary::{self as pb, BTab, BStore, BE, BT, BV};
use crate::p_sparse::{self as ps, Gen, Op, SStore, STab, SE, ST};
use crate::p_sum::{self as pm, sum_sut};
use fuel_merkle::common::{AsPathIterator, Node, ParentNode, Position, StorageMap};
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use fuel_merkle::{binary, sparse, sum};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

fn bo<E: Debug>(e: binary::MerkleTreeError<E>) -> BE {
    #[allow(unreachable_patterns)]
    match e {
        binary::MerkleTreeError::InvalidProofIndex(i) => BE::Invalid(i),
        binary::MerkleTreeError::LoadError(i) => BE::Load(i),
        binary::MerkleTreeError::StorageError(_) => BE::Storage(0),
        _ => BE::Other,
    }
}
fn so<E: Debug>(e: sparse::MerkleTreeError<E>) -> SE {
    #[allow(unreachable_patterns)]
    match e {
        sparse::MerkleTreeError::LoadError(_) => SE::Load,
        sparse::MerkleTreeError::StorageError(_) => SE::Storage(0),
        sparse::MerkleTreeError::DeserializeError(_) => SE::Deser,
        sparse::MerkleTreeError::ChildError(_) => SE::Child,
        e => SE::Other(format!("{e:?}")),
    }
}

// ------------------------------------------------------------------- histories

#[derive(Clone, Debug)]
enum BOp {
    Push(Vec<u8>),
    Root,
    Prove(u64),
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Unit(Result<(), BE>),
    Root(H),
    Proof(Result<(H, Vec<H>), BE>),
    SUnit(Result<(), SE>),
    Opened(bool),
    Sum(u64, H),
}

fn bhist(r: &mut Rng, n0: u64, ops: usize) -> Vec<BOp> {
    let mut n = n0;
    let ls = pb::leaves(r, ops);
    ls.into_iter()
        .map(|d| match r.below(10) {
            0 => BOp::Root,
            1 | 2 if n > 0 => BOp::Prove(r.below(n)),
            3 => {
                let b = gen::bad_indices(r, n);
                BOp::Prove(*r.pick(&b))
            }
            _ => {
                n += 1;
                BOp::Push(d)
            }
        })
        .collect()
}
fn pushes(h: &[BOp]) -> u64 {
    h.iter().filter(|o| matches!(o, BOp::Push(_))).count() as u64
}
fn shist(r: &mut Rng, g: &Gen, m: &mut Map, n: usize) -> Vec<Op> {
    (0..n)
        .map(|_| {
            let o = g.op(r, m);
            o.model(m);
            o
        })
        .collect()
}

fn brun<S: StorageMutate<BTab, Error = E>, E: Debug>(t: &mut BT<S>, h: &[BOp], out: &mut Vec<Out>) -> R {
    for op in h {
        out.push(match op {
            BOp::Push(d) => Out::Unit(sut("binary push", || t.push(d))?.map_err(bo)),
            BOp::Root => Out::Root(sut("binary root", || t.root())?),
            BOp::Prove(i) => Out::Proof(sut("binary prove", || t.prove(*i))?.map_err(bo)),
        });
    }
    out.push(Out::Root(sut("binary root", || t.root())?));
    Ok(())
}
fn srun<S: StorageMutate<STab, Error = E>, E: Debug + Clone + 'static>(t: &mut ST<S>, h: &[Op], out: &mut Vec<Out>) -> R {
    for op in h {
        let what = op.show();
        out.push(Out::SUnit(
            sut(&what, || match op {
                Op::Up(k, d) => t.update(k, d),
                Op::UpEmpty(k) => t.update(k, &[]),
                Op::Del(k) => t.delete(k),
            })?
            .map_err(so),
        ));
        out.push(Out::Root(sut("sparse root", || t.root())?));
    }
    Ok(())
}

fn compare(c: &mut Ctx, a: &[Out], b: &[Out], what: &str, show: &dyn Fn(usize) -> String) -> R {
    ensure!(a.len() == b.len(), "{what}: {} results against {}", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x == y, "{what}: result {i} ({}) is {:?} against {:?}", show(i), y, x);
    }
    c.count("results compared", a.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------------- C22

pub fn c22_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let long = case % 16 == 15;
    let n = if long { 300 + r.us(1200) } else { r.us(70) };
    let h = bhist(r, 0, n);
    let mut mem = sut("in-memory new", || {
        if case % 2 == 0 {
            binary::in_memory::MerkleTree::new()
        } else {
            Default::default()
        }
    })?;
    let mut back = sut("new", || BT::<StorageMap<BTab>>::new(StorageMap::new()))?;
    let mut np = 0u64;
    for (i, op) in h.iter().enumerate() {
        tr!(c, "#{i} {op:?}");
        match op {
            BOp::Push(d) => {
                sut("in-memory push", || mem.push(d))?;
                ensure!(sut("push", || back.push(d))?.is_ok(), "storage-backed push failed");
                np += 1;
            }
            BOp::Root => {}
            BOp::Prove(k) => {
                let a = sut("in-memory prove", || mem.prove(*k))?;
                let b = sut("prove", || back.prove(*k))?.ok();
                ensure!(a == b, "#{i} prove({k}) with {np} leaves: in-memory {a:?}, storage-backed {b:?}");
                c.count(if b.is_some() { "proofs compared" } else { "refusals compared" }, 1);
            }
        }
        if !long || i % 37 == 0 || i + 1 == h.len() {
            let a = sut("in-memory root", || mem.root())?;
            let b = sut("root", || back.root())?;
            ensure!(a == b, "#{i} root with {np} leaves: in-memory {}, storage-backed {}", hx(&a), hx(&b));
            c.evalh(np > 1, &a);
        }
    }
    for k in 0..np {
        if np > 100 && k % 29 != 0 {
            continue;
        }
        let a = sut("in-memory prove", || mem.prove(k))?;
        let b = sut("prove", || back.prove(k))?.ok();
        ensure!(a.is_some() && a == b, "prove({k}) of {np}: in-memory {a:?}, storage-backed {b:?}");
        c.count("proofs compared", 1);
    }
    c.max("largest leaf count", np);
    c.sample(|| format!("{} binary operations ending with {np} leaves", h.len()));
    Ok(())
}
pub fn c22_sparse(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let long = case % 16 == 15;
    let (pool, n) = if long { (200, 300) } else { (24, r.us(60)) };
    let g = Gen::new(r, pool);
    let mut m = Map::new();
    let h = shist(r, &g, &mut m, n);
    let mut mem = sut("in-memory new", || {
        if case % 2 == 0 {
            sparse::in_memory::MerkleTree::new()
        } else {
            Default::default()
        }
    })?;
    let st = SStore::new();
    let mut back = ps::snew(st)?;
    let (a, b) = (sut("in-memory root", || mem.root())?, ps::sroot_of(&back)?);
    ensure!(a == b, "empty roots differ: in-memory {}, storage-backed {}", hx(&a), hx(&b));
    let mut mm = Map::new();
    for (i, op) in h.iter().enumerate() {
        tr!(c, "#{i} {}", op.show());
        sut("in-memory operation", || match op {
            Op::Up(k, d) => mem.update(k, d),
            Op::UpEmpty(k) => mem.update(k, &[]),
            Op::Del(k) => mem.delete(k),
        })?;
        op.run(&mut back)?;
        op.model(&mut mm);
        let (a, b) = (sut("in-memory root", || mem.root())?, ps::sroot_of(&back)?);
        ensure!(a == b, "#{i} {}: in-memory root {}, storage-backed {}", op.show(), hx(&a), hx(&b));
        c.eval(mm.len() > 1, map_key(&mm));
        c.count("sparse roots compared", 1);
    }
    c.sample(|| format!("{} sparse operations ending with {} keys", h.len(), mm.len()));
    Ok(())
}

// ------------------------------------------------------------------------- C26

pub fn c26_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case % 20 == 19 { 200 + r.us(500) } else { 1 + r.us(45) };
    let ls = pb::leaves(r, n);
    let (sa, sb) = (BStore::new(), BStore::new());
    let mut a = pb::bnew(sa.clone())?;
    let mut b = pb::bnew(sb.clone())?;
    for (i, d) in ls.iter().enumerate() {
        pb::ok("push", pb::bpush(&mut a, d)?)?;
        pb::ok("push", pb::bpush(&mut b, d)?)?;
        let cnt = i as u64 + 1;
        if !r.chance(2, 3) {
            continue;
        }
        // reads on tree a only
        let w = sa.ctl.writes();
        let before = if n <= 45 { Some(sa.snapshot()) } else { None };
        let r1 = pb::broot(&a)?;
        for _ in 0..1 + r.us(6) {
            match r.below(5) {
                0 => {
                    let x = pb::broot(&a)?;
                    ensure!(x == r1, "repeated root reads of {cnt} leaves differ: {} then {}", hx(&r1), hx(&x));
                }
                1 | 2 => {
                    let k = r.below(cnt);
                    let x = pb::bprove(&a, k)?;
                    let y = pb::bprove(&a, k)?;
                    ensure!(x == y, "repeated proofs for {k} of {cnt} differ: {x:?} then {y:?}");
                }
                3 => {
                    let b = gen::bad_indices(r, cnt);
                    let _ = pb::bprove(&a, *r.pick(&b))?;
                }
                _ => {
                    let m = r.below(cnt + 1);
                    if let Ok(t) = pb::bload(sa.clone(), m)? {
                        let x = pb::broot(&t)?;
                        ensure!(x == pb::broot(&t)?, "repeated root reads after a restore differ");
                        if m > 0 {
                            let _ = pb::bprove(&t, r.below(m))?;
                        }
                    }
                }
            }
            c.count("reads", 1);
        }
        ensure!(sa.ctl.writes() == w, "reads of a {cnt}-leaf tree made {} storage writes", sa.ctl.writes() - w);
        if let Some(s) = before {
            ensure!(*sa.map.borrow() == s, "reads of a {cnt}-leaf tree changed its storage");
        }
        let x = pb::broot(&a)?;
        ensure!(x == r1, "root of {cnt} leaves changed from {} to {} through reads", hx(&r1), hx(&x));
        c.evalh(cnt > 1, &x);
    }
    let (x, y) = (pb::broot(&a)?, pb::broot(&b)?);
    ensure!(x == y, "root of {n} leaves with interleaved reads {}, without {}", hx(&x), hx(&y));
    ensure!(*sa.map.borrow() == *sb.map.borrow(), "interleaved reads changed the stored entries of {n} leaves");
    for k in 0..n as u64 {
        if n > 45 && k % 17 != 0 {
            continue;
        }
        let (x, y) = (pb::bprove(&a, k)?, pb::bprove(&b, k)?);
        ensure!(x == y, "proof {k} of {n} with interleaved reads {x:?}, without {y:?}");
    }
    c.count("twin histories", 1);
    c.sample(|| format!("{n} appends with reads between them, and a twin without reads"));
    Ok(())
}
pub fn c26_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 24);
    let mut m = Map::new();
    let n = 1 + r.us(40);
    let h = shist(r, &g, &mut m, n);
    let (sa, sb) = (SStore::new(), SStore::new());
    let mut a = ps::snew(sa.clone())?;
    let mut b = ps::snew(sb.clone())?;
    let mut old = vec![ZERO];
    for op in &h {
        tr!(c, "{}", op.show());
        op.run(&mut a)?;
        op.run(&mut b)?;
        let w = sa.ctl.writes();
        let before = sa.snapshot();
        let x = ps::sroot_of(&a)?;
        for _ in 0..r.us(4) {
            match r.below(3) {
                0 => {
                    let y = ps::sroot_of(&a)?;
                    ensure!(x == y, "repeated root reads differ: {} then {}", hx(&x), hx(&y));
                }
                _ => {
                    let k = if r.chance(1, 2) { x } else { *r.pick(&old) };
                    if let Ok(t) = ps::sload(sa.clone(), &k)? {
                        let y = ps::sroot_of(&t)?;
                        let z = ps::sroot_of(&t)?;
                        ensure!(y == z, "repeated root reads after opening differ");
                    }
                }
            }
            c.count("reads", 1);
        }
        ensure!(sa.ctl.writes() == w, "reads made {} storage writes", sa.ctl.writes() - w);
        ensure!(*sa.map.borrow() == before, "reads changed the storage");
        let y = ps::sroot_of(&a)?;
        ensure!(x == y, "root changed from {} to {} through reads", hx(&x), hx(&y));
        let z = ps::sroot_of(&b)?;
        ensure!(x == z, "root with interleaved reads {}, without {}", hx(&x), hx(&z));
        old.push(x);
        c.evalh(x != ZERO, &x);
    }
    ensure!(*sa.map.borrow() == *sb.map.borrow(), "interleaved reads changed the stored entries");
    c.count("twin histories", 1);
    Ok(())
}
pub fn c26_sum(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case % 20 == 19 { 200 + r.us(500) } else { 1 + r.us(45) };
    let fees = pm::fees(r, n);
    let (mut a, mut b) = (sum_sut(), sum_sut());
    for (i, f) in fees.iter().enumerate() {
        let l = r.us(40);
        let d = r.bytes(l);
        tr!(c, "push fee {f}");
        a.push_ok(*f, &d)?;
        b.push_ok(*f, &d)?;
        if r.chance(2, 3) {
            let x = a.root_ok()?;
            for _ in 0..r.us(3) {
                let y = a.root_ok()?;
                ensure!(x == y, "repeated root reads of {} leaves differ: {x:?} then {y:?}", i + 1);
                c.count("reads", 1);
            }
            c.evalh(i > 0, &x.1);
        }
    }
    let (x, y) = (a.root_ok()?, b.root_ok()?);
    ensure!(x == y, "root of {n} leaves with interleaved reads {x:?}, without {y:?}");
    c.count("twin histories", 1);
    Ok(())
}

// ------------------------------------------------------------------------- C27

pub struct OrdOwned<K, V>(BTreeMap<K, V>);
pub struct OrdBorrowed<K, V>(BTreeMap<K, V>);
macro_rules! ord {
    ($n:ident, $get:expr) => {
        impl<K: Ord + Clone, V: Clone> StorageInspect<Tab<K, V>> for $n<K, V> {
            type Error = Fault;
            fn get(&self, k: &K) -> Result<Option<Cow<'_, V>>, Fault> {
                step();
                let f: fn(&V) -> Cow<'_, V> = $get;
                Ok(self.0.get(k).map(f))
            }
            fn contains_key(&self, k: &K) -> Result<bool, Fault> {
                step();
                Ok(self.0.contains_key(k))
            }
        }
        impl<K: Ord + Clone, V: Clone> StorageMutate<Tab<K, V>> for $n<K, V> {
            fn insert(&mut self, k: &K, v: &V) -> Result<Option<V>, Fault> {
                step();
                Ok(self.0.insert(k.clone(), v.clone()))
            }
            fn remove(&mut self, k: &K) -> Result<Option<V>, Fault> {
                step();
                Ok(self.0.remove(k))
            }
        }
    };
}
ord!(OrdOwned, |v| Cow::Owned(v.clone()));
ord!(OrdBorrowed, |v| Cow::Borrowed(v));

/// appends with `&mut`, then restores by value and goes on
fn b_two_phase<S: StorageMutate<BTab, Error = E>, E: Debug>(mut s: S, h1: &[BOp], h2: &[BOp]) -> R<Vec<Out>> {
    let mut out = vec![];
    {
        let mut t = sut("new", || BT::<&mut S>::new(&mut s))?;
        brun(&mut t, h1, &mut out)?;
    }
    match sut("load", || BT::<S>::load(s, pushes(h1)))? {
        Ok(mut t) => {
            out.push(Out::Opened(true));
            brun(&mut t, h2, &mut out)?;
        }
        Err(_) => out.push(Out::Opened(false)),
    }
    Ok(out)
}
/// by value, never restored; yields what the two-phase run should
fn b_straight<S: StorageMutate<BTab, Error = E>, E: Debug>(s: S, h1: &[BOp], h2: &[BOp]) -> R<Vec<Out>> {
    let mut out = vec![];
    let mut t = sut("new", || BT::<S>::new(s))?;
    brun(&mut t, h1, &mut out)?;
    out.push(Out::Opened(true));
    brun(&mut t, h2, &mut out)?;
    Ok(out)
}
fn junk_b(r: &mut Rng, near: u64, stale: bool) -> Vec<(u64, BV)> {
    let mut v = vec![];
    // the leaves of an earlier, longer tree
    if stale && r.chance(1, 2) {
        for k in 0..near + r.below(8) {
            if r.chance(3, 4) {
                v.push((2 * k, (2 * k, r.h())));
            }
        }
    }
    for _ in 0..r.us(60) {
        let k = match r.below(4) {
            0 | 1 if stale => r.below(4 * near + 8),
            2 => u64::MAX - r.below(4),
            _ => (1 << 40) + r.u64() % (1 << 50),
        };
        v.push((k, (if r.chance(1, 2) { k } else { r.u64() }, r.h())));
    }
    v
}
pub fn c27_binary(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (l1, l2) = match r.below(40) {
        0 if !c.tiny => (r.us(800), r.us(500)),
        1 | 2 if !c.tiny => (r.us(200), r.us(100)),
        _ => (r.us(40), r.us(30)),
    };
    let h1 = bhist(r, 0, l1);
    let h2 = bhist(r, pushes(&h1), l2);
    let show = |i: usize| format!("operation {:?}", h1.iter().chain(h2.iter()).nth(i));
    if c.tracing {
        for (i, o) in h1.iter().chain(h2.iter()).enumerate() {
            tr!(c, "#{i} {o:?}");
        }
    }
    let base = b_straight(BStore::new(), &h1, &h2)?;
    let n = pushes(&h1) + pushes(&h2);
    let mut i = 0;
    let mut chk = |c: &mut Ctx, what: &str, got: R<Vec<Out>>| -> R {
        i += 1;
        c.count("backend runs compared", 1);
        c.eval(n > 1, mix(n) ^ h64(what.as_bytes()) ^ h64(format!("{:?}", base.last()).as_bytes()));
        compare(c, &base, &got?, &format!("binary tree on {what} against the reference backend"), &show)
    };
    chk(c, "the instrumented store, restored", b_two_phase(BStore::new(), &h1, &h2))?;
    chk(c, "the bundled map by value", b_straight(StorageMap::<BTab>::new(), &h1, &h2))?;
    chk(c, "the bundled map by reference, restored", b_two_phase(StorageMap::<BTab>::new(), &h1, &h2))?;
    let mut s = StorageMap::<BTab>::new();
    chk(c, "the bundled map by reference", b_straight(&mut s, &h1, &h2))?;
    chk(c, "an ordered map returning owned values", b_straight(OrdOwned(BTreeMap::new()), &h1, &h2))?;
    chk(c, "an ordered map returning owned values, restored", b_two_phase(OrdOwned(BTreeMap::new()), &h1, &h2))?;
    chk(c, "an ordered map returning borrowed values, restored", b_two_phase(OrdBorrowed(BTreeMap::new()), &h1, &h2))?;
    let j = junk_b(r, n, true);
    let mk = || j.iter().cloned().collect::<BTreeMap<_, _>>();
    chk(c, "an ordered map holding other entries", b_straight(OrdOwned(mk()), &h1, &h2))?;
    chk(c, "an ordered map holding other entries, restored", b_two_phase(OrdBorrowed(mk()), &h1, &h2))?;
    chk(
        c,
        "a hashed map holding other entries, restored",
        b_two_phase(BStore::from_map(j.iter().cloned().collect::<HashMap<_, _>>()), &h1, &h2),
    )?;
    c.sample(|| format!("{} operations on 11 backends, {n} leaves", h1.len() + h2.len()));
    Ok(())
}

fn s_two_phase<S: StorageMutate<STab, Error = E>, E: Debug + Clone + 'static>(mut s: S, h1: &[Op], h2: &[Op]) -> R<Vec<Out>> {
    let mut out = vec![];
    let root;
    {
        let mut t = sut("new", || ST::<&mut S>::new(&mut s))?;
        srun(&mut t, h1, &mut out)?;
        root = sut("root", || t.root())?;
    }
    match sut("load", || ST::<S>::load(s, &root))? {
        Ok(mut t) => {
            out.push(Out::Opened(true));
            srun(&mut t, h2, &mut out)?;
        }
        Err(_) => out.push(Out::Opened(false)),
    }
    Ok(out)
}
fn s_straight<S: StorageMutate<STab, Error = E>, E: Debug + Clone + 'static>(s: S, h1: &[Op], h2: &[Op]) -> R<Vec<Out>> {
    let mut out = vec![];
    let mut t = sut("new", || ST::<S>::new(s))?;
    srun(&mut t, h1, &mut out)?;
    out.push(Out::Opened(true));
    srun(&mut t, h2, &mut out)?;
    Ok(out)
}
pub fn c27_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 20);
    let mut m = Map::new();
    let (l1, l2) = if r.chance(1, 50) && !c.tiny { (r.us(300), r.us(200)) } else { (r.us(30), r.us(25)) };
    let h1 = shist(r, &g, &mut m, l1);
    let h2 = shist(r, &g, &mut m, l2);
    let show = |i: usize| {
        let i = i / 2;
        h1.iter().chain(h2.iter()).nth(i).map(|o| o.show()).unwrap_or_default()
    };
    if c.tracing {
        for (i, o) in h1.iter().chain(h2.iter()).enumerate() {
            tr!(c, "#{i} {}", o.show());
        }
    }
    let base = s_straight(SStore::new(), &h1, &h2)?;
    let key = map_key(&m);
    let n = m.len();
    let chk = |c: &mut Ctx, what: &str, got: R<Vec<Out>>| -> R {
        c.count("backend runs compared", 1);
        c.eval(n > 1, key ^ h64(what.as_bytes()));
        compare(c, &base, &got?, &format!("sparse tree on {what} against the reference backend"), &show)
    };
    chk(c, "the instrumented store, reopened", s_two_phase(SStore::new(), &h1, &h2))?;
    chk(c, "the bundled map by value", s_straight(StorageMap::<STab>::new(), &h1, &h2))?;
    chk(c, "the bundled map by reference, reopened", s_two_phase(StorageMap::<STab>::new(), &h1, &h2))?;
    let mut s = StorageMap::<STab>::new();
    chk(c, "the bundled map by reference", s_straight(&mut s, &h1, &h2))?;
    chk(c, "an ordered map returning owned values", s_straight(OrdOwned(BTreeMap::new()), &h1, &h2))?;
    chk(c, "an ordered map returning owned values, reopened", s_two_phase(OrdOwned(BTreeMap::new()), &h1, &h2))?;
    chk(c, "an ordered map returning borrowed values, reopened", s_two_phase(OrdBorrowed(BTreeMap::new()), &h1, &h2))?;
    // another tree's nodes and entries under arbitrary keys
    let mut j: BTreeMap<H, (u32, u8, H, H)> = BTreeMap::new();
    let other = Gen::new(r, 8);
    let mut om = Map::new();
    let n_other = r.us(12);
    for o in shist(r, &other, &mut om, n_other) {
        o.model(&mut om);
    }
    let (_, nodes) = snodes(&om);
    j.extend(nodes);
    for _ in 0..r.us(20) {
        // never the hash of a node the histories produce, short of a collision
        j.insert(r.h(), (r.u64() as u32 % 257, r.below(2) as u8, r.h(), r.h()));
    }
    chk(c, "an ordered map holding other entries", s_straight(OrdOwned(j.clone()), &h1, &h2))?;
    chk(c, "an ordered map holding other entries, reopened", s_two_phase(OrdBorrowed(j.clone()), &h1, &h2))?;
    chk(
        c,
        "a hashed map holding other entries, reopened",
        s_two_phase(SStore::from_map(j.into_iter().collect()), &h1, &h2),
    )?;
    Ok(())
}

pub fn c27_sum(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = if r.chance(1, 50) && !c.tiny { r.us(700) } else { r.us(40) };
    let items: Vec<(u64, Vec<u8>)> = pm::fees(r, n)
        .into_iter()
        .map(|f| {
            let l = r.us(40);
            (f, r.bytes(l))
        })
        .collect();
    let reads = r.u64();
    macro_rules! run {
        ($t:expr) => {{
            let mut t = $t;
            let mut out: Vec<Out> = vec![];
            for (i, (f, d)) in items.iter().enumerate() {
                let ok = sut("sum push", || t.push(*f, d).is_ok())?;
                out.push(Out::Opened(ok));
                if reads >> (i % 64) & 1 == 1 {
                    let x = sut("sum root", || t.root())?;
                    match x {
                        Ok((f, h)) => out.push(Out::Sum(f, h)),
                        Err(_) => out.push(Out::Opened(false)),
                    }
                }
            }
            match sut("sum root", || t.root())? {
                Ok((f, h)) => out.push(Out::Sum(f, h)),
                Err(_) => out.push(Out::Opened(false)),
            }
            out
        }};
    }
    let base = run!(sum::MerkleTree::<Tab<H, _>, _>::new(Store::new()));
    let show = |_: usize| String::new();
    let chk = |c: &mut Ctx, what: &str, got: Vec<Out>| -> R {
        c.count("backend runs compared", 1);
        c.eval(n > 1, h64(what.as_bytes()) ^ h64(format!("{:?}", base.last()).as_bytes()));
        compare(c, &base, &got, &format!("sum tree on {what} against the reference backend"), &show)
    };
    chk(c, "the bundled map by value", run!(sum::MerkleTree::<Tab<H, _>, _>::new(StorageMap::<Tab<H, _>>::new())))?;
    let mut s = StorageMap::<Tab<H, _>>::new();
    chk(c, "the bundled map by reference", run!(sum::MerkleTree::<Tab<H, _>, _>::new(&mut s)))?;
    chk(c, "the bundled map already filled by the same history", run!(sum::MerkleTree::<Tab<H, _>, _>::new(&mut s)))?;
    chk(c, "an ordered map returning owned values", run!(sum::MerkleTree::<Tab<H, _>, _>::new(OrdOwned(BTreeMap::new()))))?;
    let mut o = OrdBorrowed(BTreeMap::new());
    chk(c, "an ordered map returning borrowed values", run!(sum::MerkleTree::<Tab<H, _>, _>::new(&mut o)))?;
    {
        let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(&mut o);
        for _ in 0..r.us(20) {
            let d = r.h();
            let _ = sut("sum push", || t.push(1, &d).is_ok())?;
        }
    }
    chk(c, "an ordered map holding other trees", run!(sum::MerkleTree::<Tab<H, _>, _>::new(&mut o)))?;
    Ok(())
}

// ------------------------------------------------------------------------- C28

fn seq_key(tag: u64, s: &[Vec<u8>]) -> u64 {
    let mut x = mix(tag);
    for d in s {
        x = mix(x ^ h64(d)) ^ d.len() as u64;
        x = mix(x);
    }
    mix(x ^ s.len() as u64)
}

/// contents that could collide with `base` if hashing were not injective
fn relatives(r: &mut Rng, base: &[Vec<u8>]) -> Vec<Vec<Vec<u8>>> {
    let mut out: Vec<Vec<Vec<u8>>> = vec![base.to_vec()];
    let n = base.len();
    let mut m = Seq::default();
    for d in base {
        m.push(d);
    }
    // drop, duplicate, swap, extend, truncate
    if n > 0 {
        let i = r.us(n);
        let mut v = base.to_vec();
        v.remove(i);
        out.push(v);
        out.push(base[..n - 1].to_vec());
        let mut v = base.to_vec();
        v.push(base[n - 1].clone());
        out.push(v);
        let mut v = base.to_vec();
        v.extend_from_slice(&base[n.saturating_sub(2)..]);
        out.push(v);
        let mut v = base.to_vec();
        v.extend_from_slice(base);
        out.push(v);
        // one bit, one byte, trailing zero, leading zero, removed byte
        for k in 0..5 {
            let i = r.us(n);
            let mut v = base.to_vec();
            match k {
                0 => {
                    if v[i].is_empty() {
                        v[i].push(0)
                    } else {
                        let j = r.us(v[i].len());
                        v[i][j] ^= 1 << r.us(8)
                    }
                }
                1 => v[i].push(0),
                2 => v[i].insert(0, 0),
                3 => {
                    v[i].pop();
                }
                _ => v[i].insert(0, r.u64() as u8),
            }
            out.push(v);
        }
    }
    let mut v = base.to_vec();
    v.push(vec![]);
    out.push(v);
    let mut v = base.to_vec();
    v.insert(0, vec![]);
    out.push(v);
    if n > 1 {
        let (i, j) = (r.us(n), r.us(n));
        let mut v = base.to_vec();
        v.swap(i, j);
        out.push(v);
        let mut v = base.to_vec();
        v.reverse();
        out.push(v);
        let mut v = base.to_vec();
        v.rotate_left(1);
        out.push(v);
        // byte moved across a leaf boundary, adjacent leaves joined or split
        let i = r.us(n - 1);
        let mut v = base.to_vec();
        if let Some(b) = v[i].pop() {
            v[i + 1].insert(0, b);
            out.push(v);
        }
        let mut v = base.to_vec();
        let t = v.remove(i + 1);
        v[i].extend(t);
        out.push(v);
        // a pair of leaves replaced by one leaf carrying their node encoding
        for pre in [&[][..], &[0], &[1], &[2]] {
            let i = r.us(n / 2) * 2;
            let (a, b) = (leaf_hash(&base[i]), leaf_hash(&base[i + 1]));
            let mut e = pre.to_vec();
            e.extend_from_slice(&a);
            e.extend_from_slice(&b);
            let mut v = base.to_vec();
            v.remove(i + 1);
            v[i] = e.clone();
            out.push(v);
            // with raw contents instead of hashes
            let mut e = pre.to_vec();
            e.extend_from_slice(&base[i]);
            e.extend_from_slice(&base[i + 1]);
            let mut v = base.to_vec();
            v.remove(i + 1);
            v[i] = e;
            out.push(v);
        }
        // the whole tree as one leaf, or its two halves as two
        let k = (n as u64).next_power_of_two() / 2;
        let (l, rr) = (mth(&m, 0, k), mth(&m, k, n as u64 - k));
        for pre in [&[][..], &[0], &[1]] {
            let mut e = pre.to_vec();
            e.extend_from_slice(&l);
            e.extend_from_slice(&rr);
            out.push(vec![e]);
        }
        out.push(vec![l.to_vec(), rr.to_vec()]);
        out.push(vec![m.root().to_vec()]);
        out.push(base.iter().map(|d| leaf_hash(d).to_vec()).collect());
        // all leaves concatenated
        out.push(vec![base.concat()]);
    }
    out
}

fn register(c: &mut Ctx, seen: &mut HashMap<H, u64>, ty: u8, root: H, key: u64, what: &dyn Fn() -> String) -> R {
    tr!(c, "{} -> {}", what(), hx(&root));
    c.evalh(true, &root);
    if let Some(k) = seen.get(&root) {
        ensure!(*k == key, "two different contents share root {}: the second is {}", hx(&root), what());
    } else {
        seen.insert(root, key);
        c.roots.push((ty, root, key));
    }
    Ok(())
}

pub fn c28_binary(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = r.us(18);
    let base = pb::leaves(r, n);
    let mut seen = HashMap::new();
    for v in relatives(r, &base) {
        let (t, _, _) = pb::build(&v)?;
        let root = pb::broot(&t)?;
        let key = seq_key(1, &v);
        register(c, &mut seen, 0, root, key, &|| {
            format!("leaves [{}]", v.iter().map(|d| hx(d)).collect::<Vec<_>>().join(", "))
        })?;
        c.count("binary contents", 1);
    }
    c.sample(|| format!("{n} leaves and {} relatives of them", seen.len()));
    Ok(())
}
pub fn c28_sum(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = r.us(14);
    let base = pb::leaves(r, n);
    let mut seen = HashMap::new();
    let fs: Vec<u64> = pm::fees(r, n).into_iter().map(|f| f >> 5).collect();
    let mut all: Vec<Vec<(u64, Vec<u8>)>> = vec![];
    for v in relatives(r, &base) {
        let f: Vec<u64> = (0..v.len()).map(|i| *fs.get(i).unwrap_or(&(i as u64))).collect();
        all.push(f.into_iter().zip(v).collect());
    }
    let b: Vec<(u64, Vec<u8>)> = fs.iter().cloned().zip(base.iter().cloned()).collect();
    for _ in 0..12 {
        let mut v = b.clone();
        if v.is_empty() {
            break;
        }
        let i = r.us(v.len());
        match r.below(8) {
            // fee moved between leaves, total unchanged
            0 => {
                let j = r.us(v.len());
                let x = v[i].0.min(1 + r.below(50));
                v[i].0 -= x;
                v[j].0 += x;
            }
            1 => v[i].0 ^= 1 << r.us(58),
            2 => v[i].0 = v[i].0.swap_bytes() >> 5,
            // fee bytes shifted into the data
            3 => {
                let f = v[i].0.to_be_bytes();
                v[i].1.splice(0..0, f);
                v[i].0 = 0;
            }
            4 => {
                if v[i].1.len() >= 8 {
                    let x: Vec<u8> = v[i].1.drain(..8).collect();
                    let mut a = [0u8; 8];
                    a.copy_from_slice(&x);
                    v[i].0 = u64::from_be_bytes(a) >> 5;
                } else {
                    v[i].0 += 1
                }
            }
            // a pair replaced by a leaf that spells their node encoding
            5 | 6 if v.len() > 1 => {
                let i = r.us(v.len() / 2) * 2;
                let (l, rr) = (v[i].clone(), v[i + 1].clone());
                let mut e = match r.below(3) {
                    0 => vec![],
                    1 => vec![0u8],
                    _ => vec![1u8],
                };
                let whole = r.chance(1, 2);
                if whole {
                    e.extend_from_slice(&l.0.to_be_bytes());
                }
                e.extend_from_slice(&sum_leaf(l.0, &l.1));
                e.extend_from_slice(&rr.0.to_be_bytes());
                e.extend_from_slice(&sum_leaf(rr.0, &rr.1));
                v.remove(i + 1);
                v[i] = (if whole { l.0 + rr.0 } else { l.0 }, e);
            }
            _ => {
                let j = r.us(v.len());
                let (a, b) = (v[i].0, v[j].0);
                v[i].0 = b;
                v[j].0 = a;
            }
        }
        all.push(v);
    }
    // the same bytes cut into fee and data at every place, in every width and
    // byte order a fee could be spelled with
    for _ in 0..2 {
        let mut v = b.clone();
        if v.is_empty() || r.chance(1, 3) {
            v = vec![(0, r.bytes(2))];
        }
        let i = r.us(v.len());
        let fee = match r.below(5) {
            0 => r.below(300),
            1 => r.u64() >> r.range(5, 60),
            2 => 1 << r.us(59),
            3 => (r.below(4) << 16) + r.below(4),
            _ => ((r.below(3) << 32) + (r.below(3) << 16) + (r.below(3) << 8) + r.below(3)) << (8 * r.below(3)),
        };
        v[i].0 = fee;
        v[i].1.truncate(r.us(12));
        let d = v[i].1.clone();
        all.push(v.clone());
        let (be, le) = (fee.to_be_bytes(), fee.to_le_bytes());
        let lo = ((fee.leading_zeros() / 8) as usize).min(7);
        for w in 0..=8usize {
            for cut in 0..=w {
                // big endian in w bytes (when it fits): the first `cut` bytes become the fee
                if 8 - w <= lo {
                    let e = &be[8 - w..];
                    let mut v2 = v.clone();
                    v2[i].0 = e[..cut].iter().fold(0, |a, x| a << 8 | *x as u64);
                    v2[i].1 = [&e[cut..], &d[..]].concat();
                    all.push(v2);
                    let e = &le[..w];
                    let mut v2 = v.clone();
                    v2[i].0 = e[..cut].iter().rev().fold(0, |a, x| a << 8 | *x as u64);
                    v2[i].1 = [&e[cut..], &d[..]].concat();
                    all.push(v2);
                }
            }
        }
        // decimal digits moved across
        for k in 1..fee.to_string().len() {
            let t = fee.to_string();
            let mut v2 = v.clone();
            v2[i].0 = t[..k].parse().unwrap_or(0);
            v2[i].1 = [t[k..].as_bytes(), &d[..]].concat();
            all.push(v2);
        }
    }
    all.retain(|v| v.iter().map(|x| x.0 as u128).sum::<u128>() <= u64::MAX as u128);
    for v in all {
        let mut s = sum_sut();
        for (f, d) in &v {
            s.push_ok(*f, d)?;
        }
        let (_, h) = s.root_ok()?;
        // the digest alone commits to the fees and the data
        let rk = h;
        let key = {
            let ds: Vec<Vec<u8>> = v.iter().map(|x| x.1.clone()).collect();
            let mut x = seq_key(2, &ds);
            for (f, _) in &v {
                x = mix(x ^ f);
            }
            x
        };
        register(c, &mut seen, 1, rk, key, &|| {
            format!("(fee, data) sequence [{}]", v.iter().map(|d| format!("({}, {})", d.0, hx(&d.1))).collect::<Vec<_>>().join(", "))
        })?;
        c.count("sum contents", 1);
    }
    Ok(())
}
pub fn c28_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let (n, fam) = (r.us(9), r.below(gen::FAMILIES));
    let ks = gen::keys(r, fam, n);
    let base: BTreeMap<H, Vec<u8>> = ks.iter().map(|k| (*k, gen::nonempty(r, &ks))).collect();
    let mut all = vec![base.clone()];
    for _ in 0..10 {
        let mut v = base.clone();
        let keys: Vec<H> = v.keys().cloned().collect();
        match r.below(10) {
            0 if !keys.is_empty() => {
                v.remove(r.pick(&keys));
            }
            1 if !keys.is_empty() => {
                // key moved to a neighbour position
                let k = *r.pick(&keys);
                let d = v.remove(&k).unwrap();
                let mut k2 = k;
                let b = *r.pick(&[0usize, 1, 7, 8, 100, 247, 254, 255]);
                gen::set_bit(&mut k2, b, !bit(&k, b));
                v.insert(k2, d);
            }
            2 if keys.len() > 1 => {
                // two values exchanged
                let (a, b) = (*r.pick(&keys), *r.pick(&keys));
                let (x, y) = (v[&a].clone(), v[&b].clone());
                v.insert(a, y);
                v.insert(b, x);
            }
            3 if !keys.is_empty() => {
                let k = *r.pick(&keys);
                let d = v.get_mut(&k).unwrap();
                d.push(0);
            }
            4 if !keys.is_empty() => {
                let k = *r.pick(&keys);
                let d = v.get_mut(&k).unwrap();
                let j = r.us(d.len());
                d[j] ^= 1 << r.us(8);
            }
            5 => {
                v.insert(ZERO, vec![0]);
            }
            6 => {
                v.insert(gen::ONES, vec![1]);
            }
            7 if !keys.is_empty() => {
                // key and value exchanged as far as possible
                let k = *r.pick(&keys);
                let d = v.remove(&k).unwrap();
                v.insert(vhash(&d), k.to_vec());
            }
            8 if !keys.is_empty() => {
                // a leaf whose data spells another leaf or node
                let k = *r.pick(&keys);
                let d = v[&k].clone();
                let mut e = vec![r.below(2) as u8];
                e.extend_from_slice(&k);
                e.extend_from_slice(&vhash(&d));
                v.insert(k, e);
            }
            _ => {
                v.insert(r.h(), vec![r.u64() as u8]);
            }
        }
        all.push(v);
    }
    let mut seen = HashMap::new();
    for v in all {
        let mut items: Vec<(H, Vec<u8>)> = v.iter().map(|(k, d)| (*k, d.clone())).collect();
        r.shuffle(&mut items);
        let (t, _) = ps::tree_of(&items)?;
        let root = ps::sroot_of(&t)?;
        let mut key = mix(3);
        for (k, d) in &v {
            key = mix(mix(key ^ h64(k)) ^ h64(d)) ^ d.len() as u64;
        }
        register(c, &mut seen, 2, root, key, &|| {
            format!("map {{{}}}", v.iter().map(|d| format!("{}: {}", hx(d.0), hx(d.1))).collect::<Vec<_>>().join(", "))
        })?;
        c.count("sparse contents", 1);
    }
    Ok(())
}

/// Long data that differ in one place only.
pub fn c28_long(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let top = if cfg!(miri) { 9 } else { 22 };
    let base = (1usize << (8 + r.us(top - 7))) + r.us(6);
    let a = match case % 3 {
        0 => vec![0u8; base],
        1 => r.bytes(base),
        _ => {
            let p = r.bytes(64);
            p.iter().cycle().take(base).cloned().collect()
        }
    };
    let mut all = vec![a.clone()];
    let mut at: Vec<usize> = vec![0, base / 2, base - 1, r.us(base), r.us(base)];
    (8..23).map(|k| 1usize << k).for_each(|p| at.extend([p - 1, p]));
    at.retain(|x| *x < base);
    r.shuffle(&mut at);
    at.truncate(8);
    for i in at {
        let mut v = a.clone();
        v[i] ^= 1 << r.us(8);
        all.push(v);
    }
    all.push(a[..base - 1].to_vec());
    all.push(a[1..].to_vec());
    for x in [0u8, 0x80, 1] {
        let mut v = a.clone();
        v.push(x);
        all.push(v);
    }
    let mut v = a.clone();
    v.swap(base / 2, base / 2 - 1);
    all.push(v);
    all.sort();
    all.dedup();
    let k = r.h();
    let mut seen = HashMap::new();
    for v in &all {
        let key = mix(h64(v)) ^ v.len() as u64;
        let text = || format!("{} bytes hashing to {}", v.len(), hx(&vhash(v)));
        let mut t = BT::<BStore>::new(BStore::new());
        sut("binary push", || t.push(v).is_ok())?;
        register(c, &mut seen, 10, sut("binary root", || t.root())?, key, &text)?;
        let (t, _) = ps::tree_of(&[(k, v.clone())])?;
        register(c, &mut seen, 11, ps::sroot_of(&t)?, key, &text)?;
        let mut s = sum_sut();
        s.push_ok(3, v)?;
        register(c, &mut seen, 12, s.root_ok()?.1, key, &text)?;
        c.count("long contents", 1);
    }
    c.sample(|| format!("{} data of about {base} bytes", all.len()));
    c.max("longest data (bytes)", base as u64);
    Ok(())
}

// ------------------------------------------------------------------------- C30

/// Tallest tree shape with n leaves: number of levels above the leaves.
fn levels(n: u64) -> u64 {
    if n <= 1 {
        0
    } else {
        64 - (n - 1).leading_zeros() as u64
    }
}
fn within(c: &mut Ctx, what: &str, calls: u64, bound: u64, size: u64) -> R {
    tr!(c, "{what}: {calls} storage accesses, bound {bound}");
    ensure!(
        calls <= bound,
        "{what} made {calls} storage accesses with {size} entries; the bound for its height is {bound}"
    );
    Ok(())
}

pub fn c30_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = match case % 4 {
        0 => 1 + r.us(200),
        1 => 1000 + r.us(3000),
        _ => 4096 + r.us(5000),
    };
    let st = BStore::new();
    let mut t = pb::bnew(st.clone())?;
    for i in 0..n as u64 {
        let d = i.to_be_bytes();
        let b = 4 * (levels(i + 1) + 2) + 8;
        let a = st.ctl.calls();
        pb::ok("push", pb::bpush(&mut t, &d)?)?;
        let used = st.ctl.calls() - a;
        within(c, "a binary append", used, b, i + 1)?;
        c.max("most accesses of a binary append", used);
        if i % 97 == 0 || i + 1 == n as u64 {
            let a = st.ctl.calls();
            pb::broot(&t)?;
            within(c, "a binary root read", st.ctl.calls() - a, b, i + 1)?;
            for k in [0, i, r.below(i + 1)] {
                let a = st.ctl.calls();
                let _ = pb::bprove(&t, k)?;
                let used = st.ctl.calls() - a;
                within(c, "a binary proof", used, b, i + 1)?;
                c.max("most accesses of a binary proof", used);
            }
            let a = st.ctl.calls();
            let _ = pb::bload(st.clone(), i + 1)?;
            let used = st.ctl.calls() - a;
            within(c, "restoring a binary tree", used, b, i + 1)?;
            c.eval(i > 1, mix(i));
        }
    }
    c.max("largest leaf count built by appends", n as u64);
    c.sample(|| format!("accesses of every append up to {n} leaves"));
    Ok(())
}
pub fn c30_binary_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n0 = gen::big_count(r, pb::HUGE - 200);
    let st = pb::VStore::new(r, n0, &[]);
    let calls = |st: &pb::VStore| st.ctl.calls();
    let a = calls(&st);
    let mut t = pb::ok("load of a complete storage", pb::bload(st.clone(), n0)?)?;
    within(c, "restoring a binary tree", calls(&st) - a, 4 * (levels(n0) + 2) + 8, n0)?;
    let mut n = n0;
    for _ in 0..20 {
        let a = calls(&st);
        pb::ok("push", pb::bpush(&mut t, b"x")?)?;
        n += 1;
        let b = 4 * (levels(n) + 2) + 8;
        within(c, "a binary append", calls(&st) - a, b, n)?;
        let a = calls(&st);
        pb::broot(&t)?;
        within(c, "a binary root read", calls(&st) - a, b, n)?;
        let k = r.below(n);
        let a = calls(&st);
        let _ = pb::bprove(&t, k)?;
        within(c, "a binary proof", calls(&st) - a, b, n)?;
        c.eval(n > 1, mix(n));
    }
    c.max("largest leaf count", n);
    Ok(())
}
pub fn c30_sum(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case % 3 == 0 { 1 + r.us(300) } else { 3000 + r.us(6000) };
    let mut s = sum_sut();
    for i in 0..n as u64 {
        let b = 4 * (levels(i + 1) + 2) + 8;
        let a = s.ctl.calls();
        s.push_ok(i, &i.to_le_bytes())?;
        let used = s.ctl.calls() - a;
        within(c, "a sum append", used, b, i + 1)?;
        c.max("most accesses of a sum append", used);
        if i % 61 == 0 || i + 1 == n as u64 {
            let a = s.ctl.calls();
            s.root_ok()?;
            within(c, "a sum root read", s.ctl.calls() - a, b, i + 1)?;
            c.eval(i > 1, mix(i) ^ 1);
        }
    }
    c.max("largest leaf count built by appends", n as u64);
    Ok(())
}
pub fn c30_sparse(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = match case % 4 {
        0 => 1 + r.us(60),
        1 => 200,
        _ => 1500 + r.us(1500),
    };
    let fam = match case % 4 {
        0 => r.below(gen::FAMILIES),
        1 => *r.pick(&[2u64, 3, 8, 9, 10]),
        _ => *r.pick(&[0u64, 1]),
    };
    let mut ks = gen::keys(r, fam, n);
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    let mut m = Map::new();
    let bound = |d: usize| 8 * (d as u64 + 4) + 16;
    let one = |c: &mut Ctx, op: &Op, m: &mut Map, t: &mut ST<SStore>| -> R {
        let d0 = leaf_depth(m, op.key());
        let a = st.ctl.calls();
        op.run(t)?;
        let used = st.ctl.calls() - a;
        op.model(m);
        let d1 = leaf_depth(m, op.key());
        let d = d0.max(d1);
        within(c, op_name(op), used, bound(d), m.len() as u64)?;
        c.max("most accesses of a sparse operation", used);
        c.max("longest key path", d as u64);
        c.eval(m.len() > 1, mix(d as u64) ^ mix(m.len() as u64) ^ used);
        Ok(())
    };
    for (i, k) in ks.iter().enumerate() {
        one(c, &Op::Up(*k, vec![i as u8, 1]), &mut m, &mut t)?;
        if i % 5 == 0 {
            let k = *r.pick(&ks[..=i]);
            one(c, &Op::Up(k, vec![r.u64() as u8]), &mut m, &mut t)?;
            one(c, &Op::Del(r.h()), &mut m, &mut t)?;
        }
        if i % 400 == 399 {
            let root = ps::sroot_of(&t)?;
            let a = st.ctl.calls();
            let _ = ps::sload(st.clone(), &root)?;
            within(c, "opening a sparse tree", st.ctl.calls() - a, 24, m.len() as u64)?;
        }
    }
    c.max("largest map", m.len() as u64);
    r.shuffle(&mut ks);
    for k in ks.iter().take(n * 2 / 3) {
        one(c, &Op::Del(*k), &mut m, &mut t)?;
        if r.chance(1, 4) {
            one(c, &Op::Del(*k), &mut m, &mut t)?;
        }
    }
    c.sample(|| format!("accesses of every insert and delete, up to {n} keys"));
    Ok(())
}
fn op_name(o: &Op) -> &'static str {
    match o {
        Op::Up(..) => "a sparse update",
        _ => "a sparse delete",
    }
}

// ------------------------------------------------- C23 and C24: mixed workloads

/// `strict`: a panic is a violation (C24).  Otherwise it is one more outcome
/// that goes into the digest (C23) and ends the case.
fn call<T>(c: &mut Ctx, strict: bool, what: &str, f: impl FnOnce() -> T) -> R<Option<T>> {
    c.count("library calls", 1);
    match try_sut(f) {
        Ok(x) => Ok(Some(x)),
        Err(m) if strict => viol!("{what} panicked: {m}"),
        Err(_) => {
            tr!(c, "{what}: panic");
            c.dig(b"panic");
            c.count("panics (compared between builds)", 1);
            Ok(None)
        }
    }
}
macro_rules! go {
    ($c:expr, $s:expr, $w:expr, $f:expr) => {
        match call($c, $s, $w, $f)? {
            Some(x) => x,
            None => return Ok(()),
        }
    };
}

fn dig_store_b(c: &mut Ctx, st: &BStore) {
    let mut v: Vec<_> = st.map.borrow().iter().map(|(k, v)| (*k, *v)).collect();
    v.sort();
    for (k, (p, h)) in v {
        c.dig(&k.to_le_bytes());
        c.dig(&p.to_le_bytes());
        c.dig(&h);
    }
}
fn dig_store_s(c: &mut Ctx, st: &SStore) {
    let mut v: Vec<_> = st.map.borrow().iter().map(|(k, v)| (*k, *v)).collect();
    v.sort();
    for (k, (h, p, a, b)) in v {
        c.dig(&k);
        c.dig(&h.to_le_bytes());
        c.dig(&[p]);
        c.dig(&a);
        c.dig(&b);
    }
}

fn mix_binary(c: &mut Ctx, r: &mut Rng, strict: bool) -> R {
    let st = BStore::new();
    let mut t = go!(c, strict, "binary new", || BT::<BStore>::new(st.clone()));
    let steps = if c.tiny { 14 } else { 60 };
    let mut n = 0u64;
    let mut armed = false;
    for i in 0..steps {
        c.eval(n > 1, r.u64());
        match r.below(16) {
            0..=5 => {
                let d = gen::data(r, &[]);
                let o = go!(c, strict, "binary push", || t.push(&d).map_err(pb::be));
                tr!(c, "#{i} push({} bytes) -> {o:?}", d.len());
                c.dig(format!("push {o:?}").as_bytes());
                if o.is_ok() {
                    n += 1;
                }
            }
            6 => {
                let o = go!(c, strict, "binary root", || t.root());
                tr!(c, "#{i} root -> {}", hx(&o));
                c.dig(&o);
            }
            7 | 8 => {
                let k = if n > 0 && r.chance(2, 3) {
                    r.below(n)
                } else {
                    let b = gen::bad_indices(r, n);
                    *r.pick(&b)
                };
                let o = go!(c, strict, "binary prove", || t.prove(k).map_err(pb::be));
                tr!(c, "#{i} prove({k}) -> {o:?}");
                c.dig(format!("prove {o:?}").as_bytes());
            }
            9 | 10 => {
                let m = match r.below(5) {
                    0..=2 => r.below(n + 1),
                    3 => n + 1 + r.below(8),
                    _ => {
                        let b = gen::bad_indices(r, n);
                        *r.pick(&b)
                    }
                };
                let o = go!(c, strict, "binary load", || BT::<BStore>::load(st.clone(), m).map_err(pb::be));
                tr!(c, "#{i} load({m}) -> {}", match &o { Ok(_) => "tree".to_string(), Err(e) => format!("{e:?}") });
                match o {
                    Ok(x) => {
                        c.dig(b"load ok");
                        t = x;
                        n = m;
                    }
                    Err(e) => c.dig(format!("load {e:?}").as_bytes()),
                }
            }
            11 if !armed => {
                let at = r.below(6);
                let mode = if r.chance(1, 2) { FaultMode::Before } else { FaultMode::After };
                st.ctl.arm(at, mode);
                armed = true;
                tr!(c, "#{i} storage call {at} from here will fail ({mode:?})");
                c.count("storage failures armed", 1);
            }
            12 => {
                st.ctl.disarm();
                armed = false;
            }
            13 if r.chance(1, 4) => {
                let mut ks: Vec<u64> = st.map.borrow().keys().cloned().collect();
                ks.sort();
                if !ks.is_empty() {
                    let k = *r.pick(&ks);
                    st.map.borrow_mut().remove(&k);
                    tr!(c, "#{i} entry {k} removed from the storage");
                    c.count("stored entries removed", 1);
                }
            }
            14 => {
                let o = go!(c, strict, "printing a binary tree", || format!("{t:?} {t:#?}").len());
                ensure!(!strict || o > 0, "a tree prints as nothing");
                c.count("trees printed", 1);
            }
            _ => dig_store_b(c, &st),
        }
    }
    dig_store_b(c, &st);
    Ok(())
}

fn mix_huge(c: &mut Ctx, r: &mut Rng, strict: bool) -> R {
    let n0 = gen::big_count(r, pb::HUGE - 200);
    let st = pb::VStore::new(r, n0, &[]);
    let o = go!(c, strict, "binary load", || BT::<pb::VStore>::load(st.clone(), n0).map_err(pb::be));
    c.dig(&n0.to_le_bytes());
    let mut t = match o {
        Ok(t) => t,
        Err(e) => {
            c.dig(format!("{e:?}").as_bytes());
            return Ok(());
        }
    };
    let mut n = n0;
    for _ in 0..if c.tiny { 3 } else { 12 } {
        c.eval(true, r.u64());
        let k = if n == 0 || r.chance(1, 4) {
            let b = gen::bad_indices(r, n);
            *r.pick(&b)
        } else {
            r.below(n)
        };
        let o = go!(c, strict, "binary prove", || t.prove(k).map_err(pb::be));
        tr!(c, "prove({k}) of {n} -> {o:?}");
        c.dig(format!("{o:?}").as_bytes());
        let d = r.h();
        let o = go!(c, strict, "binary push", || t.push(&d).map_err(pb::be));
        c.dig(format!("{o:?}").as_bytes());
        n += 1;
        let o = go!(c, strict, "binary root", || t.root());
        tr!(c, "root of {n} -> {}", hx(&o));
        c.dig(&o);
    }
    Ok(())
}

fn mix_sparse(c: &mut Ctx, r: &mut Rng, strict: bool) -> R {
    let st = SStore::new();
    let mut t = go!(c, strict, "sparse new", || ST::<SStore>::new(st.clone()));
    let mut g = Gen::new(r, if c.tiny { 5 } else { 24 });
    if c.tiny {
        // shallow paths: hashing is slow under the interpreter
        g.pool.iter_mut().for_each(|k| {
            k.reverse();
            k[0] ^= r.u64() as u8;
        });
        g.vals.iter_mut().for_each(|v| v.truncate(40));
    }
    let mut m = Map::new();
    let mut old = vec![ZERO];
    let steps = if c.tiny { 10 } else { 60 };
    let mut armed = false;
    for i in 0..steps {
        c.eval(m.len() > 1, r.u64());
        match r.below(16) {
            0..=8 => {
                let op = g.op(r, &m);
                let o = go!(c, strict, &op.show(), || match &op {
                    Op::Up(k, d) => t.update(k, d),
                    Op::UpEmpty(k) => t.update(k, &[]),
                    Op::Del(k) => t.delete(k),
                }
                .map_err(ps::se));
                op.model(&mut m);
                tr!(c, "#{i} {} -> {o:?}", op.show());
                c.dig(format!("{o:?}").as_bytes());
            }
            9 | 10 => {
                let x = go!(c, strict, "sparse root", || t.root());
                tr!(c, "#{i} root -> {}", hx(&x));
                c.dig(&x);
                old.push(x);
            }
            11 | 12 => {
                let x = match r.below(4) {
                    0 => *r.pick(&old),
                    1 => r.h(),
                    _ => go!(c, strict, "sparse root", || t.root()),
                };
                let o = go!(c, strict, "sparse load", || ST::<SStore>::load(st.clone(), &x).map_err(ps::se));
                match o {
                    Ok(n) => {
                        tr!(c, "#{i} load({}) -> tree", hx(&x));
                        c.dig(b"load ok");
                        t = n;
                    }
                    Err(e) => {
                        tr!(c, "#{i} load({}) -> {e:?}", hx(&x));
                        c.dig(format!("load {e:?}").as_bytes());
                    }
                }
            }
            13 => {
                if armed {
                    st.ctl.disarm();
                    armed = false;
                } else {
                    let at = r.below(12);
                    let mode = if r.chance(1, 2) { FaultMode::Before } else { FaultMode::After };
                    st.ctl.arm(at, mode);
                    armed = true;
                    tr!(c, "#{i} storage call {at} from here will fail ({mode:?})");
                    c.count("storage failures armed", 1);
                }
            }
            14 if r.chance(1, 4) => {
                let mut ks: Vec<H> = st.map.borrow().keys().cloned().collect();
                ks.sort();
                if !ks.is_empty() {
                    let k = *r.pick(&ks);
                    if r.chance(1, 2) {
                        st.map.borrow_mut().remove(&k);
                        tr!(c, "#{i} entry {} removed from the storage", hx(&k));
                    } else {
                        let kind = 2 + (r.u64() as u8 % 250);
                        st.map.borrow_mut().get_mut(&k).unwrap().1 = kind;
                        tr!(c, "#{i} entry {} given kind {kind}", hx(&k));
                    }
                    c.count("stored entries damaged", 1);
                }
            }
            15 => {
                let o = go!(c, strict, "printing a sparse tree", || format!("{t:?} {t:#?}").len());
                ensure!(!strict || o > 0, "a tree prints as nothing");
                c.count("trees printed", 1);
            }
            _ => dig_store_s(c, &st),
        }
    }
    dig_store_s(c, &st);
    Ok(())
}

fn mix_sum(c: &mut Ctx, r: &mut Rng, strict: bool) -> R {
    let n = if c.tiny { 9 } else { 1 + r.us(40) };
    let mut fees = pm::fees(r, n);
    if !strict && r.chance(1, 5) {
        // totals beyond 64 bits must end alike in every build, too
        fees.iter_mut().for_each(|f| *f = r.u64() >> r.below(6));
        c.count("fee sequences beyond 64 bits", 1);
    }
    let mut s = sum_sut();
    for (i, f) in fees.iter().enumerate() {
        c.eval(i > 1, r.u64());
        let l = r.us(60);
        let d = r.bytes(l);
        if r.chance(1, 12) {
            s.ctl.arm(r.below(4), if r.chance(1, 2) { FaultMode::Before } else { FaultMode::After });
            c.count("storage failures armed", 1);
        }
        c.count("library calls", 1);
        match (s.push)(*f, &d) {
            Ok(o) => {
                tr!(c, "#{i} push({f}) -> {o:?}");
                c.dig(format!("{o:?}").as_bytes())
            }
            Err(m) if strict => viol!("sum push(fee {f}) panicked: {m}"),
            Err(_) => {
                c.dig(b"panic");
                return Ok(());
            }
        }
        if r.chance(1, 2) {
            c.count("library calls", 1);
            match (s.root)() {
                Ok(o) => {
                    tr!(c, "#{i} root -> {o:?}");
                    c.dig(format!("{o:?}").as_bytes())
                }
                Err(m) if strict => viol!("sum root panicked: {m}"),
                Err(_) => {
                    c.dig(b"panic");
                    return Ok(());
                }
            }
            s.ctl.disarm();
        }
    }
    match (s.show)() {
        Ok(v) => {
            ensure!(!strict || v.iter().all(|x| !x.1.is_empty()), "a stored sum node prints as nothing");
            c.count("stored nodes printed", v.len() as u64);
        }
        Err(m) if strict => viol!("printing a stored sum node panicked: {m}"),
        Err(_) => c.dig(b"panic"),
    }
    let mut v: Vec<_> = (s.dump)().into_iter().collect();
    v.sort_by_key(|x| x.0);
    for (k, n) in v {
        c.dig(&k);
        c.dig(format!("{n:?}").as_bytes());
    }
    Ok(())
}

fn mix_misc(c: &mut Ctx, r: &mut Rng, strict: bool) -> R {
    // positions and paths
    for _ in 0..if c.tiny { 12 } else { 120 } {
        let s = r.below(64);
        let p = (r.u64() >> s).min(u64::MAX - 1);
        c.eval(p > 0, mix(p));
        let o = go!(c, strict, "Position methods", || {
            let x = Position::from_in_order_index(p);
            let mut v = vec![x.in_order_index(), x.height() as u64, x.is_leaf() as u64, x.is_node() as u64];
            if x.is_leaf() {
                v.push(x.leaf_index());
                v.push(u64::from_be_bytes(Node::leaf_key(&x)));
            } else {
                v.push(x.left_child().in_order_index());
                v.push(x.right_child().in_order_index());
                v.push(ParentNode::left_child(&x).unwrap().in_order_index());
                v.push(ParentNode::right_child(&x).unwrap().in_order_index());
            }
            v
        });
        c.dig(format!("{p} {o:?}").as_bytes());
        let (h, idx) = from_in_order(p);
        // neighbours only where they are positions
        if h < 62 && (idx as u128 + 4) << (h + 2) < 1u128 << 64 {
            let o = go!(c, strict, "Position neighbours", || {
                let x = Position::from_in_order_index(p);
                [x.sibling().in_order_index(), x.parent().in_order_index(), x.uncle().in_order_index()]
            });
            tr!(c, "position {p}: neighbours {o:?}");
            c.dig(format!("{o:?}").as_bytes());
        }
    }
    for _ in 0..if c.tiny { 3 } else { 20 } {
        let n = gen::big_count(r, 1 << 62).max(1);
        let i = r.below(n);
        let o = go!(c, strict, "path", || {
            Position::from_in_order_index(range_root(0, n))
                .path(&Position::from_leaf_index(i), n)
                .iter()
                .take(400)
                .map(|(a, b)| (a.in_order_index(), b.in_order_index()))
                .collect::<Vec<_>>()
        });
        tr!(c, "path to {i} of {n}: {} steps", o.len());
        c.dig(format!("{n} {i} {o:?}").as_bytes());
        let h = r.below(50) as u32;
        let idx = r.below(1 << 10);
        let leaf = (idx << h) + (r.u64() & ((1 << h) - 1));
        let o = go!(c, strict, "descent", || {
            let root = Position::from_in_order_index(in_order(h, idx));
            let leaf = Position::from_leaf_index(leaf);
            root.as_path_iter(&leaf)
                .take(400)
                .map(|(a, b)| (a.ok().map(|x| x.in_order_index()), b.ok().map(|x| x.in_order_index())))
                .collect::<Vec<_>>()
        });
        c.dig(format!("{o:?}").as_bytes());
    }
    // facades
    let mut bm = go!(c, strict, "in-memory new", binary::in_memory::MerkleTree::new);
    let mut sm = go!(c, strict, "in-memory new", sparse::in_memory::MerkleTree::new);
    for i in 0..if c.tiny { 3 } else { 40u64 } {
        let d = gen::data(r, &[]);
        go!(c, strict, "in-memory push", || bm.push(&d));
        let k = r.below(i + 3);
        let o = go!(c, strict, "in-memory prove", || (bm.root(), bm.prove(k)));
        c.dig(format!("{o:?}").as_bytes());
        let key = if r.chance(1, 2) { r.h() } else { let mut z = ZERO; z[if c.tiny { 0 } else { 31 }] = r.below(8) as u8; z };
        go!(c, strict, "in-memory update", || sm.update(&key, &d));
        if r.chance(1, 3) {
            go!(c, strict, "in-memory delete", || sm.delete(&key));
        }
        let o = go!(c, strict, "in-memory root", || sm.root());
        c.dig(&o);
    }
    // bundled map
    let mut s = StorageMap::<BTab>::new();
    for _ in 0..if c.tiny { 12 } else { 80 } {
        let k = r.below(6);
        let v = (r.u64(), r.h());
        let o = go!(c, strict, "storage map", || match v.0 % 4 {
            0 => format!("{:?}", StorageMutate::<BTab>::insert(&mut s, &k, &v)),
            1 => format!("{:?}", StorageMutate::<BTab>::remove(&mut s, &k)),
            2 => format!("{:?}", StorageInspect::<BTab>::get(&s, &k)),
            _ => format!("{:?}", StorageInspect::<BTab>::contains_key(&s, &k)),
        });
        c.dig(o.as_bytes());
    }
    Ok(())
}

fn mixed(c: &mut Ctx, r: &mut Rng, case: u64, strict: bool) -> R {
    c.case_digest = mix(case);
    let x = match case % 5 {
        0 => mix_binary(c, r, strict),
        1 => mix_sparse(c, r, strict),
        2 => mix_sum(c, r, strict),
        3 => mix_misc(c, r, strict),
        _ if c.tiny => mix_binary(c, r, strict), // the huge reference model is too slow to interpret
        _ => mix_huge(c, r, strict),
    };
    x?;
    c.sample(|| format!("case {case}: mixed {} workload", ["binary", "sparse", "sum", "position, path, facade and map", "huge binary"][case as usize % 5]));
    Ok(())
}
pub fn c23_mixed(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    mixed(c, r, case, false)
}
pub fn c24_mixed(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    mixed(c, r, case, true)
}

// Trees used from several threads: moved, and read concurrently through a
// shared reference (only where the type still allows it).

struct W<T>(T);
trait Reader {
    fn all(&self, n: u64) -> u64;
}
impl<T, S> Reader for BT<S>
where
    BTab: Mappable<Key = u64>,
    S: StorageInspect<BTab, Error = T>,
    T: Debug,
{
    fn all(&self, n: u64) -> u64 {
        let mut x = h64(&self.root());
        for i in 0..n + 1 {
            x = mix(x ^ h64(format!("{:?}", self.prove(i).map_err(bo)).as_bytes()));
        }
        x
    }
}
struct SR<S>(ST<S>);
impl<S: StorageMutate<STab, Error = T>, T: Debug + Clone + 'static> Reader for SR<S> {
    fn all(&self, n: u64) -> u64 {
        (0..n).fold(0, |x, _| mix(x ^ h64(&self.0.root())))
    }
}
trait Shared {
    fn concurrent(&self, n: u64, expect: u64) -> Option<bool>;
}
impl<T: Reader + Sync> Shared for &W<T> {
    fn concurrent(&self, n: u64, expect: u64) -> Option<bool> {
        let t = &self.0;
        let mut ok = true;
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..3).map(|_| s.spawn(move || t.all(n) == expect)).collect();
            for h in hs {
                ok &= h.join().unwrap_or(false);
            }
        });
        Some(ok)
    }
}
#[allow(dead_code)]
trait NotShared {
    fn concurrent(&self, n: u64, expect: u64) -> Option<bool>;
}
impl<T: Reader> NotShared for W<T> {
    fn concurrent(&self, _: u64, _: u64) -> Option<bool> {
        None
    }
}

pub fn c24_threads(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let tiny = c.tiny;
    let n = if tiny { 1 + r.us(4) } else { 1 + r.us(40) };
    let ls = if tiny { (0..n).map(|_| r.bytes(9)).collect() } else { pb::leaves(r, n) };
    if case % 2 == 0 {
        let mut t = sut("new", || BT::<StorageMap<BTab>>::new(StorageMap::new()))?;
        for d in &ls {
            let _ = sut("push", || t.push(d).is_ok())?;
        }
        let e = sut("reads", || t.all(n as u64))?;
        let w = W(t);
        match (&&w).concurrent(n as u64, e) {
            Some(ok) => {
                ensure!(ok, "concurrent reads of a shared binary tree gave different results or panicked");
                c.count("shared trees read by 3 threads", 1);
            }
            None => c.count("tree types that cannot be shared", 1),
        }
        c.eval(n > 1, e);
    } else {
        let mut t = sut("new", || ST::<StorageMap<STab>>::new(StorageMap::new()))?;
        for d in &ls {
            let k = r.h();
            let _ = sut("update", || t.update(&k, d).is_ok())?;
        }
        let t = SR(t);
        let e = sut("reads", || t.all(20))?;
        let w = W(t);
        match (&&w).concurrent(20, e) {
            Some(ok) => {
                ensure!(ok, "concurrent reads of a shared sparse tree gave different results or panicked");
                c.count("shared trees read by 3 threads", 1);
            }
            None => c.count("tree types that cannot be shared", 1),
        }
        c.eval(n > 1, e);
    }
    // independent trees on several threads at once
    let seeds: Vec<u64> = (0..if tiny { 2 } else { 3 }).map(|_| r.u64()).collect();
    let work = |seed: u64| {
        let mut r = Rng::new(seed);
        let mut b = binary::in_memory::MerkleTree::new();
        let mut s = sparse::in_memory::MerkleTree::new();
        for _ in 0..if tiny { 2 } else { 5 } {
            let d = r.bytes(20);
            b.push(&d);
            s.update(&r.h(), &d);
        }
        h64(&b.root()) ^ h64(&s.root())
    };
    let want: Vec<u64> = seeds.iter().map(|s| sut("in-memory work", || work(*s))).collect::<R<_>>()?;
    let got: Vec<Option<u64>> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().map(|s| { let s = *s; sc.spawn(move || work(s)) }).collect();
        hs.into_iter().map(|h| h.join().ok()).collect()
    });
    for (w, g) in want.iter().zip(got) {
        ensure!(Some(*w) == g, "a tree built on one of several busy threads has another root");
    }
    c.count("trees built on concurrent threads", 3);
    Ok(())
}


// Everything at once, by several threads, before anything of the library has
// been used: run in a fresh interpreted process, this finds unsynchronised
// state that is set up on first use.

const COLD: usize = 15;
fn key(first: u8, last: u8) -> H {
    let mut k = ZERO;
    k[0] = first;
    k[31] = last;
    k
}
fn cold_item(i: usize) -> String {
    type BM = BT<StorageMap<BTab>>;
    type SM = ST<StorageMap<STab>>;
    match i {
        0 => {
            let mut t = BM::new(StorageMap::new());
            format!("{:?} {:?} {:?} {:?}", t.root(), t.push(b"").is_ok(), t.root(), t.prove(0).ok())
        }
        1 => {
            let mut t = BM::new(StorageMap::new());
            let a = t.push(b"one").is_ok() && t.push(b"two").is_ok() && t.push(b"").is_ok();
            format!("{a} {:?} {:?} {:?}", t.root(), t.prove(1).ok(), t.prove(2).ok())
        }
        2 => {
            let mut s = StorageMap::<BTab>::new();
            let mut t = BT::<&mut StorageMap<BTab>>::new(&mut s);
            for d in [&b"a"[..], b"b", b"c"] {
                let _ = t.push(d);
            }
            drop(t);
            match BM::load(s, 3) {
                Ok(mut t) => format!("{:?} {:?} {:?}", t.push(b"d").is_ok(), t.root(), t.prove(3).ok()),
                Err(e) => format!("{e:?}"),
            }
        }
        3 => {
            let t = BM::new(StorageMap::new());
            let e = t.prove(9).map(|_| ());
            let f = BM::load(StorageMap::new(), 3).map(|_| ());
            let g = BM::load(StorageMap::new(), u64::MAX).map(|_| ());
            format!("{e:?} {f:?} {g:?} {:?} {:?}", e.clone(), f.clone())
        }
        4 => {
            let t = SM::new(StorageMap::new());
            let a = SM::load(StorageMap::new(), &ZERO).map(|t| t.root()).ok();
            let b = SM::load(StorageMap::new(), &key(3, 3)).map(|t| t.root());
            format!("{:?} {a:?} {b:?} {t:?}", t.root())
        }
        5 => {
            let mut t = SM::new(StorageMap::new());
            let a = t.update(&key(0, 1), b"x").is_ok();
            format!("{a} {:?} {:?} {:?}", t.root(), t.delete(&key(0, 1)).is_ok(), t.root())
        }
        6 => {
            let mut t = SM::new(StorageMap::new());
            let mut v = vec![];
            let _ = t.update(&key(0x80, 0), b"x");
            v.push(t.root());
            let _ = t.update(&key(0, 0), b"y");
            v.push(t.root());
            let _ = t.delete(&key(0x80, 0));
            v.push(t.root());
            format!("{v:?}")
        }
        7 => {
            let mut t = SM::new(StorageMap::new());
            let a = t.update(&key(1, 1), b"").is_ok();
            let b = t.delete(&key(2, 2)).is_ok();
            let c = t.update(&key(0xff, 0xff), &[0; 65]).is_ok();
            format!("{a} {b} {c} {:?} {t:?}", t.root())
        }
        8 => {
            let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Store::new());
            let a: Result<(u64, H), Fault> = t.root();
            let b = t.push(3, b"").is_ok() && t.push(0, b"zz").is_ok() && t.push(1 << 40, b"").is_ok();
            format!("{a:?} {b} {:?}", t.root())
        }
        9 => {
            let p = Position::from_leaf_index(5);
            let q = Position::from_in_order_index(7);
            format!(
                "{:?} {:?} {} {} {:?} {:?} {} {}",
                p.sibling(), p.uncle(), p.parent().in_order_index(), p.height(), q.left_child(), q.right_child(), q.is_node(),
                q.as_path_iter(&p).count()
            )
        }
        10 => {
            let q = Position::from_in_order_index(7);
            let p: Vec<_> = q.path(&Position::from_leaf_index(4), 6).iter().map(|(a, b)| (a.in_order_index(), b.in_order_index())).collect();
            format!("{p:?} {:?}", q.as_path_iter(&Position::from_leaf_index(2)).map(|(a, b)| (a.ok(), b.ok())).collect::<Vec<_>>())
        }
        11 => {
            let mut s = StorageMap::<BTab>::new();
            let v = (5, key(7, 7));
            let a = StorageMutate::<BTab>::insert(&mut s, &4, &v);
            let b = StorageMutate::<BTab>::insert(&mut s, &4, &v);
            let c = StorageInspect::<BTab>::get(&s, &4).map(|x| x.map(|y| y.into_owned()));
            format!("{a:?} {b:?} {c:?} {:?} {s:?}", StorageInspect::<BTab>::contains_key(&s, &5))
        }
        12 => {
            let mut t = binary::in_memory::MerkleTree::new();
            let a = t.root();
            t.push(b"");
            t.push(b"q");
            format!("{a:?} {:?} {:?} {:?}", t.root(), t.prove(0), t.prove(7))
        }
        13 => {
            let mut t = sparse::in_memory::MerkleTree::new();
            let a = t.root();
            t.update(&key(9, 9), b"v");
            t.delete(&key(1, 9));
            format!("{a:?} {:?}", t.root())
        }
        _ => {
            let st = BStore::new();
            st.ctl.arm(0, FaultMode::Before);
            let mut t = BT::<BStore>::new(st.clone());
            let a = t.push(b"k").map_err(pb::be);
            let ss = SStore::new();
            ss.ctl.arm(0, FaultMode::Before);
            let mut u = ST::<SStore>::new(ss.clone());
            let b = u.update(&key(4, 4), b"k").map_err(ps::se);
            format!("{a:?} {b:?} {:?} {:?}", t.root(), u.root())
        }
    }
}
pub fn c24_cold(c: &mut Ctx, _r: &mut Rng, case: u64) -> R {
    let threads = if c.tiny { 2 } else { 4 };
    let stride = [7usize, 1, 4, 11, 2, 13, 8, 14][case as usize % 8];
    let run = |th: usize| -> Vec<Result<String, String>> {
        let mut v = vec![Ok(String::new()); COLD];
        for j in 0..COLD {
            let i = (j * stride + th * 5 + case as usize) % COLD;
            v[i] = try_sut(|| cold_item(i));
        }
        v
    };
    let run = &run;
    let got: Vec<Vec<Result<String, String>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (1..threads).map(|t| s.spawn(move || run(t))).collect();
        let mut v = vec![run(0)];
        v.extend(hs.into_iter().map(|h| h.join().unwrap_or_default()));
        v
    });
    let alone = if c.tiny { got[0].clone() } else { run(0) };
    for (t, g) in got.iter().enumerate() {
        for i in 0..COLD {
            c.count("library scripts run by threads at once", 1);
            ensure!(g.get(i) == Some(&alone[i]), "script {i} on thread {t} gave {:?}, alone it gives {:?}", g.get(i), alone[i]);
            match &alone[i] {
                Ok(s) => c.eval(true, h64(s.as_bytes())),
                Err(m) => viol!("script {i} panicked: {m}"),
            }
        }
    }
    Ok(())
}
