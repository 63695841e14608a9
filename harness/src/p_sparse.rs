//! C08..C15: sparse Merkle tree.

use crate::core::*;
use crate::gen;
use crate::model::*;
use fuel_merkle::sparse::{MerkleTree, MerkleTreeError};
use fuel_merkle::storage::StorageMutate;
use std::collections::HashMap;

pub type STab = Tab<H, SPrim>;
pub type SStore = Store<H, SPrim>;
pub type ST<S> = MerkleTree<STab, S>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SE {
    Load,
    Storage(u64),
    Deser,
    Child,
    Other(String),
}
pub fn se(e: MerkleTreeError<Fault>) -> SE {
    #[allow(unreachable_patterns)]
    match e {
        MerkleTreeError::LoadError(_) => SE::Load,
        MerkleTreeError::StorageError(f) => SE::Storage(f.0),
        MerkleTreeError::DeserializeError(_) => SE::Deser,
        e @ MerkleTreeError::ChildError(_) => {
            // storage failures met while descending arrive wrapped
            let s = format!("{e:?}");
            match s.find("Fault(") {
                Some(p) => {
                    let d: String = s[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    SE::Storage(d.parse().unwrap_or(0))
                }
                None => SE::Child,
            }
        }
        e => SE::Other(format!("{e:?}")),
    }
}

pub fn snew<S: StorageMutate<STab, Error = Fault>>(s: S) -> R<ST<S>> {
    sut("sparse new", || ST::<S>::new(s))
}
pub fn sroot_of<S: StorageMutate<STab, Error = Fault>>(t: &ST<S>) -> R<H> {
    sut("sparse root", || t.root())
}
pub fn sload<S: StorageMutate<STab, Error = Fault>>(s: S, root: &H) -> R<Result<ST<S>, SE>> {
    Ok(sut(&format!("sparse load({})", hx(root)), || ST::<S>::load(s, root))?.map_err(se))
}
pub fn supdate<S: StorageMutate<STab, Error = Fault>>(t: &mut ST<S>, k: &H, d: &[u8]) -> R<Result<(), SE>> {
    Ok(sut(&format!("sparse update({})", hx(k)), || t.update(k, d))?.map_err(se))
}
pub fn sdelete<S: StorageMutate<STab, Error = Fault>>(t: &mut ST<S>, k: &H) -> R<Result<(), SE>> {
    Ok(sut(&format!("sparse delete({})", hx(k)), || t.delete(k))?.map_err(se))
}
pub fn sok<T>(what: &str, r: Result<T, SE>) -> R<T> {
    r.map_err(|e| Violation {
        msg: format!("{what} failed on intact storage: {e:?}"),
    })
}

#[derive(Clone, Debug)]
pub enum Op {
    Up(H, Vec<u8>),
    /// update with empty data
    UpEmpty(H),
    Del(H),
}
impl Op {
    pub fn key(&self) -> &H {
        match self {
            Op::Up(k, _) | Op::UpEmpty(k) | Op::Del(k) => k,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Op::Up(k, d) => format!("update({}, {} bytes {})", hx(k), d.len(), hx(&d[..d.len().min(24)])),
            Op::UpEmpty(k) => format!("update({}, empty)", hx(k)),
            Op::Del(k) => format!("delete({})", hx(k)),
        }
    }
    pub fn model(&self, m: &mut Map) {
        match self {
            Op::Up(k, d) => {
                m.insert(*k, vhash(d));
            }
            Op::UpEmpty(k) | Op::Del(k) => {
                m.remove(k);
            }
        }
    }
    pub fn apply<S: StorageMutate<STab, Error = Fault>>(&self, t: &mut ST<S>) -> R<Result<(), SE>> {
        match self {
            Op::Up(k, d) => supdate(t, k, d),
            Op::UpEmpty(k) => supdate(t, k, &[]),
            Op::Del(k) => sdelete(t, k),
        }
    }
    pub fn run<S: StorageMutate<STab, Error = Fault>>(&self, t: &mut ST<S>) -> R {
        let r = self.apply(t)?;
        sok(&self.show(), r)
    }
}

pub struct Gen {
    pub pool: Vec<H>,
    pub del_pct: u64,
    pub vals: Vec<Vec<u8>>,
}
impl Gen {
    pub fn new(r: &mut Rng, max_pool: usize) -> Gen {
        let n = 1 + r.us(max_pool);
        let fam = r.below(gen::FAMILIES + 3);
        let pool = if fam >= gen::FAMILIES {
            // two families mixed
            let a = n.div_ceil(2);
            let (f1, f2) = (r.below(gen::FAMILIES), r.below(gen::FAMILIES));
            let mut p = gen::keys(r, f1, a);
            for k in gen::keys(r, f2, n - a) {
                if !p.contains(&k) {
                    p.push(k);
                }
            }
            p
        } else {
            gen::keys(r, fam, n)
        };
        let hs = pool.clone();
        let vals = (0..6).map(|_| gen::nonempty(r, &hs)).collect();
        Gen {
            pool,
            del_pct: *r.pick(&[10u64, 30, 45, 60]),
            vals,
        }
    }
    pub fn op(&self, r: &mut Rng, m: &Map) -> Op {
        if r.below(100) < self.del_pct {
            let k = if r.chance(3, 4) && !m.is_empty() {
                // a present key
                *m.keys().nth(r.us(m.len())).unwrap()
            } else {
                *r.pick(&self.pool)
            };
            if r.chance(1, 4) {
                Op::UpEmpty(k)
            } else {
                Op::Del(k)
            }
        } else {
            let k = *r.pick(&self.pool);
            let d = if r.chance(1, 2) {
                r.pick(&self.vals).clone()
            } else {
                gen::nonempty(r, &self.pool)
            };
            Op::Up(k, d)
        }
    }
}

/// Builds a tree with exactly this content by fresh inserts in key order given.
pub fn tree_of(items: &[(H, Vec<u8>)]) -> R<(ST<SStore>, SStore)> {
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    for (k, d) in items {
        let r = supdate(&mut t, k, d)?;
        sok("insert", r)?;
    }
    Ok((t, st))
}

/// Walks the stored tree from `root`; checks structure, returns the leaves.
pub fn walk(map: &HashMap<H, SPrim>, root: &H, what: &str) -> R<(Map, u64)> {
    let mut leaves = Map::new();
    let mut nodes = 0u64;
    let mut stack: Vec<(H, usize, H)> = vec![]; // hash, depth, path bits so far
    if *root != ZERO {
        stack.push((*root, 0, ZERO));
    }
    while let Some((h, depth, path)) = stack.pop() {
        let (ht, kind, lo, hi) = match map.get(&h) {
            Some(p) => *p,
            None => viol!("{what}: node {} at depth {depth} is not stored", hx(&h)),
        };
        nodes += 1;
        ensure!(nodes < 3_000_000, "{what}: stored tree does not end");
        match kind {
            0 => {
                ensure!(sleaf(&lo, &hi) == h, "{what}: leaf stored under {} has content of another hash", hx(&h));
                ensure!(ht == 0, "{what}: leaf {} stored with height {ht}", hx(&h));
                ensure!(
                    common_bits(&lo, &path) >= depth,
                    "{what}: leaf for key {} found off its path at depth {depth}",
                    hx(&lo)
                );
                leaves.insert(lo, hi);
            }
            1 => {
                ensure!(snode(&lo, &hi) == h, "{what}: node stored under {} has content of another hash", hx(&h));
                ensure!(depth < 256, "{what}: inner node below depth 255");
                ensure!(
                    ht == 256 - depth as u32,
                    "{what}: inner node at depth {depth} stored with height {ht} instead of {}",
                    256 - depth
                );
                let mut p1 = path;
                gen::set_bit(&mut p1, depth, true);
                if hi != ZERO {
                    stack.push((hi, depth + 1, p1));
                }
                if lo != ZERO {
                    stack.push((lo, depth + 1, path));
                }
            }
            k => viol!("{what}: node {} stored with kind {k}", hx(&h)),
        }
    }
    Ok((leaves, nodes))
}

// ------------------------------------------------------------------------- C08

fn c08_history(c: &mut Ctx, r: &mut Rng, g: &Gen, ops: usize) -> R {
    let mut t = snew(SStore::new())?;
    let mut m = Map::new();
    ensure!(sroot_of(&t)? == ZERO, "root of an empty sparse tree is not zero");
    for i in 0..ops {
        let op = g.op(r, &m);
        tr!(c, "#{i} {}", op.show());
        let res = op.apply(&mut t)?;
        ensure!(res.is_ok(), "operation #{i} {} failed: {res:?}", op.show());
        op.model(&mut m);
        let (got, want) = (sroot_of(&t)?, sroot(&m));
        ensure!(
            got == want,
            "after operation #{i} {} ({} keys): root {} want {}",
            op.show(),
            m.len(),
            hx(&got),
            hx(&want)
        );
        c.evalh(m.len() > 1, &got);
        c.max("largest map", m.len() as u64);
        if m.len() > 1 {
            c.max("deepest leaf", leaf_depth(&m, op.key()) as u64);
        }
    }
    Ok(())
}
pub fn c08_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 40);
    c.sample(|| format!("random history over {} keys, e.g. {}", g.pool.len(), hx(&g.pool[0])));
    c08_history(c, r, &g, 60)
}
/// Every history of the given length over 3 keys x {insert, delete}.
pub fn c08_exhaustive(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let fam = r.below(gen::FAMILIES);
    let keys = gen::keys(r, fam, 3);
    let vals = [gen::nonempty(r, &keys), gen::nonempty(r, &keys)];
    let mut t = snew(SStore::new())?;
    let mut m = Map::new();
    let mut x = case;
    for i in 0..6 {
        let o = (x % 6) as usize;
        x /= 6;
        let k = keys[o % 3];
        let op = if o < 3 { Op::Up(k, vals[i % 2].clone()) } else { Op::Del(k) };
        tr!(c, "#{i} {}", op.show());
        let res = op.apply(&mut t)?;
        ensure!(res.is_ok(), "operation #{i} {} failed: {res:?}", op.show());
        op.model(&mut m);
        let (got, want) = (sroot_of(&t)?, sroot(&m));
        ensure!(got == want, "after operation #{i} {}: root {} want {}", op.show(), hx(&got), hx(&want));
        c.evalh(m.len() > 1, &got);
    }
    Ok(())
}
pub fn c08_staircase(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // keys sharing every possible prefix length with one base key
    let n = if c.thorough { 256 } else { 24 + r.us(40) };
    let keys = gen::keys(r, 3, n);
    let mut t = snew(SStore::new())?;
    let mut m = Map::new();
    let mut order = keys.clone();
    r.shuffle(&mut order);
    for (i, k) in order.iter().enumerate() {
        let op = Op::Up(*k, vec![i as u8 + 1]);
        tr!(c, "#{i} {}", op.show());
        op.run(&mut t)?;
        op.model(&mut m);
        ensure!(sroot_of(&t)? == sroot(&m), "staircase insert #{i} {}: wrong root", op.show());
        c.evalh(m.len() > 1, &sroot(&m));
        c.max("deepest leaf", leaf_depth(&m, k) as u64);
    }
    r.shuffle(&mut order);
    for (i, k) in order.iter().enumerate() {
        let op = Op::Del(*k);
        tr!(c, "#{i} {}", op.show());
        op.run(&mut t)?;
        op.model(&mut m);
        ensure!(sroot_of(&t)? == sroot(&m), "staircase delete #{i} {}: wrong root", op.show());
        c.evalh(m.len() > 1, &sroot(&m));
    }
    ensure!(sroot_of(&t)? == ZERO, "emptied tree has a non-zero root");
    Ok(())
}
/// The same final map reached along different histories.
pub fn c08_permute(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 24);
    let mut fin: Vec<(H, Vec<u8>)> = vec![];
    for k in &g.pool {
        if r.chance(2, 3) {
            fin.push((*k, gen::nonempty(r, &g.pool)));
        }
    }
    let mut first: Option<H> = None;
    for v in 0..4 {
        let mut t = snew(SStore::new())?;
        let mut order = fin.clone();
        r.shuffle(&mut order);
        let mut log = vec![];
        // detours: values overwritten, extra keys inserted and removed
        for (k, d) in &order {
            if v > 0 && r.chance(1, 3) {
                let x = *r.pick(&g.pool);
                if !fin.iter().any(|(k, _)| *k == x) {
                    log.push(Op::Up(x, gen::nonempty(r, &g.pool)));
                }
            }
            if v > 1 && r.chance(1, 3) {
                log.push(Op::Up(*k, gen::nonempty(r, &g.pool)));
                if r.chance(1, 2) {
                    log.push(Op::Del(*k));
                }
            }
            log.push(Op::Up(*k, d.clone()));
        }
        for k in &g.pool {
            if !fin.iter().any(|(f, _)| f == k) && r.chance(5, 6) {
                log.push(Op::Del(*k));
            } else if !fin.iter().any(|(f, _)| f == k) {
                log.push(Op::UpEmpty(*k));
            }
        }
        for op in &log {
            tr!(c, "v{v} {}", op.show());
            op.run(&mut t)?;
        }
        let got = sroot_of(&t)?;
        match first {
            None => first = Some(got),
            Some(f) => ensure!(
                f == got,
                "two histories ending in the same {} pairs give roots {} and {}",
                fin.len(),
                hx(&f),
                hx(&got)
            ),
        }
        let m: Map = fin.iter().map(|(k, d)| (*k, vhash(d))).collect();
        ensure!(got == sroot(&m), "root {} differs from the canonical root {}", hx(&got), hx(&sroot(&m)));
        c.eval(fin.len() > 1, map_key(&m) ^ v);
    }
    Ok(())
}
pub fn c08_large(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case < 2 || c.thorough { 20_000 } else { 1_200 };
    let fam = *r.pick(&[0u64, 1, 10, 12]);
    let pool = if fam == 10 { (0..n).map(|i| {
        let mut k = r.h();
        k[0] = (i % 4) as u8;
        k
    }).collect() } else if fam == 12 {
        (0..n).map(|i| { let mut k = vhash(&(i as u32 / 2).to_be_bytes()); k[31] ^= (i % 2) as u8; k }).collect()
    } else { (0..n).map(|_| r.h()).collect::<Vec<H>>() };
    let mut t = snew(SStore::new())?;
    let mut m = Map::new();
    for (i, k) in pool.iter().enumerate() {
        let op = if i > 10 && r.chance(1, 4) {
            Op::Del(pool[r.us(i)])
        } else if i % 389 == 17 && !cfg!(miri) {
            // a value of megabytes
            let l = (1 << (19 + r.us(4))) + r.us(4);
            let mut d = vec![i as u8; l];
            d[l - 1] = r.u64() as u8;
            c.max("longest value (bytes)", l as u64);
            Op::Up(*k, d)
        } else {
            Op::Up(*k, (i as u32).to_le_bytes().to_vec())
        };
        op.run(&mut t)?;
        op.model(&mut m);
        if i % (97.max(n / 12)) == 0 || i + 1 == pool.len() {
            let (got, want) = (sroot_of(&t)?, sroot(&m));
            ensure!(got == want, "large history, operation #{i}, {} keys: root {} want {}", m.len(), hx(&got), hx(&want));
            c.evalh(m.len() > 1, &got);
        }
    }
    c.max("largest map", m.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------------- C09

pub fn c09_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 20);
    let (mut t, _st) = tree_of(&[])?;
    let mut items: Vec<(H, Vec<u8>)> = vec![];
    let mut deleted: Vec<H> = vec![];
    for i in 0..40 {
        match r.below(10) {
            0..=4 => {
                // insert or overwrite
                let k = *r.pick(&g.pool);
                let d = gen::nonempty(r, &g.pool);
                Op::Up(k, d.clone()).run(&mut t)?;
                tr!(c, "#{i} update {}", hx(&k));
                items.retain(|(x, _)| *x != k);
                items.push((k, d));
            }
            5 | 6 => {
                // a fresh key in and out again
                let mut k = if items.is_empty() || r.chance(1, 3) { r.h() } else { items[r.us(items.len())].0 };
                let b = r.us(256);
                let v = bit(&k, b);
                gen::set_bit(&mut k, b, !v);
                if items.iter().any(|(x, _)| *x == k) {
                    continue;
                }
                let before = sroot_of(&t)?;
                Op::Up(k, gen::nonempty(r, &g.pool)).run(&mut t)?;
                let op = if r.chance(1, 2) { Op::Del(k) } else { Op::UpEmpty(k) };
                op.run(&mut t)?;
                tr!(c, "#{i} insert and delete {}", hx(&k));
                ensure!(
                    sroot_of(&t)? == before,
                    "inserting and deleting {} (beside {} keys) changed the root",
                    hx(&k),
                    items.len()
                );
                deleted.push(k);
                c.eval(true, h64(&before) ^ h64(&k));
                c.count("insert-delete round trips", 1);
            }
            _ => {
                // delete something: present, absent or deleted before
                let k = match r.below(4) {
                    0 if !deleted.is_empty() => *r.pick(&deleted),
                    1 => {
                        let mut k = *r.pick(&g.pool);
                        let b = r.us(256);
                        let v = bit(&k, b);
                        gen::set_bit(&mut k, b, !v);
                        k
                    }
                    _ if !items.is_empty() => items[r.us(items.len())].0,
                    _ => r.h(),
                };
                let present = items.iter().any(|(x, _)| *x == k);
                let before = sroot_of(&t)?;
                let op = if r.chance(1, 3) { Op::UpEmpty(k) } else { Op::Del(k) };
                tr!(c, "#{i} {} (present: {present})", op.show());
                op.run(&mut t)?;
                let after = sroot_of(&t)?;
                if present {
                    items.retain(|(x, _)| *x != k);
                    deleted.push(k);
                    c.count("deletes of present keys", 1);
                } else {
                    ensure!(
                        before == after,
                        "{} of an absent key changed the root from {} to {} ({} keys; deleted before: {})",
                        op.show(),
                        hx(&before),
                        hx(&after),
                        items.len(),
                        deleted.contains(&k)
                    );
                    c.count("deletes of absent keys", 1);
                    if deleted.contains(&k) {
                        c.count("deletes of formerly present keys", 1);
                    }
                }
                let (tw, _) = tree_of(&items)?;
                ensure!(
                    after == sroot_of(&tw)?,
                    "{} left root {}, a tree of the remaining {} keys has {}",
                    op.show(),
                    hx(&after),
                    items.len(),
                    hx(&sroot_of(&tw)?)
                );
                for _ in 0..2 {
                    let again = if r.chance(1, 2) { Op::Del(k) } else { Op::UpEmpty(k) };
                    again.run(&mut t)?;
                    ensure!(sroot_of(&t)? == after, "repeating {} changed the root", op.show());
                }
                c.eval(true, h64(&after) ^ h64(&k));
            }
        }
    }
    Ok(())
}
/// Build, then delete everything in another order, comparing with trees never
/// holding the deleted keys.
pub fn c09_drain(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 26);
    let mut items: Vec<(H, Vec<u8>)> = g.pool.iter().map(|k| (*k, gen::nonempty(r, &g.pool))).collect();
    let (mut t, _st) = tree_of(&items)?;
    r.shuffle(&mut items);
    let n = items.len();
    c.sample(|| format!("drain of {n} keys, first {}", hx(&g.pool[0])));
    let mut gone: Vec<H> = vec![];
    while let Some((k, _)) = items.pop() {
        tr!(c, "delete {} leaving {}", hx(&k), items.len());
        Op::Del(k).run(&mut t)?;
        gone.push(k);
        let after = sroot_of(&t)?;
        let mut it = items.clone();
        r.shuffle(&mut it);
        let (tw, _) = tree_of(&it)?;
        ensure!(
            after == sroot_of(&tw)?,
            "after deleting {} of {n} keys the root is {}, a tree of the other {} has {}",
            gone.len(),
            hx(&after),
            items.len(),
            hx(&sroot_of(&tw)?)
        );
        let x = *r.pick(&gone);
        Op::Del(x).run(&mut t)?;
        ensure!(sroot_of(&t)? == after, "deleting the already deleted key {} changed the root", hx(&x));
        c.eval(true, h64(&after) ^ items.len() as u64);
        c.count("deletes of present keys", 1);
        c.count("deletes of formerly present keys", 1);
    }
    ensure!(sroot_of(&t)? == ZERO, "deleting every key does not give the empty root");
    Ok(())
}

// ------------------------------------------------------------------------- C10

pub fn c10_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 24);
    let st = SStore::new();
    let mut live = snew(SStore::new())?; // never closed
    let mut m = Map::new();
    let mut root = ZERO;
    for i in 0..36 {
        let op = g.op(r, &m);
        // reopened for every operation
        let mut t = match sload(st.clone(), &root)? {
            Ok(t) => t,
            Err(e) => viol!("reopening with root {} ({} keys) failed: {e:?}", hx(&root), m.len()),
        };
        ensure!(
            sroot_of(&t)? == root,
            "reopened with root {} but reports {}",
            hx(&root),
            hx(&sroot_of(&t)?)
        );
        tr!(c, "#{i} reopen, {}", op.show());
        let (a, b) = (op.apply(&mut t)?, op.apply(&mut live)?);
        ensure!(a == b, "{} on a reopened tree: {a:?}, on the living one: {b:?}", op.show());
        op.model(&mut m);
        root = sroot_of(&t)?;
        ensure!(
            root == sroot_of(&live)?,
            "after {} the reopened tree has root {}, the living one {}",
            op.show(),
            hx(&root),
            hx(&sroot_of(&live)?)
        );
        if m.is_empty() {
            c.count("reopened empty", 1);
        }
        c.eval(true, h64(&root) ^ i);
    }
    // final: drain through a reopened tree
    let mut t = sok("load", sload(st.clone(), &root)?)?;
    for k in m.keys() {
        Op::Del(*k).run(&mut t)?;
        Op::Del(*k).run(&mut live)?;
        ensure!(sroot_of(&t)? == sroot_of(&live)?, "reopened tree diverges while being emptied");
    }
    c.sample(|| format!("36 operations over {} keys with a reopen before each", g.pool.len()));
    Ok(())
}
/// A copy is reopened after every operation and given a longer continuation.
pub fn c10_branches(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 16);
    let st = SStore::new();
    let mut live = snew(st.clone())?;
    let mut m = Map::new();
    let mut hist: Vec<Op> = vec![];
    for i in 0..14 {
        let root = sroot_of(&live)?;
        let mut t = match sload(st.fork(), &root)? {
            Ok(t) => t,
            Err(e) => viol!("reopening with root {} ({} keys, after {i} operations) failed: {e:?}", hx(&root), m.len()),
        };
        // rebuild an uninterrupted twin by replaying the history
        let mut twin = snew(SStore::new())?;
        for op in &hist {
            op.run(&mut twin)?;
        }
        let mut m2 = m.clone();
        for _ in 0..8 {
            let op = g.op(r, &m2);
            let (a, b) = (op.apply(&mut t)?, op.apply(&mut twin)?);
            ensure!(a == b, "{} after a reopen: {a:?} / {b:?}", op.show());
            op.model(&mut m2);
            ensure!(
                sroot_of(&t)? == sroot_of(&twin)?,
                "{} on a tree reopened after {i} operations gives another root than without the restart",
                op.show()
            );
            c.eval(true, h64(&sroot_of(&t)?) ^ mix(i));
        }
        let op = g.op(r, &m);
        op.run(&mut live)?;
        op.model(&mut m);
        hist.push(op);
    }
    Ok(())
}
pub fn c10_empty(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // the empty root, on an empty storage and after everything was deleted
    let g = Gen::new(r, 6);
    let st = SStore::new();
    if r.chance(1, 2) {
        let mut t = snew(st.clone())?;
        for k in &g.pool {
            Op::Up(*k, gen::nonempty(r, &[])).run(&mut t)?;
        }
        for k in &g.pool {
            Op::Del(*k).run(&mut t)?;
        }
        ensure!(sroot_of(&t)? == ZERO, "emptied tree has a non-zero root");
    }
    let mut t = match sload(st.clone(), &ZERO)? {
        Ok(t) => t,
        Err(e) => viol!("reopening an empty tree by its (zero) root failed: {e:?}"),
    };
    ensure!(sroot_of(&t)? == ZERO, "reopened empty tree has a non-zero root");
    let mut twin = snew(SStore::new())?;
    let mut m = Map::new();
    for _ in 0..12 {
        let op = g.op(r, &m);
        op.run(&mut t)?;
        op.run(&mut twin)?;
        op.model(&mut m);
        ensure!(sroot_of(&t)? == sroot_of(&twin)?, "{} on a reopened empty tree: other root", op.show());
        c.eval(true, h64(&sroot_of(&t)?));
    }
    c.count("reopened empty", 1);
    Ok(())
}

// ------------------------------------------------------------------- C11, C12

pub fn c11_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 24);
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    let mut m = Map::new();
    for i in 0..40 {
        let op = g.op(r, &m);
        tr!(c, "#{i} {}", op.show());
        op.run(&mut t)?;
        op.model(&mut m);
        let root = sroot_of(&t)?;
        let (leaves, nodes) = walk(&st.map.borrow(), &root, &format!("after operation #{i} {}", op.show()))?;
        ensure!(
            leaves == m,
            "after operation #{i} {}: the stored tree holds {} leaves, not exactly the {} expected pairs",
            op.show(),
            leaves.len(),
            m.len()
        );
        c.count("stored nodes walked", nodes);
        c.evalh(m.len() > 1, &root);
    }
    c.sample(|| format!("40 operations over {} keys, {} pairs at the end", g.pool.len(), m.len()));
    Ok(())
}
pub fn c11_large(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case < 1 || c.thorough { 6000 } else { 500 };
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    let mut m = Map::new();
    let fam = r.below(gen::FAMILIES);
    let pool = if [4, 5, 6, 7, 9, 11].contains(&fam) { gen::keys(r, 0, n) } else { gen::keys(r, fam, n.min(300)) };
    for (i, k) in pool.iter().enumerate() {
        let op = if i > 5 && r.chance(1, 3) { Op::Del(pool[r.us(i)]) } else { Op::Up(*k, vec![1, i as u8]) };
        op.run(&mut t)?;
        op.model(&mut m);
        if i % 61 == 0 || i + 1 == pool.len() {
            let (leaves, nodes) = walk(&st.map.borrow(), &sroot_of(&t)?, "large history")?;
            ensure!(leaves == m, "large history, operation #{i}: stored leaves differ from the expected pairs");
            c.count("stored nodes walked", nodes);
            c.evalh(m.len() > 1, &sroot_of(&t)?);
        }
    }
    Ok(())
}

/// Hashes on the stored path of `key`, from the root down.
pub fn stored_path(map: &HashMap<H, SPrim>, root: &H, key: &H) -> Option<Vec<H>> {
    let mut out = vec![];
    let mut cur = *root;
    let mut depth = 0;
    while cur != ZERO {
        let (_, kind, lo, hi) = *map.get(&cur)?;
        out.push(cur);
        if kind == 0 {
            if lo != *key {
                return None;
            }
            return Some(out);
        }
        if depth > 255 {
            return None;
        }
        cur = if bit(key, depth) { hi } else { lo };
        depth += 1;
    }
    None
}
pub fn c12_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let mut g = Gen::new(r, 24);
    g.del_pct = g.del_pct.max(30);
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    let mut m = Map::new();
    for i in 0..50 {
        let op = g.op(r, &m);
        let present = m.contains_key(op.key());
        let root = sroot_of(&t)?;
        let path = if present && !matches!(op, Op::Up(..)) {
            stored_path(&st.map.borrow(), &root, op.key())
        } else {
            None
        };
        if r.chance(1, 10) {
            t = sok("load", sload(st.clone(), &root)?)?;
        }
        tr!(c, "#{i} {}", op.show());
        op.run(&mut t)?;
        if let Some(path) = path {
            let map = st.map.borrow();
            for (d, h) in path.iter().enumerate() {
                ensure!(
                    !map.contains_key(h),
                    "{}: node {} at depth {d} of {} on the deleted key's path is still stored",
                    op.show(),
                    hx(h),
                    path.len() - 1
                );
            }
            for (h, (_, kind, lo, _)) in map.iter() {
                // no copy of the deleted leaf with its last value either
                ensure!(
                    !(*kind == 0 && lo == op.key() && *h == *path.last().unwrap()),
                    "{}: leaf still stored",
                    op.show()
                );
            }
            c.count("deletes of present keys", 1);
            c.count("path nodes checked gone", path.len() as u64);
            c.max("longest pruned path", path.len() as u64);
            c.eval(path.len() > 1, h64(&root) ^ h64(op.key()));
        }
        op.model(&mut m);
    }
    c.sample(|| format!("50 operations over {} keys, {} % deletes", g.pool.len(), g.del_pct));
    Ok(())
}
pub fn c12_drain(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // insert-only then drained: nothing at all may remain but superseded nodes
    let g = Gen::new(r, 30);
    let items: Vec<(H, Vec<u8>)> = g.pool.iter().map(|k| (*k, gen::nonempty(r, &[]))).collect();
    let (mut t, st) = tree_of(&items)?;
    let mut order: Vec<H> = g.pool.clone();
    r.shuffle(&mut order);
    for k in order {
        let root = sroot_of(&t)?;
        let path = stored_path(&st.map.borrow(), &root, &k);
        Op::Del(k).run(&mut t)?;
        if let Some(path) = path {
            for h in &path {
                ensure!(
                    !st.map.borrow().contains_key(h),
                    "delete of {} leaves node {} of its path stored",
                    hx(&k),
                    hx(h)
                );
            }
            c.count("deletes of present keys", 1);
            c.count("path nodes checked gone", path.len() as u64);
            c.eval(path.len() > 1, h64(&root) ^ h64(&k));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C13

const MODES: [FaultMode; 2] = [FaultMode::Before, FaultMode::After];

pub fn c13_state(what: &str, t: &ST<SStore>, st: &SStore, before: (&H, &Map), after: (&H, &Map)) -> R<bool> {
    let root = sroot_of(t)?;
    let (is_after, want) = if root == *after.0 {
        (true, after.1)
    } else if root == *before.0 {
        (false, before.1)
    } else {
        viol!("{what}: root {} is neither the old {} nor the new {}", hx(&root), hx(before.0), hx(after.0))
    };
    let (leaves, _) = walk(&st.map.borrow(), &root, what)?;
    ensure!(leaves == *want, "{what}: the stored tree does not hold the expected pairs");
    Ok(is_after)
}

pub fn c13_enum(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 12);
    let n = r.us(g.pool.len() + 1);
    let st0 = SStore::new();
    let mut m = Map::new();
    let hist: Vec<Op> = {
        let mut t = snew(st0.clone())?;
        let mut hist = vec![];
        for k in g.pool.iter().take(n) {
            let op = Op::Up(*k, gen::nonempty(r, &g.pool));
            op.run(&mut t)?;
            op.model(&mut m);
            hist.push(op);
        }
        for _ in 0..r.us(4) {
            let op = g.op(r, &m);
            op.run(&mut t)?;
            op.model(&mut m);
            hist.push(op);
        }
        hist
    };
    let before = sroot(&m);
    // the operations to break: one of each kind
    let mut ops = vec![];
    let fresh = g.pool.iter().find(|k| !m.contains_key(*k)).copied().unwrap_or_else(|| r.h());
    ops.push(Op::Up(fresh, gen::nonempty(r, &g.pool)));
    if let Some(k) = m.keys().nth(r.us(m.len().max(1))).copied() {
        ops.push(Op::Up(k, gen::nonempty(r, &g.pool)));
        ops.push(Op::Del(k));
        let k2 = *m.keys().nth(r.us(m.len())).unwrap();
        ops.push(if r.chance(1, 2) { Op::UpEmpty(k2) } else { Op::Del(k2) });
    }
    ops.push(Op::Del(fresh));
    for op in ops {
        let mut m2 = m.clone();
        op.model(&mut m2);
        let after = sroot(&m2);
        // subject built by its own history (restored: from storage)
        let make = |restored: bool| -> R<(ST<SStore>, SStore)> {
            if restored && before != ZERO {
                let st = st0.fork();
                let t = sok("load", sload(st.clone(), &before)?)?;
                return Ok((t, st));
            }
            let st = SStore::new();
            let mut t = snew(st.clone())?;
            for o in &hist {
                o.run(&mut t)?;
            }
            Ok((t, st))
        };
        let calls = {
            let (mut t, st) = make(false)?;
            let b = st.ctl.calls();
            op.run(&mut t)?;
            st.ctl.calls() - b
        };
        // very deep paths: a sample of the calls
        let mut ats: Vec<u64> = (0..calls).collect();
        if calls > 60 && !c.thorough {
            r.shuffle(&mut ats);
            ats.truncate(30);
            ats.push(0);
            ats.push(calls - 1);
            ats.push(calls / 2);
            ats.sort();
            ats.dedup();
        }
        for &at in &ats {
            for mode in MODES {
                let restored = r.chance(1, 2);
                let (mut t, st) = make(restored)?;
                let id = st.ctl.arm(at, mode);
                let res = op.apply(&mut t)?;
                let fired = st.ctl.disarm();
                let what = format!(
                    "{} on {} keys with storage call {at} of {calls} failing ({mode:?})",
                    op.show(),
                    m.len()
                );
                tr!(c, "{what}: {res:?}");
                if fired.is_none() {
                    ensure!(res.is_ok(), "{what}: {res:?} though storage did not fail");
                    continue;
                }
                ensure!(res == Err(SE::Storage(id)), "{what}: result {res:?} instead of the storage error");
                let is_after = c13_state(&what, &t, &st, (&before, &m), (&after, &m2))?;
                c.count("storage failures injected", 1);
                c.count(if is_after { "left in the new state" } else { "left in the old state" }, 1);
                c.eval(true, h64(&before) ^ mix(at) ^ h64(op.key()) ^ (mode == FaultMode::After) as u64);
                // reopening works in that state
                let rt = sroot_of(&t)?;
                let t2 = match sload(st.fork(), &rt)? {
                    Ok(t) => t,
                    Err(e) => viol!("{what}: the tree cannot be reopened: {e:?}"),
                };
                ensure!(sroot_of(&t2)? == rt, "{what}: reopened with another root");
                // sometimes something else happens first
                let (mut mm, detour) = (if is_after { m2.clone() } else { m.clone() }, r.chance(1, 3));
                if detour {
                    let o = g.op(r, &mm);
                    let res = o.apply(&mut t)?;
                    ensure!(res.is_ok(), "{what}, then {}: {res:?}", o.show());
                    o.model(&mut mm);
                    ensure!(sroot_of(&t)? == sroot(&mm), "{what}, then {}: wrong root", o.show());
                }
                // the retry
                let res = op.apply(&mut t)?;
                ensure!(res.is_ok(), "{what}, retried: {res:?}");
                op.model(&mut mm);
                let rt = sroot_of(&t)?;
                ensure!(
                    rt == sroot(&mm) && (detour || rt == after),
                    "{what}, retried: root {} want {}",
                    hx(&rt),
                    hx(&sroot(&mm))
                );
                let (leaves, _) = walk(&st.map.borrow(), &rt, &format!("{what}, retried"))?;
                ensure!(leaves == mm, "{what}, retried: stored pairs differ");
            }
        }
        // repeated failures of the same operation on one tree, at every call in turn
        let (mut t, st) = make(false)?;
        let mut cur_after = false;
        for &at in ats.iter().chain(ats.iter().rev()) {
            let mode = *r.pick(&MODES);
            let id = st.ctl.arm(at, mode);
            let res = op.apply(&mut t)?;
            let fired = st.ctl.disarm();
            let what = format!("{} failing repeatedly, now at call {at} ({mode:?})", op.show());
            match fired {
                Some(_) => {
                    ensure!(res == Err(SE::Storage(id)), "{what}: result {res:?} instead of the storage error");
                    let a = c13_state(&what, &t, &st, (&before, &m), (&after, &m2))?;
                    ensure!(!cur_after || a, "{what}: went back from the new state to the old one");
                    cur_after = a;
                    c.count("storage failures injected", 1);
                    c.eval(true, h64(&before) ^ mix(at) ^ h64(op.key()) ^ 99);
                }
                None => {
                    ensure!(res.is_ok(), "{what}: {res:?} though storage did not fail");
                    cur_after = true;
                }
            }
        }
        let res = op.apply(&mut t)?;
        ensure!(res.is_ok(), "{} after repeated failures: {res:?}", op.show());
        ensure!(sroot_of(&t)? == after, "{} after repeated failures: wrong root", op.show());
        let (leaves, _) = walk(&st.map.borrow(), &after, "after repeated failures")?;
        ensure!(leaves == m2, "{} after repeated failures: stored pairs differ", op.show());
    }
    // failing restores
    if before != ZERO {
        let st = st0.fork();
        let b = st.ctl.calls();
        sok("load", sload(st.clone(), &before)?)?;
        let calls = st.ctl.calls() - b;
        for at in 0..calls {
            let id = st.ctl.arm(at, FaultMode::Before);
            let res = sload(st.clone(), &before)?.map(|_| ());
            if st.ctl.disarm().is_some() {
                ensure!(res == Err(SE::Storage(id)), "load with storage call {at} failing: {res:?}");
                c.count("storage failures injected", 1);
            }
            let t = sok("load", sload(st.clone(), &before)?)?;
            ensure!(sroot_of(&t)? == before, "load after a failed load: other root");
        }
    }
    Ok(())
}
pub fn c13_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 20);
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    let mut m = Map::new();
    let mut fails = 0u64;
    for i in 0..60 {
        let op = g.op(r, &m);
        let mut m2 = m.clone();
        op.model(&mut m2);
        let (before, after) = (sroot(&m), sroot(&m2));
        let mut tries = 0;
        loop {
            tries += 1;
            let armed = tries < 6 && r.chance(2, 3);
            let id = if armed { st.ctl.arm(r.below(14), *r.pick(&MODES)) } else { 0 };
            let res = op.apply(&mut t)?;
            let fired = st.ctl.disarm();
            match (&res, fired) {
                (Ok(()), None) => break,
                (Err(SE::Storage(x)), Some(_)) if *x == id => {
                    fails += 1;
                    let what = format!("flaky storage, operation #{i} {}", op.show());
                    let is_after = c13_state(&what, &t, &st, (&before, &m), (&after, &m2))?;
                    if r.chance(1, 5) && sroot_of(&t)? != ZERO {
                        let rt = sroot_of(&t)?;
                        t = sok("reopen after a failed operation", sload(st.clone(), &rt)?)?;
                    }
                    // give up on the operation sometimes
                    if r.chance(1, 6) {
                        if !is_after {
                            m2 = m.clone();
                        }
                        break;
                    }
                }
                _ => viol!("flaky storage, operation #{i} {}: result {res:?}, injected: {fired:?}", op.show()),
            }
        }
        m = m2;
        ensure!(
            sroot_of(&t)? == sroot(&m),
            "flaky storage, operation #{i} {}: root {} want {}",
            op.show(),
            hx(&sroot_of(&t)?),
            hx(&sroot(&m))
        );
    }
    c.count("storage failures injected", fails);
    c.eval(fails > 0, map_key(&m));
    c.sample(|| format!("60 operations over {} keys on flaky storage, {fails} injected failures", g.pool.len()));
    Ok(())
}

// ------------------------------------------------------------------------- C14

pub fn damage(st: &SStore, k: &H, r: &mut Rng) -> &'static str {
    let mut map = st.map.borrow_mut();
    if r.chance(1, 2) {
        map.remove(k);
        "missing"
    } else {
        let e = map.get_mut(k).unwrap();
        e.1 = match r.below(4) {
            0 => 2,
            1 => 255,
            _ => 2 + r.below(254) as u8,
        };
        "invalid kind byte"
    }
}
pub fn c14_run(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 14);
    let st0 = SStore::new();
    let mut m = Map::new();
    {
        let mut t = snew(st0.clone())?;
        for k in g.pool.iter() {
            if r.chance(4, 5) {
                let op = Op::Up(*k, gen::nonempty(r, &g.pool));
                op.run(&mut t)?;
                op.model(&mut m);
            }
        }
        for _ in 0..r.us(5) {
            let op = g.op(r, &m);
            op.run(&mut t)?;
            op.model(&mut m);
        }
    }
    if m.is_empty() {
        return Ok(());
    }
    let (root, nodes) = snodes(&m);
    let mut all: Vec<H> = nodes.keys().copied().collect();
    all.sort();
    let subsets: usize = 10;
    for s in 0..subsets {
        let st = st0.fork();
        // opened before the damage happens, so that the root node is known
        let mut t = sok("load", sload(st.clone(), &root)?)?;
        let mut hit: Vec<H> = vec![];
        let k = match s % 5 {
            0 | 1 => 1,
            2 => 2,
            3 => 1 + r.us(all.len()),
            _ => all.len(),
        };
        let mut pick = all.clone();
        r.shuffle(&mut pick);
        if s % 5 == 1 && m.len() > 1 {
            // a node on or beside the path of some key, near the bottom
            let key = *m.keys().nth(r.us(m.len())).unwrap();
            let p = spath(&m, &key);
            let h = p[p.len() - 1 - r.us(2.min(p.len()))];
            let sib = nodes.get(&h).map(|n| if r.chance(1, 2) { n.2 } else { n.3 }).unwrap_or(h);
            let h = if nodes.contains_key(&sib) { sib } else { h };
            pick.retain(|x| *x != h);
            pick.insert(0, h);
        }
        let mut how = "";
        for h in pick.iter().take(k) {
            how = damage(&st, h, r);
            hit.push(*h);
        }
        c.count("nodes damaged", hit.len() as u64);
        let desc = format!("{} of {} nodes damaged ({how})", hit.len(), all.len());
        // opening
        match sload(st.clone(), &root)? {
            Ok(t) => {
                ensure!(!hit.contains(&root), "{desc}: opening with a damaged root node succeeded");
                ensure!(sroot_of(&t)? == root, "{desc}: opened with another root");
            }
            Err(SE::Load) | Err(SE::Deser) | Err(SE::Child) => {
                ensure!(hit.contains(&root), "{desc}: opening failed though the root node is intact");
                c.count("opens refused", 1);
            }
            Err(e) => viol!("{desc}: opening reported {e:?}"),
        }
        // a run of operations
        let mut cur = m.clone();
        for _ in 0..8 {
            let op = g.op(r, &cur);
            let before = sroot_of(&t)?;
            let res = op.apply(&mut t)?;
            let now = sroot_of(&t)?;
            match res {
                Ok(()) => {
                    op.model(&mut cur);
                    ensure!(
                        now == sroot(&cur),
                        "{desc}: {} reported success with root {} instead of {}",
                        op.show(),
                        hx(&now),
                        hx(&sroot(&cur))
                    );
                    c.count("operations with the correct result", 1);
                }
                Err(e) => {
                    ensure!(
                        matches!(e, SE::Child | SE::Load | SE::Deser),
                        "{desc}: {} reported {e:?}",
                        op.show()
                    );
                    ensure!(now == before, "{desc}: {} failed and changed the root", op.show());
                    c.count("operations refused", 1);
                }
            }
            tr!(c, "{desc}: {} -> root {}", op.show(), hx(&now));
            c.eval(true, h64(&before) ^ h64(op.key()) ^ s as u64);
        }
        if s == 0 {
            c.sample(|| format!("{} pairs, {desc}, then 8 operations", m.len()));
        }
    }
    // opening by hashes that are not stored at all
    for _ in 0..3 {
        let h = r.h();
        ensure!(sload(st0.clone(), &h)?.is_err(), "opening with an unknown root succeeded");
    }
    Ok(())
}
/// Every single node of a small tree damaged, every key's operations tried.
pub fn c14_single(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = 1 + (case % 6) as usize;
    let fam = r.below(gen::FAMILIES);
    let pool = gen::keys(r, fam, n + 1);
    let items: Vec<(H, Vec<u8>)> = pool[..n].iter().map(|k| (*k, gen::nonempty(r, &pool))).collect();
    let (_t, st0) = tree_of(&items)?;
    let m: Map = items.iter().map(|(k, d)| (*k, vhash(d))).collect();
    let (root, nodes) = snodes(&m);
    let mut all: Vec<H> = nodes.keys().copied().collect();
    all.sort();
    if all.len() > 40 {
        r.shuffle(&mut all);
        all.truncate(40);
    }
    let mut ops: Vec<Op> = vec![];
    for k in &pool {
        ops.push(Op::Del(*k));
        ops.push(Op::Up(*k, gen::nonempty(r, &pool)));
    }
    for h in &all {
        for op in &ops {
            let st = st0.fork();
            let mut t = sok("load", sload(st.clone(), &root)?)?;
            let how = damage(&st, h, r);
            c.count("nodes damaged", 1);
            let res = op.apply(&mut t)?;
            let now = sroot_of(&t)?;
            let mut m2 = m.clone();
            op.model(&mut m2);
            let what = format!("{n} keys, node {} {how}, {}", hx(h), op.show());
            match res {
                Ok(()) => {
                    ensure!(
                        now == sroot(&m2),
                        "{what}: reported success with root {} instead of {}",
                        hx(&now),
                        hx(&sroot(&m2))
                    );
                    c.count("operations with the correct result", 1);
                }
                Err(e) => {
                    ensure!(matches!(e, SE::Child | SE::Load | SE::Deser), "{what}: reported {e:?}");
                    ensure!(now == root, "{what}: failed and changed the root");
                    c.count("operations refused", 1);
                    // the storage repaired, the operation goes through
                    st.map.borrow_mut().insert(*h, nodes[h]);
                    let res = op.apply(&mut t)?;
                    ensure!(res.is_ok(), "{what}: still fails after the repair: {res:?}");
                    ensure!(sroot_of(&t)? == sroot(&m2), "{what}: wrong root after the repair");
                }
            }
            c.eval(true, h64(h) ^ h64(op.key()) ^ matches!(op, Op::Del(_)) as u64);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C15

pub fn c15_adaptive(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let st = SStore::new();
    let mut t = snew(st.clone())?;
    let mut m = Map::new();
    let mut roots: Vec<H> = vec![];
    let mut used: Vec<H> = vec![];
    let mut vals: Vec<Vec<u8>> = vec![];
    let start = 1 + r.us(8);
    let fam = r.below(gen::FAMILIES);
    let base = gen::keys(r, fam, start);
    let mut adaptive = 0;
    for i in 0..36 {
        let pick_stored = |r: &mut Rng| -> Option<H> {
            let map = st.map.borrow();
            if map.is_empty() {
                return None;
            }
            let mut ks: Vec<H> = map.keys().copied().collect();
            ks.sort();
            Some(*r.pick(&ks))
        };
        let mut k = if i < start {
            base[i]
        } else {
            match r.below(12) {
                0 if r.chance(1, 3) => gen::mined_key(r),
                0 => ZERO,
                1 => gen::ONES,
                2 => sroot(&m),
                3 if !roots.is_empty() => *r.pick(&roots),
                4 | 5 | 6 => pick_stored(r).unwrap_or(ZERO),
                7 if !m.is_empty() => {
                    let v: Vec<H> = m.values().copied().collect();
                    *r.pick(&v)
                }
                8 if !used.is_empty() => vhash(r.pick(&used)),
                9 if !m.is_empty() => {
                    // hash of a node that the next operations will create
                    let mut m2 = m.clone();
                    let kk = *r.pick(&base);
                    m2.insert(kk, vhash(b"soon"));
                    let (_, nodes) = snodes(&m2);
                    let mut ks: Vec<H> = nodes.keys().copied().collect();
                    ks.sort();
                    let k = *r.pick(&ks);
                    Op::Up(k, vec![7]).run(&mut t)?;
                    m.insert(k, vhash(&[7]));
                    Op::Up(kk, b"soon".to_vec()).run(&mut t)?;
                    m.insert(kk, vhash(b"soon"));
                    tr!(c, "#{i} planted {} then {}", hx(&k), hx(&kk));
                    kk
                }
                10 => {
                    let v = r.h();
                    vhash(&v)
                }
                _ if !used.is_empty() => *r.pick(&used),
                _ => r.h(),
            }
        };
        if i >= start && r.chance(1, 10) {
            // a neighbour of a special key
            let b = r.us(256);
            let v = bit(&k, b);
            gen::set_bit(&mut k, b, !v);
        }
        if i >= start {
            adaptive += 1;
        }
        let op = if r.below(100) < 30 && i >= start {
            let del = if r.chance(1, 2) && !m.is_empty() { *m.keys().nth(r.us(m.len())).unwrap() } else { k };
            Op::Del(del)
        } else {
            // values: encoded nodes, keys, hashes, previous values
            let map = st.map.borrow();
            let mut ks: Vec<H> = map.keys().copied().collect();
            ks.sort();
            let d = match r.below(6) {
                0 if !ks.is_empty() => {
                    let (ht, kind, lo, hi) = map[r.pick(&ks)];
                    let mut v = if r.chance(1, 2) { ht.to_be_bytes().to_vec() } else { vec![] };
                    v.push(kind);
                    v.extend_from_slice(&lo);
                    v.extend_from_slice(&hi);
                    v
                }
                1 if !ks.is_empty() => r.pick(&ks).to_vec(),
                2 => k.to_vec(),
                3 if r.chance(1, 3) => vec![7],
                3 => vec![0; 1 + r.us(66)],
                4 if !vals.is_empty() => r.pick(&vals).clone(),
                _ => gen::nonempty(r, &used),
            };
            vals.push(d.clone());
            Op::Up(k, d)
        };
        tr!(c, "#{i} {}", op.show());
        let res = op.apply(&mut t)?;
        ensure!(res.is_ok(), "operation #{i} {}: {res:?}", op.show());
        op.model(&mut m);
        used.push(*op.key());
        let (got, want) = (sroot_of(&t)?, sroot(&m));
        ensure!(got == want, "operation #{i} {}: root {} want {}", op.show(), hx(&got), hx(&want));
        let (leaves, _) = walk(&st.map.borrow(), &got, &format!("operation #{i} {}", op.show()))?;
        ensure!(leaves == m, "operation #{i} {}: stored pairs differ from the expected ones", op.show());
        if got != ZERO && r.chance(1, 4) {
            t = match sload(st.clone(), &got)? {
                Ok(t) => t,
                Err(e) => viol!("after operation #{i} {}: cannot be reopened: {e:?}", op.show()),
            };
            ensure!(sroot_of(&t)? == got, "after operation #{i} {}: reopened with another root", op.show());
        }
        roots.push(got);
        c.evalh(m.len() > 1, &got);
    }
    // everything can be removed again
    let mut order: Vec<H> = m.keys().copied().collect();
    r.shuffle(&mut order);
    for k in order {
        let op = Op::Del(k);
        tr!(c, "drain {}", op.show());
        let res = op.apply(&mut t)?;
        ensure!(res.is_ok(), "draining, {}: {res:?}", op.show());
        op.model(&mut m);
        ensure!(sroot_of(&t)? == sroot(&m), "draining, {}: wrong root", op.show());
    }
    c.count("adaptively chosen keys", adaptive);
    c.sample(|| format!("{start} ordinary keys, then {adaptive} chosen from the tree's own hashes, roots and values"));
    Ok(())
}
/// One special key against one ordinary tree, every special value in turn.
pub fn c15_single(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let fam = r.below(gen::FAMILIES);
    let n = 1 + r.us(8);
    let keys = gen::keys(r, fam, n);
    let items: Vec<(H, Vec<u8>)> = keys.iter().map(|k| (*k, gen::nonempty(r, &keys))).collect();
    let m: Map = items.iter().map(|(k, d)| (*k, vhash(d))).collect();
    let (root, nodes) = snodes(&m);
    let mut specials: Vec<H> = vec![ZERO, gen::ONES, root];
    let mut ns: Vec<H> = nodes.keys().copied().collect();
    ns.sort();
    r.shuffle(&mut ns);
    specials.extend(ns.into_iter().take(12));
    specials.extend(m.values().copied());
    specials.extend(m.keys().map(|k| vhash(k)));
    specials.push(gen::mined_key(r));
    for s in specials {
        let (mut t, st) = tree_of(&items)?;
        let mut mm = m.clone();
        let before = sroot_of(&t)?;
        let fresh = !m.contains_key(&s);
        let mined = r.pick(&gen::MINED).to_be_bytes().to_vec();
        let script = [Op::Up(s, vec![7]), Op::Up(s, mined), Op::Up(s, s.to_vec()), Op::Del(s), Op::Del(s)];
        for op in script {
            tr!(c, "{}", op.show());
            let res = op.apply(&mut t)?;
            ensure!(res.is_ok(), "{} beside {n} keys: {res:?}", op.show());
            op.model(&mut mm);
            ensure!(sroot_of(&t)? == sroot(&mm), "{} beside {n} keys: wrong root", op.show());
            let (leaves, _) = walk(&st.map.borrow(), &sroot_of(&t)?, &op.show())?;
            ensure!(leaves == mm, "{} beside {n} keys: stored pairs differ", op.show());
            c.eval(true, h64(&sroot_of(&t)?) ^ h64(&s));
        }
        if fresh {
            ensure!(sroot_of(&t)? == before, "insert and delete of special key {} changed the root", hx(&s));
        }
        // other keys still work
        for k in &keys {
            let op = if r.chance(1, 2) { Op::Del(*k) } else { Op::Up(*k, vec![9]) };
            let res = op.apply(&mut t)?;
            ensure!(res.is_ok(), "{} after special key {}: {res:?}", op.show(), hx(&s));
            op.model(&mut mm);
            ensure!(sroot_of(&t)? == sroot(&mm), "{} after special key {}: wrong root", op.show(), hx(&s));
        }
        c.count("adaptively chosen keys", 1);
    }
    Ok(())
}
