//! C31, C32, C33, C35 and C37: errors, isolation, memory, crashes, versions.

use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::p_binary::{self as pb, BStore, BTab, BT, BV};
use crate::p_sparse::{self as ps, Gen, Op, SStore, STab, ST};
use crate::p_sum::{self as pm, sum_sut, NodeView};
use fuel_merkle::common::{Position, StorageMap};
use fuel_merkle::storage::{Mappable, StorageInspect, StorageMutate};
use fuel_merkle::{binary, sparse, sum};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::{Debug, Display};
use std::hash::Hash;
use std::rc::Rc;

// ------------------------------------------------------------------ C31 errors

/// Texts of an error, where it has them (the type may lack Display).
struct Say<'a, T>(&'a T);
trait Shown {
    fn shown(&self) -> Option<String>;
}
impl<T: Display> Shown for &Say<'_, T> {
    fn shown(&self) -> Option<String> {
        Some(self.0.to_string())
    }
}
trait NotShown {
    fn shown(&self) -> Option<String>;
}
impl<T> NotShown for Say<'_, T> {
    fn shown(&self) -> Option<String> {
        None
    }
}
macro_rules! texts {
    ($e:expr) => {{
        let e = $e;
        let d = sut("Debug of an error", || format!("{:?}", e))?;
        #[allow(unused_imports)]
        use $crate::p_extra::{NotShown as _, Shown as _};
        let s = sut("Display of an error", || (&&Say(e)).shown())?;
        (d, s)
    }};
}
fn names(what: &str, t: &(String, Option<String>), any: &[Vec<String>]) -> R {
    let has = |s: &str| {
        let l = s.to_lowercase();
        any.iter().any(|alts| alts.iter().any(|a| words(&l, a)))
    };
    ensure!(has(&t.0), "{what}: the error `{}` does not name its cause", t.0);
    if cfg!(feature = "std") {
        match &t.1 {
            Some(s) => ensure!(has(s), "{what}: the displayed error \"{s}\" does not name its cause (it is {})", t.0),
            None => viol!("{what}: the error cannot be displayed in the standard build"),
        }
    }
    Ok(())
}
/// `a` occurs in `s`, not as part of a longer number or word
fn words(s: &str, a: &str) -> bool {
    s.match_indices(a).any(|(i, _)| {
        let b = s[..i].chars().next_back();
        let e = s[i + a.len()..].chars().next();
        !(b.is_some_and(|c| c.is_ascii_alphanumeric()) && !s[..i].ends_with("0x")) && !e.is_some_and(|c| c.is_ascii_alphanumeric())
    })
}
fn num(n: u64) -> Vec<String> {
    vec![n.to_string(), format!("{n:x}")]
}
fn key_texts(k: &H) -> Vec<String> {
    let mut hex = String::new();
    for b in k {
        hex.push_str(&format!("{b:02x}"));
    }
    vec![hex, format!("{k:?}"), format!("{k:02x?}")]
}
fn fault_texts(id: u64) -> Vec<String> {
    vec![format!("fault({id})"), format!("fault number {id}")]
}
fn perfect_in(k: u64, n: u64) -> bool {
    let (h, idx) = from_in_order(k);
    h < 63 && (idx as u128 + 1) << h <= n as u128
}
fn b_err(c: &mut Ctx, e: &binary::MerkleTreeError<Fault>, what: &str, absent: &dyn Fn(u64) -> bool, n: u64) -> R {
    let t = texts!(e);
    tr!(c, "{what} -> {} / {:?}", t.0, t.1);
    match e {
        binary::MerkleTreeError::LoadError(k) => {
            ensure!(absent(*k) && perfect_in(*k, n), "{what}: reported that key {k} is missing, which is {} the storage", if perfect_in(*k, n) { "in" } else { "no node of the tree, so never looked for in" });
            names(what, &t, &[num(*k)])?;
            c.count("missing binary nodes named", 1);
        }
        _ => viol!("{what}: the error {} does not say that a node is missing", t.0),
    }
    Ok(())
}

pub fn c31_binary(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.below(60);
    let ls = pb::leaves(r, n as usize);
    let (t, st, _) = pb::build(&ls)?;
    c.sample(|| format!("{n} leaves, entries removed at random"));
    for i in gen::bad_indices(r, n) {
        match sut("binary prove", || t.prove(i))? {
            Err(e @ binary::MerkleTreeError::InvalidProofIndex(_)) => {
                let tx = texts!(&e);
                if let binary::MerkleTreeError::InvalidProofIndex(k) = e {
                    ensure!(k == i, "prove({i}) of {n} leaves: the error names index {k}");
                }
                names(&format!("prove({i})"), &tx, &[num(i)])?;
                c.count("invalid indices named", 1);
                c.eval(true, mix(i ^ n));
            }
            o => viol!("prove({i}) of {n} leaves returned {:?}", o.map_err(pb::be)),
        }
    }
    for round in 0..10 {
        let f = st.fork();
        let mut keys: Vec<u64> = f.map.borrow().keys().cloned().collect();
        keys.sort();
        for _ in 0..1 + r.below(3) {
            let k = *r.pick(&keys);
            f.map.borrow_mut().remove(&k);
        }
        let absent = |k: u64| !f.map.borrow().contains_key(&k);
        let m = if r.chance(1, 2) { n } else { 1 + r.below(n) };
        match sut("binary load", || BT::<BStore>::load(f.clone(), m))? {
            Err(e) => b_err(c, &e, &format!("load({m})"), &absent, m)?,
            Ok(t2) => {
                for i in 0..m {
                    let i = if m > 12 { r.below(m) } else { i };
                    if let Err(e) = sut("binary prove", || t2.prove(i))? {
                        b_err(c, &e, &format!("prove({i}) of {m}"), &absent, m)?;
                        if let binary::MerkleTreeError::LoadError(k) = e {
                            let on = k == 2 * i || range_path(i, m).iter().any(|(_, s)| *s == k);
                            ensure!(on, "prove({i}) of {m}: key {k} is reported missing, but no proof for this leaf needs it");
                        }
                        c.eval(true, mix(i ^ (m << 20) ^ (round << 40)));
                    }
                    if i > 12 {
                        break;
                    }
                }
            }
        }
        // the storage's own error comes through
        let g = st.fork();
        let id = g.ctl.arm(r.below(8), FaultMode::Before);
        let mut op = |what: &str, e: Option<binary::MerkleTreeError<Fault>>| -> R {
            if let Some(e) = e {
                let tx = texts!(&e);
                tr!(c, "{what} -> {} / {:?}", tx.0, tx.1);
                match &e {
                    binary::MerkleTreeError::StorageError(f) => {
                        ensure!(f.0 == id, "{what}: storage error {} became {}", id, f.0)
                    }
                    _ => viol!("{what}: the storage failed with {id}, the error is {}", tx.0),
                }
                names(what, &tx, &[fault_texts(id)])?;
                c.count("storage errors passed on", 1);
                c.eval(true, mix(id) ^ mix(m));
            }
            Ok(())
        };
        match sut("binary load", || BT::<BStore>::load(g.clone(), n))? {
            Err(e) => op("load", Some(e))?,
            Ok(mut t2) => {
                let i = r.below(n);
                op("prove", sut("binary prove", || t2.prove(i))?.err())?;
                if g.ctl.fired.get().is_none() {
                    op("push", sut("binary push", || t2.push(b"x"))?.err())?;
                }
            }
        }
    }
    Ok(())
}

type SErr = sparse::MerkleTreeError<Fault>;
fn s_run<S: StorageMutate<STab, Error = Fault>>(t: &mut ST<S>, op: &Op) -> R<Result<(), SErr>> {
    sut(&op.show(), || match op {
        Op::Up(k, d) => t.update(k, d),
        Op::UpEmpty(k) => t.update(k, &[]),
        Op::Del(k) => t.delete(k),
    })
}
pub fn c31_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 20);
    let mut m = Map::new();
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    for _ in 0..2 + r.us(24) {
        let op = g.op(r, &m);
        op.run(&mut t)?;
        op.model(&mut m);
    }
    let root = ps::sroot_of(&t)?;
    c.sample(|| format!("map of {} keys, entries removed, given unknown kinds, or failing to be read", m.len()));
    // a root that is not there
    for x in [r.h(), { let mut x = root; x[r.us(32)] ^= 1 << r.us(8); x }, gen::ONES] {
        if st.map.borrow().contains_key(&x) || x == ZERO {
            continue;
        }
        match sut("sparse load", || ST::<SStore>::load(st.clone(), &x))? {
            Ok(_) => viol!("load({}) of an absent root gave a tree", hx(&x)),
            Err(e) => {
                let tx = texts!(&e);
                names(&format!("load({})", hx(&x)), &tx, &[key_texts(&x)])?;
                c.count("absent roots named", 1);
                c.evalh(true, &x);
            }
        }
    }
    if m.len() < 2 {
        return Ok(());
    }
    let (_, nodes) = snodes(&m);
    let mut live: Vec<H> = nodes.keys().filter(|k| **k != root).cloned().collect();
    live.sort();
    for _ in 0..12 {
        let f = st.fork();
        let kind = r.below(3);
        let mut allowed: Vec<Vec<String>> = vec![];
        for _ in 0..1 + r.below(3) {
            let k = *r.pick(&live);
            match kind {
                0 => {
                    f.map.borrow_mut().remove(&k);
                    allowed.push(key_texts(&k));
                }
                1 => {
                    let b = 2 + r.below(254) as u8;
                    if let Some(v) = f.map.borrow_mut().get_mut(&k) {
                        v.1 = b;
                        allowed.push(vec![b.to_string(), format!("{b:x}"), format!("{b:02x}")]);
                    }
                }
                _ => {}
            }
        }
        let mut t2 = ps::sok("load", ps::sload(f.clone(), &root)?)?;
        if kind == 2 {
            let id = f.ctl.arm(r.below(24), FaultMode::Before);
            allowed = vec![fault_texts(id)];
        }
        let op = g.op(r, &m);
        if let Err(e) = s_run(&mut t2, &op)? {
            let tx = texts!(&e);
            tr!(c, "{} -> {} / {:?}", op.show(), tx.0, tx.1);
            names(&op.show(), &tx, &allowed)?;
            c.count(["missing sparse nodes named", "unknown kinds named", "storage errors passed on"][kind as usize], 1);
            c.eval(true, h64(tx.0.as_bytes()));
        }
        if kind == 1 {
            let b = 2 + r.below(254) as u8;
            let f = st.fork();
            if let Some(v) = f.map.borrow_mut().get_mut(&root) {
                v.1 = b;
            }
            match sut("sparse load", || ST::<SStore>::load(f.clone(), &root))? {
                Ok(_) => viol!("load of a root entry of kind {b} gave a tree"),
                Err(e) => {
                    let tx = texts!(&e);
                    names("load", &tx, &[vec![b.to_string(), format!("{b:x}"), format!("{b:02x}")]])?;
                    c.count("unknown kinds named", 1);
                }
            }
        }
    }
    Ok(())
}

/// One instance refusing tens of thousands of times, each time for a reason of its own.
pub fn c31_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = if c.tiny { 30 } else if case % 8 < 2 { 140_000 } else { 20_000 };
    c.sample(|| format!("{k} refused calls on one instance"));
    if case % 2 == 0 {
        let n = 1 + r.below(60);
        let ls = pb::leaves(r, n as usize);
        let (t, st, _) = pb::build(&ls)?;
        for j in 0..k {
            let what = r.below(3);
            let i = r.below(n);
            if what == 0 {
                let b = 1 + r.below(60);
                let i = n + r.below(1 << b);
                match sut("binary prove", || t.prove(i))? {
                    Err(binary::MerkleTreeError::InvalidProofIndex(x)) if x == i => c.count("invalid indices named", 1),
                    o => viol!("refusal number {} of one tree: prove({i}) of {n} leaves gave {:?}", j + 1, o.map_err(pb::be)),
                }
            } else if what == 1 {
                let gone = st.map.borrow_mut().remove(&(2 * i));
                match sut("binary prove", || t.prove(i))? {
                    Err(binary::MerkleTreeError::LoadError(x)) if x == 2 * i => c.count("missing binary nodes named", 1),
                    o => viol!("refusal number {} of one tree: prove({i}) without its leaf gave {:?}", j + 1, o.map_err(pb::be)),
                }
                if let Some(v) = gone {
                    st.map.borrow_mut().insert(2 * i, v);
                }
            } else {
                let id = st.ctl.arm(0, FaultMode::Before);
                match sut("binary prove", || t.prove(i))? {
                    Err(binary::MerkleTreeError::StorageError(f)) if f.0 == id => c.count("storage errors passed on", 1),
                    o => viol!("refusal number {} of one tree: the storage failed with {id}, prove({i}) gave {:?}", j + 1, o.map_err(pb::be)),
                }
                st.ctl.disarm();
            }
        }
        c.eval(true, mix(n) ^ k as u64);
    } else {
        let g = Gen::new(r, 14);
        let mut m = Map::new();
        let st = SStore::new();
        let mut t = ps::snew(st.clone())?;
        for x in &g.pool {
            let op = Op::Up(*x, vec![1, 2]);
            op.run(&mut t)?;
            op.model(&mut m);
        }
        let root = ps::sroot_of(&t)?;
        let (_, nodes) = snodes(&m);
        let mut live: Vec<H> = nodes.keys().filter(|k| **k != root).cloned().collect();
        live.sort();
        for j in 0..k {
            if live.is_empty() {
                break;
            }
            // deletes read before they write, and are refused before they do
            let h = *r.pick(&live);
            let old = st.map.borrow()[&h];
            let allowed = if r.chance(1, 2) {
                st.map.borrow_mut().remove(&h);
                key_texts(&h)
            } else {
                let b = 2 + r.below(254) as u8;
                if let Some(v) = st.map.borrow_mut().get_mut(&h) {
                    v.1 = b;
                }
                vec![b.to_string(), format!("{b:x}"), format!("{b:02x}")]
            };
            let op = Op::Del(*r.pick(&g.pool));
            let res = s_run(&mut t, &op)?;
            st.map.borrow_mut().insert(h, old);
            match res {
                Err(e) => {
                    let tx = texts!(&e);
                    names(&format!("refusal number {} of one tree, {}", j + 1, op.show()), &tx, &[allowed])?;
                    c.count("refusals of one sparse tree named", 1);
                }
                Ok(()) => {
                    // what the delete removed is put back
                    for (h, n) in &nodes {
                        st.map.borrow_mut().insert(*h, *n);
                    }
                    let t2 = ps::sload(st.clone(), &root)?;
                    t = ps::sok("load", t2)?;
                }
            }
        }
        c.evalh(true, &root);
    }
    Ok(())
}

// --------------------------------------------------------------- C32 isolation

type Actor = Box<dyn FnMut() -> String>;
#[derive(Clone)]
struct Pool {
    keys: Vec<H>,
    vals: Vec<Vec<u8>>,
}
const ACTORS: u64 = 10;
/// One user of the library with its own trees, deterministic in (kind, seed).
fn actor(kind: u64, seed: u64, p: &Pool) -> Actor {
    let p = p.clone();
    let mut r = Rng::new(seed);
    fn gx<T: Debug>(r: Result<T, String>) -> String {
        match r {
            Ok(x) => format!("{x:?}"),
            Err(m) => format!("panic: {m}"),
        }
    }
    match kind {
        0 => {
            let st = BStore::new();
            let mut t = BT::<BStore>::new(st.clone());
            let mut n = 0;
            Box::new(move || {
                if r.chance(1, 6) {
                    st.ctl.arm(r.below(3), FaultMode::Before);
                }
                let d = r.pick(&p.vals).clone();
                let a = try_sut(|| t.push(&d).map_err(pb::be));
                if matches!(a, Ok(Ok(()))) {
                    n += 1;
                }
                st.ctl.disarm();
                let i = r.below(n + 1);
                let b = try_sut(|| (t.root(), t.prove(i).map_err(pb::be)));
                if r.chance(1, 8) {
                    let m = r.below(n + 1);
                    if let Ok(Ok(x)) = try_sut(|| BT::<BStore>::load(st.clone(), m)) {
                        t = x;
                        n = m;
                    }
                }
                format!("{} {}", gx(a), gx(b))
            })
        }
        1 => {
            let mut t = BT::<StorageMap<BTab>>::new(StorageMap::new());
            let mut n = 0u64;
            Box::new(move || {
                let d = r.pick(&p.vals).clone();
                n += 1;
                let i = r.below(n);
                gx(try_sut(|| (t.push(&d).is_ok(), t.root(), t.prove(i).ok())))
            })
        }
        2 | 3 => {
            let st = SStore::new();
            let mut t = ST::<SStore>::new(st.clone());
            Box::new(move || {
                let k = *r.pick(&p.keys);
                let d = r.pick(&p.vals).clone();
                if kind == 3 && r.chance(1, 4) {
                    st.ctl.arm(r.below(14), FaultMode::Before);
                }
                let del = r.chance(1, 3);
                let a = try_sut(|| if del { t.delete(&k) } else { t.update(&k, &d) }.map_err(ps::se));
                st.ctl.disarm();
                let b = try_sut(|| t.root());
                if r.chance(1, 4) {
                    if let Ok(root) = b {
                        if let Ok(Ok(x)) = try_sut(|| ST::<SStore>::load(st.clone(), &root)) {
                            t = x;
                        }
                    }
                }
                format!("{} {}", gx(a), gx(b))
            })
        }
        4 => {
            let mut t = sparse::in_memory::MerkleTree::new();
            Box::new(move || {
                let k = *r.pick(&p.keys);
                let d = r.pick(&p.vals).clone();
                let del = r.chance(1, 3);
                gx(try_sut(|| {
                    if del {
                        t.delete(&k)
                    } else {
                        t.update(&k, &d)
                    }
                    t.root()
                }))
            })
        }
        5 => {
            let mut t = binary::in_memory::MerkleTree::new();
            let mut n = 0u64;
            Box::new(move || {
                let d = r.pick(&p.vals).clone();
                n += 1;
                let i = r.below(n + 1);
                gx(try_sut(|| {
                    t.push(&d);
                    (t.root(), t.prove(i))
                }))
            })
        }
        6 => {
            let mut s = sum_sut();
            Box::new(move || {
                let d = r.pick(&p.vals).clone();
                let f = r.below(4) << r.below(40);
                if r.chance(1, 8) {
                    s.ctl.arm(r.below(3), FaultMode::Before);
                }
                let a = (s.push)(f, &d);
                s.ctl.disarm();
                let b = (s.root)();
                format!("{a:?} {b:?}")
            })
        }
        // the same contents as the twin's, on a storage that lost other entries
        8 => {
            let mut r = Rng::new(seed >> 8);
            let mut own = Rng::new(seed);
            let st = SStore::new();
            let mut t = ST::<SStore>::new(st.clone());
            let mut roots: Vec<H> = vec![];
            Box::new(move || {
                let k = *r.pick(&p.keys);
                let d = r.pick(&p.vals).clone();
                let del = r.chance(1, 5);
                let a = try_sut(|| if del { t.delete(&k) } else { t.update(&k, &d) }.map_err(ps::se));
                let root = try_sut(|| t.root());
                if let Ok(x) = root {
                    roots.push(x);
                }
                let at = *r.pick(&roots);
                let (k2, d2) = (*r.pick(&p.keys), r.pick(&p.vals).clone());
                let f = st.fork();
                let mut live: Vec<H> = f.map.borrow().keys().cloned().collect();
                live.sort();
                for _ in 0..own.below(3) {
                    if !live.is_empty() {
                        let k = *own.pick(&live);
                        f.map.borrow_mut().remove(&k);
                    }
                }
                let b = try_sut(|| ST::<SStore>::load(f.clone(), &at).map_err(ps::se));
                let b = match b {
                    Ok(Ok(mut t2)) => gx(try_sut(|| (t2.update(&k2, &d2).map_err(ps::se), t2.root()))),
                    Ok(Err(e)) => format!("refused: {e:?}"),
                    Err(m) => format!("panic: {m}"),
                };
                format!("{} {} {b}", gx(a), gx(root))
            })
        }
        9 => {
            let mut r = Rng::new(seed >> 8);
            let mut own = Rng::new(seed);
            let st = BStore::new();
            let mut t = BT::<BStore>::new(st.clone());
            let mut n = 0u64;
            Box::new(move || {
                let d = r.pick(&p.vals).clone();
                let a = try_sut(|| t.push(&d).map_err(pb::be));
                n += 1;
                let (m, i) = (r.below(n + 1), r.below(n));
                let f = st.fork();
                let mut live: Vec<u64> = f.map.borrow().keys().cloned().collect();
                live.sort();
                for _ in 0..own.below(3) {
                    if !live.is_empty() {
                        let k = *own.pick(&live);
                        f.map.borrow_mut().remove(&k);
                    }
                }
                let b = try_sut(|| BT::<BStore>::load(f.clone(), m).map_err(pb::be));
                let b = match b {
                    Ok(Ok(mut t2)) => gx(try_sut(|| (t2.root(), t2.prove(i).map_err(pb::be), t2.push(&d).map_err(pb::be), t2.root()))),
                    Ok(Err(e)) => format!("refused: {e:?}"),
                    Err(m) => format!("panic: {m}"),
                };
                format!("{} {b}", gx(a))
            })
        }
        _ => {
            let mut s = StorageMap::<BTab>::new();
            Box::new(move || {
                let n = 1 + r.below(40);
                let i = r.below(n);
                let k = r.below(4);
                let v = (r.u64(), *r.pick(&p.keys));
                gx(try_sut(|| {
                    let path: Vec<_> = Position::from_in_order_index(range_root(0, n))
                        .path(&Position::from_leaf_index(i), n)
                        .iter()
                        .take(80)
                        .map(|(a, b)| (a.in_order_index(), b.in_order_index()))
                        .collect();
                    let old = StorageMutate::<BTab>::insert(&mut s, &k, &v);
                    (path, old, StorageInspect::<BTab>::get(&s, &(3 - k)).map(|o| o.map(|x| x.into_owned())))
                }))
            })
        }
    }
}
/// A few users for tens of thousands of steps each.
pub fn c32_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let steps = if c.tiny { 20 } else if case % 4 == 0 { 72_000 } else { 9_000 };
    let p = Pool { keys: gen::keys(r, 1, 24), vals: (0..5).map(|_| gen::nonempty(r, &[])).collect() };
    let spec: Vec<(u64, u64)> = (0..2).map(|j| ((case * 2 + j * 3) % 8, r.u64())).collect();
    let alone: Vec<Vec<u64>> = spec
        .iter()
        .map(|(k, s)| {
            let mut a = actor(*k, *s, &p);
            (0..steps).map(|_| h64(a().as_bytes())).collect()
        })
        .collect();
    c.sample(|| format!("two users of kinds {} and {}, {steps} steps each", spec[0].0, spec[1].0));
    let mut acts: Vec<Actor> = spec.iter().map(|(k, s)| actor(*k, *s, &p)).collect();
    let mut at = [0usize; 2];
    while at[0] < steps || at[1] < steps {
        let i = r.us(2);
        for _ in 0..1 + r.us(50) {
            if at[i] < steps {
                let o = acts[i]();
                ensure!(
                    h64(o.as_bytes()) == alone[i][at[i]],
                    "user {i} (kind {}) gets another result at step {} beside a user of kind {} than alone: {o}",
                    spec[i].0,
                    at[i],
                    spec[1 - i].0
                );
                at[i] += 1;
            }
        }
    }
    c.count("interleaved steps compared", 2 * steps as u64);
    for a in &alone {
        c.eval(true, a.iter().fold(0, |x, y| mix(x ^ y)));
    }
    Ok(())
}
pub fn c32_interleaved(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let nk = 3 + r.us(5);
    let fam = r.below(gen::FAMILIES);
    let keys = gen::keys(r, fam, nk);
    let keys = if keys.is_empty() { vec![r.h()] } else { keys };
    let vals: Vec<Vec<u8>> = (0..4).map(|_| gen::nonempty(r, &keys)).chain([vec![7], vec![7, 0]]).collect();
    let p = Pool { keys, vals };
    let na = 2 + r.us(6);
    // twins: the same kind on the same keys, with other choices
    let kinds: Vec<u64> = (0..na).map(|i| if i > 0 && i % 2 == 1 { u64::MAX } else { r.below(ACTORS) }).collect();
    let mut spec: Vec<(u64, u64)> = vec![];
    for k in kinds {
        let (k, sd) = if k == u64::MAX { spec[spec.len() - 1] } else { (k, r.u64()) };
        // twins share all but the last bits of the seed
        spec.push((k, if k > 7 { sd & !255 | r.below(256) } else { r.u64() }));
    }
    let steps = 6 + r.us(14);
    let alone: Vec<Vec<String>> = spec
        .iter()
        .map(|(k, s)| {
            let mut a = actor(*k, *s, &p);
            (0..steps).map(|_| a()).collect()
        })
        .collect();
    c.sample(|| format!("{na} users of kinds {:?}, {steps} steps each", spec.iter().map(|x| x.0).collect::<Vec<_>>()));
    for out in &alone {
        c.eval(true, h64(out.concat().as_bytes()));
    }
    let bad = |i: usize, j: usize, how: &str, got: &str| -> R {
        viol!("user {i} (kind {}) gets {got} at step {j} {how}, but {} alone", spec[i].0, alone[i][j])
    };
    // any order on one thread; some trees are dropped early and begun late
    let mut acts: Vec<Option<Actor>> = spec.iter().map(|_| None).collect();
    let mut at = vec![0; na];
    let mut left = na * steps;
    let burst = 1 + r.us(4);
    while left > 0 {
        let i = r.us(na);
        for _ in 0..burst {
            if at[i] < steps {
                let a = acts[i].get_or_insert_with(|| actor(spec[i].0, spec[i].1, &p));
                let o = a();
                tr!(c, "user {i} step {}: {o}", at[i]);
                if o != alone[i][at[i]] {
                    return bad(i, at[i], "between the steps of others", &o);
                }
                at[i] += 1;
                left -= 1;
                if at[i] == steps {
                    acts[i] = None;
                }
            }
        }
    }
    c.count("interleaved steps compared", (na * steps) as u64);
    if case % 4 == 0 {
        let outs: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = spec
                .iter()
                .map(|(k, sd)| {
                    let p = &p;
                    s.spawn(move || {
                        let mut a = actor(*k, *sd, p);
                        (0..steps).map(|_| a()).collect::<Vec<_>>()
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for (i, o) in outs.iter().enumerate() {
            for j in 0..steps {
                let g = o.get(j).cloned().unwrap_or_default();
                if g != alone[i][j] {
                    return bad(i, j, "beside other threads", &g);
                }
            }
        }
        c.count("concurrent steps compared", (na * steps) as u64);
    }
    Ok(())
}

// ------------------------------------------------------------------ C33 memory

#[cfg(any(feature = "C33"))]
mod counting {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        pub static ON: Cell<bool> = const { Cell::new(false) };
        pub static LIVE: Cell<i64> = const { Cell::new(0) };
        pub static PEAK: Cell<i64> = const { Cell::new(0) };
        pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    }
    fn add(n: i64) {
        if ON.with(|o| o.get()) {
            let l = LIVE.with(|l| {
                let x = l.get() + n;
                l.set(x);
                x
            });
            if n > 0 {
                ALLOCS.with(|a| a.set(a.get() + 1));
                PEAK.with(|p| p.set(p.get().max(l)));
            }
        }
    }
    pub struct Counting;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as i64);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as i64));
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as i64);
            add(-(l.size() as i64));
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Counting = Counting;
}
#[cfg(not(feature = "C33"))]
mod counting {
    use std::cell::Cell;
    thread_local! {
        pub static ON: Cell<bool> = const { Cell::new(false) };
        pub static LIVE: Cell<i64> = const { Cell::new(0) };
        pub static PEAK: Cell<i64> = const { Cell::new(0) };
        pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    }
}
/// A storage whose own memory is not counted.
#[derive(Clone)]
pub struct Hush<S>(pub S);
fn hushed<T>(f: impl FnOnce() -> T) -> T {
    let on = counting::ON.with(|o| o.replace(false));
    let x = f();
    counting::ON.with(|o| o.set(on));
    x
}
impl<T: Mappable, S: StorageInspect<T>> StorageInspect<T> for Hush<S> {
    type Error = S::Error;
    fn get(&self, key: &T::Key) -> Result<Option<Cow<'_, T::GetValue>>, S::Error> {
        hushed(|| self.0.get(key))
    }
    fn contains_key(&self, key: &T::Key) -> Result<bool, S::Error> {
        hushed(|| self.0.contains_key(key))
    }
}
impl<T: Mappable, S: StorageMutate<T>> StorageMutate<T> for Hush<S> {
    fn insert(&mut self, key: &T::Key, value: &T::SetValue) -> Result<Option<T::GetValue>, S::Error> {
        hushed(|| self.0.insert(key, value))
    }
    fn remove(&mut self, key: &T::Key) -> Result<Option<T::GetValue>, S::Error> {
        hushed(|| self.0.remove(key))
    }
}

/// Bytes the trees of a case hold, summed over calls.
#[derive(Default)]
struct Meter {
    held: i64,
    allocs: u64,
}
const HELD: i64 = 64 << 10;
const PEAK: i64 = 512 << 10;
impl Meter {
    fn call<T>(&mut self, c: &mut Ctx, what: &str, size: u64, data: usize, f: impl FnOnce() -> T) -> R<T> {
        counting::LIVE.with(|l| l.set(0));
        counting::PEAK.with(|l| l.set(0));
        counting::ALLOCS.with(|l| l.set(0));
        let r = sut(what, || {
            counting::ON.with(|o| o.set(true));
            let x = f();
            counting::ON.with(|o| o.set(false));
            x
        });
        counting::ON.with(|o| o.set(false));
        let r = r?;
        let (live, peak) = (counting::LIVE.with(|l| l.get()), counting::PEAK.with(|l| l.get()));
        self.held += live;
        self.allocs += counting::ALLOCS.with(|l| l.get());
        c.max("most bytes used during one call", peak as u64);
        c.max("most bytes held by a tree", self.held.max(0) as u64);
        c.max("largest tree measured", size);
        c.count("calls measured", 1);
        c.eval(size > 1, mix(size ^ mix_str(3, what)));
        ensure!(peak <= PEAK + 2 * data as i64, "{what} on a tree of {size} entries needed {peak} bytes of memory at once");
        ensure!(self.held <= HELD, "after {what} a tree of {size} entries holds {} bytes outside its storage", self.held);
        Ok(r)
    }
}
pub fn c33_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = [4000u64, 12_000, 20_000, 33_000][case as usize % 4];
    let st = Hush(BStore::new());
    let mut m = Meter::default();
    c.sample(|| format!("{n} appends, roots, proofs and reopenings, memory counted in each call"));
    let mut t = m.call(c, "new", 0, 0, || BT::<Hush<BStore>>::new(st.clone()))?;
    let big = r.below(n);
    for i in 0..n {
        let l = if i == big { 1 << 20 } else { r.us(80) };
        let d = r.bytes(l);
        let o = m.call(c, "append", i, d.len(), || t.push(&d).is_ok())?;
        ensure!(o, "append failed on intact storage");
        if r.chance(1, 40) {
            m.call(c, "root", i + 1, 0, || t.root())?;
        }
        if r.chance(1, 40) {
            let k = r.below(i + 1);
            let p = m.call(c, "prove", i + 1, 0, || t.prove(k).ok().map(|p| p.1.len() * 32))?;
            ensure!(p.is_some(), "proof failed on intact storage");
        }
        if r.chance(1, 400) {
            let x = m.call(c, "load", i + 1, 0, || BT::<Hush<BStore>>::load(st.clone(), i + 1).ok())?;
            let Some(x) = x else { viol!("reopening failed on intact storage") };
            let old = std::mem::replace(&mut t, x);
            m.call(c, "drop", i + 1, 0, move || drop(old))?;
        }
    }
    Ok(())
}
pub fn c33_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n0 = gen::big_count(r, pb::HUGE - 200).max(1);
    let st = Hush(pb::VStore::new(r, n0, &[]));
    let mut m = Meter::default();
    c.sample(|| format!("restored tree of {n0} leaves"));
    let t = m.call(c, "load", n0, 0, || BT::<Hush<pb::VStore>>::load(st.clone(), n0).ok())?;
    let Some(mut t) = t else { viol!("load({n0}) failed on intact storage") };
    for i in 0..6 {
        let n = n0 + i;
        m.call(c, "root", n, 0, || t.root())?;
        let ks = st.0.ask(r, n, 2);
        for k in ks {
            m.call(c, "prove", n, 0, || t.prove(k).is_ok())?;
        }
        let d = r.h();
        m.call(c, "append", n, 32, || t.push(&d).is_ok())?;
    }
    Ok(())
}
pub fn c33_sparse(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = [600u64, 2000, 4000, 6000][case as usize % 4];
    // half of the trees live long without ever being reopened, on few keys
    let long = case % 4 > 1;
    let st = Hush(SStore::new());
    let mut m = Meter::default();
    c.sample(|| format!("{n} updates and deletes, memory counted in each call"));
    let mut t = m.call(c, "new", 0, 0, || ST::<Hush<SStore>>::new(st.clone()))?;
    let mut keys: Vec<H> = vec![];
    for i in 0..n {
        let mut k = r.h();
        if i % 50 == 7 {
            // a deep neighbour
            k = *r.pick(&keys);
            k[31] ^= 1 << r.us(8);
        }
        let l = if i == n / 2 { 1 << 20 } else { 1 + r.us(80) };
        let d = r.bytes(l);
        let size = keys.len() as u64;
        let o = m.call(c, "update", size, d.len(), || t.update(&k, &d).is_ok())?;
        ensure!(o, "update failed on intact storage");
        keys.push(k);
        if r.chance(1, 6) || (long && keys.len() > 40) {
            let j = r.us(keys.len());
            let k = keys.swap_remove(j);
            let o = m.call(c, "delete", size, 0, || t.delete(&k).is_ok())?;
            ensure!(o, "delete failed on intact storage");
        }
        if r.chance(1, 10) {
            let k = r.h();
            m.call(c, "delete of an absent key", size, 0, || t.delete(&k).is_ok())?;
            let root = m.call(c, "root", size, 0, || t.root())?;
            if long {
                continue;
            }
            let x = m.call(c, "load", size, 0, || ST::<Hush<SStore>>::load(st.clone(), &root).ok())?;
            let Some(x) = x else { viol!("reopening failed on intact storage") };
            let old = std::mem::replace(&mut t, x);
            m.call(c, "drop", size, 0, move || drop(old))?;
        }
    }
    Ok(())
}
pub fn c33_sum(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = [3000u64, 9000, 20_000][case as usize % 3];
    let mut m = Meter::default();
    c.sample(|| format!("{n} fee appends, memory counted in each call"));
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Hush(Store::new()));
    for i in 0..n {
        let l = if i == n / 2 { 1 << 20 } else { r.us(80) };
        let d = r.bytes(l);
        let f = r.below(1 << 40);
        let o: Result<(), Fault> = m.call(c, "append", i, d.len(), || t.push(f, &d))?;
        ensure!(o.is_ok(), "append failed on intact storage");
        if r.chance(1, 40) {
            m.call(c, "root", i + 1, 0, || t.root().is_ok())?;
        }
    }
    Ok(())
}

/// A long life of calls that change nothing: refused ones, failing ones and ones that find
/// everything as it is to be.
pub fn c33_idle(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let rounds = if case % 12 < 3 && !c.tiny { 150_000 } else if c.thorough { 60_000 } else { 12_000 };
    let mut m = Meter::default();
    c.sample(|| format!("{rounds} calls that fail or change nothing, memory counted in each call"));
    let small = 1 + r.below(60);
    if case % 3 == 0 {
        let st = BStore::new();
        let ctl = st.clone();
        let st = Hush(st);
        let mut t = m.call(c, "new", 0, 0, || BT::<Hush<BStore>>::new(st.clone()))?;
        for i in 0..small {
            let d = r.bytes(40);
            let o = m.call(c, "append", i, 40, || t.push(&d).is_ok())?;
            ensure!(o, "append failed on intact storage");
        }
        for _ in 0..rounds {
            let k = r.below(small);
            match r.below(5) {
                0 => {
                    let far = (1 << 32) + r.below(1 << 40);
                    m.call(c, "refused proof", small, 0, || t.prove(far).is_err())?;
                }
                1 | 2 => {
                    let d = r.bytes(40);
                    ctl.ctl.arm(r.below(1 + (!small).trailing_zeros() as u64), *r.pick(&[FaultMode::Before, FaultMode::After]));
                    m.call(c, "failing append", small, 40, || t.push(&d).is_ok())?;
                    ctl.ctl.disarm();
                }
                3 => {
                    m.call(c, "prove", small, 0, || t.prove(k).is_ok())?;
                }
                _ => {
                    ctl.ctl.arm(0, FaultMode::Before);
                    m.call(c, "failing load", small, 0, || BT::<Hush<BStore>>::load(st.clone(), small).is_err())?;
                    ctl.ctl.disarm();
                }
            }
        }
    } else if case % 3 == 1 {
        let st = SStore::new();
        let ctl = st.clone();
        let st = Hush(st);
        let mut t = m.call(c, "new", 0, 0, || ST::<Hush<SStore>>::new(st.clone()))?;
        let mut keys: Vec<(H, Vec<u8>)> = vec![];
        for i in 0..small {
            let (k, d) = (r.h(), r.bytes(40));
            let o = m.call(c, "update", i, 40, || t.update(&k, &d).is_ok())?;
            ensure!(o, "update failed on intact storage");
            keys.push((k, d));
        }
        for _ in 0..rounds {
            let (k, d) = r.pick(&keys).clone();
            let what = r.below(7);
            match if case % 2 == 1 && what > 3 { 0 } else { what } {
                0 => {
                    // most share the first bits of a key that is there
                    let mut a = k;
                    a[r.range(1, 31) as usize] ^= 1 << r.us(8);
                    if r.chance(1, 4) {
                        a = r.h();
                    }
                    m.call(c, "delete of an absent key", small, 0, || t.delete(&a).is_ok())?;
                    m.call(c, "update with empty data of an absent key", small, 0, || t.update(&a, &[]).is_ok())?;
                }
                1 => {
                    m.call(c, "repeated update", small, 40, || t.update(&k, &d).is_ok())?;
                }
                2 => {
                    m.call(c, "delete", small, 0, || t.delete(&k).is_ok())?;
                    m.call(c, "update", small, 40, || t.update(&k, &d).is_ok())?;
                }
                3 => {
                    let e = r.bytes(40);
                    m.call(c, "replacing update", small, 40, || t.update(&k, &e).is_ok())?;
                    m.call(c, "replacing update", small, 40, || t.update(&k, &d).is_ok())?;
                }
                4 | 5 => {
                    let at = r.below(if small > 20 { 8 } else { 2 });
                    let e = r.bytes(40);
                    let before = ctl.snapshot();
                    let root = m.call(c, "root", small, 0, || t.root())?;
                    ctl.ctl.arm(at, *r.pick(&[FaultMode::Before, FaultMode::After]));
                    if r.chance(1, 2) {
                        m.call(c, "failing update", small, 40, || t.update(&k, &e).is_ok())?;
                    } else {
                        m.call(c, "failing delete", small, 0, || t.delete(&k).is_ok())?;
                    }
                    ctl.ctl.disarm();
                    *ctl.map.borrow_mut() = before;
                    if root != m.call(c, "root", small, 0, || t.root())? {
                        let x = m.call(c, "load", small, 0, || ST::<Hush<SStore>>::load(st.clone(), &root).ok())?;
                        let Some(x) = x else { viol!("reopening failed on intact storage") };
                        // in place: what the old tree held is let go in the same call
                        m.call(c, "drop", small, 0, || t = x)?;
                    }
                }
                _ => {
                    let a = r.h();
                    m.call(c, "refused load", small, 0, || ST::<Hush<SStore>>::load(st.clone(), &a).is_err())?;
                }
            }
        }
    } else {
        let st: Store<H, _> = Store::new();
        let ctl = st.clone();
        let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(Hush(st));
        for i in 0..small {
            let d = r.bytes(40);
            let o: Result<(), Fault> = m.call(c, "append", i, 40, || t.push(1, &d))?;
            ensure!(o.is_ok(), "append failed on intact storage");
        }
        for _ in 0..rounds {
            let d = r.bytes(40);
            if r.chance(2, 3) {
                ctl.ctl.arm(r.below(1 + (!small).trailing_zeros() as u64), *r.pick(&[FaultMode::Before, FaultMode::After]));
                let _: Result<(), Fault> = m.call(c, "failing append", small, 40, || t.push(3, &d))?;
                ctl.ctl.disarm();
            } else {
                if r.chance(1, 2) {
                    ctl.ctl.arm(0, FaultMode::Before);
                }
                let o: Result<(u64, H), Fault> = m.call(c, "root", small, 0, || t.root())?;
                ctl.ctl.disarm();
                let _ = o;
            }
        }
    }
    Ok(())
}

// ----------------------------------------------------------------- C35 crashes

#[derive(Clone)]
pub enum Write<K, V> {
    Put(K, V),
    Del(K),
}
/// Storage that logs its writes, so that it can be cut off after any of them.
pub struct Journal<K, V> {
    pub map: Rc<RefCell<HashMap<K, V>>>,
    pub log: Rc<RefCell<Vec<Write<K, V>>>>,
}
impl<K, V> Clone for Journal<K, V> {
    fn clone(&self) -> Self {
        Journal { map: self.map.clone(), log: self.log.clone() }
    }
}
impl<K: Eq + Hash + Clone, V: Clone> Journal<K, V> {
    pub fn new(m: HashMap<K, V>) -> Self {
        Journal { map: Rc::new(RefCell::new(m)), log: Rc::default() }
    }
    /// what is left of `before` and the first `n` logged writes
    fn cut(&self, before: &HashMap<K, V>, n: usize) -> HashMap<K, V> {
        let mut m = before.clone();
        for w in &self.log.borrow()[..n] {
            match w {
                Write::Put(k, v) => {
                    m.insert(k.clone(), v.clone());
                }
                Write::Del(k) => {
                    m.remove(k);
                }
            }
        }
        m
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageInspect<Tab<K, V>> for Journal<K, V> {
    type Error = Fault;
    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Fault> {
        step();
        Ok(self.map.borrow().get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, Fault> {
        step();
        Ok(self.map.borrow().contains_key(key))
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageMutate<Tab<K, V>> for Journal<K, V> {
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Fault> {
        step();
        self.log.borrow_mut().push(Write::Put(key.clone(), value.clone()));
        Ok(self.map.borrow_mut().insert(key.clone(), value.clone()))
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, Fault> {
        step();
        self.log.borrow_mut().push(Write::Del(key.clone()));
        Ok(self.map.borrow_mut().remove(key))
    }
}
type BJ = Journal<u64, BV>;
type SJ = Journal<H, SPrim>;

fn b_check(c: &mut Ctx, r: &mut Rng, t: &BT<BJ>, q: &Seq, n: u64, what: &str) -> R {
    let root = pb::broot(t)?;
    ensure!(root == q.root_at(n), "{what}: the root is {}, not that of the {n} leaves", hx(&root));
    for i in 0..n.min(9) {
        let i = if n > 9 { r.below(n) } else { i };
        let (pr, ps) = pb::ok(&format!("{what}: prove({i})"), pb::bprove(t, i)?)?;
        ensure!(pr == root && ps == q.proof_at(i, n), "{what}: the proof of leaf {i} of {n} is wrong");
    }
    c.count("trees checked after a crash", 1);
    Ok(())
}
pub fn c35_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // the leaf count is recorded every `k` appends
    let k = 1 + (case % 4);
    let n0 = if case % 3 == 0 { case % 40 } else { r.below(200) };
    let ls = pb::leaves(r, (n0 + k) as usize);
    let mut q = Seq::default();
    ls.iter().for_each(|d| q.push(d));
    let (_, st, _) = pb::build(&ls[..n0 as usize])?;
    let before = st.snapshot();
    let j = BJ::new(before.clone());
    let mut t = pb::ok("load", pb::bload(j.clone(), n0)?)?;
    for d in &ls[n0 as usize..] {
        pb::ok("push", pb::bpush(&mut t, d)?)?;
    }
    drop(t);
    let writes = j.log.borrow().len();
    c.max("writes of a group of appends", writes as u64);
    c.sample(|| format!("{n0} leaves recorded, crash after each of the {writes} writes of {k} appends"));
    for cut in 0..=writes {
        let what = format!("crash after write {cut} of {writes} while appending leaves {n0}..{}", n0 + k);
        tr!(c, "{what}");
        let mut map = j.cut(&before, cut);
        if case % 5 == 4 {
            // writes that reached the disk in another order
            let mut idx: Vec<usize> = (0..writes).collect();
            r.shuffle(&mut idx);
            map = before.clone();
            for i in &idx[..cut] {
                if let Write::Put(k, v) = &j.log.borrow()[*i] {
                    map.insert(*k, *v);
                }
            }
            c.count("writes lost out of order", 1);
        }
        let j2 = BJ::new(map);
        let mut t = pb::ok(&what, pb::bload(j2.clone(), n0)?)?;
        b_check(c, r, &t, &q, n0, &what)?;
        // the same or other leaves are appended again
        let same = r.chance(1, 2);
        let mut q2 = Seq::default();
        ls[..n0 as usize].iter().for_each(|d| q2.push(d));
        for i in 0..1 + r.below(4) {
            let d = if same && i < k { ls[(n0 + i) as usize].clone() } else { gen::data(r, &[]) };
            pb::ok(&what, pb::bpush(&mut t, &d)?)?;
            q2.push(&d);
            b_check(c, r, &t, &q2, q2.len(), &format!("{what}, then {} more", i + 1))?;
        }
        let t = pb::ok(&what, pb::bload(j2, q2.len())?)?;
        b_check(c, r, &t, &q2, q2.len(), &format!("{what}, resumed and reopened"))?;
        c.count("crash points", 1);
        c.eval(n0 + cut as u64 > 1, mix(n0 ^ (k << 20) ^ ((cut as u64) << 32)));
    }
    Ok(())
}
pub fn c35_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 24);
    let mut m = Map::new();
    let mut map: HashMap<H, SPrim> = HashMap::new();
    let mut root = ZERO;
    let mut pre = vec![];
    for _ in 0..r.us(20) {
        let op = g.op(r, &m);
        pre.push(op.clone());
        op.model(&mut m);
    }
    {
        let j = SJ::new(map);
        let mut t = ps::snew(j.clone())?;
        for op in &pre {
            op.run(&mut t)?;
        }
        root = ps::sroot_of(&t).map(|x| if m.is_empty() { root } else { x })?;
        map = j.map.borrow().clone();
    }
    c.sample(|| format!("map of {} keys, crash after each write of several operations", m.len()));
    for _ in 0..6 {
        let op = g.op(r, &m);
        let j = SJ::new(map.clone());
        let mut t = ps::sok("load", ps::sload(j.clone(), &root)?)?;
        op.run(&mut t)?;
        let mut m2 = m.clone();
        op.model(&mut m2);
        let root2 = ps::sroot_of(&t)?;
        ensure!(root2 == sroot(&m2), "{}: wrong root {}", op.show(), hx(&root2));
        drop(t);
        let writes = j.log.borrow().len();
        c.max("writes of one operation", writes as u64);
        let resume = r.us(writes + 1);
        let mut next = None;
        for cut in 0..=writes {
            let cm = j.cut(&map, cut);
            let what = format!("crash after write {cut} of {writes} of {}", op.show());
            tr!(c, "{what}");
            let whole = |root: &H, m: &Map| *root == ZERO && m.is_empty() || ps::walk(&cm, root, "").is_ok_and(|(x, _)| x == *m);
            let old = whole(&root, &m);
            let new = whole(&root2, &m2);
            ensure!(old || new, "{what}: the storage holds neither the tree before the operation (root {}) nor the one after it (root {})", hx(&root), hx(&root2));
            c.count(if old && new { "crashes leaving both trees" } else if old { "crashes leaving the earlier tree" } else { "crashes leaving the later tree" }, 1);
            c.count("crash points", 1);
            c.eval(m.len() > 1, h64(&root) ^ mix(cut as u64));
            if writes > 20 && cut != resume && !r.chance(12, writes as u64) {
                continue;
            }
            let (rt, md) = if old { (root, &m) } else { (root2, &m2) };
            let mut md = md.clone();
            let mut t = ps::sok(&what, ps::sload(SJ::new(cm.clone()), &rt)?)?;
            // carry on; the interrupted operation first
            let mut ops = vec![op.clone()];
            ops.extend((0..3).map(|_| g.op(r, &md)));
            for o in ops {
                ps::sok(&format!("{what}, then {}", o.show()), s_run(&mut t, &o)?.map_err(ps::se))?;
                o.model(&mut md);
                let x = ps::sroot_of(&t)?;
                ensure!(x == sroot(&md), "{what}, then {}: the root is {}, not that of the map", o.show(), hx(&x));
            }
            c.count("trees continued after a crash", 1);
            if cut == resume {
                next = Some(if old { (cm.clone(), root, m.clone()) } else { (cm.clone(), root2, m2.clone()) });
            }
        }
        if let Some((a, b, d)) = next {
            map = a;
            root = b;
            m = d;
        }
    }
    Ok(())
}
pub fn c35_sum(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.us(70);
    let fees = pm::fees(r, n);
    let j = Journal::new(HashMap::new());
    let mut t = sum::MerkleTree::<Tab<H, _>, _>::new(j.clone());
    let mut seen: HashMap<H, NodeView> = HashMap::new();
    c.sample(|| format!("{n} fee appends; every write compared with what was stored before"));
    let mut done = 0;
    for (i, f) in fees.iter().enumerate() {
        let d = gen::data(r, &[]);
        let o: Result<(), Fault> = sut("sum push", || t.push(*f, &d))?;
        ensure!(o.is_ok(), "append failed on intact storage");
        let root = sut("sum root", || t.root())?;
        let Ok((_, root)) = root else { viol!("root failed on intact storage") };
        for w in &j.log.borrow()[done..] {
            done += 1;
            match w {
                Write::Del(k) => ensure!(!seen.contains_key(k), "append #{i} removes the stored node {}", hx(k)),
                Write::Put(k, n) => {
                    let v = crate::node_view!(n);
                    if let Some(o) = seen.get(k) {
                        ensure!(*o == v, "append #{i} overwrites the stored node {} by another: {v:?}", hx(k));
                        c.count("identical rewrites", 1);
                    }
                    seen.insert(*k, v);
                }
            }
            c.count("sum tree writes", 1);
        }
        c.evalh(i > 0, &root);
    }
    Ok(())
}

// ---------------------------------------------------------------- C37 versions

/// Storage that never forgets: removals are acknowledged and ignored.
pub struct Archive<K, V>(Rc<RefCell<HashMap<K, V>>>);
impl<K, V> Clone for Archive<K, V> {
    fn clone(&self) -> Self {
        Archive(self.0.clone())
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageInspect<Tab<K, V>> for Archive<K, V> {
    type Error = Fault;
    fn get(&self, key: &K) -> Result<Option<Cow<'_, V>>, Fault> {
        step();
        Ok(self.0.borrow().get(key).cloned().map(Cow::Owned))
    }
    fn contains_key(&self, key: &K) -> Result<bool, Fault> {
        step();
        Ok(self.0.borrow().contains_key(key))
    }
}
impl<K: Eq + Hash + Clone, V: Clone> StorageMutate<Tab<K, V>> for Archive<K, V> {
    fn insert(&mut self, key: &K, value: &V) -> Result<Option<V>, Fault> {
        step();
        Ok(self.0.borrow_mut().insert(key.clone(), value.clone()))
    }
    fn remove(&mut self, key: &K) -> Result<Option<V>, Fault> {
        step();
        Ok(self.0.borrow().get(key).cloned())
    }
}
type SA = Archive<H, SPrim>;
pub fn c37_sparse(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let g = Gen::new(r, 16);
    let st: SA = Archive(Rc::default());
    // several branches of history over one storage
    let nt = 1 + r.us(4);
    let mut ts: Vec<(ST<SA>, Map)> = vec![];
    for _ in 0..nt {
        ts.push((ps::snew(st.clone())?, Map::new()));
    }
    let mut past: Vec<(H, Map)> = vec![(ZERO, Map::new())];
    let steps = 20 + r.us(50);
    for i in 0..steps {
        let k = r.us(nt);
        if r.chance(1, 8) {
            let (root, m) = r.pick(&past).clone();
            let t = ps::sok(&format!("#{i} reopening version {}", hx(&root)), ps::sload(st.clone(), &root)?)?;
            tr!(c, "#{i} tree {k} goes back to version {}", hx(&root));
            ts[k] = (t, m);
            c.count("versions branched from", 1);
        }
        let (t, m) = &mut ts[k];
        let op = g.op(r, m);
        ps::sok(&format!("#{i} tree {k}: {}", op.show()), s_run(t, &op)?.map_err(ps::se))?;
        op.model(m);
        let root = ps::sroot_of(t)?;
        tr!(c, "#{i} tree {k}: {} -> {}", op.show(), hx(&root));
        ensure!(root == sroot(m), "#{i} tree {k}: {}: the root is {}, not that of its map", op.show(), hx(&root));
        past.push((root, m.clone()));
        // all trees still see their own map
        for (l, (t, m)) in ts.iter().enumerate() {
            let x = ps::sroot_of(t)?;
            ensure!(x == sroot(m), "#{i}: an operation on tree {k} changed the root of tree {l}");
        }
    }
    c.sample(|| format!("{nt} sparse trees on one archive, {} versions", past.len()));
    // every version is still there, whole, and can be continued
    let map = st.0.borrow().clone();
    let mut seen = HashSet::new();
    for (root, m) in &past {
        if !seen.insert(*root) {
            continue;
        }
        if *root != ZERO {
            let (x, _) = ps::walk(&map, root, "an earlier version")?;
            ensure!(x == *m, "the stored version {} holds other entries than when it was current", hx(root));
        }
        let mut t = ps::sok(&format!("reopening version {}", hx(root)), ps::sload(st.clone(), root)?)?;
        let mut m2 = m.clone();
        for _ in 0..2 {
            let op = g.op(r, &m2);
            ps::sok(&format!("version {}: {}", hx(root), op.show()), s_run(&mut t, &op)?.map_err(ps::se))?;
            op.model(&mut m2);
            let x = ps::sroot_of(&t)?;
            ensure!(x == sroot(&m2), "version {}, then {}: the root is {}, not that of the map", hx(root), op.show(), hx(&x));
        }
        c.count("versions reopened", 1);
        c.evalh(m.len() > 1, root);
    }
    Ok(())
}
/// Thousands of versions on one archive.
pub fn c37_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let steps = if c.tiny { 40 } else if case % 4 == 0 { 70_000 } else { 6000 };
    let g = Gen::new(r, 10);
    let st: SA = Archive(Rc::default());
    let mut t = ps::snew(st.clone())?;
    let mut m = Map::new();
    let mut past: Vec<(H, Map)> = vec![];
    let mut made = 0;
    for i in 0..steps {
        // deep trees fill the archive (and cost the oracle) sooner
        if i > 1000 && st.0.borrow().len() > 500_000 {
            break;
        }
        made += 1;
        let op = g.op(r, &m);
        ps::sok(&format!("operation {} on one archive: {}", i + 1, op.show()), s_run(&mut t, &op)?.map_err(ps::se))?;
        op.model(&mut m);
        let root = ps::sroot_of(&t)?;
        ensure!(root == sroot(&m), "operation {} on one archive: {}: the root is not that of its map", i + 1, op.show());
        if i % 20 == 0 || i + 20 > steps {
            past.push((root, m.clone()));
        }
        if r.chance(1, 40) && !past.is_empty() {
            let (root, x) = r.pick(&past).clone();
            t = ps::sok("reopening an earlier version", ps::sload(st.clone(), &root)?)?;
            m = x;
            c.count("versions branched from", 1);
        }
    }
    let map = st.0.borrow();
    for (root, m) in &past {
        if *root != ZERO {
            let (x, _) = ps::walk(&map, root, "an earlier version")?;
            ensure!(x == *m, "the stored version {} holds other entries than when it was current", hx(root));
        }
        c.evalh(m.len() > 1, root);
    }
    c.count("versions walked after a long life", past.len() as u64);
    c.max("most versions of one archive", made);
    Ok(())
}
pub fn c37_binary(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // earlier leaf counts of one storage remain open beside the current tree
    let st: Archive<u64, BV> = Archive(Rc::default());
    let n = 1 + r.below(90);
    let ls = pb::leaves(r, n as usize);
    let mut q = Seq::default();
    let mut t = sut("new", || BT::<Archive<u64, BV>>::new(st.clone()))?;
    let mut open: Vec<(BT<Archive<u64, BV>>, u64)> = vec![];
    c.sample(|| format!("{n} appends with readers of earlier leaf counts"));
    for d in &ls {
        pb::ok("push", pb::bpush(&mut t, d)?)?;
        q.push(d);
        let m = q.len();
        if r.chance(1, 3) {
            let k = r.below(m + 1);
            let x = pb::ok(&format!("load({k}) of {m}"), pb::bload(st.clone(), k)?)?;
            open.push((x, k));
        }
        for _ in 0..open.len().min(3) {
            let (x, k) = r.pick(&open);
            let root = pb::broot(x)?;
            ensure!(root == q.root_at(*k), "a reader of {k} leaves sees another root after {m} leaves were appended by the writer");
            if *k > 0 {
                let i = r.below(*k);
                let (pr, pp) = pb::ok(&format!("prove({i}) of {k}"), pb::bprove(x, i)?)?;
                ensure!(pr == root && pp == q.proof_at(i, *k), "a reader of {k} leaves gets another proof of leaf {i} after {m} leaves were appended");
            }
            c.count("earlier leaf counts read beside the writer", 1);
        }
        c.eval(m > 1, mix(m) ^ h64(d));
    }
    Ok(())
}
/// Readers of earlier leaf counts of one long-lived archive.
pub fn c37_readers_large(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    type A = Archive<u64, BV>;
    let st: A = Archive(Rc::default());
    let n = if c.tiny { 20 } else if case % 4 == 0 { 9000 + r.below(800) } else { 2000 + r.below(3500) };
    let mut q = Seq::default();
    let mut t = sut("new", || BT::<A>::new(st.clone()))?;
    let mut open: Vec<(BT<A>, u64)> = vec![];
    let look = |c: &mut Ctx, r: &mut Rng, x: &BT<A>, k: u64, q: &Seq, idx: Option<u64>| -> R {
        let m = q.len();
        let root = pb::broot(x)?;
        ensure!(root == q.root_at(k), "a reader of {k} leaves sees another root after {m} leaves were appended by the writer");
        if k > 0 {
            for i in [idx.unwrap_or(0) % k, r.below(k), k - 1] {
                let (pr, pp) = pb::ok(&format!("prove({i}) of {k}"), pb::bprove(x, i)?)?;
                ensure!(pr == root && pp == q.proof_at(i, k), "a reader of {k} leaves gets another proof of leaf {i} after {m} leaves were appended");
            }
        }
        c.count("earlier leaf counts read beside the writer", 1);
        c.eval(m > 1, mix(m) ^ mix(k) ^ h64(&root));
        Ok(())
    };
    for m in 1..=n {
        let d = r.u64().to_le_bytes();
        pb::ok("push", pb::bpush(&mut t, &d)?)?;
        q.push(&d);
        let round = (m & (m - 1)) == 0 || ((m + 1) & m) == 0 || gen::special(m);
        if round || r.below(m) < 4 || r.chance(1, 300) {
            // all counts at, before and after powers of two, and others
            let k = match r.below(4) {
                _ if round => m,
                0 => r.below(m + 1),
                1 => gen::new_num(r, m).unwrap_or(m),
                2 => m - r.below(m.min(4)),
                _ => m,
            };
            let x = pb::ok(&format!("load({k}) of {m}"), pb::bload(st.clone(), k)?)?;
            open.push((x, k));
        }
        if round || m == n {
            for (x, k) in &open {
                look(c, r, x, *k, &q, None)?;
            }
        } else if r.chance(1, 10) {
            let (x, k) = r.pick(&open);
            let i = r.below(k + 1);
            look(c, r, x, *k, &q, Some(i))?;
        }
    }
    // opened again at every count that was ever read
    for (_, k) in &open {
        let x = pb::ok(&format!("load({k}) of {n}"), pb::bload(st.clone(), *k)?)?;
        look(c, r, &x, *k, &q, None)?;
    }
    c.max("most versions of one archive", n);
    c.sample(|| format!("{n} appends, {} readers of earlier leaf counts held open", open.len()));
    Ok(())
}
pub fn c37_sum(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    // several sum trees on one storage
    let st = Archive(Rc::default());
    let nt = 2 + r.us(3);
    let mut ts = vec![];
    for _ in 0..nt {
        ts.push((sum::MerkleTree::<Tab<H, _>, _>::new(st.clone()), SumSeq::default(), 0u64));
    }
    let pool: Vec<Vec<u8>> = (0..3).map(|_| gen::data(r, &[])).collect();
    c.sample(|| format!("{nt} sum trees on one storage, leaves from a pool of 3"));
    for i in 0..10 + r.us(60) {
        let k = r.us(nt);
        let (t, q, total) = &mut ts[k];
        let f = r.below(3) << r.below(50);
        *total += f;
        let d = r.pick(&pool);
        let o: Result<(), Fault> = sut("sum push", || t.push(f, d))?;
        ensure!(o.is_ok(), "append failed on intact storage");
        q.push(f, d);
        for (l, (t, q, _)) in ts.iter_mut().enumerate() {
            if l == k || r.chance(1, 3) {
                let o = sut("sum root", || t.root())?;
                let Ok(x) = o else { viol!("root failed on intact storage") };
                ensure!(x == q.root(), "#{i}: tree {l} of {nt} on one storage has root ({}, {}), not that of its leaves", x.0, hx(&x.1));
                c.count("sum roots on shared storage", 1);
                c.evalh(q.len() > 1, &x.1);
            }
        }
    }
    Ok(())
}
#[allow(dead_code)]
fn unused(_: BTreeMap<u8, Cell<u8>>) {}
