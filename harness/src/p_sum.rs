//! C16..C18, C29: sum tree.  The node type is not exported, so the tree is
//! driven through closures whose types are inferred.

use crate::core::*;
use crate::gen;
use crate::model::*;
use fuel_merkle::sum::MerkleTree;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NodeView {
    pub height: u32,
    pub hash: H,
    pub fee: u64,
    pub left: Option<H>,
    pub right: Option<H>,
    pub is_leaf: bool,
    pub is_node: bool,
}

pub struct SumSut {
    pub push: Box<dyn FnMut(u64, &[u8]) -> Result<Result<(), u64>, String>>,
    pub root: Box<dyn FnMut() -> Result<Result<(u64, H), u64>, String>>,
    /// stored entries, by key
    pub dump: Box<dyn Fn() -> HashMap<H, NodeView>>,
    pub len: Box<dyn Fn() -> usize>,
    /// what the stored entries look like printed
    pub show: Box<dyn Fn() -> Result<Vec<(H, String)>, String>>,
    pub ctl: Rc<Ctl>,
}

#[macro_export]
macro_rules! node_view {
    ($n:expr) => {
        $crate::p_sum::NodeView {
            height: $n.height(),
            hash: *$n.hash(),
            fee: $n.fee(),
            left: $n.left_child_key(),
            right: $n.right_child_key(),
            is_leaf: $n.is_leaf(),
            is_node: $n.is_node(),
        }
    };
}

pub fn sum_sut() -> SumSut {
    let store = Store::new();
    let ctl = store.ctl.clone();
    let tree = Rc::new(RefCell::new(MerkleTree::<Tab<H, _>, _>::new(store.clone())));
    let t2 = tree.clone();
    let s2 = store.clone();
    let s3 = store.clone();
    let s4 = store;
    SumSut {
        push: Box::new(move |f, d| try_sut(|| tree.borrow_mut().push(f, d).map_err(|e: Fault| e.0))),
        root: Box::new(move || try_sut(|| t2.borrow_mut().root().map_err(|e: Fault| e.0))),
        dump: Box::new(move || s2.map.borrow().iter().map(|(k, n)| (*k, node_view!(n))).collect()),
        len: Box::new(move || s3.map.borrow().len()),
        show: Box::new(move || {
            let m = s4.map.borrow();
            m.iter().map(|(k, n)| try_sut(|| format!("{n:?} {n:#?}")).map(|t| (*k, t))).collect()
        }),
        ctl,
    }
}

impl SumSut {
    pub fn push_r(&mut self, f: u64, d: &[u8]) -> R<Result<(), u64>> {
        (self.push)(f, d).map_err(|m| Violation {
            msg: format!("sum push(fee {f}, {} bytes) panicked: {m}", d.len()),
        })
    }
    pub fn root_r(&mut self) -> R<Result<(u64, H), u64>> {
        (self.root)().map_err(|m| Violation {
            msg: format!("sum root panicked: {m}"),
        })
    }
    pub fn push_ok(&mut self, f: u64, d: &[u8]) -> R {
        match self.push_r(f, d)? {
            Ok(()) => Ok(()),
            Err(e) => viol!("sum push reported storage error {e} on intact storage"),
        }
    }
    pub fn root_ok(&mut self) -> R<(u64, H)> {
        match self.root_r()? {
            Ok(x) => Ok(x),
            Err(e) => viol!("sum root reported storage error {e} on intact storage"),
        }
    }
}

/// Fees whose total stays within 64 bits.
pub fn fees(r: &mut Rng, n: usize) -> Vec<u64> {
    let style = r.below(8);
    let mut left = u64::MAX;
    let fixed = r.u64() >> r.range(8, 60);
    let hot = r.us(n.max(1));
    (0..n)
        .map(|i| {
            let share = left / (n - i) as u64;
            let f = match style {
                0 => 0,
                1 => r.below(4),
                2 => fixed.min(share),
                3 => {
                    if i == hot {
                        left - (n - i - 1) as u64
                    } else {
                        r.below(2).min(left / 2)
                    }
                }
                4 => r.range(0, share),
                5 => (1u64 << r.below(64)).min(share),
                6 => {
                    // bytes that look like counters or other bytes
                    u64::from_be_bytes([0, 0, 0, 0, 0, 0, 1, r.u64() as u8]).min(share)
                }
                _ => {
                    let s = r.below(64);
                    (r.u64() >> s).min(share)
                }
            };
            let f = gen::lit_num(r).filter(|x| *x <= share).unwrap_or(f);
            left -= f;
            f
        })
        .collect()
}

fn items(r: &mut Rng, n: usize) -> Vec<(u64, Vec<u8>)> {
    let fs = fees(r, n);
    let style = r.below(4);
    let fixed = gen::data(r, &[]);
    let mut hs: Vec<H> = vec![];
    fs.into_iter()
        .map(|f| {
            if r.chance(1, 40) {
                return (0, r.pick(&gen::MINED).to_be_bytes().to_vec());
            }
            let d = match style {
                0 => fixed.clone(),
                1 => {
                    let w = r.us(3);
                    r.bytes(w)
                }
                _ => gen::data(r, &hs),
            };
            if hs.len() < 32 {
                hs.push(sum_leaf(f, &d));
            }
            (f, d)
        })
        .collect()
}

// ------------------------------------------------------------------------- C16

pub fn c16_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.us(200);
    let it = items(r, n);
    c.sample(|| format!("{n} leaves, fees {:?}", it.iter().take(6).map(|x| x.0).collect::<Vec<_>>()));
    c16_items(c, r, &it, 1)
}
fn c16_items(c: &mut Ctx, r: &mut Rng, it: &[(u64, Vec<u8>)], every: usize) -> R {
    let mut s = sum_sut();
    let mut m = SumSeq::default();
    ensure!(s.root_ok()? == (0, empty_hash()), "root of the empty sum tree is not (0, SHA-256 of nothing)");
    for (i, (f, d)) in it.iter().enumerate() {
        s.push_ok(*f, d)?;
        m.push(*f, d);
        if i % every != 0 && i + 1 != it.len() && !gen::special(i as u64 + 1) && (every > 50 || r.chance(1, 2)) {
            continue;
        }
        let got = s.root_ok()?;
        let want = m.root();
        tr!(c, "push #{i} fee {f} data {} -> ({}, {})", hx(&d[..d.len().min(40)]), got.0, hx(&got.1));
        ensure!(got.0 as u128 == m.total, "after leaf {i}: root fee {} but the fees total {}", got.0, m.total);
        ensure!(got == want, "after leaf {i} (fee {f}): root hash {} want {}", hx(&got.1), hx(&want.1));
        c.evalh(i > 0, &got.1);
        c.max("largest fee total", got.0);
    }
    c.max("largest leaf count", it.len() as u64);
    Ok(())
}
pub fn c16_exhaustive(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // fees over {0, 1, 2^63-1} x data over two values, length 5 (at most two large fees)
    let vals = [0u64, 1, (1 << 63) - 3];
    let dat = [vec![], gen::data(r, &[])];
    let mut x = case;
    let mut big = 0;
    let mut it = vec![];
    for _ in 0..5 {
        let mut f = vals[(x % 3) as usize];
        x /= 3;
        if f > 1 {
            big += 1;
            if big > 2 {
                f = 0;
            }
        }
        it.push((f, dat[(x % 2) as usize].clone()));
        x /= 2;
    }
    c16_items(c, r, &it, 1)
}
pub fn c16_long(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 1_100_000 } else { 2000 } + r.us(if case < 2 || c.thorough { 120_000 } else { 2_000 });
    let fs = fees(r, n);
    let mut it: Vec<(u64, Vec<u8>)> = fs.into_iter().map(|f| (f, r.bytes(3))).collect();
    if case % 20 == 0 && !cfg!(miri) {
        // one leaf of megabytes
        let (i, l) = (r.us(n), (1 << (20 + r.us(3))) + r.us(4));
        it[i].1 = r.bytes(l);
    }
    c16_items(c, r, &it, if case == 0 { 97 } else { 7 })
}

// ------------------------------------------------------------------------- C17

fn sum_walk(d: &HashMap<H, NodeView>, root: &(u64, H), want: &[(u64, H)], what: &str) -> R<u64> {
    // in-order leaves
    let mut out: Vec<(u64, H)> = vec![];
    let mut nodes = 0u64;
    let top = match d.get(&root.1) {
        Some(n) => n,
        None => viol!("{what}: the root node {} is not stored", hx(&root.1)),
    };
    ensure!(top.fee == root.0, "{what}: stored root node has fee {} but the root reports {}", top.fee, root.0);
    let mut stack = vec![root.1];
    while let Some(h) = stack.pop() {
        let n = match d.get(&h) {
            Some(n) => n,
            None => viol!("{what}: node {} is not stored", hx(&h)),
        };
        nodes += 1;
        ensure!(nodes < 2 * want.len() as u64 + 2, "{what}: stored tree has too many nodes");
        ensure!(n.hash == h, "{what}: node stored under {} has hash {}", hx(&h), hx(&n.hash));
        ensure!(n.is_leaf != n.is_node, "{what}: node {} is both or neither leaf and inner node", hx(&h));
        match (n.left, n.right) {
            (None, None) => {
                ensure!(n.is_leaf && n.height == 0, "{what}: childless node {} has height {}", hx(&h), n.height);
                out.push((n.fee, h));
            }
            (Some(l), Some(rr)) => {
                let (ln, rn) = match (d.get(&l), d.get(&rr)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => viol!("{what}: a child of node {} is not stored", hx(&h)),
                };
                ensure!(n.is_node, "{what}: node {} with children counts as a leaf", hx(&h));
                ensure!(
                    n.fee as u128 == ln.fee as u128 + rn.fee as u128,
                    "{what}: node {} has fee {} but its children have {} and {}",
                    hx(&h),
                    n.fee,
                    ln.fee,
                    rn.fee
                );
                ensure!(
                    n.height == ln.height + 1 && n.height > rn.height,
                    "{what}: node {} has height {} over children of heights {} and {}",
                    hx(&h),
                    n.height,
                    ln.height,
                    rn.height
                );
                ensure!(
                    sum_node(ln.fee, &l, rn.fee, &rr) == h,
                    "{what}: node {} is not the hash of its children's fees and hashes",
                    hx(&h)
                );
                stack.push(rr);
                stack.push(l);
            }
            _ => viol!("{what}: node {} has exactly one child", hx(&h)),
        }
    }
    ensure!(
        out == want,
        "{what}: the stored tree's leaves ({}) are not the appended ones ({}) in order",
        out.len(),
        want.len()
    );
    Ok(nodes)
}
pub fn c17_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.us(90);
    let it = items(r, n);
    let mut s = sum_sut();
    let mut want: Vec<(u64, H)> = vec![];
    for (i, (f, d)) in it.iter().enumerate() {
        s.push_ok(*f, d)?;
        want.push((*f, sum_leaf(*f, d)));
        if r.chance(1, 4) && i + 1 < n {
            continue; // roots not read after every append
        }
        let root = s.root_ok()?;
        let nodes = sum_walk(&(s.dump)(), &root, &want, &format!("{} leaves", i + 1))?;
        c.count("stored nodes walked", nodes);
        c.evalh(i > 0, &root.1);
    }
    c.sample(|| format!("{n} leaves, {} stored entries", (s.len)()));
    Ok(())
}
pub fn c17_long(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = if case == 0 && !c.tiny { 270_000 } else { 500 } + r.us(if case < 1 || c.thorough { 30_000 } else { 1500 });
    let fs = fees(r, n);
    let mut s = sum_sut();
    let mut want = vec![];
    for f in fs {
        let d = r.bytes(5);
        s.push_ok(f, &d)?;
        want.push((f, sum_leaf(f, &d)));
        if r.chance(1, 300 + n as u64 / 40) {
            let root = s.root_ok()?;
            let nodes = sum_walk(&(s.dump)(), &root, &want, &format!("{} leaves", want.len()))?;
            c.count("stored nodes walked", nodes);
            c.evalh(true, &root.1);
        }
    }
    let root = s.root_ok()?;
    let nodes = sum_walk(&(s.dump)(), &root, &want, &format!("{} leaves", want.len()))?;
    c.count("stored nodes walked", nodes);
    c.max("largest leaf count", n as u64);
    c.evalh(true, &root.1);
    Ok(())
}

// ------------------------------------------------------------------------- C18

const MODES: [FaultMode; 2] = [FaultMode::Before, FaultMode::After];

fn grown(it: &[(u64, Vec<u8>)], read_roots: bool) -> R<SumSut> {
    let mut s = sum_sut();
    for (f, d) in it {
        s.push_ok(*f, d)?;
        if read_roots {
            s.root_ok()?;
        }
    }
    Ok(s)
}
pub fn c18_enum(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = case as usize;
    let it = items(r, n + 8);
    let base = &it[..n];
    let (f, d) = &it[n];
    let reads = r.chance(1, 2);
    let calls = {
        let mut s = grown(base, reads)?;
        let b = s.ctl.calls();
        s.push_ok(*f, d)?;
        s.ctl.calls() - b
    };
    let finish = |what: &str, s: &mut SumSut, from: usize| -> R {
        let mut twin = grown(&it[..from], false)?;
        for (f, d) in &it[from..] {
            s.push_ok(*f, d)?;
            twin.push_ok(*f, d)?;
            let (a, b) = (s.root_ok()?, twin.root_ok()?);
            ensure!(a == b, "{what}: later root {}/{} want {}/{}", a.0, hx(&a.1), b.0, hx(&b.1));
        }
        Ok(())
    };
    let before = grown(base, false)?.root_ok()?;
    for at in 0..calls {
        for mode in MODES {
            let mut s = grown(base, reads)?;
            let id = s.ctl.arm(at, mode);
            let res = s.push_r(*f, d)?;
            let fired = s.ctl.disarm();
            let what = format!("sum append #{n} failing at storage call {at}/{calls} ({mode:?})");
            tr!(c, "{what}: {res:?}");
            if fired.is_none() {
                ensure!(res.is_ok(), "{what}: error {res:?} though storage did not fail");
                continue;
            }
            ensure!(res == Err(id), "{what}: result {res:?} instead of the storage error");
            c.count("storage failures injected", 1);
            c.eval(true, mix(n as u64) ^ mix(at) ^ (mode == FaultMode::After) as u64);
            if r.chance(1, 2) {
                let now = s.root_ok()?;
                ensure!(
                    now == before,
                    "{what}: the root is now {}/{} instead of {}/{}",
                    now.0,
                    hx(&now.1),
                    before.0,
                    hx(&before.1)
                );
            }
            finish(&what, &mut s, n)?;
        }
    }
    // in turn on one tree
    let mut s = grown(base, reads)?;
    let mut landed = false;
    'seq: for at in (0..calls).chain((0..calls).rev()) {
        for mode in MODES {
            let id = s.ctl.arm(at, mode);
            let res = s.push_r(*f, d)?;
            let what = format!("sum append #{n} failing repeatedly, now at call {at} ({mode:?})");
            if s.ctl.disarm().is_none() {
                ensure!(res.is_ok(), "{what}: {res:?} though storage did not fail");
                landed = true;
                break 'seq;
            }
            ensure!(res == Err(id), "{what}: result {res:?}");
            let now = s.root_ok()?;
            ensure!(now == before, "{what}: root {}/{} want {}/{}", now.0, hx(&now.1), before.0, hx(&before.1));
            c.count("storage failures injected", 1);
            c.eval(true, mix(n as u64) ^ mix(at) ^ 7 ^ (mode == FaultMode::After) as u64);
        }
    }
    finish(&format!("sum append #{n} after repeated failures"), &mut s, n + landed as usize)?;
    // root reads
    let mut s = grown(base, false)?;
    let b = s.ctl.calls();
    s.root_ok()?;
    let calls = s.ctl.calls() - b;
    for at in 0..calls {
        for mode in MODES {
            let mut s = grown(base, false)?;
            for _ in 0..2 {
                let id = s.ctl.arm(at, mode);
                let res = s.root_r()?;
                let what = format!("sum root of {n} leaves failing at storage call {at}/{calls} ({mode:?})");
                if s.ctl.disarm().is_none() {
                    ensure!(res == Ok(before), "{what}: {res:?} though storage did not fail");
                    continue;
                }
                ensure!(res == Err(id), "{what}: result {res:?} instead of the storage error");
                c.count("storage failures injected", 1);
                c.eval(true, mix(n as u64) ^ mix(at) ^ 11 ^ (mode == FaultMode::After) as u64);
            }
            if r.chance(1, 2) {
                let now = s.root_ok()?;
                ensure!(now == before, "root after a failed root read differs ({n} leaves)");
            }
            finish(&format!("after a failed root read of {n} leaves"), &mut s, n)?;
        }
    }
    Ok(())
}
pub fn c18_random(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 20 + r.us(100);
    let it = items(r, n);
    let mut s = sum_sut();
    let mut twin = sum_sut();
    let mut fails = 0;
    for (i, (f, d)) in it.iter().enumerate() {
        loop {
            let id = if r.chance(1, 2) {
                s.ctl.arm(r.below(1 + (i as u64 + 1).trailing_zeros() as u64), *r.pick(&MODES))
            } else {
                0
            };
            let res = s.push_r(*f, d)?;
            let fired = s.ctl.disarm();
            match (res, fired) {
                (Ok(()), None) => break,
                (Err(x), Some(_)) if x == id => fails += 1,
                (res, fired) => viol!("flaky storage, sum append #{i}: {res:?}, injected {fired:?}"),
            }
            if r.chance(1, 3) {
                let id = s.ctl.arm(r.below(6), *r.pick(&MODES));
                let res = s.root_r()?;
                let fired = s.ctl.disarm();
                let want = twin.root_ok()?;
                match (res, fired) {
                    (Ok(x), None) => ensure!(x == want, "flaky storage: root after failed append #{i} differs"),
                    (Err(x), Some(_)) if x == id => fails += 1,
                    (res, fired) => viol!("flaky storage, sum root: {res:?}, injected {fired:?}"),
                }
            }
        }
        twin.push_ok(*f, d)?;
        if r.chance(1, 2) {
            let (a, b) = (s.root_ok()?, twin.root_ok()?);
            ensure!(a == b, "flaky storage: root after append #{i} is {}/{} want {}/{}", a.0, hx(&a.1), b.0, hx(&b.1));
        }
    }
    let (a, b) = (s.root_ok()?, twin.root_ok()?);
    ensure!(a == b, "flaky storage: final root {}/{} want {}/{}", a.0, hx(&a.1), b.0, hx(&b.1));
    c.count("storage failures injected", fails);
    c.evalh(fails > 0, &a.1);
    c.sample(|| format!("{n} sum appends on flaky storage, {fails} injected failures"));
    Ok(())
}

// ------------------------------------------------------------------------- C29

pub fn c29_overflow(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // fees that pass 2^64-1 at a chosen append
    let n = 2 + match r.below(600) {
        0 if !c.tiny => r.us(3000),
        1..=40 if !c.tiny => r.us(300),
        _ => r.us(20),
    };
    let n = gen::new_num(r, 5000).map_or(n, |x| if r.chance(1, 20) { 2 + x as usize } else { n });
    let at = 1 + r.us(n - 1);
    c.max("largest leaf count passing the limit", n as u64);
    let mut total: u128 = 0;
    let mut s = sum_sut();
    let style = case % 6;
    for i in 0..n {
        let room = u64::MAX as u128 - total.min(u64::MAX as u128);
        let f: u64 = if i == at {
            // exceeds by 1, by a little, by a lot
            let over = match style {
                0 => 1,
                1 => 1 + r.below(5) as u128,
                _ => 1 + (r.u64() as u128),
            };
            (room + over).min(u64::MAX as u128) as u64
        } else if i < at {
            match style {
                0 | 2 => (room / (at as u128 - i as u128 + 1)) as u64,
                3 => (r.u64() as u128 % (room + 1) / 2) as u64,
                4 => {
                    if i == 0 {
                        u64::MAX
                    } else {
                        0
                    }
                }
                _ => r.below(3).min(room as u64),
            }
        } else {
            r.u64() >> r.range(0, 63)
        };
        total += f as u128;
        let d = r.bytes(2);
        tr!(c, "push fee {f}, total now {total}");
        let pushed = (s.push)(f, &d);
        match pushed {
            Err(p) => {
                ensure!(total > u64::MAX as u128, "append with total {total} panicked: {p}");
                c.count("overflows reported by panic", 1);
                c.eval(true, mix(case) ^ i as u64);
                return Ok(());
            }
            Ok(Err(_)) => {
                ensure!(total > u64::MAX as u128, "append with total {total} failed");
                c.count("overflows reported as errors", 1);
                return Ok(());
            }
            Ok(Ok(())) => {}
        }
        match (s.root)() {
            Err(p) => {
                ensure!(total > u64::MAX as u128, "root with total {total} panicked: {p}");
                c.count("overflows reported by panic", 1);
                c.eval(true, mix(case) ^ i as u64);
                return Ok(());
            }
            Ok(Err(_)) => {
                ensure!(total > u64::MAX as u128, "root with total {total} failed");
                c.count("overflows reported as errors", 1);
                return Ok(());
            }
            Ok(Ok((fee, _))) => {
                if total <= u64::MAX as u128 {
                    ensure!(fee as u128 == total, "root fee {fee}, fees total {total}");
                    c.eval(false, 0);
                } else {
                    ensure!(fee == u64::MAX, "fees total {total}, root reports {fee}");
                    c.count("overflows saturated", 1);
                    c.eval(true, mix(case) ^ i as u64);
                }
            }
        }
    }
    c.sample(|| format!("{n} appends, fees totalling {total}"));
    Ok(())
}
