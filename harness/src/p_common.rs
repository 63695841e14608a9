//! C19..C21: positions, paths, bundled map storage.

use crate::core::*;
use crate::gen;
use crate::model::*;
use fuel_merkle::common::{AsPathIterator, Node, ParentNode, Position, StorageMap};
use fuel_merkle::storage::{
    Mappable, StorageInspect, StorageInspectInfallible, StorageMutate, StorageMutateInfallible,
};
use std::collections::BTreeMap;

const TOP: u128 = u64::MAX as u128 - 1; // the largest position (2^64-1 is no node)

fn at(h: u32, idx: u128) -> Option<u64> {
    let p = idx * (1u128 << (h + 1)) + (1u128 << h) - 1;
    if p <= TOP {
        Some(p as u64)
    } else {
        None
    }
}

fn check(c: &mut Ctx, p: u64) -> R {
    let pos = Position::from_in_order_index(p);
    let (h, idx) = from_in_order(p);
    let idx = idx as u128;
    tr!(c, "position {p}: height {h}, offset {idx}");
    let q = |name: &str, f: &dyn Fn() -> u64, want: u64| -> R {
        let got = sut(&format!("Position({p}).{name}"), f)?;
        ensure!(got == want, "Position({p}).{name} = {got}, want {want} (height {h}, offset {idx})");
        Ok(())
    };
    q("in_order_index", &|| pos.in_order_index(), p)?;
    q("height", &|| pos.height() as u64, h as u64)?;
    q("is_leaf", &|| pos.is_leaf() as u64, (h == 0) as u64)?;
    q("is_node", &|| pos.is_node() as u64, (h != 0) as u64)?;
    q("Node::height", &|| Node::height(&pos) as u64, h as u64)?;
    q("Node::is_leaf", &|| Node::is_leaf(&pos) as u64, (h == 0) as u64)?;
    q("Node::is_node", &|| Node::is_node(&pos) as u64, (h != 0) as u64)?;
    if h == 0 {
        q("leaf_index", &|| pos.leaf_index(), idx as u64)?;
        q("from_leaf_index", &|| Position::from_leaf_index(idx as u64).in_order_index(), p)?;
        let k = sut("leaf_key", || Node::leaf_key(&pos))?;
        ensure!(k == (idx as u64).to_be_bytes(), "Position({p}).leaf_key() = {k:?}");
        c.count("leaf positions", 1);
    } else {
        let l = at(h - 1, 2 * idx).unwrap();
        let rr = at(h - 1, 2 * idx + 1).unwrap();
        q("left_child", &|| pos.left_child().in_order_index(), l)?;
        q("right_child", &|| pos.right_child().in_order_index(), rr)?;
        q("ParentNode::left_child", &|| ParentNode::left_child(&pos).unwrap().in_order_index(), l)?;
        q("ParentNode::right_child", &|| ParentNode::right_child(&pos).unwrap().in_order_index(), rr)?;
        q("left_child().parent", &|| pos.left_child().parent().in_order_index(), p)?;
        q("right_child().parent", &|| pos.right_child().parent().in_order_index(), p)?;
        q("left_child().sibling", &|| pos.left_child().sibling().in_order_index(), rr)?;
        q("right_child().sibling", &|| pos.right_child().sibling().in_order_index(), l)?;
        c.count("inner positions", 1);
    }
    if let Some(s) = at(h, idx ^ 1) {
        q("sibling", &|| pos.sibling().in_order_index(), s)?;
        q("sibling().sibling", &|| pos.sibling().sibling().in_order_index(), p)?;
        c.count("siblings", 1);
    }
    if h < 63 {
        if let Some(par) = at(h + 1, idx / 2) {
            q("parent", &|| pos.parent().in_order_index(), par)?;
            c.count("parents", 1);
            if let Some(u) = at(h + 1, (idx / 2) ^ 1) {
                q("uncle", &|| pos.uncle().in_order_index(), u)?;
                c.count("uncles", 1);
            }
            // descending again on the right side
            let back = sut("child of parent", || {
                let par = pos.parent();
                if idx % 2 == 0 {
                    par.left_child()
                } else {
                    par.right_child()
                }
                .in_order_index()
            })?;
            ensure!(back == p, "child of Position({p}).parent() is {back}");
        }
    }
    ensure!(
        (pos == Position::from_in_order_index(p)) && pos != Position::from_in_order_index(p ^ 1),
        "equality of positions is wrong at {p}"
    );
    c.eval(h > 0 || idx > 0, p);
    c.max("largest position", p);
    Ok(())
}

pub fn c19_dense(c: &mut Ctx, _r: &mut Rng, case: u64) -> R {
    // 2^10 consecutive positions per case
    for p in case << 10..(case + 1) << 10 {
        check(c, p)?;
    }
    c.sample(|| format!("positions {}..{}", case << 10, (case + 1) << 10));
    Ok(())
}
pub fn c19_structured(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    for _ in 0..400 {
        let p: u128 = match r.below(7) {
            0 if r.chance(1, 2) => gen::lit_num(r).map_or(0, |n| n as u128 + r.below(2) as u128),
            // any height, any offset
            0 | 1 => {
                let h = r.below(64) as u32;
                let idx = r.u64() as u128 & ((1u128 << (63 - h)) - 1);
                (idx << (h + 1)) + (1u128 << h) - 1
            }
            2 => {
                let h = r.below(64) as u32;
                let last = (1u128 << (63 - h)) - 1;
                let idx = last.saturating_sub(r.below(3) as u128);
                (idx << (h + 1)) + (1u128 << h) - 1
            }
            3 => (1u128 << r.below(64)) + r.below(5) as u128,
            4 => ((1u128 << r.range(1, 64)) - 1).saturating_sub(r.below(5) as u128),
            5 => TOP - r.below(2000) as u128,
            _ => {
                let s = r.below(64);
                (r.u64() >> s) as u128
            }
        };
        if p <= TOP && (p as u64) != u64::MAX {
            check(c, p as u64)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------- C20

fn check_path(c: &mut Ctx, i: u64, n: u64) -> R {
    let want = range_path(i, n);
    let got: Vec<(u64, u64)> = sut(&format!("path to leaf {i} of {n}"), || {
        Position::from_in_order_index(want[0].0)
            .path(&Position::from_leaf_index(i), n)
            .iter()
            .take(400)
            .map(|(a, b)| (a.in_order_index(), b.in_order_index()))
            .collect()
    })?;
    ensure!(
        got == want,
        "path to leaf {i} of {n} leaves: got {:?}, want {:?}",
        &got[..got.len().min(70)],
        want
    );
    c.eval(n > 1, mix(n) ^ i);
    c.count("path steps compared", got.len() as u64);
    Ok(())
}
pub fn c20_pairs(c: &mut Ctx, _r: &mut Rng, case: u64) -> R {
    let n = case + 1;
    for i in 0..n {
        check_path(c, i, n)?;
    }
    c.count("leaf counts with all leaves", 1);
    Ok(())
}
pub fn c20_sampled(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = gen::big_count(r, 1 << 62).max(1);
    let mut idx = gen::indices(r, n, 12);
    r.shuffle(&mut idx);
    idx.truncate(80);
    for i in idx {
        check_path(c, i, n)?;
    }
    c.max("largest leaf count", n);
    c.sample(|| format!("paths in a {n}-leaf tree, e.g. to leaf 0: {:?}", range_path(0, n)));
    Ok(())
}
fn check_descent(c: &mut Ctx, h: u32, idx: u64, leaf: u64) -> R {
    let mut want = vec![];
    let top = in_order(h, idx);
    want.push((top, top));
    for hh in (0..h).rev() {
        let o = leaf >> hh;
        want.push((in_order(hh, o), in_order(hh, o ^ 1)));
    }
    let got: Vec<(u64, u64)> = sut(&format!("descent from {top} to leaf {leaf}"), || {
        Position::from_in_order_index(top)
            .as_path_iter(&Position::from_leaf_index(leaf))
            .take(400)
            .map(|(a, b)| (a.unwrap().in_order_index(), b.unwrap().in_order_index()))
            .collect()
    })?;
    ensure!(
        got == want,
        "descent from position {top} to leaf {leaf}: got {:?}, want {:?}",
        &got[..got.len().min(70)],
        want
    );
    c.eval(h > 0, mix(top) ^ leaf);
    c.count("path steps compared", got.len() as u64);
    Ok(())
}
pub fn c20_descents(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    for _ in 0..100 {
        let h = r.below(63) as u32;
        // ancestors whose subtree lies below 2^62 leaves
        let room = 62 - h.min(62);
        let idx = if room == 0 { 0 } else { r.below(1 << room) >> r.below(room as u64 + 1) };
        let off = match r.below(4) {
            0 => 0,
            1 => (1u64 << h) - 1,
            _ => r.below(1 << h),
        };
        check_descent(c, h, idx, (idx << h) + off)?;
        c.max("tallest descent", h as u64);
    }
    // small ones completely
    let h = r.below(6) as u32;
    let idx = r.below(6);
    for off in 0..1u64 << h {
        check_descent(c, h, idx, (idx << h) + off)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------- C21

#[derive(Debug)]
pub struct Narrow;
impl Mappable for Narrow {
    type Key = u8;
    type SetValue = u32;
    type GetValue = u64; // differs from the set type
}
#[derive(Debug)]
pub struct Wide;
impl Mappable for Wide {
    type Key = [u8; 32];
    type SetValue = (u32, u8, [u8; 32], [u8; 32]);
    type GetValue = (u32, u8, [u8; 32], [u8; 32]);
}
#[derive(Debug)]
pub struct Heap;
impl Mappable for Heap {
    type Key = String;
    type SetValue = Vec<u8>;
    type GetValue = Vec<u8>;
}

#[derive(Clone, Debug)]
enum How {
    Fallible,
    Infallible,
    Reference,
}

fn map_history<T, FK, FV>(c: &mut Ctx, r: &mut Rng, ops: usize, key: FK, val: FV, nkeys: u64) -> R
where
    T: Mappable,
    T::Key: Eq + std::hash::Hash + Clone + Ord + std::fmt::Debug,
    T::SetValue: Clone + Sized,
    T::GetValue: Clone + From<T::SetValue> + PartialEq + std::fmt::Debug,
    FK: Fn(&mut Rng, u64) -> T::Key,
    FV: Fn(&mut Rng, u64) -> T::SetValue,
{
    let ks: Vec<T::Key> = (0..nkeys).map(|i| key(r, i)).collect();
    let mut s: StorageMap<T> = if r.chance(1, 2) { StorageMap::new() } else { StorageMap::default() };
    let mut m: BTreeMap<T::Key, T::GetValue> = BTreeMap::new();
    let e = |_: std::convert::Infallible| Violation { msg: "infallible storage failed".into() };
    // 0: any mix; 1: fill, then drain down to nothing, again and again
    let vast = nkeys > 10_000;
    let style = if vast { nkeys % 2 } else { r.below(2) };
    let mut draining = false;
    let mut top = 0;
    for i in 0..ops {
        let mut k = r.pick(&ks).clone();
        let mut op = r.below(10);
        if style == 1 {
            if draining {
                match m.len() {
                    0 => draining = false,
                    n => {
                        // mostly remove what is there; dwell a little near the end
                        op = if n <= 2 && r.chance(1, 3) { 9 } else { 4 };
                        let probe = m.range(k.clone()..).next().or_else(|| m.iter().next());
                        k = probe.map(|x| x.0.clone()).unwrap_or(k);
                    }
                }
            } else {
                op = if r.chance(7, 8) { 0 } else { 4 };
                draining = m.len() as u64 == nkeys || r.chance(1, 4 * nkeys) || vast && m.len() as u64 * 20 > nkeys * 17;
                if draining {
                    c.count("drains started", 1);
                    c.max("largest map drained", m.len() as u64);
                }
            }
        }
        let how = match r.below(3) {
            0 => How::Fallible,
            1 => How::Infallible,
            _ => How::Reference,
        };
        match op {
            0..=3 => {
                let v = val(r, i as u64);
                let want = m.insert(k.clone(), v.clone().into());
                let got = sut("insert", || match how {
                    How::Fallible => StorageMutate::<T>::insert(&mut s, &k, &v),
                    How::Infallible => Ok(StorageMutateInfallible::<T>::insert(&mut s, &k, &v)),
                    How::Reference => <&mut StorageMap<T> as StorageMutate<T>>::insert(&mut &mut s, &k, &v),
                })?
                .map_err(e)?;
                tr!(c, "#{i} insert({k:?}) [{how:?}] -> {got:?}");
                ensure!(got == want, "#{i} insert({k:?}) [{how:?}] returned {got:?}, previous value was {want:?}");
            }
            4 | 5 => {
                let want = m.remove(&k);
                let got = sut("remove", || match how {
                    How::Fallible => StorageMutate::<T>::remove(&mut s, &k),
                    How::Infallible => Ok(StorageMutateInfallible::<T>::remove(&mut s, &k)),
                    How::Reference => <&mut StorageMap<T> as StorageMutate<T>>::remove(&mut &mut s, &k),
                })?
                .map_err(e)?;
                tr!(c, "#{i} remove({k:?}) [{how:?}] -> {got:?}");
                ensure!(got == want, "#{i} remove({k:?}) [{how:?}] returned {got:?}, previous value was {want:?}");
            }
            _ => {}
        }
        // reads: the touched key and another one
        for k in [k, r.pick(&ks).clone()] {
            let got = sut("get", || match how {
                How::Fallible => StorageInspect::<T>::get(&s, &k).map(|o| o.map(|v| v.into_owned())),
                How::Infallible => Ok(StorageInspectInfallible::<T>::get(&s, &k).map(|v| v.into_owned())),
                How::Reference => <&StorageMap<T> as StorageInspect<T>>::get(&&s, &k).map(|o| o.map(|v| v.into_owned())),
            })?
            .map_err(e)?;
            let want = m.get(&k).cloned();
            ensure!(got == want, "#{i} get({k:?}) [{how:?}] returned {got:?}, want {want:?}");
            let got = sut("contains_key", || match how {
                How::Fallible => StorageInspect::<T>::contains_key(&s, &k),
                How::Infallible => Ok(StorageInspectInfallible::<T>::contains_key(&s, &k)),
                How::Reference => <&StorageMap<T> as StorageInspect<T>>::contains_key(&&s, &k),
            })?
            .map_err(e)?;
            ensure!(got == want.is_some(), "#{i} contains_key({k:?}) [{how:?}] returned {got}");
        }
        top = top.max(m.len());
        c.eval(m.len() > 1, mix(i as u64) ^ m.len() as u64 ^ r.u64());
    }
    // everything, once more
    for k in &ks {
        let got = StorageInspectInfallible::<T>::get(&s, k).map(|v| v.into_owned());
        ensure!(got == m.get(k).cloned(), "final get({k:?}) returned {got:?}, want {:?}", m.get(k));
    }
    c.max("largest map", top as u64);
    Ok(())
}
pub fn c21_few(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 1 + r.below(6);
    c.sample(|| format!("200 operations on {n} keys, values unique"));
    match r.below(3) {
        0 => map_history::<Narrow, _, _>(c, r, 200, |_, i| i as u8, |_, i| i as u32, n),
        1 => map_history::<Wide, _, _>(
            c,
            r,
            200,
            |r, i| if i == 0 { ZERO } else if i == 1 { gen::ONES } else { r.h() },
            |r, i| (i as u32, r.u64() as u8, r.h(), ZERO),
            n,
        ),
        _ => map_history::<Heap, _, _>(c, r, 200, |_, i| "k".repeat(i as usize), |_, i| i.to_le_bytes().to_vec(), n),
    }
}
pub fn c21_many(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    if case < 4 {
        // tens of thousands of entries, crossing 2^16; then hundreds of thousands, crossing 2^17
        let n = match case {
            0 | 1 => 110_000 + 2 * r.below(4000) + case % 2,
            2 => 330_000 + r.below(8000),
            _ => 760_000 + r.below(8000),
        };
        return map_history::<Wide, _, _>(
            c,
            r,
            match case {
                0 | 1 => if c.thorough { 1_200_000 } else { 400_000 },
                2 => if c.thorough { 3_000_000 } else { 1_200_000 },
                _ => if c.thorough { 8_000_000 } else { 2_400_000 },
            },
            |_, i| vhash(&i.to_be_bytes()),
            |r, i| (i as u32, 1, r.h(), ZERO),
            n,
        );
    }
    if case < 8 {
        // sizes around a new constant of the source
        if let Some(x) = gen::new_num(r, 1_500_000).filter(|x| *x > 1000) {
            let n = x * 8 / 5;
            return map_history::<Wide, _, _>(c, r, n as usize * 3, |_, i| vhash(&i.to_be_bytes()), |r, i| (i as u32, 1, r.h(), ZERO), n);
        }
    }
    match r.below(3) {
        0 => map_history::<Narrow, _, _>(c, r, 3000, |_, i| i as u8, |_, i| i as u32, 256),
        1 => map_history::<Wide, _, _>(
            c,
            r,
            9000,
            |_, i| vhash(&i.to_be_bytes()),
            |r, i| (i as u32, 0, r.h(), ZERO),
            3000,
        ),
        _ => map_history::<Heap, _, _>(
            c,
            r,
            3000,
            |_, i| format!("{i}"),
            |_, i| vec![i as u8; (i % 300) as usize],
            700,
        ),
    }
}
#[allow(unused)]
fn unused() -> R {
    viol!("")
}
