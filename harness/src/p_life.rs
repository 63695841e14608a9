//! Long lives: tens of thousands of operations, reads, refusals or failures on
//! one instance, so that nothing may depend on how many came before.

use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::p_binary::{self as pb, BStore, BE};
use crate::p_sparse::{self as ps, Gen, Op, SStore, SE};
use crate::p_sum::{self as pm, sum_sut};
use fuel_merkle::{binary, sparse};

const MODES: [FaultMode; 2] = [FaultMode::Before, FaultMode::After];

/// operations of one life; past 2^16, and a varying part
fn span(c: &Ctx, r: &mut Rng, base: usize) -> usize {
    if c.tiny {
        return 40;
    }
    let n = base + r.us(base / 8 + 1);
    if c.thorough && n < 1_000_000 { 3 * n } else { n }
}

fn pool_of(r: &mut Rng, case: u64) -> Gen {
    let n = [12usize, 120, 400, 40][case as usize % 4];
    let mut g = Gen::new(r, n);
    if g.pool.len() < n / 2 {
        let f = *r.pick(&[0u64, 1, 10]);
        g.pool = gen::keys(r, f, n);
    }
    // deep paths make every operation two hundred levels long
    if g.pool.len() > 60 || case % 2 == 0 {
        for k in g.pool.iter_mut() {
            if r.chance(7, 8) {
                *k = vhash(&k[..]);
            }
        }
    }
    g.del_pct = *r.pick(&[30u64, 45, 50]);
    g
}

// ------------------------------------------------------------------ binary tree

pub fn c02_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = *r.pick(&[1u64, 3, 7, 64, 100, 255, 1000]) + r.below(3);
    let ls = pb::leaves(r, n as usize);
    let (t, _s, m) = pb::build(&ls)?;
    let root = m.root();
    let k = span(c, r, [1_100_000, 70_000, 140_000][case as usize % 3]);
    for j in 0..k {
        let i = r.below(n);
        if let Err(e) = pb::check_proof(&t, &m, i, n, &root) {
            viol!("proof number {} of one tree: {}", j + 1, e.msg);
        }
    }
    c.count("proofs of one tree", k as u64);
    c.max("most proofs of one tree", k as u64);
    c.eval(n > 1, mix(n) ^ mix(k as u64) ^ h64(&root));
    c.sample(|| format!("{k} proofs of one {n}-leaf tree"));
    Ok(())
}

pub fn c03_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = r.below(70);
    let ls = pb::leaves(r, n as usize + 4);
    let (mut t, _s, m) = pb::build(&ls[..n as usize])?;
    let mut mem = sut("in-memory new", binary::in_memory::MerkleTree::new)?;
    for d in &ls[..n as usize] {
        sut("in-memory push", || mem.push(d))?;
    }
    let k = span(c, r, if case % 8 == 0 { 1_100_000 } else { 140_000 });
    for j in 0..k {
        let i = match r.below(4) {
            0 => n,
            1 => n + r.below(4),
            2 => u64::MAX - r.below(3),
            _ => (r.u64() >> r.below(60)).max(n),
        };
        match pb::bprove(&t, i)? {
            Err(BE::Invalid(x)) if x == i => {}
            other => viol!("refusal number {} of one tree: prove({i}) of {n} leaves gave {other:?}", j + 1),
        }
        if j % 2 == 0 {
            let got = sut("in-memory prove", || mem.prove(i))?;
            ensure!(got.is_none(), "call number {}: in-memory prove({i}) of {n} leaves returned a proof", j + 1);
        }
        if j % 1009 == 0 {
            ensure!(pb::broot(&t)? == m.root(), "root changed after {} refused proofs", j + 1);
        }
    }
    for i in 0..n {
        pb::check_proof(&t, &m, i, n, &m.root())?;
    }
    let mut m = m;
    for d in &ls[n as usize..] {
        pb::ok("push", pb::bpush(&mut t, d)?)?;
        sut("in-memory push", || mem.push(d))?;
        m.push(d);
        ensure!(pb::broot(&t)? == m.root(), "append after {k} refused proofs: wrong root");
        ensure!(sut("in-memory root", || mem.root())? == m.root(), "append after {k} refused in-memory proofs: wrong root");
    }
    c.max("most refusals of one tree", k as u64);
    c.eval(true, mix(n) ^ mix(k as u64) ^ h64(&m.root()));
    Ok(())
}

/// One tree on a storage that keeps losing an entry and getting it back.
pub fn c06_life(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = 2 + r.below(60);
    let ls = pb::leaves(r, n as usize);
    let (mut t, st, mut seq) = pb::build(&ls)?;
    let k = span(c, r, 70_000);
    let (mut bad, mut good) = (0u64, 0u64);
    for j in 0..k {
        let n = seq.len();
        let ks = 2 * n - 1;
        let key = r.below(ks);
        let gone = st.map.borrow_mut().remove(&key);
        let i = r.below(n);
        match pb::bprove(&t, i)? {
            Ok((pr, p)) => {
                ensure!(
                    pr == seq.root() && p == seq.proof_at(i, n),
                    "proof number {} of one tree, entry {key} of {n} leaves missing: wrong proof for {i}",
                    j + 1
                );
                good += 1;
            }
            Err(BE::Load(_)) => {
                ensure!(gone.is_some(), "proof number {} of one tree: refused on intact storage", j + 1);
                bad += 1;
            }
            Err(e) => viol!("proof number {} of one tree, entry {key} missing: {e:?}", j + 1),
        }
        if j % 3 == 0 {
            let m = r.below(n + 3);
            match pb::bload(st.clone(), m)? {
                Ok(t2) => ensure!(
                    m <= n && pb::broot(&t2)? == seq.root_at(m),
                    "restore number {} from one storage, entry {key} of {n} leaves missing: load({m}) gave a wrong tree",
                    j + 1
                ),
                Err(BE::Load(_)) => {
                    ensure!(m > n || gone.is_some(), "restore number {}: load({m}) refused on intact storage", j + 1);
                    bad += 1;
                }
                Err(e) => viol!("restore number {}, load({m}): {e:?}", j + 1),
            }
        }
        if j % 4099 == 4000 {
            let d = gen::data(r, &[]);
            pb::ok("push", pb::bpush(&mut t, &d)?)?;
            seq.push(&d);
        }
        if j % 503 == 0 {
            ensure!(pb::broot(&t)? == seq.root(), "root changed after {} proofs on incomplete storage", j + 1);
        }
        if let Some(v) = gone {
            st.map.borrow_mut().insert(key, v);
        }
    }
    c.count("loads refused", bad);
    c.count("correct proofs on incomplete storage", good);
    c.max("most refusals of one tree", bad);
    c.eval(true, mix(n) ^ mix(bad) ^ h64(&seq.root()));
    Ok(())
}

/// One tree that fails tens of thousands of times.
pub fn c07_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n0 = [0u64, 3, 7, 15, 20, 31, 63, 100][case as usize % 8];
    let ls = pb::leaves(r, n0 as usize);
    let (mut t, st, mut seq) = pb::build(&ls)?;
    let k = span(c, r, if case % 8 == 1 { 1_100_000 } else { 70_000 });
    let mut fails = 0u64;
    for j in 0..k {
        let n = seq.len();
        let calls = 1 + (n + 1).trailing_zeros() as u64;
        let d = [j as u8, (j >> 8) as u8, (j >> 16) as u8];
        let read = n > 0 && r.chance(1, 4);
        let id = st.ctl.arm(r.below(calls), *r.pick(&MODES));
        let res = if read {
            pb::bprove(&t, r.below(n))?.map(|_| ())
        } else {
            pb::bpush(&mut t, &d)?
        };
        let fired = st.ctl.disarm();
        match (&res, fired) {
            (Err(BE::Storage(x)), Some(_)) if *x == id => fails += 1,
            (Ok(()), None) => {
                if !read {
                    seq.push(&d);
                }
            }
            _ => viol!("operation number {} of one tree ({fails} failures so far): {res:?}, injected {fired:?}", j + 1),
        }
        ensure!(
            pb::broot(&t)? == seq.root(),
            "root of {} leaves after {fails} failures of one tree is {} want {}",
            seq.len(),
            hx(&pb::broot(&t)?),
            hx(&seq.root())
        );
        if j % 211 == 0 && seq.len() > 0 {
            let i = r.below(seq.len());
            pb::check_proof(&t, &seq, i, seq.len(), &seq.root())?;
        }
        if j % 401 == 0 && seq.len() < 150 {
            // a success in between
            pb::ok("push", pb::bpush(&mut t, &d)?)?;
            seq.push(&d);
        }
    }
    let n = seq.len();
    for i in gen::indices(r, n.max(1), 3) {
        if i < n {
            pb::check_proof(&t, &seq, i, n, &seq.root())?;
        }
    }
    let q = r.below(n + 1);
    let t2 = pb::ok("load", pb::bload(st.clone(), q)?)?;
    ensure!(pb::broot(&t2)? == seq.root_at(q), "restored at {q} after {fails} failures of one tree: wrong root");
    c.count("storage failures injected", fails);
    c.max("most failures of one tree", fails);
    c.eval(true, mix(n) ^ mix(fails) ^ h64(&seq.root()));
    c.sample(|| format!("{k} operations on one tree, {fails} failures injected, {n} leaves at the end"));
    Ok(())
}

// ------------------------------------------------------------------ sparse tree

pub fn c08_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let g = pool_of(r, case);
    let mut t = ps::snew(SStore::new())?;
    let mut m = Map::new();
    let k = span(c, r, if case % 8 == 0 { 1_100_000 } else if case % 2 == 0 { 140_000 } else { 72_000 });
    let every = if g.pool.len() > 60 { 97 } else { 7 };
    for i in 0..k {
        let op = g.op(r, &m);
        op.run(&mut t)?;
        op.model(&mut m);
        // around powers of two every operation
        let near = (i + 2) & ((1 << 10) - 1) < 4;
        if near || i % every == 0 || i + 1 == k {
            let (got, want) = (ps::sroot_of(&t)?, sroot(&m));
            ensure!(
                got == want,
                "at operation {} of one tree, {} ({} keys): root {} want {}",
                i + 1,
                op.show(),
                m.len(),
                hx(&got),
                hx(&want)
            );
            c.evalh(m.len() > 1, &got);
        }
    }
    c.max("most operations on one tree", k as u64);
    c.sample(|| format!("{k} operations on one tree over {} keys", g.pool.len()));
    Ok(())
}

pub fn c09_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let g = pool_of(r, case);
    let mut t = ps::snew(SStore::new())?;
    let mut m = Map::new();
    for k in &g.pool {
        if r.chance(1, 2) {
            let op = Op::Up(*k, gen::nonempty(r, &[]));
            op.run(&mut t)?;
            op.model(&mut m);
        }
    }
    let root = ps::sroot_of(&t)?;
    let k = span(c, r, if case % 8 == 0 { 1_100_000 } else { 72_000 });
    for i in 0..k {
        let key = *r.pick(&g.pool);
        let x = if m.contains_key(&key) { vhash(&key) } else { key };
        let del = |r: &mut Rng| if r.chance(1, 3) { Op::UpEmpty(x) } else { Op::Del(x) };
        if i % 2 == 0 {
            Op::Up(x, vec![i as u8, 1]).run(&mut t)?;
            del(r).run(&mut t)?;
            c.count("insert-delete round trips", 1);
        } else {
            del(r).run(&mut t)?;
            c.count("deletes of absent keys", 1);
        }
        let now = ps::sroot_of(&t)?;
        ensure!(
            now == root,
            "number {} on one tree: {} of a key that stays absent changed the root from {} to {}",
            i + 1,
            if i % 2 == 0 { "insert and delete" } else { "delete" },
            hx(&root),
            hx(&now)
        );
    }
    c.max("most operations on one tree", k as u64);
    c.eval(true, h64(&root) ^ k as u64);
    Ok(())
}

pub fn c11_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let g = pool_of(r, case);
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    let mut m = Map::new();
    let k = span(c, r, 70_000);
    let every = if g.pool.len() > 60 { 331 } else { 29 };
    for i in 0..k {
        let op = g.op(r, &m);
        op.run(&mut t)?;
        op.model(&mut m);
        let near = (i + 2) & ((1 << 12) - 1) < 4;
        if near || i % every == 0 || i + 1 == k {
            let root = ps::sroot_of(&t)?;
            let (leaves, nodes) = ps::walk(&st.map.borrow(), &root, &format!("operation {} of one tree", i + 1))?;
            ensure!(leaves == m, "operation {} of one tree: the stored tree holds other pairs than expected", i + 1);
            c.count("stored nodes walked", nodes);
            c.evalh(m.len() > 1, &root);
        }
    }
    c.max("most operations on one tree", k as u64);
    Ok(())
}

pub fn c12_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let g = pool_of(r, case);
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    let mut here: Vec<H> = vec![];
    let k = span(c, r, if case % 8 == 0 { 270_000 } else { 70_000 });
    let mut dels = 0u64;
    let cap = 1 + g.pool.len() / 2;
    while dels < k as u64 {
        let key = *r.pick(&g.pool);
        let at = here.iter().position(|x| *x == key);
        if at.is_none() && (here.len() < cap || r.chance(1, 3)) {
            Op::Up(key, vec![dels as u8, r.u64() as u8]).run(&mut t)?;
            here.push(key);
            continue;
        }
        if here.is_empty() {
            continue;
        }
        let at = at.unwrap_or_else(|| r.us(here.len()));
        let key = here.swap_remove(at);
        let root = ps::sroot_of(&t)?;
        let path = match ps::stored_path(&st.map.borrow(), &root, &key) {
            Some(p) => p,
            None => viol!("delete number {} of one tree: the key's path is not stored", dels + 1),
        };
        let op = if r.chance(1, 4) { Op::UpEmpty(key) } else { Op::Del(key) };
        op.run(&mut t)?;
        dels += 1;
        let map = st.map.borrow();
        for (d, h) in path.iter().enumerate() {
            ensure!(
                !map.contains_key(h),
                "{}, delete number {dels} of one tree: node {} at depth {d} of the deleted key's path is still stored",
                op.show(),
                hx(h)
            );
        }
        c.count("deletes of present keys", 1);
        c.count("path nodes checked gone", path.len() as u64);
    }
    c.max("most deletes on one tree", dels);
    c.eval(true, h64(&ps::sroot_of(&t)?));
    Ok(())
}

pub fn c13_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let mut g = pool_of(r, 0);
    g.pool.truncate(if case % 2 == 0 { 6 } else { 14 });
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    let mut m = Map::new();
    let k = span(c, r, if case % 8 == 0 { 120_000 } else { 36_000 });
    let mut fails = 0u64;
    for i in 0..k {
        let op = g.op(r, &m);
        let mut m2 = m.clone();
        op.model(&mut m2);
        let (before, after) = (sroot(&m), sroot(&m2));
        let id = st.ctl.arm(r.below(8), *r.pick(&MODES));
        let res = op.apply(&mut t)?;
        let fired = st.ctl.disarm();
        let what = || format!("operation number {} of one tree, {} ({fails} failures before)", i + 1, op.show());
        match (&res, fired) {
            (Ok(()), None) => {
                m = m2;
                ensure!(ps::sroot_of(&t)? == after, "{}: wrong root", what());
            }
            (Err(SE::Storage(x)), Some(_)) if *x == id => {
                let w = what();
                fails += 1;
                if ps::c13_state(&w, &t, &st, (&before, &m), (&after, &m2))? {
                    m = m2;
                }
            }
            _ => viol!("{}: result {res:?}, injected: {fired:?}", what()),
        }
    }
    c.count("storage failures injected", fails);
    c.max("most failures of one tree", fails);
    c.eval(true, map_key(&m) ^ fails);
    c.sample(|| format!("{k} operations on one tree, {fails} failures injected"));
    Ok(())
}

/// One tree on a storage where a node goes bad and is repaired, again and again.
pub fn c14_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let mut g = pool_of(r, 0);
    g.pool.truncate(if case % 2 == 0 { 6 } else { 14 });
    let st = SStore::new();
    let mut t = ps::snew(st.clone())?;
    let mut m = Map::new();
    for k in &g.pool {
        let op = Op::Up(*k, gen::nonempty(r, &g.pool));
        op.run(&mut t)?;
        op.model(&mut m);
    }
    let k = span(c, r, if case % 8 == 0 { 140_000 } else { 30_000 });
    let (mut refused, mut good) = (0u64, 0u64);
    for i in 0..k {
        let (root, nodes) = snodes(&m);
        let mut hit = None;
        if !nodes.is_empty() && r.chance(5, 6) {
            let mut all: Vec<H> = nodes.keys().copied().collect();
            all.sort();
            let h = *r.pick(&all);
            let old = st.map.borrow()[&h];
            ps::damage(&st, &h, r);
            hit = Some((h, old));
        }
        let op = g.op(r, &m);
        let res = op.apply(&mut t)?;
        let now = ps::sroot_of(&t)?;
        let what = || format!("operation number {} of one tree, {} ({refused} refused before)", i + 1, op.show());
        match res {
            Ok(()) => {
                op.model(&mut m);
                ensure!(now == sroot(&m), "{}: reported success with root {} instead of {}", what(), hx(&now), hx(&sroot(&m)));
                good += 1;
            }
            Err(e) => {
                ensure!(hit.is_some(), "{}: {e:?} on intact storage", what());
                ensure!(matches!(e, SE::Child | SE::Load | SE::Deser), "{}: reported {e:?}", what());
                ensure!(now == root, "{}: failed and changed the root", what());
                refused += 1;
            }
        }
        if let Some((h, old)) = hit {
            st.map.borrow_mut().insert(h, old);
        }
    }
    c.count("nodes damaged", k as u64);
    c.count("operations with the correct result", good);
    c.count("operations refused", refused);
    c.max("most refusals of one tree", refused);
    c.eval(true, map_key(&m) ^ refused);
    Ok(())
}

// --------------------------------------------------------------------- sum tree

pub fn c18_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n0 = [0usize, 3, 7, 15, 20, 31, 63, 100][case as usize % 8];
    let (mut s, mut twin) = (sum_sut(), sum_sut());
    for i in 0..n0 {
        s.push_ok(i as u64, &[i as u8])?;
        twin.push_ok(i as u64, &[i as u8])?;
    }
    let mut n = n0;
    let mut want = twin.root_ok()?;
    let k = span(c, r, if case % 8 == 1 { 1_100_000 } else { 70_000 });
    let mut fails = 0u64;
    for j in 0..k {
        let calls = 1 + (n as u64 + 1).trailing_zeros() as u64;
        let read = r.chance(1, 4);
        let (f, d) = (j as u64 & 0xffff, [j as u8, (j >> 8) as u8]);
        let id = s.ctl.arm(r.below(calls), *r.pick(&MODES));
        let res = if read { s.root_r()?.map(Some) } else { s.push_r(f, &d)?.map(|_| None) };
        let fired = s.ctl.disarm();
        match (&res, fired) {
            (Err(x), Some(_)) if *x == id => fails += 1,
            (Ok(None), None) => {
                twin.push_ok(f, &d)?;
                n += 1;
                want = twin.root_ok()?;
            }
            (Ok(Some(x)), None) => ensure!(*x == want, "sum root read number {}: {x:?} want {want:?}", j + 1),
            _ => viol!("operation number {} of one sum tree ({fails} failures so far): {res:?}, injected {fired:?}", j + 1),
        }
        let now = s.root_ok()?;
        ensure!(
            now == want,
            "sum root of {n} leaves after {fails} failures of one tree is {}/{} want {}/{}",
            now.0,
            hx(&now.1),
            want.0,
            hx(&want.1)
        );
        if j % 401 == 0 && n < 150 {
            s.push_ok(f, &d)?;
            twin.push_ok(f, &d)?;
            n += 1;
            want = twin.root_ok()?;
        }
    }
    c.count("storage failures injected", fails);
    c.max("most failures of one tree", fails);
    c.evalh(true, &want.1);
    Ok(())
}

// ------------------------------------------------------------------ all of them

pub fn c22_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = span(c, r, if case % 8 < 2 { 1_100_000 } else { 70_000 });
    if case % 2 == 0 {
        let mut mem = sut("in-memory new", sparse::in_memory::MerkleTree::new)?;
        let mut back = ps::snew(SStore::new())?;
        let g = pool_of(r, case / 2);
        let mut m = Map::new();
        for i in 0..k {
            let op = g.op(r, &m);
            op.model(&mut m);
            sut("in-memory operation", || match &op {
                Op::Up(k, d) => mem.update(k, d),
                Op::UpEmpty(k) => mem.update(k, &[]),
                Op::Del(k) => mem.delete(k),
            })?;
            op.run(&mut back)?;
            let (a, b) = (sut("in-memory root", || mem.root())?, ps::sroot_of(&back)?);
            ensure!(
                a == b,
                "operation number {} of one tree, {}: in-memory root {}, storage-backed {}",
                i + 1,
                op.show(),
                hx(&a),
                hx(&b)
            );
            c.count("sparse roots compared", 1);
        }
        c.eval(true, map_key(&m) ^ k as u64);
    } else {
        let mut mem = sut("in-memory new", binary::in_memory::MerkleTree::new)?;
        let mut back = pb::bnew(BStore::new())?;
        let mut n = 0u64;
        for i in 0..k {
            let d = [i as u8, (i >> 8) as u8, (i >> 16) as u8, case as u8];
            if n == 0 || case % 4 == 1 || i % 64 == 0 {
                sut("in-memory push", || mem.push(&d))?;
                pb::ok("push", pb::bpush(&mut back, &d)?)?;
                n += 1;
            }
            let j = r.below(n + 1);
            let (a, b) = (sut("in-memory prove", || mem.prove(j))?, pb::bprove(&back, j)?.ok());
            ensure!(a == b, "call number {} of one tree: prove({j}) with {n} leaves: in-memory {a:?}, storage-backed {b:?}", i + 1);
            c.count(if b.is_some() { "proofs compared" } else { "refusals compared" }, 1);
            let (a, b) = (sut("in-memory root", || mem.root())?, pb::broot(&back)?);
            ensure!(a == b, "call number {} of one tree: root of {n} leaves: in-memory {}, storage-backed {}", i + 1, hx(&a), hx(&b));
        }
        c.max("largest leaf count", n);
        c.evalh(true, &pb::broot(&back)?);
    }
    c.max("most operations on one tree", k as u64);
    Ok(())
}

/// Reads by the ten thousand, then the same life without them.
pub fn c26_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = span(c, r, if case % 9 < 3 { 1_100_000 } else { 140_000 });
    match case % 3 {
        0 => {
            let n = 1 + r.us(90);
            let ls = pb::leaves(r, n + 5);
            let (mut a, sa, _) = pb::build(&ls[..n])?;
            let (mut b, _sb, _) = pb::build(&ls[..n])?;
            let root = pb::broot(&a)?;
            let proofs = (0..n as u64).map(|i| pb::bprove(&b, i)).collect::<R<Vec<_>>>()?;
            let w = sa.ctl.writes();
            for j in 0..k {
                let x = pb::broot(&a)?;
                ensure!(x == root, "root read number {} of one tree is {} want {}", j + 1, hx(&x), hx(&root));
                if j % 2 == 0 {
                    let i = r.us(n);
                    ensure!(pb::bprove(&a, i as u64)? == proofs[i], "proof number {} of one tree differs from its twin's", j / 2 + 1);
                }
            }
            ensure!(sa.ctl.writes() == w, "{k} reads made {} storage writes", sa.ctl.writes() - w);
            for d in &ls[n..] {
                pb::ok("push", pb::bpush(&mut a, d)?)?;
                pb::ok("push", pb::bpush(&mut b, d)?)?;
                ensure!(pb::broot(&a)? == pb::broot(&b)?, "append after {k} reads: another root than without them");
            }
            c.evalh(true, &pb::broot(&a)?);
        }
        1 => {
            let g = pool_of(r, case);
            let (sa, sb) = (SStore::new(), SStore::new());
            let (mut a, mut b) = (ps::snew(sa.clone())?, ps::snew(sb.clone())?);
            let mut m = Map::new();
            let mut op = |a: &mut ps::ST<SStore>, b: &mut ps::ST<SStore>, r: &mut Rng| -> R<H> {
                let op = g.op(r, &m);
                op.model(&mut m);
                op.run(a)?;
                op.run(b)?;
                ps::sroot_of(b)
            };
            let mut root = ZERO;
            for _ in 0..30 {
                root = op(&mut a, &mut b, r)?;
            }
            let mut w = sa.ctl.writes();
            for j in 0..k {
                let x = ps::sroot_of(&a)?;
                ensure!(x == root, "root read number {} of one tree is {} want {}", j + 1, hx(&x), hx(&root));
                if j % 16 == 0 {
                    let t = ps::sok("load", ps::sload(sa.clone(), &root)?)?;
                    ensure!(ps::sroot_of(&t)? == root, "opening number {}: another root", j / 16 + 1);
                }
                if j % 5003 == 5000 {
                    ensure!(sa.ctl.writes() == w, "reads made {} storage writes", sa.ctl.writes() - w);
                    root = op(&mut a, &mut b, r)?;
                    w = sa.ctl.writes();
                }
            }
            ensure!(*sa.map.borrow() == *sb.map.borrow(), "interleaved reads changed the stored entries");
            c.evalh(true, &root);
        }
        _ => {
            let n = 1 + r.us(90);
            let (mut a, mut b) = (sum_sut(), sum_sut());
            let fs = pm::fees(r, n + 5);
            for f in &fs[..n] {
                a.push_ok(*f, b"x")?;
                b.push_ok(*f, b"x")?;
            }
            let root = b.root_ok()?;
            for j in 0..k {
                let x = a.root_ok()?;
                ensure!(x == root, "sum root read number {} of one tree is {x:?} want {root:?}", j + 1);
            }
            for f in &fs[n..] {
                a.push_ok(*f, b"y")?;
                b.push_ok(*f, b"y")?;
                let (x, y) = (a.root_ok()?, b.root_ok()?);
                ensure!(x == y, "sum append after {k} root reads: {x:?} want {y:?}");
            }
            c.evalh(true, &root.1);
        }
    }
    c.count("reads", k as u64);
    c.max("most reads of one tree", k as u64);
    Ok(())
}

/// One storage, restored before every append, tens of thousands of times.
pub fn c04_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = span(c, r, if case % 8 == 0 { 140_000 } else { 20_000 });
    let st = BStore::new();
    let mut m = Seq::default();
    let mut t = pb::bnew(st.clone())?;
    let cap = [300u64, 40, 9, 2000][case as usize % 4];
    for i in 0..k {
        let d = [i as u8, (i >> 8) as u8, (i >> 16) as u8];
        // rolled back now and then, so that the tree stays small
        let at = if m.len() > cap { r.below(cap) } else { m.len() };
        t = pb::ok("load", pb::bload(st.clone(), at)?)?;
        m.truncate(at);
        ensure!(pb::broot(&t)? == m.root(), "restore number {} of one storage at {at} leaves: wrong root", i + 1);
        pb::ok("push", pb::bpush(&mut t, &d)?)?;
        m.push(&d);
        if i % 7 == 0 {
            let n = m.len();
            let j = r.below(n);
            pb::check_proof(&t, &m, j, n, &m.root())?;
        }
    }
    ensure!(pb::broot(&t)? == m.root(), "after {k} restores of one storage: wrong root");
    c.count("rollback-and-replay", k as u64 / cap);
    c.max("most restores of one storage", k as u64);
    c.evalh(true, &m.root());
    Ok(())
}

/// One storage, opened before every operation, tens of thousands of times.
pub fn c10_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let mut g = pool_of(r, 0);
    if case % 2 == 0 {
        g.pool.truncate(6);
    }
    let st = SStore::new();
    let mut m = Map::new();
    let k = span(c, r, if case % 8 == 0 { 140_000 } else { 20_000 });
    for i in 0..k {
        let root = sroot(&m);
        let mut t = ps::sok("load", ps::sload(st.clone(), &root)?)?;
        ensure!(ps::sroot_of(&t)? == root, "opening number {} of one storage: root {} want {}", i + 1, hx(&ps::sroot_of(&t)?), hx(&root));
        for _ in 0..1 + i % 2 {
            let op = g.op(r, &m);
            op.run(&mut t)?;
            op.model(&mut m);
            let now = ps::sroot_of(&t)?;
            ensure!(now == sroot(&m), "opening number {} of one storage, then {}: root {} want {}", i + 1, op.show(), hx(&now), hx(&sroot(&m)));
        }
    }
    c.max("most openings of one storage", k as u64);
    c.eval(true, map_key(&m) ^ k as u64);
    Ok(())
}

/// The accesses of an operation do not grow with the number of earlier ones.
pub fn c30_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = span(c, r, if case % 8 < 3 { 140_000 } else { 20_000 });
    let over = |what: &str, i: usize, used: u64, bound: u64| -> R {
        ensure!(used <= bound, "{what}, number {} on one tree, made {used} storage accesses; the bound for its height is {bound}", i + 1);
        Ok(())
    };
    match case % 3 {
        0 => {
            let st = BStore::new();
            let mut t = pb::bnew(st.clone())?;
            let mut n = 0u64;
            for i in 0..k {
                let bound = 4 * (64 - (n + 1).leading_zeros() as u64 + 2) + 8;
                let a = st.ctl.calls();
                match r.below(4) {
                    0 => {
                        let _ = pb::broot(&t)?;
                    }
                    1 => {
                        let _ = pb::bprove(&t, r.below(n + 1))?;
                    }
                    _ => {
                        pb::ok("push", pb::bpush(&mut t, &[i as u8])?)?;
                        n += 1;
                    }
                }
                over("a binary operation", i, st.ctl.calls() - a, bound)?;
                if i % 509 == 0 && n > 100 {
                    t = pb::ok("load", pb::bload(st.clone(), 20)?)?;
                    n = 20;
                }
            }
            c.eval(true, mix(n) ^ k as u64);
        }
        1 => {
            let mut g = pool_of(r, 2);
            g.pool.truncate(40);
            let st = SStore::new();
            let mut t = ps::snew(st.clone())?;
            let mut m = Map::new();
            for i in 0..k {
                let op = g.op(r, &m);
                let d0 = leaf_depth(&m, op.key());
                let a = st.ctl.calls();
                op.run(&mut t)?;
                let used = st.ctl.calls() - a;
                op.model(&mut m);
                let d = d0.max(leaf_depth(&m, op.key())) as u64;
                over(&op.show(), i, used, 8 * (d + 4) + 16)?;
            }
            c.eval(true, map_key(&m) ^ k as u64);
        }
        _ => {
            let mut s = sum_sut();
            for i in 0..k {
                let bound = 4 * (64 - (i as u64 + 1).leading_zeros() as u64 + 2) + 8;
                let a = s.ctl.calls();
                if r.chance(1, 8) {
                    s.root_ok()?;
                } else {
                    s.push_ok(1, &[i as u8])?;
                }
                over("a sum operation", i, s.ctl.calls() - a, bound)?;
            }
            c.eval(true, k as u64 ^ 9);
        }
    }
    c.max("most operations on one tree", k as u64);
    Ok(())
}

/// Every tree used long: no call may panic or fail to return.
pub fn c23_life(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let k = span(c, r, if case % 6 < 3 { 600_000 } else { 140_000 });
    match case % 3 {
        0 => {
            let st = BStore::new();
            let mut t = pb::bnew(st.clone())?;
            let mut n = 0u64;
            for j in 0..k {
                let faulty = r.chance(1, 3);
                if faulty {
                    st.ctl.arm(r.below(4), *r.pick(&MODES));
                }
                match r.below(4) {
                    0 => n += pb::bpush(&mut t, &[j as u8])?.is_ok() as u64,
                    1 => {
                        let _ = pb::broot(&t)?;
                    }
                    2 => {
                        let _ = pb::bload(st.clone(), r.below(n + 2))?;
                    }
                    _ => {
                        let _ = pb::bprove(&t, r.below(n + 2))?;
                    }
                }
                st.ctl.disarm();
            }
            c.eval(true, mix(n));
        }
        1 => {
            let g = pool_of(r, case);
            let st = SStore::new();
            let mut t = ps::snew(st.clone())?;
            let mut m = Map::new();
            for _ in 0..k {
                let op = g.op(r, &m);
                let faulty = r.chance(1, 3);
                if faulty {
                    st.ctl.arm(r.below(30), *r.pick(&MODES));
                }
                if op.apply(&mut t)?.is_ok() {
                    op.model(&mut m);
                }
                st.ctl.disarm();
                let _ = ps::sroot_of(&t)?;
            }
            c.eval(true, map_key(&m));
        }
        _ => {
            let mut s = sum_sut();
            for j in 0..k {
                let faulty = r.chance(1, 3);
                if faulty {
                    s.ctl.arm(r.below(4), *r.pick(&MODES));
                }
                if r.chance(1, 2) {
                    let _ = s.push_r(j as u64, &[j as u8])?;
                } else {
                    let _ = s.root_r()?;
                }
                s.ctl.disarm();
            }
            c.eval(true, k as u64 ^ 5);
        }
    }
    c.count("library calls", k as u64);
    c.max("most operations on one tree", k as u64);
    Ok(())
}
