//! C25: the inclusion-proof verifier of the test helpers.

use crate::core::*;
use crate::gen;
use crate::model::*;
use crate::p_binary as pb;
use fuel_merkle_test_helpers::binary::verify;
use std::collections::HashMap;

fn ask(root: &H, p: &Vec<H>, i: u64, n: u64) -> R<bool> {
    sut(&format!("verify(index {i}, {n} leaves, {} elements)", p.len()), || verify(root, p, i, n))
}

fn own(c: &mut Ctx, root: &H, p: &Vec<H>, i: u64, n: u64) -> R {
    tr!(c, "the tree's own proof for {i} of {n}: {} elements", p.len());
    ensure!(ask(root, p, i, n)?, "verify rejects the tree's own proof for leaf {i} of {n}");
    c.count("own proofs accepted", 1);
    c.eval(n > 1, mix(n) ^ i);
    Ok(())
}

/// `truth`: leaf hash at an index.  `own`: exact proof for that index.
fn forged(
    c: &mut Ctx,
    root: &H,
    p: &Vec<H>,
    i: u64,
    n: u64,
    leafy: bool,
    own: &dyn Fn(u64) -> Vec<H>,
    how: &str,
) -> R {
    let acc = ask(root, p, i, n)?;
    tr!(c, "{how}: index {i} of {n}, {} elements -> {acc}", p.len());
    c.eval(true, mix(i) ^ h64(&p.concat()) ^ n);
    c.count("altered proofs offered", 1);
    if p.is_empty() {
        ensure!(!acc, "verify accepts an empty proof (index {i}, {n} leaves)");
        return Ok(());
    }
    if i >= n {
        ensure!(!acc, "verify accepts index {i} of {n} leaves ({how})");
        return Ok(());
    }
    if acc && leafy {
        let o = own(i);
        ensure!(
            p[0] == o[0],
            "verify accepts leaf hash {} at index {i} of {n}, where the leaf hash is {} ({how})",
            hx(&p[0]),
            hx(&o[0])
        );
        ensure!(*p == o, "verify accepts a proof for leaf {i} of {n} that is not the tree's ({how})");
        c.count("altered proofs equal to the original", 1);
    }
    Ok(())
}

pub fn c25_complete(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = case + 1;
    let ls = pb::leaves(r, n as usize);
    let (t, _, _) = pb::build(&ls)?;
    let root = pb::broot(&t)?;
    for i in 0..n {
        let (_, p) = pb::ok("prove", pb::bprove(&t, i)?)?;
        own(c, &root, &p, i, n)?;
    }
    for i in gen::bad_indices(r, n) {
        let (_, p) = pb::ok("prove", pb::bprove(&t, r.below(n))?)?;
        ensure!(!ask(&root, &p, i, n)?, "verify accepts index {i} of {n} leaves");
        ensure!(!ask(&root, &vec![], i, n)?, "verify accepts an empty proof");
    }
    for i in 0..n {
        ensure!(!ask(&root, &vec![], i, n)?, "verify accepts an empty proof for {i} of {n}");
    }
    c.count("leaf counts with all leaves", 1);
    Ok(())
}

pub fn c25_forge(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    // every (size, claimed index, real leaf) combination for small sizes, then random
    let n = if case < 33 { case + 1 } else { 1 + r.below(120) };
    // distinct leaves, so that a leaf hash has one index
    let mut ls = pb::leaves(r, n as usize);
    for (i, d) in ls.iter_mut().enumerate() {
        d.extend_from_slice(&(i as u32).to_be_bytes());
    }
    let (t, _, m) = pb::build(&ls)?;
    let root = pb::broot(&t)?;
    let mut proofs = vec![];
    for i in 0..n {
        let (_, p) = pb::ok("prove", pb::bprove(&t, i)?)?;
        proofs.push(p);
    }
    let o = |i: u64| proofs[i as usize].clone();
    // all transplants of a proof to another index and count-preserving shape
    let some: Vec<u64> = if n <= 33 { (0..n).collect() } else { (0..20).map(|_| r.below(n)).collect() };
    for &i in &some {
        for j in 0..n {
            forged(c, &root, &proofs[i as usize], j, n, true, &o, "proof of another leaf")?;
            // leaf of i with the path of j
            let mut p = proofs[j as usize].clone();
            p[0] = proofs[i as usize][0];
            forged(c, &root, &p, j, n, true, &o, "leaf of another index with the real path")?;
        }
        for j in gen::bad_indices(r, n) {
            forged(c, &root, &proofs[i as usize], j, n, true, &o, "index out of range")?;
        }
    }
    // structural mutations
    for _ in 0..if n <= 33 { 120 } else { 200 } {
        let i = r.below(n);
        let mut p = proofs[i as usize].clone();
        let mut j = i;
        let mut leafy = true;
        let how = match r.below(12) {
            0 => {
                let k = r.us(p.len());
                p[k][r.us(32)] ^= 1 << r.us(8);
                leafy = k != 0;
                "one bit changed"
            }
            1 => {
                let k = r.us(p.len());
                p.remove(k);
                leafy = k != 0;
                "element dropped"
            }
            2 => {
                let k = 1 + r.us(p.len());
                p.insert(k, r.h());
                "random element added"
            }
            3 => {
                p.push(root);
                "root appended"
            }
            4 => {
                if p.len() > 2 {
                    let (a, b) = (1 + r.us(p.len() - 1), 1 + r.us(p.len() - 1));
                    p.swap(a, b);
                }
                "path elements swapped"
            }
            5 => {
                let q = &proofs[r.below(n) as usize];
                for k in 1..p.len() {
                    if r.chance(1, 2) && k < q.len() {
                        p[k] = q[k];
                    }
                }
                "elements of another proof"
            }
            6 => {
                let k = r.us(p.len()) + 1;
                p.truncate(k);
                "truncated"
            }
            7 => {
                j = (i ^ (1 << r.below(7))) % n;
                "index with one bit changed"
            }
            8 => {
                j = r.below(n);
                p[1..].reverse();
                "path reversed"
            }
            9 => {
                // a forged leaf spelling the encoding of two real ones
                let a = proofs[i as usize][0];
                let b = p.get(1).cloned().unwrap_or(a);
                let mut d = match r.below(3) {
                    0 => vec![],
                    1 => vec![0u8],
                    _ => vec![1u8],
                };
                d.extend_from_slice(&a);
                d.extend_from_slice(&b);
                p[0] = leaf_hash(&d);
                if p.len() > 1 && r.chance(2, 3) {
                    p.remove(1);
                }
                j = if r.chance(1, 2) { i } else { i / 2 };
                "leaf data spelling an inner node"
            }
            10 => {
                let k = r.us(p.len());
                let e = p[k];
                p.insert(k + 1, e);
                "element repeated"
            }
            _ => {
                p[0] = leaf_hash(&r.bytes(9));
                "made-up leaf"
            }
        };
        forged(c, &root, &p, j, n, leafy, &o, how)?;
    }
    // another tree's proof
    let mut l2 = ls.clone();
    let k = r.us(l2.len());
    l2[k].push(0x77);
    let (t2, _, _) = pb::build(&l2)?;
    for i in 0..n.min(40) {
        let (_, p) = pb::ok("prove", pb::bprove(&t2, i)?)?;
        forged(c, &root, &p, i, n, true, &o, "proof from a tree with one other leaf")?;
    }
    ensure!(m.root() == root, "tree root {} is not the reference root", hx(&root));
    c.max("largest leaf count altered", n);
    c.sample(|| format!("{n} leaves: every proof offered at every index, and altered"));
    Ok(())
}

pub fn c25_huge(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    let n = gen::big_count(r, pb::HUGE - 200).max(1);
    let st = pb::VStore::new(r, n, &[]);
    let v = Virtual::of(&st.base, n);
    let root = mth(&v, 0, n);
    let cache: std::cell::RefCell<HashMap<u64, Vec<H>>> = Default::default();
    let o = |i: u64| -> Vec<H> {
        cache
            .borrow_mut()
            .entry(i)
            .or_insert_with(|| {
                let mut p = vec![v.complete(0, i)];
                p.extend(audit(&v, i, n));
                p
            })
            .clone()
    };
    let idx = st.ask(r, n, 12);
    for _ in 0..25 {
        let i = *r.pick(&idx);
        let p = o(i);
        own(c, &root, &p, i, n)?;
        for _ in 0..3 {
            let j = *r.pick(&idx);
            forged(c, &root, &p, j, n, true, &o, "proof of another leaf")?;
        }
        let mut q = p.clone();
        let k = r.us(q.len());
        q[k][r.us(32)] ^= 1 << r.us(8);
        forged(c, &root, &q, i, n, k != 0, &o, "one bit changed")?;
        let mut q = p.clone();
        q.pop();
        forged(c, &root, &q, i, n, p.len() > 1, &o, "last element dropped")?;
        let mut q = p.clone();
        q.push(r.h());
        forged(c, &root, &q, i, n, true, &o, "element added")?;
    }
    c.max("largest leaf count", n);
    Ok(())
}

// ------------------------------------------------- C34: helper reference tree

type HelperTree = fuel_merkle_test_helpers::binary::MerkleTree;

fn helper_run(c: &mut Ctx, q: &Seq, ls: &[Vec<u8>], i: u64, each: bool) -> R {
    let n = ls.len() as u64;
    let mut t = sut("helper new", HelperTree::new)?;
    if i > 0 || n % 2 == 0 {
        // without it the proof is to be for the first leaf
        sut("helper set_proof_index", || t.set_proof_index(i))?;
    }
    if each {
        let x = sut("helper root", || t.root())?;
        ensure!(x == empty_hash(), "the empty helper tree has root {}", hx(&x));
    }
    for (k, d) in ls.iter().enumerate() {
        sut("helper push", || t.push(d))?;
        if each {
            if k % 5 == 0 {
                // the index cannot be changed once a leaf is in
                for j in [0, k as u64, k as u64 + 1, k as u64 + 2, i, i + 1] {
                    ensure!(try_sut(|| t.set_proof_index(j)).is_err(), "set_proof_index({j}) is accepted after {} leaves were added", k + 1);
                }
                c.count("late index changes refused", 6);
            }
            let x = sut("helper root", || t.root())?;
            ensure!(x == q.root_at(k as u64 + 1), "helper root after {} leaves is {}", k + 1, hx(&x));
            ensure!(sut("helper leaves_count", || t.leaves_count())? == k as u64 + 1, "helper leaves_count after {} leaves is wrong", k + 1);
            c.count("helper roots compared", 1);
        }
    }
    let (root, set) = sut("helper prove", move || t.prove())?;
    tr!(c, "helper proof for {i} of {n}: {} elements", set.len());
    ensure!(root == q.root_at(n), "helper prove (index {i} of {n}) gives root {}", hx(&root));
    if i < n {
        let want = q.proof_at(i, n);
        ensure!(set == want, "helper proof for leaf {i} of {n} has {} elements and is not the RFC 6962 path ({} elements)", set.len(), want.len());
        ensure!(ask(&root, &set, i, n)?, "verify rejects the helper tree's proof for leaf {i} of {n}");
        c.count("helper proofs compared", 1);
    } else {
        ensure!(set.is_empty(), "helper proof for leaf {i} of only {n} has {} elements", set.len());
        c.count("helper proofs beyond the leaves", 1);
    }
    c.eval(n > 1, mix(n) ^ mix(i) ^ h64(&root));
    Ok(())
}
pub fn c34_all(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = case;
    let ls = pb::leaves(r, n as usize);
    let mut q = Seq::default();
    ls.iter().for_each(|d| q.push(d));
    c.sample(|| format!("{n} leaves, every proof index and some beyond"));
    for i in 0..n {
        helper_run(c, &q, &ls, i, i == 0)?;
    }
    for i in [n, n + 1, 2 * n + 1, 1 << 20, u64::MAX] {
        helper_run(c, &q, &ls, i, false)?;
    }
    c.max("leaf counts with all indices", n);
    Ok(())
}
pub fn c34_random(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let wide = case < 3 && !cfg!(miri);
    let n = match case {
        0 if wide && c.thorough => (1 << 20) + r.below(9),
        0 if wide => (1 << 18) + r.below(9),
        1 if wide => (1 << 17) + r.below(1 << 17),
        _ if wide => 66_000 + r.below(60_000),
        _ if case % 7 == 0 => 1 + r.below(3000),
        _ => 1 + r.below(500),
    };
    let ls = pb::leaves(r, n as usize);
    let mut q = Seq::default();
    ls.iter().for_each(|d| q.push(d));
    c.sample(|| format!("{n} leaves, some proof indices"));
    let mut is: Vec<u64> = gen::indices(r, n, 3).into_iter().take(8).collect();
    if wide {
        is = vec![r.below(n), 65_535 + r.below(n - 65_535), n - 1 - r.below(8), r.below(300), n + r.below(3)];
    }
    for i in is {
        helper_run(c, &q, &ls, i, !wide && r.chance(1, 4))?;
    }
    // the index cannot be changed once a leaf is in
    let mut t = HelperTree::new();
    sut("helper push", || t.push(&ls[0]))?;
    ensure!(try_sut(|| t.set_proof_index(1)).is_err(), "set_proof_index is accepted after a leaf was added");
    c.max("largest leaf count", n);
    Ok(())
}

// ------------------------------------------------- C36: test-vector runner

use fuel_merkle_test_helpers::data::{binary::ProofTest, sparse::Test, EncodedValue, Encoding, TestError};

/// the bytes as a vector spells them
fn enc(r: &mut Rng, b: &[u8]) -> R<EncodedValue> {
    let utf = std::str::from_utf8(b).is_ok();
    let k = r.below(if utf { 3 } else { 2 });
    let e = || match k {
        0 => Encoding::Hex,
        1 => Encoding::Base64,
        _ => Encoding::Utf8,
    };
    let v = sut("EncodedValue::from_raw", || EncodedValue::from_raw(b, e()))?;
    let back = sut("EncodedValue::into_bytes", || v.clone().into_bytes())?;
    ensure!(back.as_ref().is_ok_and(|x| x == b), "{} encoded as {} decodes to {:?}", hx(b), ["hex", "base64", "utf-8"][k as usize], back.map(|x| hx(&x)));
    Ok(v)
}
/// RFC 4648 base 64 of whole groups of three bytes
fn base64_text(b: &[u8]) -> String {
    let al = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    b.chunks(3)
        .flat_map(|g| {
            let x = (g[0] as usize) << 16 | (g[1] as usize) << 8 | g[2] as usize;
            [x >> 18, x >> 12 & 63, x >> 6 & 63, x & 63].map(|i| al[i] as char)
        })
        .collect()
}
/// a value that no decoder may accept
fn undecodable(r: &mut Rng, b: &[u8]) -> EncodedValue {
    let mut t: String = b.iter().map(|x| format!("{x:02x}")).collect();
    match r.below(7) {
        5 | 6 => {
            // bytes whose text needs the two last letters of the alphabet, spelt in another one
            let mut b = b.to_vec();
            b.push(0);
            let k = r.us(b.len() / 3) * 3;
            let two: [u8; 3] = [[0xfb, 0xef, 0xbe], [0xff, 0xff, 0xff], [0xfb, 0xff, 0xff], [0xff, 0xef, 0xbe]][r.us(4)];
            b[k..k + 3].copy_from_slice(&two);
            b.truncate(b.len() / 3 * 3);
            let plain = base64_text(&b);
            let v = match r.below(5) {
                0 => plain.replace('+', "-").replace('/', "_"),
                1 => plain.replace('+', ",").replace('/', ","),
                2 => plain.replace('+', ".").replace('/', "_"),
                3 => plain.replace('+', " ").replace('/', " "),
                _ => {
                    let mut v = plain;
                    v.insert_str(4 * r.us(v.len() / 4), ["\n", "\r\n", " ", "\t"][r.us(4)]);
                    v
                }
            };
            return EncodedValue::new(v, Encoding::Base64);
        }
        0 => t.truncate(t.len() - 1),
        1 => t.insert(r.us(t.len()), ['g', ' ', '-', '_', '\u{e9}'][r.us(5)]),
        2 => t.insert_str(0, "0x"),
        3 => t.push('a'),
        _ => {
            let mut v = ["*", "A===", "=AAA", "AA*A", "\u{e9}"][r.us(5)].to_string();
            v.insert_str(0, &"QUJD".repeat(r.us(4)));
            return EncodedValue::new(v, Encoding::Base64);
        }
    }
    EncodedValue::new(t, Encoding::Hex)
}
fn yv(v: &EncodedValue) -> R<serde_yaml::Value> {
    sut("serialising a value", || serde_yaml::to_value(v))?.map_err(|e| Violation { msg: format!("a value cannot be serialised: {e}") })
}
fn outcome(r: Result<(), TestError>) -> String {
    match r {
        Ok(()) => "passed".into(),
        Err(TestError::Failed(n)) => format!("failed {n}"),
        Err(TestError::UnsupportedAction(n)) => format!("unsupported {n}"),
        Err(TestError::DecodingError) => "undecodable".into(),
    }
}
pub fn c36_sparse(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    use crate::p_sparse::{Gen, Op};
    let g = Gen::new(r, 12);
    let mut m = Map::new();
    let n = r.us(14);
    let name = format!("vector {case}");
    let mut steps = vec![];
    let s = |x: &str| serde_yaml::Value::String(x.to_string());
    let mut want = None;
    for _ in 0..n {
        let op = g.op(r, &m);
        let mut y = serde_yaml::Mapping::new();
        let k = yv(&enc(r, op.key())?)?;
        y.insert(s("key"), k);
        let (act, d) = match &op {
            Op::Up(_, d) => ("update", Some(d.clone())),
            Op::UpEmpty(_) => ("update", Some(vec![])),
            Op::Del(_) => ("delete", None),
        };
        if let Some(d) = d {
            y.insert(s("data"), yv(&enc(r, &d)?)?);
        }
        let mut act = act.to_string();
        if want.is_none() && r.chance(1, 60) {
            act = ["Update", "insert", "", "deletes"][r.us(4)].to_string();
            if let Some(t) = gen::lit_text(r).and_then(|t| String::from_utf8(t.to_vec()).ok()) {
                if t != "update" && t != "delete" {
                    act = t;
                }
            }
            want = Some(format!("unsupported {act}"));
        } else if want.is_none() && r.chance(1, 60) {
            let field = if matches!(op, Op::Up(..)) && r.chance(1, 2) { "data" } else { "key" };
            y.insert(s(field), yv(&undecodable(r, op.key()))?);
            want = Some("undecodable".into());
        }
        y.insert(s("action"), s(&act));
        if want.is_none() {
            op.model(&mut m);
        }
        tr!(c, "{act} {}", op.show());
        steps.push(serde_yaml::Value::Mapping(y));
    }
    let mut root = sroot(&m);
    if r.chance(1, 3) {
        root[r.us(32)] ^= 1 << r.us(8);
    }
    let want = want.unwrap_or_else(|| if root == sroot(&m) { "passed".into() } else { format!("failed {name}") });
    let mut y = serde_yaml::Mapping::new();
    y.insert(s("name"), s(&name));
    let (want, stated) = if !want.starts_with("un") && r.chance(1, 40) { ("undecodable".to_string(), undecodable(r, &root)) } else { (want, enc(r, &root)?) };
    y.insert(s("expected_root"), yv(&stated)?);
    y.insert(s("steps"), serde_yaml::Value::Sequence(steps));
    let text = serde_yaml::to_string(&y).map_err(|e| Violation { msg: format!("cannot write the vector: {e}") })?;
    let t: Test = match sut("reading a vector", || serde_yaml::from_str(&text))? {
        Ok(t) => t,
        Err(e) => viol!("a sparse vector cannot be read: {e}"),
    };
    let got = outcome(sut("running a sparse vector", || t.execute())?);
    c.sample(|| format!("{n} steps, runner must say: {want}"));
    ensure!(got == want, "a sparse vector of {n} steps: the runner says `{got}`, the vector is to be `{want}`");
    c.count(if want == "passed" { "vectors that hold" } else { "vectors that do not hold" }, 1);
    c.eval(n > 1, h64(&root));
    Ok(())
}
/// Every value is undecodable in its encoding; texts and the other encodings carry any bytes.
pub fn c36_values(c: &mut Ctx, r: &mut Rng, _case: u64) -> R {
    for _ in 0..20 {
        let n = if r.chance(1, 5) { 0 } else { r.us(80) };
        let mut b = r.bytes(n);
        match r.below(3) {
            0 => b = String::from_utf8_lossy(&b).trim_matches(|c: char| c == '\u{fffd}').as_bytes().to_vec(),
            1 => b = (0..n).map(|_| b" \t\nab=0:#'\"-\0~"[r.us(14)]).collect(),
            _ => {}
        }
        let v = enc(r, &b)?;
        let text = match sut("writing a value", || serde_yaml::to_string(&v))? {
            Ok(t) => t,
            Err(e) => viol!("a value cannot be written: {e}"),
        };
        let w: EncodedValue = match sut("reading a value", || serde_yaml::from_str(&text))? {
            Ok(t) => t,
            Err(e) => viol!("a written value cannot be read back: {e}"),
        };
        let back = sut("EncodedValue::into_bytes", || w.into_bytes())?;
        ensure!(back.as_ref().is_ok_and(|x| *x == b), "{} written as {text:?} is read back as {:?}", hx(&b), back.map(|x| hx(&x)));
        let bad = { let h = r.h(); undecodable(r, &h) };
        let shown = sut("writing a value", || serde_yaml::to_string(&bad))?.unwrap_or_default();
        let back = sut("EncodedValue::into_bytes", || bad.into_bytes())?;
        ensure!(matches!(back, Err(TestError::DecodingError)), "the undecodable value {shown:?} decodes to {:?}", back.map(|x| hx(&x)));
        c.eval(!b.is_empty(), h64(&b));
    }
    c.sample(|| "values written, read and decoded in every encoding, and undecodable ones".into());
    Ok(())
}
pub fn c36_binary(c: &mut Ctx, r: &mut Rng, case: u64) -> R {
    let n = 1 + r.below(40);
    let ls = pb::leaves(r, n as usize);
    let mut q = Seq::default();
    ls.iter().for_each(|d| q.push(d));
    let mut i = r.below(n);
    let mut m = n;
    let mut set = q.proof_at(i, n);
    let mut root = q.root();
    match r.below(8) {
        0 => root[r.us(32)] ^= 1 << r.us(8),
        1 => {
            let k = r.us(set.len());
            set[k][r.us(32)] ^= 1 << r.us(8);
        }
        2 => set.truncate(r.us(set.len())),
        3 => i = n + r.below(4),
        4 => {
            i = r.below(n);
        }
        5 => m = 1 + r.below(60),
        _ => {}
    }
    let truth = ask(&root, &set, i, m)?;
    let claim = r.chance(1, 2);
    let name = format!("proof vector {case}");
    let t = ProofTest {
        name: name.clone(),
        function_name: "f".into(),
        description: "d: \"quoted\"\nsecond line".into(),
        root: enc(r, &root)?,
        proof_set: set.iter().map(|x| enc(r, x)).collect::<R<_>>()?,
        proof_index: i,
        num_leaves: m,
        expected_verification: claim,
    };
    let text = match sut("writing a vector", || serde_yaml::to_string(&t))? {
        Ok(t) => t,
        Err(e) => viol!("a proof vector cannot be written: {e}"),
    };
    let t2: ProofTest = match sut("reading a vector", || serde_yaml::from_str(&text))? {
        Ok(t) => t,
        Err(e) => viol!("a written proof vector cannot be read back: {e}"),
    };
    let want = if truth == claim { "passed".to_string() } else { format!("failed {name}") };
    for (t, how) in [(t, "as built"), (t2, "written and read back")] {
        let got = outcome(sut("running a proof vector", || t.execute())?);
        ensure!(got == want, "a proof vector ({how}) for leaf {i} of {m} claiming {claim}: verify says {truth}, the runner says `{got}`");
    }
    c.sample(|| format!("proof of leaf {i} of {m}, verify says {truth}, vector claims {claim}"));
    c.count(if want == "passed" { "vectors that hold" } else { "vectors that do not hold" }, 1);
    c.eval(n > 1, h64(&root) ^ i ^ mix(m));
    Ok(())
}
