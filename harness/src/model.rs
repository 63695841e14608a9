//! Independent executable models.  Nothing here uses the code under test.

use crate::core::{h64, mix, Rng, H, ZERO};
use crate::sha::sha as sha256_parts;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

// ------------------------------------------------------------------- RFC 6962

pub fn leaf_hash(d: &[u8]) -> H {
    sha256_parts(&[&[0u8], d])
}
pub fn node_hash(l: &H, r: &H) -> H {
    sha256_parts(&[&[1u8], l, r])
}
pub fn empty_hash() -> H {
    sha256_parts(&[])
}

/// Hash of the aligned subtree of 2^h leaves starting at leaf idx * 2^h.
pub trait Complete {
    fn complete(&self, h: u32, idx: u64) -> H;
}

fn split(size: u64) -> u64 {
    // largest power of two strictly below size
    debug_assert!(size > 1);
    1u64 << (63 - (size - 1).leading_zeros())
}

/// Merkle tree hash of the leaves a..a+size.
pub fn mth<C: Complete + ?Sized>(c: &C, a: u64, size: u64) -> H {
    if size == 0 {
        return empty_hash();
    }
    if size.is_power_of_two() && a % size == 0 {
        return c.complete(size.trailing_zeros(), a / size);
    }
    let k = split(size);
    node_hash(&mth(c, a, k), &mth(c, a + k, size - k))
}

/// Audit path for leaf i of an n-leaf tree, leaf to root.
pub fn audit<C: Complete + ?Sized>(c: &C, i: u64, n: u64) -> Vec<H> {
    fn go<C: Complete + ?Sized>(c: &C, i: u64, a: u64, size: u64, out: &mut Vec<H>) {
        if size == 1 {
            return;
        }
        let k = split(size);
        if i < a + k {
            go(c, i, a, k, out);
            out.push(mth(c, a + k, size - k));
        } else {
            go(c, i, a + k, size - k, out);
            out.push(mth(c, a, k));
        }
    }
    let mut out = vec![];
    go(c, i, 0, n, &mut out);
    out
}

/// Root obtained by recombining leaf hash and audit path by index and size;
/// None when the path length does not fit.
pub fn recombine(i: u64, n: u64, leaf: &H, path: &[H]) -> Option<H> {
    fn go(i: u64, n: u64, leaf: &H, path: &[H]) -> Option<H> {
        if n == 1 {
            return if path.is_empty() { Some(*leaf) } else { None };
        }
        let (last, rest) = path.split_last()?;
        let k = split(n);
        Some(if i < k {
            node_hash(&go(i, k, leaf, rest)?, last)
        } else {
            node_hash(last, &go(i - k, n - k, leaf, rest)?)
        })
    }
    go(i, n, leaf, path)
}

/// All complete subtree hashes of a concrete sequence.
#[derive(Clone, Default)]
pub struct Seq {
    pub levels: Vec<Vec<H>>,
}
impl Complete for Seq {
    fn complete(&self, h: u32, idx: u64) -> H {
        self.levels[h as usize][idx as usize]
    }
}
impl Seq {
    pub fn len(&self) -> u64 {
        self.levels.first().map_or(0, |l| l.len() as u64)
    }
    pub fn push(&mut self, d: &[u8]) {
        self.push_leaf(leaf_hash(d))
    }
    pub fn push_leaf(&mut self, l: H) {
        let mut h = 0usize;
        let mut cur = l;
        loop {
            if self.levels.len() <= h {
                self.levels.push(vec![]);
            }
            self.levels[h].push(cur);
            let n = self.levels[h].len();
            if n % 2 == 1 {
                break;
            }
            cur = node_hash(&self.levels[h][n - 2], &self.levels[h][n - 1]);
            h += 1;
        }
    }
    /// back to the first `n` leaves
    pub fn truncate(&mut self, n: u64) {
        for (h, l) in self.levels.iter_mut().enumerate() {
            l.truncate((n >> h) as usize);
        }
        while self.levels.last().is_some_and(|l| l.is_empty()) {
            self.levels.pop();
        }
    }
    pub fn root_at(&self, n: u64) -> H {
        mth(self, 0, n)
    }
    pub fn root(&self) -> H {
        self.root_at(self.len())
    }
    pub fn proof_at(&self, i: u64, n: u64) -> Vec<H> {
        let mut v = vec![self.levels[0][i as usize]];
        v.extend(audit(self, i, n));
        v
    }
    /// expected storage contents: in-order position -> (position, hash)
    pub fn storage(&self) -> HashMap<u64, (u64, H)> {
        let mut m = HashMap::new();
        for (h, l) in self.levels.iter().enumerate() {
            for (i, x) in l.iter().enumerate() {
                let p = in_order(h as u32, i as u64);
                m.insert(p, (p, *x));
            }
        }
        m
    }
}

pub fn in_order(h: u32, idx: u64) -> u64 {
    ((idx as u128) * (1u128 << (h + 1)) + (1u128 << h) - 1) as u64
}
pub fn from_in_order(p: u64) -> (u32, u64) {
    let h = p.trailing_ones();
    (h, (p as u128 >> (h + 1)) as u64)
}

/// A huge but genuine leaf sequence: almost all leaves are equal, and leaves of
/// their own are placed so that every subtree next to a probed leaf's path has
/// a hash no other subtree shares.
pub struct Big {
    pub n0: u64,
    pub probes: Vec<u64>,
    special: BTreeMap<u64, H>,
    uniform: Vec<H>,
    memo: RefCell<HashMap<(u32, u64), H>>,
}
impl Big {
    pub fn new(seed: u64, n0: u64, mut probes: Vec<u64>) -> Rc<Big> {
        let mut r = Rng::new(seed);
        let mut uniform = vec![leaf_hash(&seed.to_be_bytes())];
        for h in 0..63 {
            let x = uniform[h];
            uniform.push(node_hash(&x, &x));
        }
        probes.retain(|p| *p < n0);
        let mut special = BTreeMap::new();
        for &p in &probes {
            special.insert(p, leaf_hash(&r.h()));
            for h in 0..63u32 {
                let sib = ((p >> h) ^ 1) as u128;
                let lo = sib << h;
                if lo >= n0 as u128 {
                    continue;
                }
                let hi = ((sib + 1) << h).min(n0 as u128) - 1;
                let l = r.range(lo as u64, hi as u64);
                special.insert(l, leaf_hash(&r.h()));
            }
        }
        Rc::new(Big {
            n0,
            probes,
            special,
            uniform,
            memo: Default::default(),
        })
    }
    fn get(&self, h: u32, idx: u64) -> H {
        let lo = idx << h;
        let hi = ((idx as u128 + 1) << h) as u64; // <= n0 <= 2^62
        if self.special.range(lo..hi).next().is_none() {
            return self.uniform[h as usize];
        }
        if h == 0 {
            return self.special[&lo];
        }
        if let Some(x) = self.memo.borrow().get(&(h, idx)) {
            return *x;
        }
        let x = node_hash(&self.get(h - 1, 2 * idx), &self.get(h - 1, 2 * idx + 1));
        self.memo.borrow_mut().insert((h, idx), x);
        x
    }
}
impl Complete for Big {
    fn complete(&self, h: u32, idx: u64) -> H {
        self.get(h, idx)
    }
}

/// The first n0 leaves of a huge sequence, continued with real appends.
pub struct Virtual {
    pub base: Rc<Big>,
    pub n0: u64,
    pub added: Vec<H>,
}
impl Complete for Virtual {
    fn complete(&self, h: u32, idx: u64) -> H {
        let end = ((idx as u128) + 1) << h;
        if end <= self.n0 as u128 {
            return self.base.get(h, idx);
        }
        if h == 0 {
            return self.added[(idx - self.n0) as usize];
        }
        node_hash(&self.complete(h - 1, 2 * idx), &self.complete(h - 1, 2 * idx + 1))
    }
}
impl Virtual {
    pub fn of(base: &Rc<Big>, n0: u64) -> Virtual {
        Virtual {
            base: base.clone(),
            n0,
            added: vec![],
        }
    }
    pub fn n(&self) -> u64 {
        self.n0 + self.added.len() as u64
    }
}

// ------------------------------------------------------------------ sparse map

pub fn bit(k: &H, i: usize) -> bool {
    k[i / 8] >> (7 - i % 8) & 1 == 1
}
pub fn common_bits(a: &H, b: &H) -> usize {
    for i in 0..32 {
        let x = a[i] ^ b[i];
        if x != 0 {
            return i * 8 + x.leading_zeros() as usize;
        }
    }
    256
}
pub fn sleaf(k: &H, v: &H) -> H {
    sha256_parts(&[&[0u8], k, v])
}
pub fn snode(l: &H, r: &H) -> H {
    sha256_parts(&[&[1u8], l, r])
}
pub fn vhash(data: &[u8]) -> H {
    sha256_parts(&[data])
}

/// key -> SHA-256(value)
pub type Map = BTreeMap<H, H>;

pub fn sroot(m: &Map) -> H {
    let v: Vec<(H, H)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    sroot_slice(&v, 0, &mut |_, _, _, _, _| {})
}

/// calls `f(hash, height, kind, lo, hi)` for every node
pub fn sroot_slice(v: &[(H, H)], depth: usize, f: &mut dyn FnMut(H, u32, u8, H, H)) -> H {
    match v.len() {
        0 => ZERO,
        1 => {
            let h = sleaf(&v[0].0, &v[0].1);
            f(h, 0, 0, v[0].0, v[0].1);
            h
        }
        _ => {
            let m = v.partition_point(|(k, _)| !bit(k, depth));
            let l = sroot_slice(&v[..m], depth + 1, f);
            let r = sroot_slice(&v[m..], depth + 1, f);
            let h = snode(&l, &r);
            f(h, 256 - depth as u32, 1, l, r);
            h
        }
    }
}

pub type SPrim = (u32, u8, H, H);

pub fn snodes(m: &Map) -> (H, HashMap<H, SPrim>) {
    let v: Vec<(H, H)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let mut out = HashMap::new();
    let r = sroot_slice(&v, 0, &mut |h, ht, kind, lo, hi| {
        out.insert(h, (ht, kind, lo, hi));
    });
    (r, out)
}

/// Node hashes from the root to where `key`'s descent ends (leaf included when present).
pub fn spath(m: &Map, key: &H) -> Vec<H> {
    let v: Vec<(H, H)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    let mut out = vec![];
    let (mut a, mut b) = (0usize, v.len());
    let mut depth = 0;
    while b > a {
        out.push(sroot_slice(&v[a..b], depth, &mut |_, _, _, _, _| {}));
        if b - a == 1 {
            break;
        }
        let m = a + v[a..b].partition_point(|(k, _)| !bit(k, depth));
        if bit(key, depth) {
            a = m
        } else {
            b = m
        }
        depth += 1;
    }
    out
}

/// Number of bits of the longest shared prefix of `key` with another key of the
/// map, plus one: the depth at which the key's leaf sits (0 when alone).
pub fn leaf_depth(m: &Map, key: &H) -> usize {
    let below = m.range::<H, _>(..*key).next_back().map(|(k, _)| common_bits(k, key) + 1);
    let above = m
        .range::<H, _>((std::ops::Bound::Excluded(*key), std::ops::Bound::Unbounded))
        .next()
        .map(|(k, _)| common_bits(k, key) + 1);
    below.unwrap_or(0).max(above.unwrap_or(0))
}

pub fn map_key(m: &Map) -> u64 {
    let mut x = 0x51u64;
    for (k, v) in m {
        x = mix(x ^ h64(k)) ^ h64(v);
    }
    x
}

// ---------------------------------------------------------------------- sum tree

pub fn sum_leaf(fee: u64, d: &[u8]) -> H {
    sha256_parts(&[&[0u8], &fee.to_be_bytes(), d])
}
pub fn sum_node(lf: u64, l: &H, rf: u64, r: &H) -> H {
    sha256_parts(&[&[1u8], &lf.to_be_bytes(), l, &rf.to_be_bytes(), r])
}

#[derive(Clone, Default)]
pub struct SumSeq {
    pub levels: Vec<Vec<(u64, H)>>,
    pub total: u128,
}
impl SumSeq {
    pub fn len(&self) -> usize {
        self.levels.first().map_or(0, |l| l.len())
    }
    /// total must stay within u64
    pub fn push(&mut self, fee: u64, d: &[u8]) {
        self.total += fee as u128;
        let mut cur = (fee, sum_leaf(fee, d));
        let mut h = 0;
        loop {
            if self.levels.len() <= h {
                self.levels.push(vec![]);
            }
            self.levels[h].push(cur);
            let n = self.levels[h].len();
            if n % 2 == 1 {
                break;
            }
            let (a, b) = (self.levels[h][n - 2], self.levels[h][n - 1]);
            cur = (a.0.wrapping_add(b.0), sum_node(a.0, &a.1, b.0, &b.1));
            h += 1;
        }
    }
    fn range(&self, a: u64, size: u64) -> (u64, H) {
        if size == 0 {
            return (0, empty_hash());
        }
        if size.is_power_of_two() && a % size == 0 {
            return self.levels[size.trailing_zeros() as usize][(a / size) as usize];
        }
        let k = split(size);
        let l = self.range(a, k);
        let r = self.range(a + k, size - k);
        (l.0.wrapping_add(r.0), sum_node(l.0, &l.1, r.0, &r.1))
    }
    pub fn root(&self) -> (u64, H) {
        self.range(0, self.len() as u64)
    }
}

// ------------------------------------------------------------------- positions

/// Root position of the leaf range a..a+size (a aligned as in an RFC 6962 split).
pub fn range_root(a: u64, size: u64) -> u64 {
    let h = size.next_power_of_two().trailing_zeros();
    // a is a multiple of the split sizes above it, hence of 2^h or the range is
    // the left-aligned remainder whose padded subtree starts at a.
    (2 * a as u128 + (1u128 << h) - 1) as u64
}

/// (path node, side node) pairs from root to leaf i in the n-leaf tree.
pub fn range_path(i: u64, n: u64) -> Vec<(u64, u64)> {
    let mut out = vec![];
    let (mut a, mut size) = (0u64, n);
    let r = range_root(a, size);
    out.push((r, r));
    while size > 1 {
        let k = split(size);
        let (l, rr) = (range_root(a, k), range_root(a + k, size - k));
        if i < a + k {
            out.push((l, rr));
            size = k;
        } else {
            out.push((rr, l));
            a += k;
            size -= k;
        }
    }
    out
}

/// Self-test against published values; a failure is a harness error.
pub fn self_test() -> Result<(), String> {
    let hx = crate::core::hx;
    let expect = |name: &str, got: &H, want: &str| {
        if hx(got) == want {
            Ok(())
        } else {
            Err(format!("model self-test {name}: {} != {want}", hx(got)))
        }
    };
    expect("sha256('')", &empty_hash(), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    expect(
        "sha256(abc)",
        &vhash(b"abc"),
        "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad",
    )?;
    expect(
        "sha256(a x 119)",
        &vhash(&[b'a'; 119]),
        "31eba51c313a5c08226adf18d4a359cfdfd8d2e816b13f4af952f7ea6584dcfb",
    )?;
    // Certificate-transparency reference roots.
    let leaves: [&[u8]; 8] = [
        b"",
        b"\x00",
        b"\x10",
        b"\x20\x21",
        b"\x30\x31",
        b"\x40\x41\x42\x43",
        b"\x50\x51\x52\x53\x54\x55\x56\x57",
        b"\x60\x61\x62\x63\x64\x65\x66\x67\x68\x69\x6a\x6b\x6c\x6d\x6e\x6f",
    ];
    let ct = [
        "6e340b9cffb37a989ca544e6bb780a2c78901d3fb33738768511a30617afa01d",
        "fac54203e7cc696cf0dfcb42c92a1d9dbaf70ad9e621f4bd8d98662f00e3c125",
        "aeb6bcfe274b70a14fb067a5e5578264db0fa9b51af5e0ba159158f329e06e77",
        "d37ee418976dd95753c1c73862b9398fa2a2cf9b4ff0fdfe8b30cd95209614b7",
        "4e3bbb1f7b478dcfe71fb631631519a3bca12c9aefca1612bfce4c13a86264d4",
        "76e67dadbcdf1e10e1b74ddc608abd2f98dfb16fbce75277b5232a127f2087ef",
        "ddb89be403809e325750d3d263cd78929c2942b7942a34b77e122c9594a74c8c",
        "5dc9da79a70659a9ad559cb701ded9a2ab9d823aad2f4960cfe370eff4604328",
    ];
    let mut s = Seq::default();
    for (i, l) in leaves.iter().enumerate() {
        s.push(l);
        expect("rfc6962", &s.root(), ct[i])?;
        for j in 0..=i as u64 {
            let p = s.proof_at(j, i as u64 + 1);
            if recombine(j, i as u64 + 1, &p[0], &p[1..]) != Some(s.root()) {
                return Err("model self-test: audit path".into());
            }
        }
    }
    // Sparse roots published with the repository (keys SHA-256 of a big-endian
    // counter, value "DATA").
    let mut m = Map::new();
    let want = [
        "39f36a7cb4dfb1b46f03d044265df6a491dffc1034121bc1071a34ddce9bb14b",
        "8d0ae412ca9ca0afcb3217af8bcd5a673e798bd6fd1dfacad17711e883f494cb",
        "52295e42d8de2505fdc0cc825ff9fead419cbcf540d8b30c7c4b9c9b94c268b7",
    ];
    expect("sparse empty", &sroot(&m), &"00".repeat(32))?;
    for (i, w) in want.iter().enumerate() {
        m.insert(vhash(&(i as u32).to_be_bytes()), vhash(b"DATA"));
        expect("sparse", &sroot(&m), w)?;
    }
    // in-order numbering of the seven-leaf example in the documentation
    let got: Vec<(u64, u64)> = range_path(4, 7);
    if got != [(7, 7), (11, 3), (9, 12), (8, 10)] || from_in_order(11) != (2, 1) || in_order(2, 1) != 11 {
        return Err(format!("model self-test: positions {got:?}"));
    }
    Ok(())
}
