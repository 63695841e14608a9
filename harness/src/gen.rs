//! Hostile input families.

use crate::core::{Rng, H, ZERO};
use std::collections::HashSet;
use std::sync::OnceLock;
use crate::model::vhash;

pub const ONES: H = [0xff; 32];

/// Numbers that, spelt with 8 bytes, have SHA-256 hashes beginning or ending with two to four
/// bytes 0 or ff: hashed alone, as a binary leaf, and as a sum leaf of fee 0.
pub const MINED: [u64; 17] = [
    30366, 30556, 95789, 120481, 3593662, 20773023, 38534429, 39529189, 63069557, 7850302, 11682603, 16440565, 22140749, 1227926,
    7218755, 18052039, 19145152,
];
/// Likewise keys (8 bytes and 24 zeros) whose sparse leaf with value [7] has such a hash.
pub const MINED_KEYS: [u64; 4] = [7892274, 9207501, 31070512, 51289725];
pub fn mined_key(r: &mut Rng) -> H {
    let mut k = ZERO;
    k[..8].copy_from_slice(&r.pick(&MINED_KEYS).to_be_bytes());
    k
}

/// Constants of the library's source (tools/literals.py): those the tree as first checked did
/// not have, and all of them. They are tried as lengths, counts, indices, bytes and texts.
#[derive(Default)]
pub struct Dict {
    new: Vec<Lit>,
    all: Vec<Lit>,
    /// numbers among the new ones, and their neighbours
    near: HashSet<u64>,
}
#[derive(Clone)]
pub enum Lit {
    Num(u64),
    Text(Vec<u8>),
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let s = std::env::var("FM_DICT").unwrap_or_default();
        let mut it = s.split(';').map(|part| {
            part.split(',')
                .filter_map(|x| match x.split_at_checked(1)? {
                    ("n", n) => n.parse().ok().map(Lit::Num),
                    ("t", t) => unhex(t).map(Lit::Text),
                    _ => None,
                })
                .collect::<Vec<_>>()
        });
        let mut d = Dict { new: it.next().unwrap_or_default(), all: it.next().unwrap_or_default(), ..Dict::default() };
        for l in &d.new {
            if let Lit::Num(n) = l {
                d.near.extend([n.saturating_sub(1), *n, n.saturating_add(1)]);
            }
        }
        d
    })
}
fn unhex(t: &str) -> Option<Vec<u8>> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(t.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// Now and then a constant of the library's source; often one when the source has new ones.
fn lit(r: &mut Rng) -> Option<&'static Lit> {
    let d = dict();
    if !d.new.is_empty() && r.chance(1, 5) {
        Some(r.pick(&d.new))
    } else if !d.all.is_empty() && r.chance(1, 40) {
        Some(r.pick(&d.all))
    } else {
        None
    }
}
pub fn lit_num(r: &mut Rng) -> Option<u64> {
    match lit(r)? {
        Lit::Num(n) => Some(match r.below(6) {
            0 => n.saturating_sub(1),
            1 => n.saturating_add(1),
            2 => n.saturating_mul(2 + r.below(3)),
            _ => *n,
        }),
        Lit::Text(_) => None,
    }
}
/// A new constant of the source no larger than `max`, or one more or less.
pub fn new_num(r: &mut Rng, max: u64) -> Option<u64> {
    let v: Vec<u64> = dict().near.iter().filter(|n| **n <= max).cloned().collect();
    if v.is_empty() {
        return None;
    }
    let mut v = v;
    v.sort();
    Some(*r.pick(&v))
}
/// A text of the source that is no number.
pub fn lit_text(r: &mut Rng) -> Option<&'static [u8]> {
    match lit(r)? {
        Lit::Text(t) => Some(t),
        Lit::Num(_) => None,
    }
}
/// Is this number (next to) a new constant of the source?
pub fn special(n: u64) -> bool {
    let d = dict();
    !d.near.is_empty() && d.near.contains(&n)
}
fn spelt(r: &mut Rng, n: u64) -> Vec<u8> {
    let w = if n < 256 { *r.pick(&[1usize, 1, 4, 8]) } else if n < 1 << 16 { *r.pick(&[2usize, 4, 8]) } else if n < 1 << 32 { *r.pick(&[4usize, 8]) } else { 8 };
    if r.chance(1, 2) {
        n.to_be_bytes()[8 - w..].to_vec()
    } else {
        n.to_le_bytes()[..w].to_vec()
    }
}
/// Writes constants into some bytes: at an end, anywhere, or all over.
fn season(r: &mut Rng, v: &mut [u8]) {
    if v.is_empty() {
        return;
    }
    for _ in 0..1 + r.below(4) {
        let b = match lit(r) {
            Some(Lit::Num(n)) => spelt(r, *n),
            Some(Lit::Text(t)) => t.clone(),
            None => continue,
        };
        let n = b.len().min(v.len());
        let at = match r.below(4) {
            0 => 0,
            1 => v.len() - n,
            2 => lit_num(r).map_or(0, |x| x as usize % v.len()),
            _ => r.us(v.len()),
        };
        let n = n.min(v.len() - at);
        if b.len() == 1 && r.chance(1, 8) {
            v.fill(b[0]);
        } else {
            v[at..at + n].copy_from_slice(&b[..n]);
        }
    }
}
fn lit_data(r: &mut Rng) -> Option<Vec<u8>> {
    Some(match lit(r)? {
        Lit::Num(n) => {
            if *n > 0 && *n <= 1 << 22 && r.chance(1, 1 + n / 256) && r.chance(1, 2) && !cfg!(miri) {
                let l = match r.below(4) {
                    0 => *n - 1,
                    1 => *n + 1,
                    _ => *n,
                } as usize;
                let mut v = if r.chance(1, 4) { vec![r.u64() as u8; l] } else { r.bytes(l) };
                if r.chance(1, 4) {
                    season(r, &mut v);
                }
                v
            } else {
                let mut v = spelt(r, *n);
                if r.chance(1, 2) {
                    let n = v.len() + r.us(70);
                    v.resize(n, 0);
                    season(r, &mut v);
                }
                v
            }
        }
        Lit::Text(t) => {
            let mut v = t.clone();
            let l = r.us(40);
            match r.below(4) {
                0 => v.extend(r.bytes(l)),
                1 => v = [r.bytes(l), v].concat(),
                _ => {}
            }
            v
        }
    })
}

/// Leaf / value bytes (possibly empty).
pub fn data(r: &mut Rng, hashes: &[H]) -> Vec<u8> {
    if let Some(v) = lit_data(r) {
        return v;
    }
    match r.below(16) {
        0 => vec![],
        1 => vec![0],
        2 => vec![1],
        3 => vec![0; r.us(70)],
        4 => vec![0xff; r.us(70)],
        5 => {
            let n = *r.pick(&[31usize, 32, 33, 54, 55, 56, 57, 62, 63, 64, 65, 66, 119, 120, 127, 128, 129]);
            r.bytes(n)
        }
        6 => {
            let n = 1 + r.us(8);
            r.bytes(n)
        }
        7 => b"DATA".to_vec(),
        8 | 9 if !hashes.is_empty() => {
            // preimage shaped
            let a = *r.pick(hashes);
            let b = *r.pick(hashes);
            let mut v = match r.below(4) {
                0 => vec![],
                1 => vec![0u8],
                2 => vec![1u8],
                _ => vec![0u8, 0, 0, 0],
            };
            v.extend_from_slice(&a);
            v.extend_from_slice(&b);
            v
        }
        10 if !hashes.is_empty() => r.pick(hashes).to_vec(),
        11 if r.chance(1, 12) => {
            let n = if !cfg!(miri) && r.chance(1, 600) {
                // now and then megabytes
                (1 << (20 + r.us(3))) + r.us(3)
            } else if !cfg!(miri) && r.chance(1, 3) {
                // at and around the sizes of buffers and of 16-bit lengths
                let p = *r.pick(&[1usize << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 16, 1 << 17]);
                (p + r.us(5)).saturating_sub(2)
            } else {
                200 + r.us(9000)
            };
            r.bytes(n)
        }
        12 if r.chance(1, 5) => r.pick(&MINED).to_be_bytes().to_vec(),
        _ => {
            let n = r.us(100);
            r.bytes(n)
        }
    }
}

pub fn nonempty(r: &mut Rng, hashes: &[H]) -> Vec<u8> {
    let mut d = data(r, hashes);
    if d.is_empty() {
        d.push(r.u64() as u8);
    }
    d
}

pub const FAMILIES: u64 = 14;

pub fn set_bit(k: &mut H, i: usize, v: bool) {
    let m = 1u8 << (7 - i % 8);
    if v {
        k[i / 8] |= m
    } else {
        k[i / 8] &= !m
    }
}

/// A set of distinct keys of one family.
pub fn keys(r: &mut Rng, family: u64, n: usize) -> Vec<H> {
    let mut out: Vec<H> = vec![];
    let base = match r.below(4) {
        0 => ZERO,
        1 => ONES,
        _ => r.h(),
    };
    let mut tries = 0;
    while out.len() < n && tries < n * 50 + 1000 {
        tries += 1;
        let i = out.len();
        let mut k = match family % FAMILIES {
            // uniform
            0 => r.h(),
            // SHA-256 of small integers, as in the test data
            1 => vhash(&(tries as u32).to_be_bytes()),
            // shares a random number of leading bits with the base
            2 => {
                let mut k = r.h();
                let c = r.us(256);
                for b in 0..c {
                    set_bit(&mut k, b, crate::model::bit(&base, b));
                }
                k
            }
            // staircase: differs from the base first at bit i*step
            3 => {
                let mut k = base;
                let b = (i * 256 / n.max(1)).min(255);
                set_bit(&mut k, b, !crate::model::bit(&base, b));
                if r.chance(1, 2) {
                    for j in b + 1..256 {
                        set_bit(&mut k, j, r.chance(1, 2));
                    }
                }
                k
            }
            // same 248..255 leading bits
            4 => {
                let mut k = base;
                k[31] = r.u64() as u8;
                k
            }
            // same 16 trailing-bit window
            5 => {
                let mut k = base;
                k[30] = r.u64() as u8 & 3;
                k[31] = r.u64() as u8 & 7;
                k
            }
            // low entropy bytes
            6 => {
                let mut k = ZERO;
                for b in k.iter_mut() {
                    *b = *r.pick(&[0u8, 0xff]);
                }
                if r.chance(1, 2) {
                    for b in k.iter_mut().take(31) {
                        *b = base[0];
                    }
                }
                k
            }
            // small integers, either end
            7 => {
                let mut k = ZERO;
                let x = r.below(4 * n as u64 + 4);
                if r.chance(1, 2) {
                    k[24..].copy_from_slice(&x.to_be_bytes());
                } else {
                    k[..8].copy_from_slice(&x.to_le_bytes());
                }
                k
            }
            // one-hot and all-but-one
            8 => {
                let mut k = if r.chance(1, 2) { ZERO } else { ONES };
                let b = r.us(256);
                let v = crate::model::bit(&k, b);
                set_bit(&mut k, b, !v);
                k
            }
            // zero, ones, and neighbours
            9 => {
                let mut k = if r.chance(1, 2) { ZERO } else { ONES };
                if r.chance(2, 3) {
                    for _ in 0..1 + r.us(2) {
                        let b = *r.pick(&[0usize, 1, 2, 7, 8, 9, 127, 128, 247, 248, 254, 255]);
                        let v = crate::model::bit(&k, b);
                        set_bit(&mut k, b, !v);
                    }
                }
                k
            }
            // clusters: a few deep clusters in a shallow tree
            10 => {
                let mut k = ZERO;
                k[0] = *r.pick(&[0u8, 0x40, 0x80, 0xc0]);
                k[1] = base[1];
                k[r.us(32)] ^= 1 << r.us(8);
                k
            }
            // dense shallow: first byte varies only
            11 => {
                let mut k = base;
                k[0] = r.u64() as u8;
                k
            }
            // texts: words, digits, hex in either case, one letter repeated
            12 => {
                let set: &[u8] = match base[31] % 6 {
                    0 => b"0123456789abcdef",
                    1 => b"0123456789ABCDEFabcdef",
                    2 => b"0123456789",
                    3 => b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ",
                    4 => b"aA \t.-_/0",
                    _ => b"!\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~",
                };
                let mut k = if i > 0 && r.chance(1, 3) { *r.pick(&out) } else { ZERO };
                match r.below(4) {
                    // the same text in the other case, or one letter changed
                    0 if k != ZERO => k.iter_mut().filter(|b| b.is_ascii_alphabetic()).for_each(|b| *b ^= 0x20),
                    1 if k != ZERO => k[r.us(32)] = *r.pick(set),
                    2 => k = [*r.pick(set); 32],
                    _ => k.iter_mut().for_each(|b| *b = *r.pick(set)),
                }
                if r.chance(1, 6) {
                    let n = r.us(32);
                    k[n..].fill(*r.pick(&[0u8, 32]));
                }
                k
            }
            // pairs of sibling keys (differ in the last bit only)
            _ => {
                let mut k = if i % 2 == 1 { out[i - 1] } else { r.h() };
                if i % 2 == 1 {
                    k[31] ^= 1;
                }
                k
            }
        };
        if let Some(n) = lit_num(r) {
            if n < 256 && r.chance(1, 3) {
                // parts from another key at that bit
                let b = n as usize;
                let o = if out.is_empty() { base } else { *r.pick(&out) };
                for i in 0..b {
                    set_bit(&mut k, i, crate::model::bit(&o, i));
                }
                set_bit(&mut k, b, !crate::model::bit(&o, b));
            } else {
                season(r, &mut k);
            }
        }
        if !out.contains(&k) {
            out.push(k);
        }
    }
    while out.len() < n {
        let k = r.h();
        out.push(k);
    }
    r.shuffle(&mut out);
    out
}

/// Leaf counts of every shape up to `max`.
pub fn big_count(r: &mut Rng, max: u64) -> u64 {
    if let Some(n) = lit_num(r) {
        return n.min(max);
    }
    let bits = 64 - max.leading_zeros() as u64;
    let n = match r.below(6) {
        0 => 1u64 << r.below(bits),
        1 => (1u64 << r.below(bits)).saturating_sub(1 + r.below(4)),
        2 => (1u64 << r.below(bits)) + r.below(5),
        3 => {
            // sparse bits
            let mut x = 0;
            for _ in 0..1 + r.below(4) {
                x |= 1u64 << r.below(bits);
            }
            x
        }
        4 => max.saturating_sub(r.below(70)),
        _ => r.u64() >> (64 - r.range(1, bits)),
    };
    n.min(max)
}

/// Distinguished indices of an n-leaf tree.
pub fn indices(r: &mut Rng, n: u64, extra: usize) -> Vec<u64> {
    let mut v = vec![0, n - 1, n / 2];
    let mut p = 1u64;
    while p < n {
        for d in [p - 1, p, p + 1] {
            v.push(d);
        }
        // peaks counted from the left
        v.push(n - 1 - (p - 1).min(n - 1));
        if p > u64::MAX / 2 {
            break;
        }
        p *= 2;
    }
    let mut acc = 0u64;
    for b in (0..64).rev() {
        if n >> b & 1 == 1 {
            v.push(acc);
            acc += 1 << b;
            v.push(acc - 1);
        }
    }
    for _ in 0..extra {
        v.push(r.below(n));
    }
    if let Some(i) = lit_num(r) {
        v.push(i);
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}

/// Indices at or beyond n.
pub fn bad_indices(r: &mut Rng, n: u64) -> Vec<u64> {
    let mut v = vec![
        n,
        n.saturating_add(1),
        n.saturating_add(2),
        n.saturating_mul(2),
        n.saturating_mul(2).saturating_add(1),
        n.next_power_of_two(),
        n.next_power_of_two().saturating_add(1),
        1 << 31,
        u32::MAX as u64,
        1 << 32,
        (1 << 62) - 1,
        1 << 62,
        i64::MAX as u64 - 1,
        i64::MAX as u64,
        1 << 63,
        (1 << 63) + n.min(1 << 62),
        u64::MAX - n.min(1 << 40),
        u64::MAX - 1,
        u64::MAX,
    ];
    for _ in 0..6 {
        let s = r.below(64);
        v.push(r.u64() >> s);
    }
    if let Some(i) = lit_num(r) {
        v.push(i);
        v.push(n.saturating_add(i));
    }
    v.retain(|i| *i >= n);
    v.sort();
    v.dedup();
    v
}

