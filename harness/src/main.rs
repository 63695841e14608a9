//! fm-monitor: drives fuel-merkle under generated workloads while monitors
//! decide the properties of /verif/properties.jsonl.

#![cfg_attr(not(feature = "all"), allow(dead_code))]

#[macro_use]
mod core;
mod gen;
mod model;
mod p_binary;
mod p_common;
mod p_cross;
mod p_extra;
mod p_life;
mod p_sparse;
mod p_sum;
#[cfg(feature = "helpers")]
mod p_verify;
mod sha;

use crate::core::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

type Work = fn(&mut Ctx, &mut Rng, u64) -> R;
struct Wl(&'static str, u64, u64, Work);
struct Prop {
    id: &'static str,
    wl: Vec<Wl>,
    /// (counter, minimum) that a full-scale run must reach to be conclusive
    min: Vec<(&'static str, u64)>,
}

macro_rules! props {
    ($v:ident: $($id:literal [ $($f:path, $q:expr, $t:expr);* $(;)? ] { $($k:literal : $m:expr),* $(,)? } )*) => {
        // one cargo feature per property, so that a check compiles only what it runs
        $(
            #[cfg(any(feature = "all", feature = $id))]
            $v.push(Prop { id: $id, wl: vec![ $( Wl(stringify!($f), $q, $t, $f) ),* ], min: vec![ $( ($k, $m) ),* ] });
        )*
    };
}

#[allow(unused_imports)]
fn props() -> Vec<Prop> {
    use p_binary::*;
    use p_common::*;
    use p_cross::*;
    use p_extra::*;
    use p_life::*;
    use p_sparse::*;
    use p_sum::*;
    #[allow(unused_mut)]
    let mut v: Vec<Prop> = vec![];
    props! { v:
        "C01" [ c01_exhaustive, 2187, 2187; c01_random, 9000, 180000; c01_long, 120, 2400; c01_bigleaf, 36, 360; c01_huge, 1200, 36000 ]
            { "largest leaf count built by appends": 2000, "largest leaf count restored": 1 << 50 }
        "C02" [ c02_allpairs, 180, 640; c02_grow, 900, 18000; c02_large, 72, 1200; c02_huge, 2400, 120000; c02_life, 8, 64 ]
            { "all (size, index) pairs of a size": 180, "largest leaf count proved": 1 << 50 }
        "C03" [ c03_sizes, 260, 1100; c03_restored, 600, 12000; c03_huge, 3000, 120000; c03_life, 8, 64 ] { "restored trees asked beyond their leaves": 1000, "largest leaf count": 1 << 50 }
        "C04" [ c04_prefix, 40, 90; c04_restart_always, 1000, 16000; c04_large, 80, 1200; c04_huge, 1600, 64000; c04_life, 8, 64 ]
            { "storages restored at every prefix": 40, "rollback-and-replay": 100, "largest leaf count restored": 1 << 50 }
        "C05" [ c05_every, 5400, 120000; c05_long, 120, 1800; c05_huge, 1800, 60000 ] { "stored entries compared": 100_000, "largest leaf count": 1 << 50 }
        "C06" [ c06_single, 36, 90; c06_subset, 4800, 160000; c06_extreme, 3200, 80000; c06_huge, 3200, 128000; c06_life, 8, 64 ]
            { "loads refused": 500, "proofs refused": 500, "correct proofs on incomplete storage": 500, "extreme counts refused": 500 }
        "C07" [ c07_enum, 48, 130; c07_reads, 40, 100; c07_random, 4800, 160000; c07_huge, 2400, 60000; c07_life, 8, 64 ] { "storage failures injected": 2000, "largest leaf count with failing storage": 1 << 50 }
        "C08" [ c08_random, 2500, 60000; c08_exhaustive, 46656, 46656; c08_staircase, 60, 900; c08_permute, 300, 6000; c08_large, 10, 150; c08_life, 8, 64 ]
            { "largest map": 300, "deepest leaf": 250 }
        "C09" [ c09_random, 6000, 150000; c09_drain, 450, 9000; c09_life, 8, 64 ]
            { "insert-delete round trips": 1000, "deletes of present keys": 3000, "deletes of absent keys": 3000, "deletes of formerly present keys": 1000 }
        "C10" [ c10_random, 4500, 120000; c10_branches, 750, 18000; c10_empty, 450, 6000; c10_life, 8, 64 ] { "reopened empty": 150 }
        "C11" [ c11_random, 4500, 120000; c11_large, 30, 450; c11_life, 8, 48 ] { "stored nodes walked": 100_000 }
        "C12" [ c12_random, 9000, 240000; c12_drain, 720, 18000; c12_life, 8, 64 ] { "deletes of present keys": 3000, "path nodes checked gone": 10_000, "longest pruned path": 100 }
        "C13" [ c13_enum, 140, 3000; c13_random, 700, 20000; c13_life, 8, 64 ]
            { "storage failures injected": 5000, "left in the old state": 1000 }
        "C14" [ c14_run, 900, 24000; c14_single, 150, 3000; c14_life, 8, 64 ] { "nodes damaged": 2000, "operations with the correct result": 500, "operations refused": 2000, "opens refused": 50 }
        "C15" [ c15_adaptive, 900, 24000; c15_single, 300, 6000 ] { "adaptively chosen keys": 1500 }
        "C16" [ c16_random, 20000, 480000; c16_exhaustive, 7776, 7776; c16_long, 320, 6400 ] { "largest leaf count": 40, "largest fee total": 1 << 62 }
        "C17" [ c17_random, 9600, 240000; c17_long, 144, 2400 ] { "stored nodes walked": 50_000, "largest leaf count": 500 }
        "C18" [ c18_enum, 48, 120; c18_random, 7200, 240000; c18_life, 8, 64 ] { "storage failures injected": 2000 }
        "C19" [ c19_dense, 1024, 16384; c19_structured, 20000, 1600000 ]
            { "leaf positions": 500_000, "inner positions": 500_000, "siblings": 500_000, "parents": 500_000, "uncles": 500_000, "largest position": u64::MAX - 1 }
        "C20" [ c20_pairs, 330, 1300; c20_sampled, 20000, 960000; c20_descents, 32000, 1600000 ]
            { "leaf counts with all leaves": 330, "largest leaf count": 1 << 60, "tallest descent": 50 }
        "C21" [ c21_few, 14400, 360000; c21_many, 720, 14400 ] { "largest map": 500, "largest map drained": 200 }
        "C22" [ c22_binary, 4000, 80000; c22_sparse, 4500, 100000; c22_life, 8, 64 ]
            { "proofs compared": 5000, "refusals compared": 1000, "sparse roots compared": 10_000, "largest leaf count": 200 }
        "C23" [ c23_mixed, 10000, 200000; c23_life, 6, 48 ] { "library calls": 50_000, "storage failures armed": 500 }
        "C24" [ c24_mixed, 10000, 120000; c24_threads, 120, 2000; c24_cold, 8, 64 ] { "library calls": 50_000, "storage failures armed": 500, "trees built on concurrent threads": 100, "library scripts run by threads at once": 300, "trees printed": 1000 }
        "C26" [ c26_binary, 7200, 160000; c26_sparse, 7200, 160000; c26_sum, 5600, 128000; c26_life, 9, 72 ] { "reads": 20_000, "twin histories": 2000 }
        "C27" [ c27_binary, 2000, 48000; c27_sparse, 1600, 40000; c27_sum, 2000, 48000 ] { "backend runs compared": 5000, "results compared": 50_000 }
        "C28" [ c28_binary, 4000, 96000; c28_sum, 2800, 72000; c28_sparse, 4000, 96000; c28_long, 90, 2000 ] { "binary contents": 5000, "sum contents": 5000, "sparse contents": 4000 }
        "C29" [ c29_overflow, 48000, 1200000 ] { "largest leaf count passing the limit": 1000 }
        "C30" [ c30_binary, 8, 80; c30_binary_huge, 1200, 32000; c30_sum, 9, 90; c30_sparse, 12, 120; c30_life, 9, 72 ]
            { "largest leaf count built by appends": 4096, "largest map": 1500, "longest key path": 200 }
        "C31" [ c31_binary, 2000, 40000; c31_sparse, 2000, 40000; c31_life, 8, 64 ]
            { "missing binary nodes named": 1000, "invalid indices named": 1000, "storage errors passed on": 1000, "absent roots named": 1000, "missing sparse nodes named": 500, "unknown kinds named": 500 }
        "C32" [ c32_interleaved, 2400, 48000; c32_life, 8, 64 ] { "interleaved steps compared": 50_000, "concurrent steps compared": 10_000 }
        "C33" [ c33_binary, 8, 64; c33_huge, 800, 16000; c33_sparse, 12, 96; c33_sum, 6, 48; c33_idle, 24, 240 ]
            { "calls measured": 100_000, "largest tree measured": 1 << 50, "most bytes used during one call": 1000 }
        "C35" [ c35_binary, 720, 12000; c35_sparse, 500, 12000; c35_sum, 400, 8000 ]
            { "crash points": 10_000, "crashes leaving the earlier tree": 100, "crashes leaving the later tree": 100, "writes of one operation": 200 }
        "C37" [ c37_sparse, 900, 18000; c37_binary, 900, 18000; c37_sum, 900, 18000; c37_readers_large, 16, 200; c37_life, 8, 64 ]
            { "versions reopened": 10_000, "versions branched from": 1000, "earlier leaf counts read beside the writer": 10_000 }
    }
    #[cfg(feature = "helpers")]
    {
        use p_verify::*;
        props! { v:
            "C25" [ c25_complete, 200, 700; c25_forge, 720, 12000; c25_huge, 960, 32000 ]
                { "own proofs accepted": 15_000, "altered proofs offered": 50_000, "leaf counts with all leaves": 200, "largest leaf count": 1 << 50 }
            "C34" [ c34_all, 140, 420; c34_random, 480, 9600 ]
                { "leaf counts with all indices": 139, "helper proofs compared": 9000, "helper roots compared": 9000, "helper proofs beyond the leaves": 600, "largest leaf count": 2000 }
            "C36" [ c36_values, 1500, 30000; c36_sparse, 8000, 160000; c36_binary, 8000, 160000 ]
                { "vectors that hold": 5000, "vectors that do not hold": 3000 }
        }
    }
    v
}

struct Args {
    prop: String,
    thorough: bool,
    tiny: bool,
    seed: u64,
    out: Option<String>,
    variant: String,
    threads: usize,
    only: Option<(String, u64)>,
    scale: f64,
    cap: u64,
    shard: (usize, usize),
    digests: Option<String>,
    announce: bool,
    replay: Option<String>,
    quiet_min: bool,
}

fn args() -> Args {
    let mut a = Args {
        prop: String::new(),
        thorough: false,
        tiny: cfg!(miri),
        seed: 1,
        out: None,
        variant: "default".into(),
        threads: 8,
        only: None,
        scale: 1.0,
        cap: u64::MAX,
        shard: (0, 1),
        digests: None,
        announce: false,
        replay: None,
        quiet_min: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match x.as_str() {
            "--tier" => a.thorough = v() == "thorough",
            "--tiny" => a.tiny = true,
            "--seed" => a.seed = v().parse().unwrap_or_else(|_| 1),
            "--out" => a.out = Some(v()),
            "--variant" => a.variant = v(),
            "--threads" => a.threads = v().parse().unwrap_or(8),
            "--scale" => a.scale = v().parse().unwrap_or(1.0),
            "--cap" => a.cap = v().parse().unwrap_or(u64::MAX),
            "--shard" => {
                let s = v();
                let (i, n) = s.split_once('/').expect("--shard i/n");
                a.shard = (i.parse().expect("shard"), n.parse().expect("shards"));
            }
            "--digests" => a.digests = Some(v()),
            "--announce" => a.announce = true,
            "--replay" => a.replay = Some(v()),
            "--no-min" => a.quiet_min = true,
            "--case" => {
                let s = v();
                let (w, i) = s.split_once(':').expect("--case workload:index");
                a.only = Some((w.to_string(), i.parse().expect("case index")));
            }
            _ => a.prop = x,
        }
    }
    a
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn case_rng(seed: u64, prop: &str, wl: &str, idx: u64) -> Rng {
    Rng::new(mix(mix_str(seed, prop) ^ mix_str(7, wl)) ^ mix(idx))
}

thread_local! {
    static CASE_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

fn run_case(ctx: &mut Ctx, a: &Args, p: &Prop, w: &Wl, idx: u64) -> R {
    ctx.case_digest = 0;
    let mut rng = case_rng(a.seed, p.id, w.0, idx);
    match catch_unwind(AssertUnwindSafe(|| (w.3)(ctx, &mut rng, idx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            Err(Violation {
                msg: format!("the monitor could not interpret the library's answers: {m}"),
            })
        }
    }
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok())))
        .unwrap_or(0)
}
/// CPU ticks used by a thread of this process
fn ticks(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

struct Found {
    w: usize,
    idx: u64,
    msg: String,
}

fn emit_violation(a: &Args, p: &Prop, wl: &str, idx: u64, msg: &str, trace: &[String]) {
    let mut text = String::new();
    let _ = writeln!(text, "property: {}", p.id);
    let _ = writeln!(text, "build variant: {}", a.variant);
    let _ = writeln!(text, "case: {wl}:{idx} (seed {}, tier {})", a.seed, if a.thorough { "thorough" } else { "quick" });
    let _ = writeln!(text, "violation: {msg}");
    let _ = writeln!(text, "rerun: python3 /verif/tools/check.py {} --variant {} --case {wl}:{idx} --seed {}", p.id, a.variant, a.seed);
    let _ = writeln!(text, "--- history of the case ---");
    for t in trace {
        let _ = writeln!(text, "{t}");
    }
    if let Some(r) = &a.replay {
        let _ = std::fs::write(r, &text);
    }
    eprintln!("violation of {} in {wl}:{idx} [{}]: {msg}", p.id, a.variant);
}

fn write_out(
    a: &Args,
    p: &Prop,
    g: &Ctx,
    cases: &BTreeMap<&'static str, u64>,
    viol: Option<(&str, u64, &str)>,
    inconclusive: &[String],
    wall: f64,
) {
    let mut o = String::from("{");
    let _ = write!(o, "\"property\":{},\"variant\":{},\"evaluations\":{},\"distinct\":{},\"digest\":\"{:016x}\",\"wall_s\":{:.3},\"calls\":{}", js(p.id), js(&a.variant), g.evaluations, g.distinct.len(), g.digest, wall, CALLS.load(Ordering::Relaxed));
    let _ = write!(o, ",\"cases\":{{{}}}", cases.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"counters\":{{{}}}", g.counters.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"maxima\":{{{}}}", g.maxima.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"samples\":[{}]", g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"findings\":{{{}}}", g.findings.iter().map(|(k, v)| format!("{}:{}", js(k), js(v))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"inconclusive\":[{}]", inconclusive.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    match viol {
        Some((w, i, m)) => {
            let _ = write!(o, ",\"violation\":{{\"workload\":{},\"case\":{},\"message\":{}}}", js(w), i, js(m));
        }
        None => o.push_str(",\"violation\":null"),
    }
    o.push_str("}\n");
    match &a.out {
        Some(f) => std::fs::write(f, o).expect("write result"),
        None => print!("{o}"),
    }
}

static CALLS: AtomicU64 = AtomicU64::new(0);

fn merge(g: &mut Ctx, c: Ctx) {
    g.evaluations += c.evaluations;
    for (k, v) in c.counters {
        *g.counters.entry(k).or_insert(0) += v;
    }
    for (k, v) in c.maxima {
        g.max(k, v);
    }
    if g.distinct.is_empty() {
        g.distinct = c.distinct;
    } else {
        g.distinct.extend(c.distinct);
    }
    for s in c.samples {
        if g.samples.len() < 9 {
            g.samples.push(s);
        }
    }
    for (k, v) in c.findings {
        g.findings.entry(k).or_insert(v);
    }
    g.roots.extend(c.roots);
    g.digest = g.digest.wrapping_add(c.digest);
}

/// Wall-clock seconds; Miri's isolation offers a virtual clock.
fn now() -> std::time::Instant {
    std::time::Instant::now()
}

const CALL_TICKS: u64 = 2500; // 25 s of CPU time in one library call
const MAX_RSS_PAGES: u64 = 14 << 18; // 14 GiB

fn main() {
    let t0 = now();
    let a = args();
    let ps = props();
    let p = match ps.iter().find(|p| p.id == a.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}; this build knows {}", a.prop, ps.iter().map(|p| p.id).collect::<Vec<_>>().join(" "));
            std::process::exit(2);
        }
    };
    if !cfg!(miri) {
        if let Err(e) = model::self_test() {
            eprintln!("reference model self-test failed: {e}");
            std::process::exit(2);
        }
    }
    install_panic_hook();

    // one case only, traced
    if let Some((w, i)) = &a.only {
        let w = p.wl.iter().find(|x| x.0 == w).expect("no such workload");
        let mut c = Ctx { tracing: true, thorough: a.thorough, tiny: a.tiny, ..Default::default() };
        let r = run_case(&mut c, &a, p, w, *i);
        for t in &c.trace {
            eprintln!("{t}");
        }
        let v = r.err();
        if let Some(v) = &v {
            emit_violation(&a, p, w.0, *i, &v.msg, &c.trace);
        }
        write_out(&a, p, &c, &BTreeMap::from([(w.0, 1)]), v.as_ref().map(|v| (w.0, *i, &v.msg[..])), &[], 0.0);
        std::process::exit(if v.is_some() { 1 } else { 0 });
    }

    // the list of cases
    let mut list: Vec<(usize, u64)> = vec![];
    for (wi, w) in p.wl.iter().enumerate() {
        if a.tiny && w.0 == "c24_cold" {
            continue; // run by itself, in fresh processes
        }
        let n = if a.thorough { w.2 } else { w.1 };
        let mut chosen: Vec<u64> = (0..n)
            .filter(|i| a.scale >= 1.0 || (mix(mix_str(a.seed ^ 0x5ca1e, w.0) ^ mix(*i)) >> 11) as f64 / (1u64 << 53) as f64 <= a.scale)
            .collect();
        if chosen.len() as u64 > a.cap {
            // an even spread
            let m = chosen.len() as u64;
            chosen = if a.tiny {
                (0..a.cap).map(|k| chosen[k as usize]).collect()
            } else {
                (0..a.cap).map(|k| chosen[((k as u128 * m as u128) / a.cap as u128) as usize]).collect()
            };
        }
        if chosen.is_empty() && n > 0 {
            chosen.push(0);
        }
        list.extend(chosen.into_iter().map(|i| (wi, i)));
    }
    // costly cases spread over the run; still deterministic
    let mut order: Vec<usize> = (0..list.len()).collect();
    Rng::new(5).shuffle(&mut order);

    let order: Vec<usize> = order.into_iter().enumerate().filter(|(k, _)| k % a.shard.1 == a.shard.0).map(|(_, x)| x).collect();

    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let global: Mutex<Ctx> = Mutex::new(Ctx::default());
    let case_digests: Mutex<Vec<(usize, u64, u64)>> = Mutex::new(vec![]);
    let done: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
    let nt = a.threads.max(1).min(order.len().max(1));
    let progress: Vec<Arc<Progress>> = (0..nt)
        .map(|_| {
            Arc::new(Progress {
                seq: AtomicU64::new(0),
                in_call: AtomicU64::new(0),
                tid: AtomicU64::new(0),
                case: AtomicU64::new(0),
                workload: AtomicU64::new(0),
            })
        })
        .collect();

    let worker = |ti: usize| {
        let pr = progress[ti].clone();
        if !cfg!(miri) {
            pr.tid.store(my_tid(), Ordering::Relaxed);
        }
        PROGRESS.with(|x| *x.borrow_mut() = Some(pr.clone()));
        let mut c = Ctx { thorough: a.thorough, tiny: a.tiny, ..Default::default() };
        let mut mine: BTreeMap<&'static str, u64> = BTreeMap::new();
        let mut digs = vec![];
        loop {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            let k = next.fetch_add(1, Ordering::Relaxed) as usize;
            if k >= order.len() {
                break;
            }
            let (wi, idx) = list[order[k]];
            pr.case.store(idx, Ordering::Relaxed);
            pr.workload.store(wi as u64, Ordering::Relaxed);
            let w = &p.wl[wi];
            if a.announce {
                eprintln!("CASE {}:{}", w.0, idx);
            }
            let r = run_case(&mut c, &a, p, w, idx);
            *mine.entry(w.0).or_insert(0) += 1;
            c.digest = c.digest.wrapping_add(mix(c.case_digest ^ mix_str(idx, w.0)));
            if a.digests.is_some() {
                digs.push((wi, idx, c.case_digest));
            }
            if let Err(v) = r {
                let mut f = found.lock().unwrap();
                let better = match &*f {
                    None => true,
                    Some(o) => (wi, idx) < (o.w, o.idx),
                };
                if better {
                    *f = Some(Found { w: wi, idx, msg: v.msg });
                }
                stop.store(true, Ordering::Relaxed);
            }
        }
        CALLS.fetch_add(calls_made(), Ordering::Relaxed);
        merge(&mut global.lock().unwrap(), c);
        let mut d = done.lock().unwrap();
        for (k, v) in mine {
            *d.entry(k).or_insert(0) += v;
        }
        case_digests.lock().unwrap().extend(digs);
    };

    let finished = AtomicBool::new(false);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt).map(|ti| { let w = &worker; s.spawn(move || w(ti)) }).collect();
        // watchdog: decides on CPU time of the thread inside one library call,
        // so a loaded machine cannot trip it
        if !cfg!(miri) {
            let (progress, finished, a) = (&progress, &finished, &a);
            s.spawn(move || {
                let mut seen: HashMap<usize, (u64, u64)> = HashMap::new();
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    let rss = std::fs::read_to_string("/proc/self/statm")
                        .ok()
                        .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                        .unwrap_or(0);
                    for (i, pr) in progress.iter().enumerate() {
                        let inside = pr.in_call.load(Ordering::Relaxed) == 1;
                        let seq = pr.seq.load(Ordering::Relaxed);
                        if !inside {
                            seen.remove(&i);
                            continue;
                        }
                        let t = match ticks(pr.tid.load(Ordering::Relaxed)) {
                            Some(t) => t,
                            None => continue,
                        };
                        let e = seen.entry(i).or_insert((seq, t));
                        if e.0 != seq {
                            *e = (seq, t);
                        }
                        let hung = t - e.1 > CALL_TICKS;
                        let fat = rss > MAX_RSS_PAGES && t - e.1 > 100;
                        if hung || fat {
                            let w = p.wl[pr.workload.load(Ordering::Relaxed) as usize].0;
                            let idx = pr.case.load(Ordering::Relaxed);
                            let m = if hung {
                                "one library call used 25 s of CPU time without returning".to_string()
                            } else {
                                format!("one library call drove memory use to {} MiB", rss / 256)
                            };
                            emit_violation(a, p, w, idx, &m, &[]);
                            write_out(a, p, &Ctx::default(), &BTreeMap::new(), Some((w, idx, &m)), &[], t0.elapsed().as_secs_f64());
                            std::process::exit(1);
                        }
                    }
                }
            });
        }
        for h in hs {
            let _ = h.join();
        }
        finished.store(true, Ordering::Relaxed);
    });

    let g = global.into_inner().unwrap();
    let done = done.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    let mut trace = vec![];
    if let Some(f) = &mut found {
        // a traced rerun for the replay file
        let mut c = Ctx { tracing: true, thorough: a.thorough, tiny: a.tiny, ..Default::default() };
        if let Err(v) = run_case(&mut c, &a, p, &p.wl[f.w], f.idx) {
            f.msg = v.msg;
        }
        trace = c.trace;
    }
    // uniqueness over all cases
    if found.is_none() {
        let mut seen: HashMap<(u8, H), u64> = HashMap::with_capacity(g.roots.len());
        for (ty, root, key) in &g.roots {
            let k = *seen.entry((*ty, *root)).or_insert(*key);
            if k != *key {
                found = Some(Found {
                    w: 0,
                    idx: 0,
                    msg: format!("two different contents of two cases share the root {}", hx(root)),
                });
                break;
            }
        }
    }
    if let Some(f) = &a.digests {
        let mut d = case_digests.into_inner().unwrap();
        d.sort();
        let mut s = String::new();
        for (w, i, x) in d {
            let _ = writeln!(s, "{}:{} {:016x}", p.wl[w].0, i, x);
        }
        std::fs::write(f, s).expect("write digests");
    }
    let mut inconclusive = vec![];
    if a.scale >= 1.0 && a.cap == u64::MAX && a.shard.1 == 1 && !a.quiet_min && found.is_none() {
        for (k, m) in &p.min {
            let v = g.counters.get(k).or_else(|| g.maxima.get(k)).copied().unwrap_or(0);
            if v < *m {
                inconclusive.push(format!("{k}: observed {v}, needs {m}"));
            }
        }
        if g.distinct.len() < 50 {
            inconclusive.push(format!("only {} distinct non-trivial cases", g.distinct.len()));
        }
    }
    if let Some(f) = &found {
        emit_violation(&a, p, p.wl[f.w].0, f.idx, &f.msg, &trace);
    }
    write_out(
        &a,
        p,
        &g,
        &done,
        found.as_ref().map(|f| (p.wl[f.w].0, f.idx, &f.msg[..])),
        &inconclusive,
        t0.elapsed().as_secs_f64(),
    );
    for s in &inconclusive {
        eprintln!("inconclusive: {s}");
    }
    std::process::exit(if found.is_some() {
        1
    } else if !inconclusive.is_empty() {
        3
    } else {
        0
    });
}
