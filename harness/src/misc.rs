//! Directed scenarios that need more than a sequence of operations: C08 (shard layouts), C11 (opening), C12 (cookies), C20 (flush).
use crate::model::*;
use crate::proc::*;
use crate::{inter, Env, Outcome};
use candystore::{CandyStore, Config, Stats};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

pub fn applies(p: &str) -> bool { matches!(p, "C08" | "C11" | "C12" | "C20") }

fn base() -> Cfg { Cfg { max_shard: 1 << 20, min_compact: 1 << 18, nkeys: 0, trunc_up: false, mask: u64::MAX, locks: 4, seed_byte: 0 } }
type Res = Result<String, String>;
fn es<E: std::fmt::Display>(e: E) -> String { format!("{e}") }
type M = BTreeMap<Vec<u8>, Vec<u8>>;
fn contents(db: &CandyStore) -> Result<M, String> {
    let mut m = M::new();
    for r in db.iter() { let (k, v) = r.map_err(es)?; if m.insert(k, v).is_some() { return Err("iter returns a key twice".into()) } }
    for (k, v) in &m { if db.get(k).map_err(es)?.as_ref() != Some(v) { return Err("iter and get disagree".into()) } }
    Ok(m)
}
fn files(dir: &Path) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| { let e = e.ok()?; let n = e.file_name().into_string().ok()?; if n == ".lock" { None } else { Some((n, std::fs::read(e.path()).ok()?)) } }).collect();
    v.sort();
    v
}
fn shard_files(dir: &Path) -> Vec<String> { files(dir).into_iter().map(|x| x.0).filter(|n| n.starts_with("shard_")).collect() }
fn key(i: u64) -> Vec<u8> { format!("key-{i}").into_bytes() }
fn val(i: u64) -> Vec<u8> { format!("value-{}", i.wrapping_mul(0x9E3779B97F4A7C15) >> (i % 50)).into_bytes() }

// ---------------------------------------------------------------------------------------------- C08
fn reference_shards(n: u64) -> Option<u64> {
    // exact: the largest power of two not above floor(65536 / max(n / 29491, 1)); skipped close to rounding boundaries
    const CAP: u64 = 64 * 512 * 9 / 10;
    if n <= CAP { return Some(1) }
    let q = (65536u128 * CAP as u128) / n as u128;
    let step = q.max(1);
    let near = |x: u128| -> bool { x >= 1 && { let lhs = x * n as u128; let rhs = 65536u128 * CAP as u128; let d = if lhs > rhs { lhs - rhs } else { rhs - lhs }; d * (1 << 40) < rhs } };
    if near(step) || near(step + 1) { return None }
    let p = 1u64 << (127 - step.leading_zeros());
    Some(65536 / p)
}
fn c08_calc(n: u64) -> Res {
    let s = Stats { num_inserts: n as usize, ..Default::default() }.required_num_shards() as u64;
    if s == 0 || !s.is_power_of_two() || s > 65536 { return Err(format!("{n} keys require {s} shards, which is not a power of two in 1..=65536")); }
    if let Some(r) = reference_shards(n) { if r != s { return Err(format!("{n} keys require {s} shards instead of {r}")) } }
    Ok(String::new())
}
fn c08_open(d: &Path, nkeys: usize) -> Res {
    let cfg = Cfg { nkeys, ..base() };
    let mut cx = Ctx::open(d, &cfg)?;
    cx.check_tiling()?;
    let want = Stats { num_inserts: nkeys, ..Default::default() }.required_num_shards();
    if cx.db().stats().num_shards != want { return Err(format!("a new store for {nkeys} keys has {} shards instead of {want}", cx.db().stats().num_shards)) }
    for i in 0..400 { cx.apply(&Op::Set(Bs::Id(300 + i), Bs::Id(i % 40)))?; }
    for i in 0..100 { cx.apply(&Op::Remove(Bs::Id(300 + i * 3)))?; }
    cx.full()?;
    cx.apply(&Op::Reopen)?;
    cx.full()?;
    cx.check_tiling()?;
    if nkeys > 0 {
        // every shard lookup reaches the file of the shard
        drop(cx.db.take());
        let n = files(d).iter().filter(|f| f.0.starts_with("shard_")).count();
        if n != want { return Err(format!("{n} shard files for {want} shards")) }
    }
    Ok(String::new())
}
/// left-over files: `names` are copied from the shard that contains them (stale) or filled with garbage, then the store is opened
fn c08_leftover(d: &Path, nkeys: usize, extra: &[(&str, u8)]) -> Res {
    let cfg = Cfg { nkeys, max_shard: 3000, ..base() };
    {
        let mut cx = Ctx::open(d, &cfg)?;
        for i in 0..60 { cx.apply(&Op::Set(Bs::Id(300 + i), Bs::Id(i % 40)))?; }
    }
    let want = { let db = CandyStore::open(d, cfg.config()).map_err(es)?; contents(&db)? };
    let before = shard_files(d);
    for (n, how) in extra {
        let p = d.join(n);
        if p.exists() { continue; }
        match how {
            0 => { std::fs::write(&p, b"partial").unwrap(); }
            1 => { std::fs::write(&p, b"").unwrap(); }
            _ => {
                // a well-formed but empty shard
                let t = d.join("tmp-empty");
                std::fs::create_dir_all(&t).unwrap();
                { CandyStore::open(&t, base().config()).map_err(es)?; }
                std::fs::copy(t.join("shard_0000-10000"), &p).map_err(es)?;
                std::fs::remove_dir_all(&t).ok();
            }
        }
    }
    let db = CandyStore::open(d, cfg.config()).map_err(|e| format!("open with left-over files {extra:?} fails: {e}"))?;
    let got = contents(&db)?;
    if got != want { return Err(format!("with left-over files {extra:?} the store has {} entries instead of {}", got.len(), want.len())) }
    let now = shard_files(d);
    if now != before { return Err(format!("left-over files {extra:?}: shard files are {now:?} instead of {before:?}")) }
    for f in files(d) { if f.0.starts_with("bottom_") || f.0.starts_with("top_") || f.0.starts_with("merge_") { return Err(format!("the left-over file {} is still there", f.0)) } }
    for i in 0..80u64 { db.set(&key(i), &val(i)).map_err(es)?; }
    drop(db);
    let db = CandyStore::open(d, cfg.config()).map_err(es)?;
    for i in 0..80u64 { if db.get(&key(i)).map_err(es)? != Some(val(i)) { return Err(format!("after opening with left-over files {extra:?}, a key set later is lost")) } }
    Ok(String::new())
}
/// a shard layout of mixed depths made by hand: spans are given, keys are routed by the store itself after opening
fn c08_layout(d: &Path, spans: &[(u32, u32)]) -> Res {
    std::fs::create_dir_all(d).unwrap();
    for (a, b) in spans { std::fs::write(d.join(format!("shard_{a:04x}-{b:04x}")), b"").unwrap(); }
    let cfg = base();
    let mut cx = Ctx::open(d, &cfg).map_err(|e| format!("open of the layout {spans:x?}: {e}"))?;
    cx.check_tiling()?;
    let mut want: Vec<String> = spans.iter().map(|(a, b)| format!("shard_{a:04x}-{b:04x}")).collect();
    want.retain(|w| { let p = |s: &str| { let (x, y) = s[6..].split_once('-').unwrap(); (u32::from_str_radix(x, 16).unwrap(), u32::from_str_radix(y, 16).unwrap()) }; let (a, b) = p(w); !spans.iter().any(|(x, y)| (*x, *y) != (a, b) && *x <= a && b <= *y) });
    want.sort();
    if shard_files(d) != want { return Err(format!("opening the layout {spans:x?} keeps {:?} instead of {want:?}", shard_files(d))) }
    for i in 0..600 { cx.apply(&Op::Set(Bs::Id(300 + i), Bs::Id(i % 40)))?; }
    for i in 0..100 { cx.apply(&Op::Remove(Bs::Id(300 + i * 3)))?; }
    cx.full()?;
    cx.apply(&Op::Reopen)?;
    cx.full()?;
    cx.apply(&Op::Merge(4000))?;
    cx.full()?;
    cx.check_tiling()?;
    Ok(String::new())
}
fn random_layout(r: &mut Rng) -> Vec<(u32, u32)> {
    fn go(r: &mut Rng, a: u32, b: u32, depth: u32, out: &mut Vec<(u32, u32)>, left: &mut i32) {
        let deep = depth < 16 && *left > 0 && (depth == 0 || r.chance(2, 3));
        if !deep { out.push((a, b)); return }
        *left -= 1;
        if r.chance(1, 5) { out.push((a, b)); /* an unfinished split: the whole shard is there as well */ }
        let m = (a + b) / 2;
        go(r, a, m, depth + 1, out, left);
        go(r, m, b, depth + 1, out, left);
    }
    let mut v = vec![];
    let mut left = 2 + r.below(10) as i32;
    go(r, 0, 65536, 0, &mut v, &mut left);
    v
}

// ---------------------------------------------------------------------------------------------- C11
fn c11_header(d: &Path, case: u32, nshards: usize) -> Res {
    let cfg = Cfg { nkeys: if nshards > 1 { 100000 } else { 0 }, ..base() };
    let all: M = {
        let db = CandyStore::open(d, cfg.config()).map_err(es)?;
        for i in 0..40u64 { db.set(&key(i), &val(i)).map_err(es)?; }
        contents(&db)?
    };
    let sf = shard_files(d);
    let victim = d.join(&sf[case as usize % sf.len()]);
    let orig = std::fs::read(&victim).unwrap();
    let mut bad = orig.clone();
    let what = match case % 9 {
        0 => { bad[0] ^= 1; "a foreign magic (first byte)" }
        1 => { bad[7] ^= 0x80; "a foreign magic (last byte)" }
        2 => { bad[8] = bad[8].wrapping_add(1); "the next version" }
        3 => { bad[8] = bad[8].wrapping_sub(1); "an older version" }
        4 => { bad[15] = 1; "a version that differs in its high byte" }
        5 => { bad.truncate(5); "a header truncated within the magic" }
        6 => { bad.truncate(16); "a file that ends after magic and version" }
        7 => { bad.truncate(Stats::FILE_HEADER_SIZE - 1); "a header short of one byte" }
        _ => { bad.truncate(4096); "a header truncated to one page" }
    };
    std::fs::write(&victim, &bad).unwrap();
    let before = files(d);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| CandyStore::open(d, cfg.config())));
    match r {
        Ok(Ok(_)) => return Err(format!("opening a store with {what} succeeds")),
        Ok(Err(_)) => {}
        Err(_) => return Err(format!("opening a store with {what} panics")),
    }
    for (a, b) in before.iter().zip(files(d).iter()) { if a != b { return Err(format!("opening a store with {what} failed but changed the file {}", b.0)) } }
    if before.len() != files(d).len() { return Err(format!("opening a store with {what} failed but added or removed files")) }
    let db = CandyStore::open(d, Config { clear_on_unsupported_version: true, ..cfg.config() }).map_err(|e| format!("with clear_on_unsupported_version, opening a store with {what} fails: {e}"))?;
    let got = contents(&db)?;
    if sf.len() == 1 && !got.is_empty() { return Err(format!("the shard with {what} was not cleared")) }
    for (k, v) in &got { if all.get(k) != Some(v) { return Err("a foreign entry appeared".into()) } }
    if sf.len() > 1 && (got.is_empty() || got.len() == all.len()) { return Err(format!("with {what} in one of {} shards, {} of {} entries are there", sf.len(), got.len(), all.len())) }
    let s = db.stats();
    if s.num_entries() != got.len() { return Err(format!("after clearing a shard, stats report {} entries instead of {}", s.num_entries(), got.len())) }
    for i in 0..60u64 { db.set(&key(i), &val(i + 1)).map_err(es)?; }
    drop(db);
    let db = CandyStore::open(d, cfg.config()).map_err(|e| format!("after clearing the shard, reopening fails: {e}"))?;
    for i in 0..60u64 { if db.get(&key(i)).map_err(es)? != Some(val(i + 1)) { return Err("an entry set after clearing a shard is lost".into()) } }
    Ok(String::new())
}
fn c11_second_open(d: &Path, cfg: &Cfg) -> Res {
    let db = CandyStore::open(d, cfg.config()).map_err(es)?;
    for i in 0..40u64 { db.set(&key(i), &val(i)).map_err(es)?; }
    // files that opening would clean up or complete
    std::fs::write(d.join("bottom_0000-8000"), b"x").unwrap();
    std::fs::write(d.join("merge_0000-10000"), b"x").unwrap();
    let before = files(d);
    let c2 = cfg.config();
    let dd = d.to_path_buf();
    for how in 0..3 {
        let (c2, dd) = (c2.clone(), dd.clone());
        let r = if how == 0 { CandyStore::open(&dd, c2).is_ok() } else if how == 1 { std::thread::spawn(move || CandyStore::open(&dd, c2).is_ok()).join().map_err(|_| "a second open panics".to_string())? } else { CandyStore::open(&dd, Config { clear_on_unsupported_version: true, expected_number_of_keys: 100000, ..c2 }).is_ok() };
        if r { return Err("a second open of a directory in use succeeds".into()) }
    }
    for (a, b) in before.iter().zip(files(d).iter()) { if a != b { return Err(format!("a second open failed but changed the file {}", b.0)) } }
    if before.len() != files(d).len() { return Err("a second open failed but added or removed files".into()) }
    for i in 0..40u64 { if db.get(&key(i)).map_err(es)? != Some(val(i)) { return Err("after a failed second open an entry is lost".into()) } }
    drop(db);
    let db = CandyStore::open(d, cfg.config()).map_err(|e| format!("the directory cannot be opened again after it was closed: {e}"))?;
    for i in 0..40u64 { if db.get(&key(i)).map_err(es)? != Some(val(i)) { return Err("after reopening an entry is lost".into()) } }
    Ok(String::new())
}
fn c11_from_other_process(d: &Path) -> Res {
    let db = CandyStore::open(d, base().config()).map_err(es)?;
    db.set("a", "b").map_err(es)?;
    let r = unsafe {
        let pid = libc::fork();
        if pid == 0 { let ok = CandyStore::open(d, base().config()).is_ok(); libc::_exit(if ok { 1 } else { 0 }) }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        libc::WEXITSTATUS(st)
    };
    if r != 0 { return Err("another process can open a directory in use".into()) }
    if db.get("a").map_err(es)? != Some(b"b".to_vec()) { return Err("an entry is lost".into()) }
    Ok(String::new())
}

// ---------------------------------------------------------------------------------------------- C12
fn c12(d: &Path, seed: u64) -> Res {
    let mut r = Rng::new(seed);
    let cfg = Cfg { nkeys: *r.pick(&[0, 0, 60000, 200000]), max_shard: *r.pick(&[1 << 20, 1500, 4000]), min_compact: 1 << 30, ..base() };
    let mut cx = Ctx::open(d, &cfg)?;
    for _ in 0..10 + r.below(70) {
        let op = match r.below(12) { 0 => Op::LSet(Bs::Id(20), Bs::Id(r.below(9) as u32), Bs::Id(3)), 1 => Op::QPushT(Bs::Id(21), Bs::Id(3)), 2 => Op::BSet(Bs::Id(22), Bs::Len(70, 1)), 3 => Op::Remove(Bs::Id(300 + r.below(60) as u32)), 4 => Op::Set(Bs::Id(200 + r.below(24) as u32), Bs::Id(4)), _ => Op::Set(Bs::Id(300 + r.below(60) as u32), Bs::Id(r.below(40) as u32)) };
        cx.apply(&op)?;
        if cx.soft_stop { return Ok(String::new()) }
    }
    let db = cx.db();
    db.stats();
    for raw in [false, true] {
        let mk = || if raw { db.iter_raw() } else { db.iter() };
        let all: Vec<_> = { let mut v = vec![]; for x in mk() { v.push(x.map_err(es)?); if v.len() > 2000 { return Err("iteration does not end".into()) } } v };
        if !raw {
            let mut s = all.clone();
            s.sort();
            if s != cx.m.plain.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>() { return Err("iter does not return exactly the plain entries".into()) }
        }
        let mut it = mk();
        for j in 0..=all.len() + 1 {
            if !raw {
                let c = it.cookie();
                let rest: Vec<_> = { let mut v = vec![]; for x in db.iter_from_cookie(c) { v.push(x.map_err(es)?); if v.len() > 2000 { return Err("resumed iteration does not end".into()) } } v };
                let want = &all[j.min(all.len())..];
                if rest != want { return Err(format!("the cookie after {j} of {} entries yields {} entries instead of {}", all.len(), rest.len(), want.len())) }
            }
            it.next();
        }
    }
    Ok(String::new())
}

// ---------------------------------------------------------------------------------------------- C20
fn c20(d: &Path, nkeys: usize, max_shard: u32, gate_after: i64, compact: bool, fail: bool) -> Res {
    let cfg = Cfg { nkeys, max_shard, min_compact: if compact { 300 } else { 1 << 30 }, ..base() };
    inter::reset();
    let db = std::sync::Arc::new(CandyStore::open(d, cfg.config()).map_err(es)?);
    struct Release;
    impl Drop for Release { fn drop(&mut self) { inter::COMPACT_GATE.store(false, SeqCst); } }
    let _release = Release; // dropped before db
    if compact { inter::COMPACT_GATE_AFTER.store(gate_after, SeqCst); inter::COMPACT_WRITES.store(0, SeqCst); inter::COMPACT_GATE.store(true, SeqCst); }
    // a thread of its own: it may block on a row that is held by the paused compaction
    let progress = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let writer = {
        let (db, progress) = (db.clone(), progress.clone());
        std::thread::spawn(move || -> Result<(), String> {
            for i in 0..60u64 { db.set(&key(i % 30), &val(i)).map_err(es)?; progress.store(i + 1, SeqCst); }
            if compact { for i in 60..75u64 { if i % 3 == 0 { db.remove(&key(i % 30)).map_err(es)?; } else { db.set(&key(i % 30), &val(i)).map_err(es)?; } progress.store(i + 1, SeqCst); } }
            Ok(())
        })
    };
    let t0 = std::time::Instant::now();
    let mut started = false;
    loop {
        if compact && inter::COMPACT_WRITES.load(SeqCst) > gate_after { started = true; std::thread::sleep(Duration::from_millis(10)); break }
        if writer.is_finished() || t0.elapsed() > Duration::from_millis(1500) { break }
        std::thread::sleep(Duration::from_millis(1));
    }
    inter::NSYNC.store(0, SeqCst);
    inter::FAIL_SYNC.store(fail, SeqCst);
    let r = db.flush();
    inter::FAIL_SYNC.store(false, SeqCst);
    let n = inter::NSYNC.load(SeqCst).min(256);
    let synced: std::collections::BTreeSet<u64> = (0..n).map(|i| inter::SYNCED_INO[i].load(SeqCst)).collect();
    let mut missing = vec![];
    use std::os::unix::fs::MetadataExt;
    for e in std::fs::read_dir(d).map_err(es)? {
        let e = e.map_err(es)?;
        let n = e.file_name().into_string().unwrap();
        let in_use = n.starts_with("shard_") || (n.starts_with("compact_") && (started || !compact));
        let Ok(md) = e.metadata() else { continue };
        if in_use && !synced.contains(&md.ino()) { missing.push(n) }
    }
    inter::COMPACT_GATE.store(false, SeqCst);
    writer.join().map_err(|_| "the writer panics".to_string())??;
    if fail { return if r.is_ok() { Err("flush succeeds although syncing a shard file failed".into()) } else { Ok("sync error".into()) } }
    r.map_err(|e| format!("flush fails: {e}"))?;
    if compact && !started { return Ok(String::new()) }
    if !missing.is_empty() { return Err(format!("flush returned success without syncing {missing:?}{}", if started { " (a compaction is running)" } else { "" })) }
    if started { Ok("compaction running".into()) } else { Ok("idle".into()) }
}

// ---------------------------------------------------------------------------------------------- driver
/// the cases of a property, as text lines; unbounded ones are generated from the index
fn case(prop: &str, i: u64, seed: u64) -> Option<String> {
    let mut r = Rng::new(seed.wrapping_mul(1000003) ^ i);
    const CAP: u64 = 29491;
    match prop {
        "C08" => Some({
            let fixed: Vec<String> = {
                let mut v = vec![];
                for n in [0u64, 1, CAP - 1, CAP, CAP + 1, 2 * CAP, 2 * CAP + 1, 3 * CAP, 4 * CAP, 100_000, 1_000_000] { v.push(format!("open {n}")); }
                for (n, e) in [(0u64, "shard_0000-8000:2"), (0, "shard_8000-10000:1"), (0, "shard_0000-8000:2,shard_8000-10000:2"), (0, "shard_4000-8000:2,bottom_0000-8000:0,top_8000-10000:0"), (0, "bottom_0000-8000:0"), (0, "top_8000-10000:1"), (0, "merge_0000-10000:0"), (0, "shard_0000-8000:2,top_8000-10000:0"), (100000, "shard_0000-2000:2"), (100000, "shard_2000-4000:2,shard_8000-9000:1"), (100000, "merge_0000-8000:0,merge_8000-10000:1"), (100000, "bottom_0000-2000:0,top_2000-4000:0,shard_c000-e000:2"), (0, "shard_0000-0001:2,shard_ffff-10000:2")] { v.push(format!("left {n} {e}")); }
                for s in ["0-10000", "0-8000,8000-10000", "0-8000,8000-c000,c000-10000", "0-4000,4000-8000,8000-10000", "0-8000,0-4000,4000-8000,8000-10000", "0-4000,4000-6000,6000-8000,8000-10000", "0-8000,8000-c000,c000-e000,e000-10000", "0-4000,4000-8000,8000-c000,c000-e000,e000-f000,f000-10000", "0-10000,0-8000,8000-10000", "0-8000,8000-10000,8000-c000"] { v.push(format!("layout {s}")); }
                v
            };
            if (i as usize) < fixed.len() { fixed[i as usize].clone() } else {
                match r.below(4) {
                    0 => format!("open {}", match r.below(3) { 0 => r.below(CAP * 20), 1 => (1 + r.below(60)) * CAP + r.below(3) - 1, _ => r.below(900_000) }),
                    1 => { let p = 1u64 << r.below(64); format!("calcs {} {}", match r.below(4) { 0 => p, 1 => p.wrapping_mul(CAP), 2 => r.next() >> r.below(64), _ => u64::MAX - r.below(1000) }, r.next()) }
                    _ => format!("layout {}", random_layout(&mut r).iter().map(|(a, b)| format!("{a:x}-{b:x}")).collect::<Vec<_>>().join(",")),
                }
            }
        }),
        "C11" => if i < 45 { Some(match i { 0..=17 => format!("header {} {}", i, 1 + i / 9 * 3), 18..=20 => format!("second {}", [0, 60000, 100000][i as usize - 18]), 21 => "process".into(), _ => format!("header {} {}", r.below(1000), 1 + 3 * r.below(2)) }) } else { None },
        "C12" => Some(format!("cookies {}", r.next() >> 16)),
        "C20" => Some(match i { 0 => "flush 0 1000000 0 0 0".into(), 1 => "flush 100000 1000000 0 0 0".into(), 2 => "flush 0 1000000 3 1 0".into(), 3 => "flush 100000 1000000 0 1 0".into(), 4 => "flush 0 1000000 0 0 1".into(), 5 => "flush 100000 1000000 0 0 1".into(), 6 => "flush 0 400 0 0 0".into(), _ => { let c = r.chance(3, 4); format!("flush {} {} {} {} {}", *r.pick(&[0, 0, 60000, 100000]), if c { 1_000_000 } else { *r.pick(&[1_000_000, 500, 2000]) }, r.below(25), c as u8, r.chance(1, 6) as u8) } }),
        _ => None,
    }
}
fn run_case(e: &Env, c: &str) -> Result<bool, String> {
    let d = e.scratch.join("m");
    fresh(&d);
    let w: Vec<&str> = c.split_whitespace().collect();
    let n = |i: usize| -> u64 { w[i].parse().unwrap() };
    let end = fork_run(Duration::from_secs(40), || match w[0] {
        "calcs" => { c08_calc(n(1))?; let mut r = Rng::new(n(2)); for _ in 0..20000 { let x = r.next() >> r.below(64); c08_calc(x)?; c08_calc(r.below(70000) * 29491 + r.below(3))?; } Ok("x".into()) }
        "open" => { c08_calc(n(1))?; c08_open(&d, n(1) as usize)?; Ok("x".into()) }
        "left" => { let ex: Vec<(&str, u8)> = w[2].split(',').map(|x| { let (a, b) = x.split_once(':').unwrap(); (a, b.parse().unwrap()) }).collect(); c08_leftover(&d, n(1) as usize, &ex)?; Ok("x".into()) }
        "layout" => { let sp: Vec<(u32, u32)> = w[1].split(',').map(|x| { let (a, b) = x.split_once('-').unwrap(); (u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap()) }).collect(); c08_layout(&d, &sp)?; Ok("x".into()) }
        "header" => { c11_header(&d, n(1) as u32, n(2) as usize)?; Ok("x".into()) }
        "second" => { c11_second_open(&d, &Cfg { nkeys: n(1) as usize, ..base() })?; Ok("x".into()) }
        "process" => { c11_from_other_process(&d)?; Ok("x".into()) }
        "cookies" => { c12(&d, n(1))?; Ok("x".into()) }
        "flush" => c20(&d, n(1) as usize, n(2) as u32, n(3) as i64, n(4) == 1, n(5) == 1),
        _ => Ok(String::new()),
    });
    std::fs::remove_dir_all(&d).ok();
    match end {
        End::Ok(m) => Ok(!m.is_empty()),
        End::Fail(m) => Err(m),
        End::Panic(m) => Err(m),
        End::Hang => Err("does not terminate".into()),
        x => Err(format!("the process died: {x:?}")),
    }
}
pub fn run(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    o.rule.push(match e.prop.as_str() { "C08" => "stores opened for given and random numbers of keys, with hand-made shard layouts (mixed depths, unfinished splits) and left-over files; shard numbers compared with an exact computation", "C11" => "stores opened with damaged headers, twice, and from another process", "C12" => "stores of random contents; every cookie position compared with the suffix of the full iteration", _ => "flush with and without a compaction held in progress; the synced files are compared with the files in use" }.to_string() + "; non-trivial: the scenario ran to its final comparison");
    let budget = e.secs * if matches!(e.prop.as_str(), "C20" | "C11") { 0.9 } else { 0.4 };
    let t0 = std::time::Instant::now();
    let mut i = e.w;
    let mut fails = 0;
    while e.left() && t0.elapsed().as_secs_f64() < budget {
        let Some(c) = case(&e.prop, i, e.seed) else { break };
        o.evals += 1;
        match run_case(e, &c) {
            Ok(nt) => { o.nontrivial += nt as u64; if o.samples.is_empty() && nt { o.samples.push(c.clone()) } }
            Err(_) => {
                // confirm
                if let Err(m) = run_case(e, &c) { o.violation = Some((m.clone(), format!("misc {c}\n"))); break } else { fails += 1; if fails > 20 { break } }
            }
        }
        i += e.nw;
    }
    o
}
pub fn replay(e: &Env, body: &str) -> Option<String> {
    let c = body.lines().next()?.strip_prefix("misc ")?.to_string();
    for _ in 0..3 { if let Err(m) = run_case(e, &c) { return Some(m) } }
    None
}
