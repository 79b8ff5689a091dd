//! Crash enumeration: stop the process before (or in the middle of) the n-th file-system event or mapped store.
use crate::model::*;
use crate::proc::*;
use crate::{inter, Env, Outcome};
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::atomic::Ordering::SeqCst;
use std::time::Duration;

type M = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, PartialEq, Debug)]
pub struct Scn { pub name: &'static str, pub cfg: Cfg, pub setup: Vec<Op>, pub armed: Vec<Op>, pub arm_open: bool }
pub fn applies(p: &str) -> bool { matches!(p, "C09" | "C10") }

fn step(m: &mut M, o: &Op) {
    match o {
        Op::Set(k, v) => { m.insert(k.bytes(), v.bytes()); }
        Op::Remove(k) => { m.remove(&k.bytes()); }
        Op::Replace(k, v, e) => { if let Some(c) = m.get_mut(&k.bytes()) { let ok = match e { Exp::Any | Exp::Cur => true, Exp::Val(b) => b.bytes() == *c, _ => false }; if ok { *c = v.bytes(); } } }
        Op::Goc(k, v) => { m.entry(k.bytes()).or_insert(v.bytes()); }
        Op::Clear => m.clear(),
        _ => {}
    }
}
fn scenarios(prop: &str) -> Vec<Scn> {
    use Op::*;
    let c = |max: u32, minc: u32, nkeys: usize| Cfg { max_shard: max, min_compact: minc, nkeys, trunc_up: false, mask: u64::MAX, locks: 4, seed_byte: 0 };
    let k = |n: u32| Bs::Id(n);
    let sets = |a: u32, b: u32| (a..b).map(|i| Set(k(i), Bs::Len(10 + (i as usize * 7) % 20, i as u8))).collect::<Vec<_>>();
    let mut v = vec![];
    if prop == "C09" {
        let mut pre = sets(300, 306);
        pre.push(Set(k(200), k(40)));
        pre.push(Set(k(0), k(41)));
        let ops: Vec<(&'static str, Op)> = vec![
            ("set of a new key", Set(k(400), Bs::Len(50, 3))), ("set of a new key with an empty value", Set(k(400), Bs::Len(0, 0))), ("overwrite, longer", Set(k(301), Bs::Len(3000, 9))), ("overwrite, shorter", Set(k(301), Bs::Len(1, 9))), ("overwrite, empty", Set(k(301), Bs::Len(0, 0))), ("overwrite, same length", Set(k(301), Bs::Len(10 + 301 * 7 % 20, 99))),
            ("set of a colliding key", Set(k(201), Bs::Len(33, 1))), ("replace", Replace(k(302), Bs::Len(40, 2), Exp::Cur)), ("replace with a wrong expected value", Replace(k(302), Bs::Len(40, 2), Exp::Val(k(7)))), ("get_or_create of a new key", Goc(k(401), Bs::Len(20, 8))), ("get_or_create of an existing key", Goc(k(303), Bs::Len(20, 8))), ("remove", Remove(k(304))), ("remove of a colliding key", Remove(k(200))),
        ];
        for (n, o) in &ops { v.push(Scn { name: n, cfg: c(1 << 20, 1 << 18, 0), setup: pre.clone(), armed: vec![o.clone()], arm_open: false }); }
        // removal, then a new entry in the freed slot
        v.push(Scn { name: "remove and reuse of the slot", cfg: c(1 << 20, 1 << 18, 0), setup: pre.clone(), armed: vec![Remove(k(200)), Set(k(201), Bs::Len(60, 60)), Set(k(200), Bs::Len(5, 5))], arm_open: false });
        for o in [Set(k(400), Bs::Len(50, 3)), Set(k(301), Bs::Len(44, 9)), Remove(k(304)), Replace(k(302), Bs::Len(40, 2), Exp::Any), Goc(k(401), Bs::Len(20, 8))] {
            let mut s = pre.clone();
            s.push(Set(k(305), Bs::Len(100, 1)));
            v.push(Scn { name: "operation that starts a compaction", cfg: c(1 << 20, 20, 0), setup: s.clone(), armed: vec![o.clone(), Stats], arm_open: false });
            v.push(Scn { name: "operation on a full shard", cfg: c(560, 1 << 18, 0), setup: s, armed: vec![Set(k(500), Bs::Len(200, 7)), o], arm_open: false });
        }
    } else {
        v.push(Scn { name: "split", cfg: c(600, 1 << 30, 0), setup: sets(300, 314), armed: vec![Set(k(400), Bs::Len(300, 7)), Get(k(301)), Set(k(401), Bs::Len(10, 7))], arm_open: false });
        v.push(Scn { name: "two splits", cfg: c(400, 1 << 30, 0), setup: sets(300, 309), armed: vec![Set(k(400), Bs::Len(390, 7)), Remove(k(301)), Set(k(303), Bs::Len(11, 7))], arm_open: false });
        let mut s = sets(300, 330);
        s.extend(sets(300, 310).into_iter().map(|o| match o { Set(k, _) => Set(k, Bs::Len(25, 77)), o => o }));
        s.push(Remove(k(329)));
        v.push(Scn { name: "compaction", cfg: c(1 << 20, 200, 0), setup: s[..s.len() - 1].to_vec(), armed: vec![Remove(k(329)), Set(k(400), Bs::Len(10, 7)), Stats], arm_open: false });
        v.push(Scn { name: "compaction with concurrent updates", cfg: c(1 << 20, 200, 0), setup: s[..s.len() - 1].to_vec(), armed: vec![Set(k(400), Bs::Len(10, 7)), Set(k(301), Bs::Len(40, 1)), Remove(k(302)), Set(k(303), Bs::Len(0, 1)), Set(k(402), Bs::Len(9, 9)), Remove(k(304)), Stats], arm_open: false });
        // many shards, then few entries
        let mut s = sets(300, 330);
        s.extend((304..330).map(|i| Remove(k(i))));
        v.push(Scn { name: "merge", cfg: c(300, 1 << 30, 0), setup: s.clone(), armed: vec![Merge(4900), Set(k(404), Bs::Len(5, 1))], arm_open: false });
        v.push(Scn { name: "merge down to the configured number", cfg: c(300, 1 << 30, 40000), setup: s.clone(), armed: vec![Merge(4900)], arm_open: false });
        v.push(Scn { name: "clear of one shard", cfg: c(1 << 20, 1 << 30, 0), setup: sets(300, 310), armed: vec![Clear, Set(k(400), Bs::Len(10, 7))], arm_open: false });
        v.push(Scn { name: "clear of several shards", cfg: c(300, 1 << 30, 0), setup: sets(300, 312), armed: vec![Clear, Set(k(400), Bs::Len(10, 7))], arm_open: false });
        v.push(Scn { name: "creation of one shard", cfg: c(1 << 20, 1 << 30, 0), setup: vec![], armed: vec![Set(k(400), Bs::Len(10, 7))], arm_open: true });
        v.push(Scn { name: "creation of several shards", cfg: c(1 << 20, 1 << 30, 100000), setup: vec![], armed: vec![Set(k(400), Bs::Len(10, 7))], arm_open: true });
        v.push(Scn { name: "reopening", cfg: c(600, 200, 0), setup: sets(300, 320), armed: vec![Set(k(400), Bs::Len(10, 7))], arm_open: true });
    }
    v
}
fn dirs(e: &Env) -> (std::path::PathBuf, std::path::PathBuf, std::path::PathBuf) { (e.scratch.join("d0"), e.scratch.join("d1"), e.scratch.join("d2")) }

fn setup(s: &Scn, d0: &Path) -> bool {
    fresh(d0);
    if s.setup.is_empty() { return true; }
    let mut m = M::new();
    for o in &s.setup { step(&mut m, o); }
    matches!(fork_run(Duration::from_secs(30), || { let mut cx = Ctx::open(d0, &s.cfg)?; for o in &s.setup { cx.apply(o)?; } cx.db().stats(); if cx.m.plain != m { return Err("model".into()) } cx.full()?; Ok(String::new()) }), End::Ok(_))
}
/// runs the armed part with a crash before event n. Returns the end and the number of completed operations.
fn armed(s: &Scn, dir: &Path, n: i64, trap: bool, torn: bool) -> (End, u32) {
    let r = fork_run(Duration::from_secs(40), || {
        inter::reset();
        inter::install_handlers();
        inter::TORN.store(torn, SeqCst);
        if s.arm_open { inter::CRASH_AT.store(n, SeqCst); inter::arm(trap); }
        let db = candystore::CandyStore::open(dir, s.cfg.config()).map_err(|e| format!("open: {e}"))?;
        if !s.arm_open { inter::CRASH_AT.store(n, SeqCst); inter::arm(trap); }
        for (i, o) in s.armed.iter().enumerate() {
            crate::conc::exec(&db, o);
            set_op(i as u32 + 1);
        }
        drop(db);
        inter::disarm();
        Ok(format!("{}", inter::EVENTS.load(SeqCst)))
    });
    (r, get_op())
}
/// checks a directory left by a crash after `done` completed operations
fn verify(s: &Scn, dir: &Path, done: u32) -> Result<(), String> {
    let mut ms = vec![M::new()];
    for o in &s.setup { let m = ms.last_mut().unwrap(); step(m, o); }
    for o in &s.armed { let mut m = ms.last().unwrap().clone(); step(&mut m, o); ms.push(m); }
    let done = done as usize;
    let cands: Vec<M> = ms[done..(done + 2).min(ms.len())].to_vec();
    let in_clear = s.armed.get(done) == Some(&Op::Clear);
    let fewer = s.arm_open && s.setup.is_empty();
    let end = fork_run(Duration::from_secs(30), || {
        let mut cx = Ctx::open(dir, &s.cfg).map_err(|e| format!("reopening after the crash failed: {e}"))?;
        set_op(1);
        let mut got = M::new();
        for r in cx.db().iter() { let (k, v) = r.map_err(|e| format!("iter: {e}"))?; if got.insert(k, v).is_some() { return Err("a key is found twice after the crash".into()); } }
        let ok = if in_clear || fewer { cands.iter().any(|m| got.iter().all(|(k, v)| m.get(k) == Some(v))) } else { cands.contains(&got) };
        if !ok {
            let d: Vec<String> = cands.iter().map(|m| { let mut x = vec![]; for (k, v) in m { if got.get(k) != Some(v) { x.push(format!("{:?}: {:?} instead of {} bytes", String::from_utf8_lossy(&k[..k.len().min(12)]), got.get(k).map(|g| g.len()), v.len())) } } for k in got.keys() { if !m.contains_key(k) { x.push(format!("{:?} is there", String::from_utf8_lossy(&k[..k.len().min(12)]))) } } x.truncate(3); x.join(", ") }).collect();
            return Err(format!("after the crash the contents are neither those before nor those after the interrupted operation ({})", d.join(" / ")));
        }
        for n in std::fs::read_dir(dir).unwrap() { let n = n.unwrap().file_name().into_string().unwrap(); if n.starts_with("bottom_") || n.starts_with("top_") || n.starts_with("merge_") || n.starts_with("compact_") { return Err(format!("the temporary file {n} is still there after reopening")) } }
        cx.m.plain = got;
        cx.quick_full = true;
        cx.full().map_err(|e| format!("after the crash: {e}"))?;
        cx.check_tiling()?;
        for k in ms.iter().flat_map(|m| m.keys()).cloned().collect::<std::collections::BTreeSet<_>>() { let g = cx.db().get(&k).map_err(|e| format!("get: {e}"))?; if g != cx.m.plain.get(&k).cloned() { return Err(format!("after the crash get and iter disagree on {:?}", String::from_utf8_lossy(&k))) } }
        // the store is usable: rewrite and remove everything that is there, add new entries
        let ids: Vec<u32> = (300..312).chain([0, 200, 201, 400, 401, 600, 601]).collect();
        for i in ids.iter().take(13) { cx.apply(&Op::Set(Bs::Id(*i), Bs::Len(12, *i as u8))).map_err(|e| format!("after the crash: {e}"))?; if cx.soft_stop { return Ok(String::new()) } }
        for i in ids.iter().skip(4) { cx.apply(&Op::Remove(Bs::Id(*i))).map_err(|e| format!("after the crash: {e}"))?; }
        cx.full().map_err(|e| format!("after the crash and some updates: {e}"))?;
        cx.apply(&Op::Reopen).map_err(|e| format!("second reopening after the crash: {e}"))?;
        cx.full().map_err(|e| format!("after the crash, some updates and a second reopening: {e}"))?;
        Ok(String::new())
    });
    let opened = get_op() > 0;
    match end {
        End::Ok(_) => Ok(()),
        End::Fail(m) => Err(m),
        End::Panic(m) => Err(if opened { format!("after the crash: {m}") } else { format!("reopening after the crash panics: {m}") }),
        End::Hang => Err("reopening after the crash hangs".into()),
        x => Err(format!("the process died after the crash: {x:?}")),
    }
}
fn text(s: &Scn, prop: &str, i: usize, n: i64, trap: bool, torn: bool, n2: i64) -> String { format!("crash {prop} scenario {i} ({}) event {n} trap {} torn {} recovery {n2}\ncfg {}\nsetup {} operations; interrupted: {}\n", s.name, trap as u8, torn as u8, s.cfg.text(), s.setup.len(), s.armed.iter().map(op_text).collect::<Vec<_>>().join("; ")) }

/// one crash point; None = the run ended without reaching it
fn point(e: &Env, s: &Scn, n: i64, trap: bool, torn: bool, n2: i64, o: &mut Outcome) -> Option<Result<(), String>> {
    let (d0, d1, _) = dirs(e);
    copy_dir(&d0, &d1);
    let (end, mut done) = armed(s, &d1, n, trap, torn);
    let crashed = match end { End::Crashed => true, End::Ok(_) => false, End::Panic(m) => return Some(Err(format!("`{}` panics: {m}", s.name))), End::Hang => return Some(Err("does not terminate".into())), _ => return None };
    o.evals += 1;
    if crashed { o.nontrivial += 1; }
    if crashed && n2 >= 0 {
        // crash again while recovering
        let r = Scn { arm_open: true, armed: vec![], ..s.clone() };
        let (e2, _) = armed(&r, &d1, n2, trap, torn);
        match e2 { End::Crashed | End::Ok(_) => {} End::Panic(m) => return Some(Err(format!("reopening after the crash panics: {m}"))), End::Fail(m) => return Some(Err(format!("reopening after the crash: {m}"))), _ => return None }
    }
    if !crashed { done = s.armed.len() as u32; }
    match verify(s, &d1, done) {
        Err(m) => return Some(Err(m)),
        Ok(()) => {}
    }
    if crashed { Some(Ok(())) } else { None }
}

pub fn run(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    o.rule.push("crash points: the process is stopped before, or in the middle of, every file-system call and (sampled) before stores to the mapped header; non-trivial: the crash point was reached; each is a distinct (scenario, event, mode)".into());
    let scns = scenarios(&e.prop);
    let (d0, d1, d2) = dirs(e);
    let share = e.secs / (scns.len() as f64);
    let frac = if e.prop == "C09" { 0.9 } else { 0.95 };
    let t_all = std::time::Instant::now();
    'scn: for (i, s) in scns.iter().enumerate() {
        if !e.left() { break }
        if !setup(s, &d0) { continue; }
        let sdl = t_all + Duration::from_secs_f64(share * (i as f64 + 1.0) * frac);
        // all file-system events, then mapped stores, then crashes during recovery
        copy_dir(&d0, &d1);
        let tot: i64 = match armed(s, &d1, -1, true, false) { (End::Ok(m), _) => m.parse().unwrap_or(0), (End::Panic(m), _) => { if i % e.nw as usize == e.w as usize { o.violation = Some((format!("`{}` panics: {m}", s.name), text(s, &e.prop, i, -1, true, false, -1))); break 'scn } 0 } _ => 0 };
        if o.samples.is_empty() { o.samples.push(format!("scenario `{}`: {} events", s.name, tot)); }
        for pass in 0..4 {
            let (trap, torn) = match pass { 0 => (false, true), 1 => (false, false), 2 => (true, false), _ => (false, true) };
            let stride = if trap { ((tot as f64) / 40.0 / (share / 2.0).max(0.1) / e.nw as f64).max(1.0) as i64 } else { 1 };
            let mut n = e.w as i64 * stride;
            if pass == 3 && e.prop != "C10" { break }
            let mut r = Rng::new(e.seed ^ e.w ^ (i as u64) << 8);
            loop {
                if pass >= 2 && std::time::Instant::now() > sdl { break }
                if !e.left() { break 'scn }
                let n2 = if pass == 3 { n = r.below(tot.max(1) as u64) as i64 / 2; r.below(40) as i64 } else { -1 };
                match point(e, s, n, trap, torn, n2, &mut o) {
                    None => { if pass == 3 && n > 0 { continue } break }
                    Some(Ok(())) => {}
                    Some(Err(m)) => {
                        if let Some(Err(m2)) = point(e, s, n, trap, torn, n2, &mut o) { o.violation = Some((format!("crash during `{}` at event {n}: {m2}", s.name), text(s, &e.prop, i, n, trap, torn, n2))); break 'scn } else { let _ = m; }
                    }
                }
                n += e.nw as i64 * stride;
            }
        }
    }
    for d in [d0, d1, d2] { std::fs::remove_dir_all(d).ok(); }
    o
}
pub fn replay(e: &Env, body: &str) -> Option<String> {
    let w: Vec<&str> = body.lines().next().unwrap().split_whitespace().collect();
    let after = |k: &str| -> i64 { let i = w.iter().rposition(|x| *x == k).unwrap(); w[i + 1].parse().unwrap() };
    let i: usize = w[3].parse().unwrap();
    let s = &scenarios(w[1])[i];
    let (d0, _, _) = dirs(e);
    if !setup(s, &d0) { return Some("the setup of the scenario fails".into()) }
    let mut o = Outcome::new();
    for _ in 0..5 { if let Some(Err(m)) = point(e, s, after("event"), after("trap") == 1, after("torn") == 1, after("recovery"), &mut o) { return Some(m) } }
    None
}
