//! Two-thread interleavings (C18): thread A is paused before its k-th file-system event or mapped store, B runs,
//! then A goes on. The results and the final contents must equal those of one of the two sequential orders.
use crate::model::*;
use crate::proc::*;
use crate::{inter, Env, Outcome};
use candystore::*;
use std::path::Path;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub fn applies(p: &str) -> bool { if cfg!(feature = "wb") { p == "C18" } else { matches!(p, "C18" | "C06" | "C05") } }
fn f<T: std::fmt::Debug>(r: Result<T>) -> String { match r { Ok(v) => format!("{v:?}"), Err(e) => format!("Err({e})") } }
pub fn exec(db: &CandyStore, o: &Op) -> String {
    use Op::*;
    let x = |e: &Exp| match e { Exp::Val(b) => Some(b.bytes()), _ => None };
    match o {
        Set(k, v) => f(db.set(&k.bytes(), &v.bytes())), Get(k) => f(db.get(&k.bytes())), Contains(k) => f(db.contains(&k.bytes())), Remove(k) => f(db.remove(&k.bytes())),
        Replace(k, v, e) => f(db.replace(&k.bytes(), &v.bytes(), x(e).as_ref())), Goc(k, v) => f(db.get_or_create(&k.bytes(), &v.bytes())),
        LSet(l, k, v) => f(db.set_in_list(&l.bytes(), &k.bytes(), &v.bytes())), LPromote(l, k, v) => f(db.set_in_list_promoting(&l.bytes(), &k.bytes(), &v.bytes())),
        LReplace(l, k, v, e) => f(db.replace_in_list(&l.bytes(), &k.bytes(), &v.bytes(), x(e).as_ref())), LGoc(l, k, v) => f(db.get_or_create_in_list(&l.bytes(), &k.bytes(), &v.bytes())),
        LRemove(l, k) => f(db.remove_from_list(&l.bytes(), &k.bytes())), LPopH(l) => f(db.pop_list_head(&l.bytes())), LPopT(l) => f(db.pop_list_tail(&l.bytes())),
        LCompact(l, m, r) => f(db.compact_list_if_needed(&l.bytes(), ListCompactionParams { min_length: *m, min_holes_ratio: *r as f64 / 100.0 })), LDiscard(l) => f(db.discard_list(&l.bytes())),
        QPushH(q, v) => f(db.push_to_queue_head(&q.bytes(), &v.bytes())), QPushT(q, v) => f(db.push_to_queue_tail(&q.bytes(), &v.bytes())), QPopH(q) => f(db.pop_queue_head_with_idx(&q.bytes())), QPopT(q) => f(db.pop_queue_tail_with_idx(&q.bytes())),
        QRemove(q, n) => f(db.remove_from_queue(&q.bytes(), (1usize << 63) + *n as usize)), QDiscard(q) => f(db.discard_queue(&q.bytes())),
        QExtend(q, n, v) => f(db.extend_queue(&q.bytes(), (0..*n).map(|i| { let mut b = v.bytes(); b.push(i as u8); b }))),
        BRemove(k) => f(db.remove_big(&k.bytes())),
        Merge(n) => { _ = db.merge_small_shards(*n as f32 / 10000.0); String::new() }
        Flush => f(db.flush()), Clear => f(db.clear()), Stats => { db.stats(); String::new() }
        Full => { db.iter().count(); String::new() }
        _ => String::new(),
    }
}
const LISTS: [u32; 3] = [20, 21, 10];
fn observe(db: &CandyStore) -> String {
    db.stats(); // waits for compactions: iteration is specified for a store at rest
    let mut s = String::new();
    let mut v: Vec<_> = db.iter().map(|r| r.map_err(|e| e.to_string())).collect();
    v.sort();
    for r in &v { match r { Ok((k, val)) => { s += &format!("{k:?}={val:?};"); if db.get(k).ok().flatten().as_ref() != Some(val) { s += "!get disagrees!" } } Err(e) => s += e } }
    for l in LISTS {
        let b = Bs::Id(l).bytes();
        let fwd: Vec<_> = db.iter_list(&b).map(|r| f(r)).collect();
        let mut bwd: Vec<_> = db.iter_list_backwards(&b).map(|r| f(r)).collect();
        bwd.reverse();
        s += &format!("|L{l} {} {fwd:?}", f(db.list_len(&b)));
        if fwd != bwd { s += "!backwards disagrees!" }
        for r in db.iter_list(&b) { if let Ok((k, v)) = r { if db.get_from_list(&b, &k).ok().flatten() != Some(v) { s += "!get_from_list disagrees!" } } }
        s += &format!("|Q{l} {} {:?}", f(db.queue_len(&b)), db.iter_queue(&b).map(|r| f(r)).collect::<Vec<_>>());
    }
    let st = db.stats();
    let n = db.iter_raw().count();
    s += &format!("|{n} entries");
    if st.num_entries() != n { s += &format!("!stats count {} entries!", st.num_entries()) }
    s
}
#[derive(Clone)]
pub struct Pre { name: &'static str, cfg: Cfg, setup: Vec<Op> }
fn pres() -> Vec<Pre> {
    use Op::*;
    let k = |n: u32| Bs::Id(n);
    let mask = if cfg!(feature = "wb") { 0xffff_0000_0000_0003 } else { u64::MAX };
    let c = |max: u32, minc: u32| Cfg { max_shard: max, min_compact: minc, nkeys: 0, trunc_up: false, mask, locks: 4, seed_byte: 0 };
    let mut plain = vec![];
    for i in [300, 301, 302, 0, 200] { plain.push(Set(k(i), Bs::Len(12, i as u8))); }
    if cfg!(feature = "wb") { return vec![Pre { name: "keys in one row", cfg: c(1 << 20, 1 << 18), setup: plain.clone() }, Pre { name: "keys in one row, compacting", cfg: c(1 << 20, 30), setup: { let mut p = plain.clone(); p.push(Set(k(300), Bs::Len(40, 1))); p } }]; }
    let mut lists = plain.clone();
    for (l, n) in [(20, 3), (21, 1)] { for i in 0..n { lists.push(LSet(k(l), k(300 + i), Bs::Len(4, i as u8))); lists.push(QPushT(k(l), Bs::Len(5, i as u8))); } }
    lists.push(LSet(k(20), k(310), Bs::Len(4, 9))); lists.push(LRemove(k(20), k(301)));
    let mut full = plain.clone();
    for i in 310..320 { full.push(Set(k(i), Bs::Len(12, 3))); }
    let mut waste = full.clone();
    for i in 310..320 { waste.push(Set(k(i), Bs::Len(13, 3))); }
    vec![
        Pre { name: "lists and queues", cfg: c(1 << 20, 1 << 18), setup: lists.clone() },
        Pre { name: "plain", cfg: c(1 << 20, 1 << 18), setup: plain },
        Pre { name: "full shard", cfg: c(320, 1 << 18), setup: full },
        Pre { name: "compaction due", cfg: c(1 << 20, 120), setup: waste },
        Pre { name: "full shard with lists", cfg: c(700, 1 << 18), setup: lists.clone() },
        Pre { name: "lists, compaction due", cfg: c(1 << 20, 60), setup: { let mut l = lists; l.push(LSet(k(21), k(302), Bs::Len(90, 1))); l.push(LSet(k(21), k(302), Bs::Len(91, 1))); l } },
    ]
}
fn ops_for(prop: &str, pre: &str) -> (Vec<Op>, Vec<Op>) {
    use Op::*;
    let k = |n: u32| Bs::Id(n);
    let v = |n: usize| Bs::Len(n, 77);
    let old = |i: u32| Exp::Val(Bs::Len(12, i as u8));
    let plain = vec![Set(k(300), v(20)), Set(k(400), v(9)), Remove(k(300)), Replace(k(300), v(21), old(300)), Replace(k(300), v(22), Exp::Any), Goc(k(400), v(30)), Goc(k(300), v(31)), Set(k(201), v(8)), Remove(k(200)), Get(k(300)), Get(k(400)), Set(k(320), v(12)), Get(k(301)), Remove(k(312)), Set(k(311), v(14))];
    let lists = vec![LSet(k(20), k(300), v(3)), LSet(k(20), k(305), v(3)), LPromote(k(20), k(300), v(4)), LReplace(k(20), k(302), v(5), Exp::Val(Bs::Len(4, 2))), LGoc(k(20), k(305), v(6)), LRemove(k(20), k(302)), LPopH(k(20)), LPopT(k(20)), LCompact(k(20), 0, 0), LDiscard(k(20)), LSet(k(21), k(305), v(3)), LPopH(k(21)), LPopT(k(21)), LRemove(k(21), k(300)), LPromote(k(21), k(300), v(7))];
    let queues = vec![QPushH(k(20), v(3)), QPushT(k(20), v(4)), QPopH(k(20)), QPopT(k(20)), QRemove(k(20), 0), QRemove(k(20), 1), QRemove(k(20), 2), QDiscard(k(20)), QExtend(k(20), 2, v(2)), QPopH(k(21)), QPopT(k(21)), QPushT(k(21), v(3)), QRemove(k(21), 0)];
    let maint = vec![Merge(4900), Flush, Stats, Full];
    let cat = |xs: &[&Vec<Op>]| xs.iter().flat_map(|x| x.iter().cloned()).collect::<Vec<_>>();
    if prop == "C05" || prop == "C06" { return (plain.clone(), cat(&[&plain, &maint])); }
    match pre { "lists and queues" => (cat(&[&lists, &queues]), cat(&[&lists, &queues])), "full shard with lists" | "lists, compaction due" => (cat(&[&lists, &queues, &plain]), cat(&[&lists, &queues, &plain, &maint])), "keys in one row" | "keys in one row, compacting" => (plain.clone(), plain), _ => (cat(&[&plain, &vec![Merge(4900)]]), cat(&[&plain, &maint])) }
}
fn related(a: &Op, b: &Op) -> bool {
    // the same collection, or a plain/maintenance operation
    let c = |o: &Op| -> (u8, Bs) { use Op::*; match o { LSet(l, ..) | LPromote(l, ..) | LReplace(l, ..) | LGoc(l, ..) | LRemove(l, _) | LPopH(l) | LPopT(l) | LCompact(l, ..) | LDiscard(l) => (1, *l), QPushH(l, _) | QPushT(l, _) | QPopH(l) | QPopT(l) | QRemove(l, _) | QDiscard(l) | QExtend(l, ..) => (2, *l), _ => (0, Bs::Id(0)) } };
    let (x, y) = (c(a), c(b));
    x.0 == 0 || y.0 == 0 || x == y
}
fn seq_outcome(d0: &Path, d1: &Path, p: &Pre, first: &Op, second: &Op) -> Option<(String, String, String)> {
    copy_dir(d0, d1);
    match fork_run(Duration::from_secs(20), || { let db = CandyStore::open(d1, p.cfg.config()).map_err(|e| e.to_string())?; let a = exec(&db, first); let b = exec(&db, second); Ok(format!("{a}\u{1}{b}\u{1}{}", observe(&db))) }) {
        End::Ok(m) => { let v: Vec<&str> = m.split('\u{1}').collect(); Some((v[0].into(), v[1].into(), v[2].into())) }
        _ => None,
    }
}
/// A paused before event n, B runs. Some(true) in .0 = A reached event n
fn interleave(d0: &Path, d1: &Path, p: &Pre, a: &Op, b: &Op, n: i64, trap: bool, patience_us: u64) -> (bool, std::result::Result<(String, String, String), String>) {
    copy_dir(d0, d1);
    let end = fork_run(Duration::from_secs(25), || {
        inter::reset();
        inter::install_handlers();
        let db = Arc::new(CandyStore::open(d1, p.cfg.config()).map_err(|e| e.to_string())?);
        inter::PAUSE_AT.store(n, SeqCst);
        inter::arm(trap);
        static A_DONE: AtomicBool = AtomicBool::new(false);
        static B_DONE: AtomicBool = AtomicBool::new(false);
        let (db1, a1) = (db.clone(), a.clone());
        let ta = std::thread::spawn(move || { inter::set_role_a(true); let r = exec(&db1, &a1); A_DONE.store(true, SeqCst); r });
        while !inter::PAUSED.load(SeqCst) && !A_DONE.load(SeqCst) { std::hint::spin_loop(); unsafe { libc::usleep(10); } }
        let hit = inter::PAUSED.load(SeqCst);
        shared().flag.store(hit as u32, SeqCst);
        let (db1, b1) = (db.clone(), b.clone());
        let tb = std::thread::spawn(move || { let r = exec(&db1, &b1); B_DONE.store(true, SeqCst); r });
        let t0 = Instant::now();
        while !B_DONE.load(SeqCst) && t0.elapsed() < Duration::from_micros(patience_us) { unsafe { libc::usleep(20); } }
        inter::RESUME.store(true, SeqCst);
        let ra = ta.join().map_err(|_| "A panicked".to_string())?;
        let rb = tb.join().map_err(|_| "B panicked".to_string())?;
        inter::disarm();
        let o = observe(&db);
        drop(db);
        let db = CandyStore::open(d1, p.cfg.config()).map_err(|e| format!("reopening: {e}"))?;
        let o2 = observe(&db);
        Ok(format!("{ra}\u{1}{rb}\u{1}{o}\u{1}{}", if o == o2 { "" } else { &o2 }))
    });
    let hit = shared().flag.load(SeqCst) == 1;
    (hit, match end {
        End::Ok(m) => { let v: Vec<&str> = m.split('\u{1}').collect(); if !v[3].is_empty() { Err(format!("after reopening the contents are {} instead of {}", v[3], v[2])) } else { Ok((v[0].into(), v[1].into(), v[2].into())) } }
        End::Fail(m) | End::Panic(m) => Err(m),
        End::Hang => Err("deadlock: the two operations do not finish".into()),
        x => Err(format!("the process died: {x:?}")),
    })
}
fn explore(e: &Env, p: &Pre, a: &Op, b: &Op, trap: bool, only: Option<i64>, o: &mut Outcome) -> Option<(i64, String)> {
    let (d0, d1) = (e.scratch.join("d0"), e.scratch.join("d1"));
    let ab = seq_outcome(&d0, &d1, p, a, b);
    let ba = seq_outcome(&d0, &d1, p, b, a);
    let (Some(ab), Some((rb, ra, st))) = (ab, ba) else { return None };
    let ba = (ra, rb, st);
    let mut n = only.unwrap_or(0);
    loop {
        if !e.left() { return None }
        let (hit, r) = interleave(&d0, &d1, p, a, b, n, trap, 3000);
        o.evals += 1;
        if hit { o.nontrivial += 1 }
        let bad = |r: &std::result::Result<(String, String, String), String>| match r { Ok(x) => if *x == ab || *x == ba { None } else { Some(format!("results {} and {}, contents {}; neither order gives this ({} and {}, {} / {} and {}, {})", x.0, x.1, x.2, ab.0, ab.1, ab.2, ba.0, ba.1, ba.2)) }, Err(m) => Some(m.clone()) };
        if let Some(m) = bad(&r) {
            for _ in 0..3 { { let (_, r) = interleave(&d0, &d1, p, a, b, n, trap, 20000); if let Some(m) = bad(&r) { return Some((n, m)) } } }
            let _ = m;
        }
        if !hit || only.is_some() { return None }
        n += 1;
    }
}
fn prepare(p: &Pre, d0: &Path) -> bool { fresh(d0); matches!(fork_run(Duration::from_secs(20), || { let db = CandyStore::open(d0, p.cfg.config()).map_err(|e| e.to_string())?; for o in &p.setup { exec(&db, o); } db.stats(); Ok(String::new()) }), End::Ok(_)) }

pub fn run(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    o.rule.push("two operations interleaved: the first is paused before each of its file-system events (and mapped stores) while the second runs, compared with both sequential orders; non-trivial: the pause point was reached".into());
    let d0 = e.scratch.join("d0");
    let ps: Vec<Pre> = pres().into_iter().filter(|p| match e.prop.as_str() { "C05" => p.name == "full shard", "C06" => p.name == "compaction due", _ => true }).collect();
    let t0 = Instant::now();
    let budget = e.secs * match e.prop.as_str() { "C05" | "C06" => 0.4, _ => 0.75 };
    for pass in 0..2 {
        let trap = pass == 1;
        // interleave the prestates so that all of them get a share of the time
        let mut lists: Vec<(usize, Vec<(Op, Op)>)> = vec![];
        for (pi, p) in ps.iter().enumerate() {
            let (x, y) = ops_for(&e.prop, p.name);
            let mut v = vec![];
            for (ai, a) in x.iter().enumerate() { for (bi, b) in y.iter().enumerate() { if related(a, b) && (ai * 31 + bi) as u64 % e.nw == e.w { v.push((a.clone(), b.clone())) } } }
            let mut r = Rng::new(e.seed ^ e.w << 4 ^ pi as u64 ^ 77);
            for i in (1..v.len()).rev() { let j = r.below(i as u64 + 1) as usize; v.swap(i, j) }
            lists.push((pi, v));
        }
        for (i, (pi, v)) in lists.iter().enumerate() {
            let p = &ps[*pi];
            if !prepare(p, &d0) { continue }
            let share = budget * (pass as f64 + (i + 1) as f64 / lists.len() as f64) / 2.0;
            for (a, b) in v {
                if !e.left() || t0.elapsed().as_secs_f64() > share { break }
                if o.samples.is_empty() { o.samples.push(format!("prestate `{}`: {} || {}", p.name, op_text(a), op_text(b))) }
                if let Some((n, m)) = explore(e, p, a, b, trap, None, &mut o) {
                    o.violation = Some((format!("`{}` paused before its event {n} while `{}` runs (prestate: {}): {m}", op_text(a), op_text(b), p.name), format!("conc {} {} {}\n{}\n{}\n", p.name.replace(' ', "_"), n, trap as u8, op_text(a), op_text(b))));
                    return o;
                }
            }
        }
    }
    if e.prop == "C18" && !cfg!(feature = "wb") { let s = stress(e); o.add(s); }
    o
}
pub fn replay(e: &Env, body: &str) -> Option<String> {
    let l: Vec<&str> = body.lines().collect();
    if l[0].starts_with("conc stress") { for i in 0..20 { let s = l[0].split(' ').nth(2).unwrap().parse::<u64>().unwrap() + i; if let Some(m) = stress_one(e, s) { return Some(m) } } return None }
    let w: Vec<&str> = l[0].split(' ').collect();
    let p = pres().into_iter().find(|p| p.name.replace(' ', "_") == w[1])?;
    if !prepare(&p, &e.scratch.join("d0")) { return Some("the setup fails".into()) }
    let mut o = Outcome::new();
    explore(e, &p, &op_parse(l[1]), &op_parse(l[2]), w[3] == "1", Some(w[2].parse().unwrap()), &mut o).map(|x| x.1)
}

/// several threads with random delays: conservation laws on counters, lists and queues
fn stress_one(e: &Env, seed: u64) -> Option<String> {
    let d1 = e.scratch.join("d1");
    fresh(&d1);
    let mut r = Rng::new(seed);
    let cfg = Cfg { max_shard: *r.pick(&[1 << 20, 3000, 6000]), min_compact: *r.pick(&[1 << 18, 300, 900]), nkeys: 0, trunc_up: false, mask: u64::MAX, locks: 4, seed_byte: 0 };
    let end = fork_run(Duration::from_secs(60), || {
        inter::reset();
        let db = Arc::new(CandyStore::open(&d1, cfg.config()).map_err(|e| e.to_string())?);
        inter::RND_DELAY.store(seed | 1, SeqCst);
        inter::arm(false);
        const T: u64 = 4;
        const N: u64 = 40;
        let mut th = vec![];
        let narrow = Arc::new(AtomicBool::new(false));
        for t in 0..T {
            let db = db.clone();
            let narrow = narrow.clone();
            th.push(std::thread::spawn(move || -> std::result::Result<(Vec<Vec<u8>>, Vec<Vec<u8>>), String> {
                let mut r = Rng::new(seed * 31 + t);
                let (mut popped, mut lpopped) = (vec![], vec![]);
                for i in 0..N {
                    let es = |e: anyhow_like::E| e.0;
                    let one = |db: &CandyStore| -> std::result::Result<(), anyhow_like::E> {
                        // a counter incremented by compare-and-set
                        loop {
                            let cur = match db.get_or_create("ctr", &0u64.to_le_bytes())? { GetOrCreateStatus::ExistingValue(v) | GetOrCreateStatus::CreatedNew(v) => v };
                            let n = u64::from_le_bytes(cur[..].try_into().unwrap()) + 1;
                            if db.replace("ctr", &n.to_le_bytes()[..], Some(&cur[..]))?.was_replaced() { break }
                        }
                        Ok(())
                    };
                    let rest = |db: &CandyStore, r: &mut Rng, popped: &mut Vec<Vec<u8>>, lpopped: &mut Vec<Vec<u8>>| -> std::result::Result<(), anyhow_like::E> {
                        let id = (t * 1000 + i).to_le_bytes();
                        if r.chance(1, 2) { db.push_to_queue_tail("q", &id)?; } else { db.push_to_queue_head("q", &id)?; }
                        db.set_in_list("l", &id, &id)?;
                        if i % 2 == 0 { if let Some(v) = if r.chance(1, 2) { db.pop_queue_head("q")? } else { db.pop_queue_tail("q")? } { popped.push(v) } }
                        if i % 2 == 1 { if let Some((k, _)) = if r.chance(1, 2) { db.pop_list_head("l")? } else { db.pop_list_tail("l")? } { lpopped.push(k) } }
                        db.set(&format!("own{t}"), &i.to_le_bytes())?;
                        let g = db.get(&format!("own{t}"))?;
                        if g.as_deref() != Some(&i.to_le_bytes()[..]) { return Err(anyhow_like::E(format!("thread {t} wrote {i} to its own key and read {g:?}"))) }
                        Ok(())
                    };
                    for x in [one(&db), rest(&db, &mut r, &mut popped, &mut lpopped)] { if let Err(e) = x { let m = es(e); if m.contains(NARROW) { narrow.store(true, SeqCst); return Ok((popped, lpopped)) } return Err(m) } }
                }
                Ok((popped, lpopped))
            }));
        }
        let (mut p, mut l) = (vec![], vec![]);
        for t in th { let (a, b) = t.join().map_err(|_| "a thread panicked".to_string())??; p.extend(a); l.extend(b); }
        inter::disarm();
        if narrow.load(SeqCst) { return Ok("narrow".into()) }
        let es = |e| format!("{e}");
        let c = db.get("ctr").map_err(|e| e.to_string())?.unwrap_or_default();
        let c = u64::from_le_bytes(c[..].try_into().map_err(es)?);
        if c != T * N { return Err(format!("{} increments by compare-and-set gave {c}", T * N)) }
        let left = db.queue_len("q").map_err(|e| e.to_string())?;
        for x in db.iter_queue("q") { p.push(x.map_err(|e| e.to_string())?.1) }
        let np = p.len();
        p.sort(); p.dedup();
        if np as u64 != T * N || p.len() != np { return Err(format!("{} pushes, but {np} elements popped or left ({} distinct)", T * N, p.len())) }
        let ln = db.list_len("l").map_err(|e| e.to_string())?;
        let mut nl = 0;
        for x in db.iter_list("l") { l.push(x.map_err(|e| e.to_string())?.0); nl += 1 }
        let n2 = l.len();
        l.sort(); l.dedup();
        if n2 as u64 != T * N || l.len() != n2 { return Err(format!("{} list items, but {n2} popped or left ({} distinct)", T * N, l.len())) }
        if ln != nl { return Err(format!("list_len {ln}, but {nl} items")) }
        let _ = left;
        Ok(String::new())
    });
    match end { End::Ok(_) => None, End::Fail(m) | End::Panic(m) => Some(m), End::Hang => Some("deadlock or livelock".into()), x => Some(format!("the process died: {x:?}")) }
}
mod anyhow_like { pub struct E(pub String); impl<T: std::fmt::Display> From<T> for E { fn from(e: T) -> Self { E(format!("{e}")) } } }
fn stress(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    let mut i = 0;
    while e.left() {
        let s = e.seed * 7919 + e.w * 100_003 + i;
        i += 1;
        o.evals += 1;
        if let Some(m) = stress_one(e, s) { o.violation = Some((format!("4 threads on a counter, a queue and a list: {m}"), format!("conc stress {s}\n"))); break }
        o.nontrivial += 1;
    }
    std::fs::remove_dir_all(e.scratch.join("d1")).ok();
    o
}
