//! Random operation sequences compared with the model (one forked child per sequence).
use crate::model::*;
use crate::proc::*;
use crate::{inter, Env, Outcome};
use std::time::Duration;

pub struct Profile { pub doms: &'static [Dom], pub weights: &'static [(&'static str, u32)], pub cfgs: fn(&mut Rng) -> Cfg, pub len: (u32, u32), pub keys: fn(&mut Rng) -> Bs, pub vals: fn(&mut Rng) -> Bs, pub delay: bool, pub end_full: bool }

const WB: bool = cfg!(feature = "wb");
fn base() -> Cfg { Cfg { max_shard: 1 << 20, min_compact: 1 << 18, nkeys: 0, trunc_up: false, mask: u64::MAX, locks: 64, seed_byte: 0 } }
fn wbmask(r: &mut Rng) -> u64 { if !WB { return u64::MAX } *r.pick(&[0xffff_0000_0000_0000, 0xffff_0001_0000_0001, 0xffff_0000_0000_0003, 0xffff_ffff_0000_0003, 0xff00_000f_0000_00ff]) }
fn cfg_mix(r: &mut Rng) -> Cfg {
    let mut c = base();
    c.trunc_up = r.chance(1, 3);
    c.mask = wbmask(r);
    c.locks = *r.pick(&[1, 5, 64]);
    match r.below(6) { 0 => {} 1 => { c.max_shard = 3000; c.min_compact = 100000 } 2 => { c.min_compact = 400 } 3 => { c.max_shard = 5000; c.min_compact = 700 } 4 => { c.nkeys = *r.pick(&[0, 1, 30000, 60000, 100000]); c.max_shard = 6000; c.min_compact = 2000 } _ => { c.max_shard = 200_000; c.min_compact = 60_000 } }
    if r.chance(1, 4) { c.seed_byte = r.below(250) as u8 }
    c
}
fn cfg_list(r: &mut Rng) -> Cfg { let mut c = cfg_mix(r); c.mask = u64::MAX; c }
fn cfg_split(r: &mut Rng) -> Cfg { let mut c = base(); c.max_shard = *r.pick(&[600, 1500, 4000, 20000]); c.min_compact = *r.pick(&[1 << 30, 1 << 30, 2000]); c.mask = wbmask(r); c.nkeys = *r.pick(&[0, 0, 0, 40000, 100000]); c }
fn cfg_compact(r: &mut Rng) -> Cfg { let mut c = base(); c.min_compact = *r.pick(&[60, 200, 600, 2000]); c.mask = wbmask(r); c.trunc_up = r.chance(1, 2); if r.chance(1, 3) { c.max_shard = 8000 } c }
fn cfg_merge(r: &mut Rng) -> Cfg { let mut c = cfg_split(r); c.max_shard = *r.pick(&[600, 1500, 4000]); c.nkeys = *r.pick(&[0, 0, 0, 0, 40000, 100000]); if r.chance(1, 2) { c.min_compact = 900 } c }
fn cfg_big(r: &mut Rng) -> Cfg { let mut c = base(); c.max_shard = *r.pick(&[70_000, 300_000, 1 << 22]); c.min_compact = *r.pick(&[50_000, 1 << 20]); c }
fn cfg_sizes(r: &mut Rng) -> Cfg { let mut c = base(); c.max_shard = *r.pick(&[1000, 16000, 66_000, 85_000, 200_000, 1 << 22]); c.min_compact = *r.pick(&[50_000, 1 << 20]); c }
fn cfg_stat(r: &mut Rng) -> Cfg { let mut c = cfg_mix(r); c.mask = u64::MAX; c }

fn keys_small(r: &mut Rng) -> Bs {
    match r.below(20) { 0..=9 => Bs::Id(r.below(16) as u32), 10..=12 if !WB => Bs::Id(200 + r.below(10) as u32), 13 if !WB => Bs::Id(230 + r.below(8) as u32), 14 if !WB => Bs::Id(240 + r.below(2) as u32), 19 => Bs::Len(*r.pick(&[100, 300, 4000, 16128]), r.below(3) as u8), _ => Bs::Id(300 + r.below(60) as u32) }
}
fn keys_many(r: &mut Rng) -> Bs { if r.chance(1, 10) && !WB { Bs::Id(200 + r.below(38) as u32) } else { Bs::Id(300 + r.below(if WB { 900 } else { 300 }) as u32) } }
fn keys_coll(r: &mut Rng) -> Bs { if WB { Bs::Id(300 + r.below(*[30u64, 200, 700].get(r.0 as usize % 3).unwrap()) as u32) } else { match r.below(10) { 0..=4 => Bs::Id(200 + r.below(24) as u32), 5..=7 => Bs::Id(230 + r.below(8) as u32), 8 => Bs::Id(240 + r.below(2) as u32), _ => Bs::Id(r.below(16) as u32) } } }
fn keys_few(r: &mut Rng) -> Bs { match r.below(8) { 0 => Bs::Id(0), 1 => Bs::Id(10), 2 => Bs::Id(20), 3 => Bs::Id(21), 4 => Bs::Id(11), 5 => Bs::Id(13), 6 => Bs::Id(4), _ => Bs::Id(12) } }
fn keys_size(r: &mut Rng) -> Bs { if r.chance(1, 3) { Bs::Id(r.below(16) as u32) } else { let l = *r.pick(&[0usize, 1, 1000, 14000, 16119, 16120, 16127, 16128, 16129, 16130, 16373, 16374, 16375, 16382, 16383, 16384, 20000, 65535, 65536, 70000]); Bs::Len(l, r.below(2) as u8) } }
fn vals_small(r: &mut Rng) -> Bs { match r.below(10) { 0 => Bs::Len(0, 0), 1 => Bs::Len(1, 5), 2 => Bs::Len(r.below(3000) as usize, 7), 3 => Bs::Len(200, r.below(3) as u8), _ => Bs::Id(r.below(40) as u32) } }
fn vals_tiny(r: &mut Rng) -> Bs { match r.below(10) { 0 => Bs::Len(0, 0), 1 => Bs::Len(r.below(200) as usize, 7), _ => Bs::Id(r.below(12) as u32) } }
fn vals_size(r: &mut Rng) -> Bs { if r.chance(1, 3) { Bs::Len(r.below(8) as usize, r.below(4) as u8) } else { Bs::Len(*r.pick(&[0usize, 1, 500, 970, 984, 990, 991, 992, 998, 999, 1000, 1001, 16000, 65000, 65279, 65280, 65281, 65526, 65527, 65528, 65534, 65535, 65536, 65537, 70000, 131072]), r.below(4) as u8) } }
fn vals_big(r: &mut Rng) -> Bs { Bs::Len(*r.pick(&[0usize, 0, 1, 2, 100, 65279, 65280, 65281, 130559, 130560, 130561, 195840, 66000, 200000]), r.below(5) as u8) }

const PLAIN: &[(&str, u32)] = &[("set", 10), ("get", 5), ("contains", 2), ("remove", 5), ("full", 1)];

pub fn profile(prop: &str) -> Option<Profile> {
    use Dom::*;
    let d = Profile { doms: &[], weights: PLAIN, cfgs: cfg_mix, len: (10, 150), keys: keys_small, vals: vals_small, delay: false, end_full: true };
    Some(match prop {
        "C01" => Profile { doms: &[Plain, Full], weights: &[("set", 12), ("get", 5), ("contains", 2), ("remove", 6), ("full", 1), ("replace", 1), ("goc", 1), ("flush", 1)], ..d },
        "C02" => Profile { doms: &[Cond], weights: &[("set", 3), ("remove", 2), ("replace", 8), ("goc", 5), ("get", 1), ("full", 1)], end_full: false, ..d },
        "C03" => Profile { doms: &[Plain, Cond, Iter, Maint, Full, Open], weights: &[("set", 14), ("get", 4), ("remove", 4), ("replace", 3), ("goc", 2), ("iter", 1), ("merge", 1), ("full", 1), ("reopen", 1)], keys: keys_coll, vals: vals_tiny, len: if WB { (20, 1500) } else { (10, 150) }, ..d },
        "C04" => Profile { doms: &[Plain, Cond, List, Queue, Big, Full, Size], weights: &[("set", 8), ("get", 2), ("goc", 3), ("replace", 3), ("lset", 3), ("lpromote", 1), ("lgoc", 1), ("lreplace", 1), ("lget", 1), ("liter", 1), ("llen", 1), ("qpushh", 2), ("qpusht", 2), ("qextend", 1), ("qextendbad", 2), ("qiter", 1), ("bset", 3), ("bget", 1), ("full", 1)], cfgs: cfg_sizes, keys: keys_size, vals: vals_size, len: (3, 25), ..d },
        "C05" => Profile { doms: &[Plain, Full, Maint], weights: &[("set", 30), ("get", 5), ("remove", 4), ("full", 1)], cfgs: cfg_split, keys: keys_many, vals: vals_tiny, len: (100, if WB { 1800 } else { 900 }), ..d },
        "C06" => Profile { doms: &[Plain, Cond, Full], weights: &[("set", 20), ("get", 5), ("remove", 8), ("replace", 4), ("goc", 3), ("full", 1), ("stats", 1)], cfgs: cfg_compact, keys: keys_many, vals: vals_tiny, len: (50, 600), delay: true, ..d },
        "C07" => Profile { doms: &[Maint, Full, Open], weights: &[("set", 40), ("remove", 36), ("merge", 3), ("full", 1), ("reopen", 1)], cfgs: cfg_merge, keys: keys_many, vals: vals_tiny, len: (100, if WB { 1500 } else { 700 }), ..d },
        "C08" => Profile { doms: &[Maint, Full, Plain, Open], weights: &[("set", 40), ("remove", 15), ("get", 6), ("merge", 1), ("tiling", 1), ("full", 1), ("reopen", 1)], cfgs: cfg_merge, keys: keys_many, vals: vals_tiny, len: (50, 600), ..d },
        "C11" => Profile { doms: &[Open, Full], weights: &[("set", 10), ("remove", 3), ("lset", 3), ("lremove", 1), ("qpushh", 2), ("qpusht", 2), ("qpoph", 1), ("bset", 1), ("typed", 4), ("merge", 1), ("reopenfull", 3), ("clear", 0)], keys: keys_small, vals: vals_small, cfgs: cfg_list, ..d },
        "C12" => Profile { doms: &[Iter], weights: &[("set", 12), ("remove", 3), ("lset", 3), ("qpusht", 3), ("bset", 1), ("typed", 4), ("iter", 4), ("merge", 1)], keys: keys_small, cfgs: cfg_list, vals: vals_tiny, end_full: false, ..d },
        "C13" => Profile { doms: &[List, Full], weights: &[("lset", 14), ("lpromote", 4), ("lreplace", 4), ("lgoc", 3), ("lget", 3), ("lremove", 6), ("liter", 3), ("lpoph", 3), ("lpopt", 3), ("lpeekh", 2), ("lpeekt", 2), ("llen", 2), ("set", 2), ("remove", 1), ("qpusht", 2), ("typed", 2), ("lcompact", 1), ("full", 1)], cfgs: cfg_list, keys: keys_few, vals: vals_tiny, ..d },
        "C14" => Profile { doms: &[ListMaint, List, Full], weights: &[("lset", 14), ("lpromote", 2), ("lremove", 8), ("lpoph", 1), ("liter", 2), ("lcompact", 6), ("ldiscard", 1), ("set", 2), ("qpusht", 1), ("typed", 1), ("full", 1)], cfgs: cfg_list, keys: keys_few, vals: vals_tiny, ..d },
        "C15" => Profile { doms: &[Queue, Full], weights: &[("qpushh", 6), ("qpusht", 6), ("qpoph", 4), ("qpopt", 4), ("qpeekh", 2), ("qpeekt", 2), ("qremove", 6), ("qextend", 2), ("qdiscard", 1), ("qiter", 3), ("qlen", 2), ("set", 2), ("lset", 2), ("bset", 1), ("full", 1)], cfgs: cfg_list, keys: keys_few, vals: vals_tiny, ..d },
        "C16" => Profile { doms: &[Big], weights: &[("bset", 10), ("bget", 4), ("bremove", 3), ("qpusht", 1), ("set", 1)], cfgs: cfg_big, keys: keys_few, vals: vals_big, len: (3, 30), ..d },
        "C17" => Profile { doms: &[Typed], weights: &[("typed", 30), ("set", 3), ("remove", 1), ("lset", 1), ("qpusht", 1)], cfgs: cfg_list, keys: keys_small, vals: vals_tiny, ..d },
        "C19" => Profile { doms: &[Stats, Clear], weights: &[("set", 12), ("remove", 5), ("replace", 2), ("goc", 2), ("get", 2), ("lset", 3), ("lremove", 2), ("qpushh", 2), ("qpopt", 2), ("bset", 1), ("typed", 3), ("merge", 1), ("stats", 6), ("reopen", 1), ("clear", 1)], cfgs: cfg_stat, keys: keys_small, vals: vals_small, ..d },
        _ => return None,
    })
}
pub fn applies(p: &str) -> bool { if WB { matches!(p, "C01" | "C03" | "C05" | "C06" | "C07") } else { profile(p).is_some() } }

fn gen_op(r: &mut Rng, p: &Profile, tot: u32) -> Op {
    use Op::*;
    let mut x = r.below(tot as u64) as u32;
    let mut name = "";
    for (n, w) in p.weights { if x < *w { name = n; break } x -= w; }
    let k = (p.keys)(r);
    let v = (p.vals)(r);
    let l = Bs::Id(*r.pick(&[20, 21, 10, 11, 0]));
    // items: the keys plus the ones known to collide in these lists
    let ik = if r.chance(1, 4) { Bs::Id(250 + r.below(18) as u32) } else { k };
    let e = match r.below(8) { 0 | 1 => Exp::Any, 2 | 3 | 4 => Exp::Cur, 5 => Exp::CurPrefix, 6 => Exp::CurPlus, _ => Exp::Val(v) };
    let sizes = std::ptr::fn_addr_eq(p.keys, keys_size as fn(&mut Rng) -> Bs);
    let l = if sizes && r.chance(1, 3) { k } else { l };
    match name {
        "set" => Set(k, v), "get" => Get(k), "contains" => Contains(k), "remove" => Remove(k), "replace" => Replace(k, v, e), "goc" => Goc(k, v),
        "iter" => Iter(r.below(200) as u32), "lset" => LSet(l, ik, v), "lpromote" => LPromote(l, ik, v), "lreplace" => LReplace(l, ik, v, e), "lgoc" => LGoc(l, ik, v), "lget" => LGet(l, ik), "lremove" => LRemove(l, ik),
        "liter" => LIter(l), "lpoph" => LPopH(l), "lpopt" => LPopT(l), "lpeekh" => LPeekH(l), "lpeekt" => LPeekT(l), "llen" => LLen(l),
        "lcompact" => LCompact(l, *r.pick(&[0, 1, 2, 3, 5, 8]), *r.pick(&[0, 1, 10, 25, 50, 75, 100])), "ldiscard" => LDiscard(l),
        "qpushh" => QPushH(l, v), "qpusht" => QPushT(l, v), "qpoph" => QPopH(l), "qpopt" => QPopT(l), "qpeekh" => QPeekH(l), "qpeekt" => QPeekT(l), "qremove" => QRemove(l, r.below(64) as u32),
        "qextend" => QExtend(l, r.below(5) as u32, v), "qextendbad" => QExtendBad(l, r.below(3) as u32, v), "qdiscard" => QDiscard(l), "qiter" => QIter(l), "qlen" => QLen(l),
        "bset" => BSet(l, v), "bget" => BGet(l), "bremove" => BRemove(l),
        "typed" => T(r.below(43) as u32, r.below(6) as u32, r.below(12) as u32),
        "merge" => Merge(*r.pick(&[1, 10, 100, 2500, 4900])), "reopen" | "reopenfull" => Reopen, "flush" => Flush, "clear" => Clear, "stats" => Stats, "tiling" => Merge(4999), _ => Full,
    }
}

pub struct Case { pub cfg: Cfg, pub delay: u32, pub ops: Vec<Op> }
impl Case {
    pub fn text(&self) -> String { let mut s = format!("seq\ncfg {}\ndelay {}\n", self.cfg.text(), self.delay); for o in &self.ops { s += &op_text(o); s.push('\n'); } s }
    pub fn parse(t: &str) -> Case {
        let mut c = Case { cfg: Cfg::parse(""), delay: 0, ops: vec![] };
        for l in t.lines().skip(1) { if let Some(x) = l.strip_prefix("cfg ") { c.cfg = Cfg::parse(x) } else if let Some(x) = l.strip_prefix("delay ") { c.delay = x.parse().unwrap() } else if !l.trim().is_empty() { c.ops.push(op_parse(l)) } }
        c
    }
}
fn gen(prop: &str, p: &Profile, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let cfg = (p.cfgs)(&mut r);
    let n = p.len.0 as u64 + r.below((p.len.1 - p.len.0) as u64);
    let tot: u32 = p.weights.iter().map(|x| x.1).sum();
    let mut ops = vec![];
    for _ in 0..n {
        let o = gen_op(&mut r, p, tot);
        let follow = matches!(o, Op::Merge(_)) || (matches!(o, Op::Reopen) && prop != "C19");
        ops.push(o);
        if follow { ops.push(Op::Full) }
    }
    if p.end_full { ops.push(Op::Full); if matches!(prop, "C05" | "C07" | "C08" | "C11") { ops.push(Op::Reopen); ops.push(Op::Full) } }
    if prop == "C19" { ops.push(Op::Stats) }
    let delay = if p.delay { *r.pick(&[0, 0, 20, 100, 400]) } else { 0 };
    Case { cfg, delay, ops }
}
/// failure of one case: (message, index of the failing op)
fn run_case(prop: &str, _p: &Profile, dir: &std::path::Path, c: &Case, lim: u64) -> Option<(String, usize)> {
    fresh(dir);
    let end = fork_run(Duration::from_secs(lim), || {
        inter::COMPACT_DELAY_US.store(c.delay as usize, std::sync::atomic::Ordering::SeqCst);
        let mut cx = Ctx::open(dir, &c.cfg)?;
        cx.stat_watch = prop == "C19";
        let mut splits = 0usize;
        for (i, o) in c.ops.iter().enumerate() {
            set_op(i as u32);
            cx.apply_watched(o)?;
            if cx.soft_stop {
                if matches!(op_dom(o), Dom::Plain | Dom::Cond) { cx.soft_stop = false; cx.quick_full = true; cx.full()?; }
                break;
            }
            // a split happened: everything must be in its place
            if matches!(prop, "C05" | "C08") && matches!(op_dom(o), Dom::Plain) {
                let n = std::fs::read_dir(dir).map(|d| d.filter(|e| e.as_ref().is_ok_and(|e| e.file_name().to_string_lossy().starts_with("shard_"))).count()).unwrap_or(0);
                if n != splits { splits = n; if prop == "C08" { cx.check_tiling()?; } cx.full()?; }
            }
        }
        Ok(String::new())
    });
    let i = get_op() as usize;
    match end {
        End::Ok(_) => None,
        End::Fail(m) => Some((m, i)),
        End::Panic(m) => Some((m, i)),
        End::Hang => Some(("the operation does not terminate".into(), i)),
        End::Crashed => Some(("crashed".into(), i)),
        End::Died(s) => Some((format!("the process died ({s})"), i)),
    }
}
fn counts(p: &Profile, c: &Case, f: &(String, usize)) -> bool { c.ops.get(f.1).is_some_and(|o| p.doms.contains(&op_dom(o))) }

pub fn run(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    let p = profile(&e.prop).unwrap();
    let dir = e.scratch.join("db");
    let ph = e.prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)) + WB as u64;
    let max = (e.secs * 60.0) as u64;
    o.rule.push(format!("random operation sequences ({}..{} operations, random configuration) compared with a reference model; non-trivial: every sequence that ran to its end, distinct by seed", p.len.0, p.len.1));
    let mut i = e.w;
    while e.left() && i < max * e.nw {
        let c = gen(&e.prop, &p, e.seed.wrapping_mul(1_000_003) ^ (ph << 20) ^ i);
        i += e.nw;
        o.evals += 1;
        let Some(f) = run_case(&e.prop, &p, &dir, &c, 40) else { o.nontrivial += 1; if o.samples.is_empty() { o.samples.push(format!("{} | {} ops: {} ...", c.cfg.text(), c.ops.len(), c.ops.iter().take(6).map(op_text).collect::<Vec<_>>().join("; "))) } continue };
        if !counts(&p, &c, &f) { continue; }
        // confirm, then shrink
        let mut best = Case { cfg: c.cfg.clone(), delay: c.delay, ops: c.ops[..=f.1].to_vec() };
        let mut msg = f.0.clone();
        let hang = f.0.contains("terminate");
        if let Some(f2) = run_case(&e.prop, &p, &dir, &best, 60) { msg = f2.0 } else { best.ops = c.ops.clone(); if hang && run_case(&e.prop, &p, &dir, &best, 60).is_none() { continue } }
        let t0 = std::time::Instant::now();
        let mut chunk = best.ops.len() / 2;
        while chunk > 0 && t0.elapsed().as_secs() < 25 && !hang {
            let mut j = 0;
            while j < best.ops.len() && t0.elapsed().as_secs() < 25 {
                let mut t = Case { cfg: best.cfg.clone(), delay: best.delay, ops: best.ops.clone() };
                t.ops.drain(j..(j + chunk).min(t.ops.len()));
                match run_case(&e.prop, &p, &dir, &t, 40) {
                    Some(f) if counts(&p, &t, &f) => { t.ops.truncate(f.1 + 1); best = t; msg = f.0; }
                    _ => j += chunk,
                }
            }
            chunk /= 2;
        }
        let last = best.ops.last().map(op_text).unwrap_or_default();
        o.violation = Some((format!("{} ops, last `{last}`: {msg}", best.ops.len()), best.text()));
        break;
    }
    std::fs::remove_dir_all(&dir).ok();
    o
}
pub fn replay(e: &Env, body: &str) -> Option<String> {
    let p = profile(&e.prop)?;
    let c = Case::parse(body);
    for _ in 0..10 {
        if let Some(f) = run_case(&e.prop, &p, &e.scratch.join("db"), &c, 60) { return Some(format!("operation {} ({}): {}", f.1, c.ops.get(f.1).map(op_text).unwrap_or_default(), f.0)); }
        if c.delay == 0 { break; }
    }
    None
}
