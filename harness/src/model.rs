//! Operations, a reference model of every API, and their execution on the real crate with comparison.
use candystore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Arc;

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { (self.next() >> 11) % n } }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
}

/// a byte string: pool id `Id(n)`, or length+tag `Len(len, tag)`
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Bs { Id(u32), Len(usize, u8) }
impl Bs {
    pub fn bytes(&self) -> Vec<u8> {
        match *self {
            Bs::Len(len, tag) => (0..len).map(|i| tag.wrapping_add((i as u8).wrapping_mul(31)).wrapping_add((i >> 8) as u8)).collect(),
            Bs::Id(n) => match n {
                0 => vec![],
                1 => vec![1],
                2 => vec![1, 1],
                3 => vec![0],
                4 => vec![3],
                5 => vec![4],
                6 => vec![5],
                7 => vec![6],
                8 => vec![7],
                9 => vec![2],
                10 => b"k".to_vec(),
                11 => b"k\x01".to_vec(),
                12 => vec![0, 0, 0, 0, 0, 0, 0, 0x80],
                13 => { let mut v = b"k".to_vec(); v.extend_from_slice(&0x8000_0000_0000_0000u64.to_le_bytes()); v }
                14 => vec![0xff; 17],
                15 => vec![0; 17],
                // real collisions of the default hash seed (row and signature; from 230 on the shard selector too)
                200..=223 => ROW_COLL[n as usize - 200].to_le_bytes().to_vec(),
                230..=237 => SEL_COLL[n as usize - 230].to_le_bytes().to_vec(),
                // keys whose 32-bit signature field hashes to zero
                240 => 12258241595u64.to_le_bytes().to_vec(),
                241 => 1230109230u64.to_le_bytes().to_vec(),
                // items that collide within the lists key-20, key-21 and k
                250..=267 => ITEM_COLL[n as usize - 250].to_le_bytes().to_vec(),
                _ => format!("key-{n}").into_bytes(),
            },
        }
    }
    pub fn text(&self) -> String { match self { Bs::Id(n) => format!("{n}"), Bs::Len(l, t) => format!("L{l}:{t}") } }
    pub fn parse(s: &str) -> Bs {
        if let Some(r) = s.strip_prefix('L') { let (a, b) = r.split_once(':').unwrap(); Bs::Len(a.parse().unwrap(), b.parse().unwrap()) } else { Bs::Id(s.parse().unwrap()) }
    }
}

const ROW_COLL: [u32; 24] = [314343, 1041631, 3202419, 3500060, 2715939, 2845864, 825462, 3844860, 3495510, 3901508, 780222, 3062868, 2486029, 3418257, 217420, 1416142, 777704, 1122695, 888430, 3751312, 2287881, 2437830, 769344, 1324086];
const SEL_COLL: [u32; 8] = [5713429, 355478815, 147452124, 151370805, 192852602, 291775599, 53018872, 327615316];
const ITEM_COLL: [u32; 18] = [62715, 2747630, 244567, 3078162, 343519, 2723854, 411498, 2781269, 521601, 929067, 557484, 1807113, 1155, 2062524, 18227, 3780276, 54556, 510419];
/// whether two pool keys are known to collide in row and signature
pub fn collide(a: &Bs, b: &Bs) -> bool { match (a, b) { (Bs::Id(x), Bs::Id(y)) => x != y && ((200..=237).contains(x) && x / 2 == y / 2), _ => false } }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exp { Any, Cur, CurPrefix, CurPlus, Val(Bs) }
impl Exp {
    fn text(&self) -> String { match self { Exp::Any => "any".into(), Exp::Cur => "cur".into(), Exp::CurPrefix => "prefix".into(), Exp::CurPlus => "plus".into(), Exp::Val(b) => b.text() } }
    fn parse(s: &str) -> Exp { match s { "any" => Exp::Any, "cur" => Exp::Cur, "prefix" => Exp::CurPrefix, "plus" => Exp::CurPlus, _ => Exp::Val(Bs::parse(s)) } }
    fn resolve(&self, cur: Option<&Vec<u8>>) -> Option<Vec<u8>> {
        let c = cur.cloned().unwrap_or_default();
        match self {
            Exp::Any => None,
            Exp::Cur => Some(c),
            Exp::CurPrefix => Some(c[..c.len().saturating_sub(1)].to_vec()),
            Exp::CurPlus => { let mut c = c; c.push(7); Some(c) }
            Exp::Val(b) => Some(b.bytes()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Set(Bs, Bs), Get(Bs), Contains(Bs), Remove(Bs), Replace(Bs, Bs, Exp), Goc(Bs, Bs),
    Iter(u32),
    LSet(Bs, Bs, Bs), LPromote(Bs, Bs, Bs), LReplace(Bs, Bs, Bs, Exp), LGoc(Bs, Bs, Bs), LGet(Bs, Bs), LRemove(Bs, Bs),
    LIter(Bs), LPopH(Bs), LPopT(Bs), LPeekH(Bs), LPeekT(Bs), LLen(Bs), LCompact(Bs, u64, u32), LDiscard(Bs),
    QPushH(Bs, Bs), QPushT(Bs, Bs), QPopH(Bs), QPopT(Bs), QPeekH(Bs), QPeekT(Bs), QRemove(Bs, u32), QExtend(Bs, u32, Bs), QExtendBad(Bs, u32, Bs), QDiscard(Bs), QIter(Bs), QLen(Bs),
    BSet(Bs, Bs), BGet(Bs), BRemove(Bs),
    T(u32, u32, u32), // typed op: kind, key, value
    Merge(u32), Reopen, Flush, Clear, Stats, Full,
}
pub fn op_text(o: &Op) -> String {
    use Op::*;
    let t = |b: &Bs| b.text();
    match o {
        Set(k, v) => format!("set {} {}", t(k), t(v)), Get(k) => format!("get {}", t(k)), Contains(k) => format!("contains {}", t(k)),
        Remove(k) => format!("remove {}", t(k)), Replace(k, v, e) => format!("replace {} {} {}", t(k), t(v), e.text()), Goc(k, v) => format!("goc {} {}", t(k), t(v)),
        Iter(n) => format!("iter {n}"),
        LSet(l, k, v) => format!("lset {} {} {}", t(l), t(k), t(v)), LPromote(l, k, v) => format!("lpromote {} {} {}", t(l), t(k), t(v)),
        LReplace(l, k, v, e) => format!("lreplace {} {} {} {}", t(l), t(k), t(v), e.text()), LGoc(l, k, v) => format!("lgoc {} {} {}", t(l), t(k), t(v)),
        LGet(l, k) => format!("lget {} {}", t(l), t(k)), LRemove(l, k) => format!("lremove {} {}", t(l), t(k)), LIter(l) => format!("liter {}", t(l)),
        LPopH(l) => format!("lpoph {}", t(l)), LPopT(l) => format!("lpopt {}", t(l)), LPeekH(l) => format!("lpeekh {}", t(l)), LPeekT(l) => format!("lpeekt {}", t(l)),
        LLen(l) => format!("llen {}", t(l)), LCompact(l, m, r) => format!("lcompact {} {m} {r}", t(l)), LDiscard(l) => format!("ldiscard {}", t(l)),
        QPushH(q, v) => format!("qpushh {} {}", t(q), t(v)), QPushT(q, v) => format!("qpusht {} {}", t(q), t(v)), QPopH(q) => format!("qpoph {}", t(q)), QPopT(q) => format!("qpopt {}", t(q)),
        QPeekH(q) => format!("qpeekh {}", t(q)), QPeekT(q) => format!("qpeekt {}", t(q)), QRemove(q, n) => format!("qremove {} {n}", t(q)),
        QExtend(q, n, v) => format!("qextend {} {n} {}", t(q), t(v)), QExtendBad(q, n, v) => format!("qextendbad {} {n} {}", t(q), t(v)),
        QDiscard(q) => format!("qdiscard {}", t(q)), QIter(q) => format!("qiter {}", t(q)), QLen(q) => format!("qlen {}", t(q)),
        BSet(k, v) => format!("bset {} {}", t(k), t(v)), BGet(k) => format!("bget {}", t(k)), BRemove(k) => format!("bremove {}", t(k)),
        T(a, b, c) => format!("typed {a} {b} {c}"),
        Merge(n) => format!("merge {n}"), Reopen => "reopen".into(), Flush => "flush".into(), Clear => "clear".into(), Stats => "stats".into(), Full => "full".into(),
    }
}
pub fn op_parse(s: &str) -> Op {
    use Op::*;
    let w: Vec<&str> = s.split_whitespace().collect();
    let b = |i: usize| Bs::parse(w[i]);
    let n = |i: usize| w[i].parse::<u32>().unwrap();
    match w[0] {
        "set" => Set(b(1), b(2)), "get" => Get(b(1)), "contains" => Contains(b(1)), "remove" => Remove(b(1)), "replace" => Replace(b(1), b(2), Exp::parse(w[3])), "goc" => Goc(b(1), b(2)),
        "iter" => Iter(n(1)), "lset" => LSet(b(1), b(2), b(3)), "lpromote" => LPromote(b(1), b(2), b(3)), "lreplace" => LReplace(b(1), b(2), b(3), Exp::parse(w[4])), "lgoc" => LGoc(b(1), b(2), b(3)),
        "lget" => LGet(b(1), b(2)), "lremove" => LRemove(b(1), b(2)), "liter" => LIter(b(1)), "lpoph" => LPopH(b(1)), "lpopt" => LPopT(b(1)), "lpeekh" => LPeekH(b(1)), "lpeekt" => LPeekT(b(1)),
        "llen" => LLen(b(1)), "lcompact" => LCompact(b(1), w[2].parse().unwrap(), n(3)), "ldiscard" => LDiscard(b(1)),
        "qpushh" => QPushH(b(1), b(2)), "qpusht" => QPushT(b(1), b(2)), "qpoph" => QPopH(b(1)), "qpopt" => QPopT(b(1)), "qpeekh" => QPeekH(b(1)), "qpeekt" => QPeekT(b(1)),
        "qremove" => QRemove(b(1), n(2)), "qextend" => QExtend(b(1), n(2), b(3)), "qextendbad" => QExtendBad(b(1), n(2), b(3)), "qdiscard" => QDiscard(b(1)), "qiter" => QIter(b(1)), "qlen" => QLen(b(1)),
        "bset" => BSet(b(1), b(2)), "bget" => BGet(b(1)), "bremove" => BRemove(b(1)), "typed" => T(n(1), n(2), n(3)),
        "merge" => Merge(n(1)), "reopen" => Reopen, "flush" => Flush, "clear" => Clear, "stats" => Stats, "full" => Full,
        x => panic!("bad op {x}"),
    }
}
/// the property area an operation's result belongs to
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Dom { Plain, Cond, Size, Iter, List, ListMaint, Queue, Big, Typed, Stats, Maint, Open, Full, Flush, Clear }
pub fn op_dom(o: &Op) -> Dom {
    use Op::*;
    match o {
        Set(..) | Get(..) | Contains(..) | Remove(..) => Dom::Plain,
        Replace(..) | Goc(..) => Dom::Cond,
        Iter(..) => Dom::Iter,
        LSet(..) | LPromote(..) | LReplace(..) | LGoc(..) | LGet(..) | LRemove(..) | LIter(..) | LPopH(..) | LPopT(..) | LPeekH(..) | LPeekT(..) | LLen(..) => Dom::List,
        LCompact(..) | LDiscard(..) => Dom::ListMaint,
        QPushH(..) | QPushT(..) | QPopH(..) | QPopT(..) | QPeekH(..) | QPeekT(..) | QRemove(..) | QExtend(..) | QExtendBad(..) | QDiscard(..) | QIter(..) | QLen(..) => Dom::Queue,
        BSet(..) | BGet(..) | BRemove(..) => Dom::Big,
        T(..) => Dom::Typed,
        Merge(..) => Dom::Maint, Reopen => Dom::Open, Flush => Dom::Flush, Clear => Dom::Clear, Stats => Dom::Stats, Full => Dom::Full,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg { pub max_shard: u32, pub min_compact: u32, pub nkeys: usize, pub trunc_up: bool, pub mask: u64, pub locks: u32, pub seed_byte: u8 }
impl Cfg {
    pub fn text(&self) -> String { format!("max_shard={} min_compact={} nkeys={} trunc_up={} mask={:x} locks={} seed={}", self.max_shard, self.min_compact, self.nkeys, self.trunc_up as u8, self.mask, self.locks, self.seed_byte) }
    pub fn parse(s: &str) -> Cfg {
        let mut c = Cfg { max_shard: 1 << 20, min_compact: 1 << 18, nkeys: 0, trunc_up: false, mask: u64::MAX, locks: 64, seed_byte: 0 };
        for kv in s.split_whitespace() {
            let (k, v) = kv.split_once('=').unwrap();
            match k { "max_shard" => c.max_shard = v.parse().unwrap(), "min_compact" => c.min_compact = v.parse().unwrap(), "nkeys" => c.nkeys = v.parse().unwrap(), "trunc_up" => c.trunc_up = v == "1", "mask" => c.mask = u64::from_str_radix(v, 16).unwrap(), "locks" => c.locks = v.parse().unwrap(), "seed" => c.seed_byte = v.parse().unwrap(), _ => {} }
        }
        c
    }
    pub fn config(&self) -> Config {
        let mut seed = *b"kOYLu0xvq2WtzcKJ";
        seed[3] ^= self.seed_byte;
        #[cfg(feature = "wb")]
        unsafe { candystore::HASH_BITS_TO_KEEP = self.mask; }
        Config { max_shard_size: self.max_shard, min_compaction_threashold: self.min_compact, expected_number_of_keys: self.nkeys, truncate_up: self.trunc_up, hash_seed: seed, max_concurrent_list_ops: self.locks, num_compaction_threads: 1, ..Default::default() }
    }
}

type B = Vec<u8>;
#[derive(Clone, Default, Debug, PartialEq)]
pub struct MList { pub items: Vec<(B, B)>, pub idx: Vec<u64>, pub head: u64, pub tail: u64 }
#[derive(Clone, Default, Debug, PartialEq)]
pub struct MQueue { pub items: BTreeMap<u64, B>, pub dead: Vec<u64> }
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Model {
    pub plain: BTreeMap<B, B>,
    pub lists: BTreeMap<B, MList>,
    pub queues: BTreeMap<B, MQueue>,
    pub big: BTreeMap<B, B>,
    pub t_u32: BTreeMap<u32, String>,
    pub t_i32: BTreeMap<i32, String>,
    pub t_str: BTreeMap<String, Vec<u8>>,
    pub t_list: BTreeMap<u32, Vec<(String, u64)>>,
    pub t_deq: BTreeMap<String, Vec<(u64, i64)>>,
    pub t_big: BTreeMap<u64, Vec<u8>>,
    pub t_deq_touched: BTreeSet<String>,
}

pub struct Ctx { pub dir: PathBuf, pub cfg: Cfg, pub db: Option<Arc<CandyStore>>, pub m: Model, pub soft_stop: bool, pub stat_watch: bool, pub quick_full: bool }
pub type R = std::result::Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }
fn sh(b: &[u8]) -> String { if b.len() <= 24 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("[{} bytes {:02x}{:02x}..]", b.len(), b[0], b[1]) } }
fn sho(b: &Option<Vec<u8>>) -> String { match b { None => "None".into(), Some(b) => format!("Some({})", sh(b)) } }

pub const NARROW: &str = "too narrow to be split";
enum Got<T> { Ok(T), Narrow, Size(CandyError), Err(String) }
fn got<T>(r: Result<T>) -> Got<T> {
    match r {
        Ok(v) => Got::Ok(v),
        Err(e) => {
            if let Some(c) = e.downcast_ref::<CandyError>() { return Got::Size(c.clone()); }
            let s = format!("{e}");
            if s.contains(NARROW) { Got::Narrow } else { Got::Err(s) }
        }
    }
}
macro_rules! must { ($self:ident, $r:expr) => { match got($r) { Got::Ok(v) => v, Got::Narrow => { $self.soft_stop = true; return Ok(()); }, Got::Size(e) => return Err(format!("unexpected size error: {e}")), Got::Err(e) => return Err(format!("unexpected error: {e}")) } } }

impl Ctx {
    pub fn open(dir: &std::path::Path, cfg: &Cfg) -> std::result::Result<Ctx, String> {
        let db = CandyStore::open(dir, cfg.config()).map_err(|e| format!("open failed: {e}"))?;
        Ok(Ctx { dir: dir.to_path_buf(), cfg: cfg.clone(), db: Some(Arc::new(db)), m: Model::default(), soft_stop: false, stat_watch: false, quick_full: false })
    }
    pub fn db(&self) -> Arc<CandyStore> { self.db.as_ref().unwrap().clone() }
    fn plain_size_err(&self, k: usize, v: usize) -> Option<CandyError> {
        if k > MAX_KEY_SIZE_ { return Some(CandyError::KeyTooLong(k)); }
        if v > MAX_VALUE_SIZE_ { return Some(CandyError::ValueTooLong(v)); }
        if k + 1 + v > self.cfg.max_shard as usize { return Some(CandyError::EntryCannotFitInShard(k + 1 + v, self.cfg.max_shard as usize)); }
        None
    }
    fn raw_bad(&self, k: usize, v: usize) -> bool { k > 0x3fff || v > 0xffff || k + v > self.cfg.max_shard as usize }
    fn list_bad(&self, l: usize, k: usize, v: usize) -> bool { self.raw_bad(k + 9, v + 8) || self.raw_bad(l + 1, 24) || 25 > self.cfg.max_shard as usize }
    fn queue_bad(&self, q: usize, v: usize) -> bool { self.raw_bad(q + 9, v) || self.raw_bad(q + 1, 24) }

    /// with `stat_watch`, also checks that the counters advance exactly as the operation's outcome requires
    pub fn apply_watched(&mut self, op: &Op) -> R {
        use Op::*;
        if !self.stat_watch || self.cfg.seed_byte != 0 || !matches!(op, Set(..) | Get(_) | Contains(_) | Remove(_) | Goc(..) | Replace(..)) { return self.apply(op); }
        let (kb, vb) = match op { Set(k, v) | Goc(k, v) | Replace(k, v, _) => (*k, Some(v.bytes())), Get(k) | Contains(k) | Remove(k) => (*k, None), _ => unreachable!() };
        let k = kb.bytes();
        let cur = self.m.plain.get(&k).cloned();
        let a = self.db().stats();
        self.apply(op)?;
        let b = self.db().stats();
        if self.soft_stop { return Ok(()); }
        let now = self.m.plain.get(&k).cloned();
        let written = now.is_some() && now != cur;
        let new = written && cur.is_none();
        let w = |x: usize, y: usize, want: usize, what: &str| -> R { ck!(y.wrapping_sub(x) == want, "`{}` changed {what} from {x} to {y}, expected +{want}", op_text(op)); Ok(()) };
        w(a.num_updates, b.num_updates, (written && !new) as usize, "num_updates")?;
        w(a.num_shards + b.num_splits - a.num_splits, b.num_shards, 0, "num_shards (against num_splits)")?;
        match op {
            Get(_) | Contains(_) => {
                w(a.num_positive_lookups, b.num_positive_lookups, cur.is_some() as usize, "num_positive_lookups")?;
                w(a.num_negative_lookups, b.num_negative_lookups, cur.is_none() as usize, "num_negative_lookups")?;
            }
            Set(..) | Remove(_) => {
                w(a.num_positive_lookups, b.num_positive_lookups, 0, "num_positive_lookups")?;
                w(a.num_negative_lookups, b.num_negative_lookups, 0, "num_negative_lookups")?;
            }
            _ => {}
        }
        let sel = matches!(kb, Bs::Id(230..=237));
        if sel || a.num_shards == 1 && b.num_shards == 1 || !matches!(kb, Bs::Id(200..=237)) {
            let other = (200..=237u32).any(|n| collide(&Bs::Id(n), &kb) && self.m.plain.contains_key(&Bs::Id(n).bytes()));
            w(a.num_collisions, b.num_collisions, (new && other) as usize, "num_collisions")?;
        }
        if a.num_splits == b.num_splits && a.num_compactions == b.num_compactions {
            w(a.num_inserts, b.num_inserts, new as usize, "num_inserts")?;
            w(a.num_removals, b.num_removals, (cur.is_some() && now.is_none()) as usize, "num_removals")?;
            w(a.num_write_ops, b.num_write_ops, written as usize, "num_write_ops")?;
            let sz = k.len() + 1 + vb.map(|v| v.len()).unwrap_or(0);
            w(a.num_write_bytes, b.num_write_bytes, if written { sz } else { 0 }, "num_write_bytes")?;
            w(a.occupied_bytes, b.occupied_bytes, if written { sz } else { 0 }, "occupied_bytes")?;
            let h = |s: &candystore::Stats| [s.entries_under_128, s.entries_under_1k, s.entries_under_8k, s.entries_under_32k, s.entries_over_32k];
            let class = [128, 1024, 8192, 32768, usize::MAX].iter().position(|x| sz < *x).unwrap();
            for c in 0..5 { w(h(&a)[c], h(&b)[c], (written && c == class) as usize, "the size histogram")?; }
        }
        Ok(())
    }
    pub fn apply(&mut self, op: &Op) -> R {
        use Op::*;
        let db = self.db();
        match op {
            Set(kb, vb) => {
                let (k, v) = (kb.bytes(), vb.bytes());
                let bad = self.plain_size_err(k.len(), v.len());
                let r = db.set(&k, &v);
                if let Some(e) = bad { return self.expect_size("set", r.map(|_| ()), e); }
                let r = must!(self, r);
                let prev = self.m.plain.insert(k, v);
                let want = match prev { None => SetStatus::CreatedNew, Some(p) => SetStatus::PrevValue(p) };
                ck!(r == want, "set returned {} instead of {}", st(&r), st(&want));
            }
            Get(kb) => {
                let k = kb.bytes();
                let r = must!(self, db.get(&k));
                let want = self.m.plain.get(&k).cloned();
                ck!(r == want, "get returned {} instead of {}", sho(&r), sho(&want));
            }
            Contains(kb) => {
                let k = kb.bytes();
                let r = must!(self, db.contains(&k));
                ck!(r == self.m.plain.contains_key(&k), "contains returned {r}");
            }
            Remove(kb) => {
                let k = kb.bytes();
                let r = must!(self, db.remove(&k));
                let want = self.m.plain.remove(&k);
                ck!(r == want, "remove returned {} instead of {}", sho(&r), sho(&want));
            }
            Replace(kb, vb, e) => {
                let (k, v) = (kb.bytes(), vb.bytes());
                let cur = self.m.plain.get(&k).cloned();
                let exp = e.resolve(cur.as_ref());
                let bad = self.plain_size_err(k.len(), v.len());
                let r = db.replace(&k, &v, exp.as_ref());
                if let Some(e) = bad { return self.expect_size("replace", r.map(|_| ()), e); }
                let r = must!(self, r);
                let want = match &cur {
                    None => ReplaceStatus::DoesNotExist,
                    Some(c) => if exp.as_ref().is_some_and(|x| x != c) { ReplaceStatus::WrongValue(c.clone()) } else { self.m.plain.insert(k.clone(), v); ReplaceStatus::PrevValue(c.clone()) },
                };
                ck!(r == want, "replace returned {r:?} instead of {want:?}");
                let g = must!(self, db.get(&k));
                ck!(g == self.m.plain.get(&k).cloned(), "after replace ({want:?}) get returned {} instead of {}", sho(&g), sho(&self.m.plain.get(&k).cloned()));
            }
            Goc(kb, vb) => {
                let (k, v) = (kb.bytes(), vb.bytes());
                let bad = self.plain_size_err(k.len(), v.len());
                let r = db.get_or_create(&k, &v);
                if let Some(e) = bad { return self.expect_size("get_or_create", r.map(|_| ()), e); }
                let r = must!(self, r);
                let want = match self.m.plain.get(&k) { Some(c) => GetOrCreateStatus::ExistingValue(c.clone()), None => { self.m.plain.insert(k.clone(), v.clone()); GetOrCreateStatus::CreatedNew(v) } };
                ck!(r == want, "get_or_create returned {r:?} instead of {want:?}");
                let g = must!(self, db.get(&k));
                ck!(g == self.m.plain.get(&k).cloned(), "after get_or_create get returned {}", sho(&g));
            }
            Iter(stop) => return self.check_iter(*stop as usize),
            LSet(lb, kb, vb) | LPromote(lb, kb, vb) => {
                let (l, k, v) = (lb.bytes(), kb.bytes(), vb.bytes());
                let promote = matches!(op, LPromote(..));
                let bad = self.list_bad(l.len(), k.len(), v.len());
                let r = if promote { db.set_in_list_promoting(&l, &k, &v) } else { db.set_in_list(&l, &k, &v) };
                if bad { return self.expect_reject("set_in_list", r.map(|_| ())); }
                let r = must!(self, r);
                let ml = self.m.lists.entry(l).or_default();
                let mut want = SetStatus::CreatedNew;
                if promote { ml.remove(&k); } else if let Some(p) = ml.items.iter().position(|x| x.0 == k) { want = SetStatus::PrevValue(std::mem::replace(&mut ml.items[p].1, v.clone())); }
                if matches!(want, SetStatus::CreatedNew) { ml.append(k, v); }
                ck!(r == want, "set_in_list returned {} instead of {}", st(&r), st(&want));
            }
            LReplace(lb, kb, vb, e) => {
                let (l, k, v) = (lb.bytes(), kb.bytes(), vb.bytes());
                let cur = self.m.lists.get(&l).and_then(|x| x.get(&k));
                let exp = e.resolve(cur.as_ref());
                let bad = self.list_bad(l.len(), k.len(), v.len());
                let r = db.replace_in_list(&l, &k, &v, exp.as_ref());
                if bad { return if matches!(r, Ok(ReplaceStatus::DoesNotExist)) && cur.is_none() { Ok(()) } else { self.expect_reject("replace_in_list", r.map(|_| ())) }; }
                let r = must!(self, r);
                let want = match cur {
                    None => ReplaceStatus::DoesNotExist,
                    Some(c) => if exp.as_ref().is_some_and(|x| *x != c) { ReplaceStatus::WrongValue(c) } else { let ml = self.m.lists.get_mut(&l).unwrap(); let p = ml.items.iter().position(|x| x.0 == k).unwrap(); ml.items[p].1 = v; ReplaceStatus::PrevValue(c) },
                };
                ck!(r == want, "replace_in_list returned {r:?} instead of {want:?}");
            }
            LGoc(lb, kb, vb) => {
                let (l, k, v) = (lb.bytes(), kb.bytes(), vb.bytes());
                let bad = self.list_bad(l.len(), k.len(), v.len());
                let r = db.get_or_create_in_list(&l, &k, &v);
                if bad { return self.expect_reject("get_or_create_in_list", r.map(|_| ())); }
                let r = must!(self, r);
                let ml = self.m.lists.entry(l).or_default();
                let want = match ml.get(&k) { Some(c) => GetOrCreateStatus::ExistingValue(c), None => { ml.append(k, v.clone()); GetOrCreateStatus::CreatedNew(v) } };
                ck!(r == want, "get_or_create_in_list returned {r:?} instead of {want:?}");
            }
            LGet(lb, kb) => {
                let (l, k) = (lb.bytes(), kb.bytes());
                let r = must!(self, db.get_from_list(&l, &k));
                let want = self.m.lists.get(&l).and_then(|x| x.get(&k));
                ck!(r == want, "get_from_list returned {} instead of {}", sho(&r), sho(&want));
            }
            LRemove(lb, kb) => {
                let (l, k) = (lb.bytes(), kb.bytes());
                let r = must!(self, db.remove_from_list(&l, &k));
                let want = self.m.lists.get_mut(&l).and_then(|x| x.remove(&k));
                ck!(r == want, "remove_from_list returned {} instead of {}", sho(&r), sho(&want));
            }
            LIter(lb) => return self.check_list(&lb.bytes()),
            LPopH(lb) | LPopT(lb) => {
                let l = lb.bytes();
                let head = matches!(op, LPopH(_));
                let r = must!(self, if head { db.pop_list_head(&l) } else { db.pop_list_tail(&l) });
                let want = self.m.lists.get_mut(&l).and_then(|x| { let kv = if head { x.items.first() } else { x.items.last() }.cloned(); if let Some((k, _)) = &kv { x.remove(&k.clone()); } kv });
                ck!(r == want, "pop_list ({}) returned {r:?} instead of {want:?}", if head { "head" } else { "tail" });
            }
            LPeekH(lb) | LPeekT(lb) => {
                let l = lb.bytes();
                let head = matches!(op, LPeekH(_));
                let r = must!(self, if head { db.peek_list_head(&l) } else { db.peek_list_tail(&l) });
                let want = self.m.lists.get(&l).and_then(|x| if head { x.items.first() } else { x.items.last() }.cloned());
                ck!(r == want, "peek_list ({}) returned {r:?} instead of {want:?}", if head { "head" } else { "tail" });
            }
            LLen(lb) => {
                let l = lb.bytes();
                let r = must!(self, db.list_len(&l));
                let want = self.m.lists.get(&l).map(|x| x.items.len()).unwrap_or(0);
                ck!(r == want, "list_len returned {r} instead of {want}");
            }
            LCompact(lb, minlen, ratio) => {
                let l = lb.bytes();
                let ratio = *ratio as f64 / 100.0;
                let r = must!(self, db.compact_list_if_needed(&l, ListCompactionParams { min_length: *minlen, min_holes_ratio: ratio }));
                let ml = self.m.lists.entry(l.clone()).or_default();
                let span = ml.tail - ml.head;
                let holes = span - ml.items.len() as u64;
                let want = span > 0 && span >= *minlen && !((holes as f64) < span as f64 * ratio);
                ck!(r == want, "compact_list_if_needed(min_length={minlen}, ratio={ratio}) returned {r} instead of {want} (span {span}, holes {holes})");
                if want {
                    let n = ml.items.len() as u64;
                    let t = ml.tail;
                    ml.idx = (0..n).map(|i| t + i).collect();
                    ml.head = t; ml.tail = t + n;
                    if n == 0 { ml.head = 0; ml.tail = 0; }
                }
                self.check_list(&l)?;
                // no holes are left: compacting again with a positive ratio is never needed
                if want {
                    let again = must!(self, db.compact_list_if_needed(&l, ListCompactionParams { min_length: 0, min_holes_ratio: 0.0000001 }));
                    ck!(!again, "after compact_list_if_needed the list still has holes");
                }
            }
            LDiscard(lb) => {
                let l = lb.bytes();
                let r = must!(self, db.discard_list(&l));
                let had = self.m.lists.remove(&l).map(|x| (x.items.len(), x.tail - x.head)).unwrap_or((0, 0));
                ck!(r == (had.0 > 0) || (had.0 == 0 && had.1 > 0), "discard_list returned {r} for a list of {} items", had.0);
                self.check_list(&l)?;
            }
            QPushH(qb, vb) | QPushT(qb, vb) => {
                let (q, v) = (qb.bytes(), vb.bytes());
                let head = matches!(op, QPushH(..));
                let bad = self.queue_bad(q.len(), v.len());
                let r = if head { db.push_to_queue_head(&q, &v) } else { db.push_to_queue_tail(&q, &v) };
                if bad { return self.expect_reject("push_to_queue", r.map(|_| ())); }
                let idx = must!(self, r) as u64;
                let mq = self.m.queues.entry(q).or_default();
                ck!(!mq.items.contains_key(&idx), "push returned the index {idx} of an existing element");
                if head { ck!(mq.items.keys().next().map(|f| idx < *f).unwrap_or(true), "push_to_queue_head returned index {idx}, not before the head"); }
                else { ck!(mq.items.keys().next_back().map(|f| idx > *f).unwrap_or(true), "push_to_queue_tail returned index {idx}, not after the tail"); }
                mq.items.insert(idx, v);
            }
            QPopH(qb) | QPopT(qb) => {
                let q = qb.bytes();
                let head = matches!(op, QPopH(_));
                let r = must!(self, if head { db.pop_queue_head_with_idx(&q) } else { db.pop_queue_tail_with_idx(&q) });
                let want = self.m.queues.get_mut(&q).and_then(|x| { let i = if head { x.items.keys().next() } else { x.items.keys().next_back() }.copied(); i.map(|i| { x.dead.push(i); (i as usize, x.items.remove(&i).unwrap()) }) });
                ck!(r == want, "pop_queue ({}) returned {r:?} instead of {want:?}", if head { "head" } else { "tail" });
            }
            QPeekH(qb) | QPeekT(qb) => {
                let q = qb.bytes();
                let head = matches!(op, QPeekH(_));
                let r = must!(self, if head { db.peek_queue_head_with_idx(&q) } else { db.peek_queue_tail_with_idx(&q) });
                let r2 = must!(self, if head { db.peek_queue_head(&q) } else { db.peek_queue_tail(&q) });
                let want = self.m.queues.get(&q).and_then(|x| if head { x.items.iter().next() } else { x.items.iter().next_back() }.map(|(i, v)| (*i as usize, v.clone())));
                ck!(r == want && r2 == want.clone().map(|x| x.1), "peek_queue ({}) returned {r:?} instead of {want:?}", if head { "head" } else { "tail" });
            }
            QRemove(qb, n) => {
                let q = qb.bytes();
                let mq = self.m.queues.entry(q.clone()).or_default();
                let nl = mq.items.len();
                let idx = if nl > 0 && (*n as usize) % 8 != 7 { *mq.items.keys().nth(*n as usize % nl).unwrap() } else if !mq.dead.is_empty() { mq.dead[*n as usize % mq.dead.len()] } else { 12345 };
                let r = must!(self, db.remove_from_queue(&q, idx as usize));
                let want = mq.items.remove(&idx);
                if want.is_some() { mq.dead.push(idx); }
                ck!(r == want, "remove_from_queue({idx}) returned {} instead of {}", sho(&r), sho(&want));
            }
            QExtend(qb, n, vb) => {
                let q = qb.bytes();
                let vals: Vec<B> = (0..*n).map(|i| { let mut v = vb.bytes(); v.push(i as u8); v }).collect();
                let bad = vals.iter().any(|v| self.queue_bad(q.len(), v.len())) || self.raw_bad(q.len() + 1, 24);
                let r = db.extend_queue(&q, vals.iter());
                if bad { return self.expect_reject("extend_queue", r.map(|_| ())); }
                let r = must!(self, r);
                ck!(r.len() == vals.len(), "extend_queue returned {} indices for {} items", r.len(), vals.len());
                let mq = self.m.queues.entry(q).or_default();
                for (i, v) in r.zip(vals) {
                    ck!(mq.items.keys().next_back().map(|f| i as u64 > *f).unwrap_or(true), "extend_queue returned index {i}, not after the tail");
                    mq.items.insert(i as u64, v);
                }
            }
            QExtendBad(qb, n, vb) => {
                // the last item is too large: the whole call must be rejected without an effect
                let q = qb.bytes();
                let mut vals: Vec<B> = (0..*n).map(|_| vb.bytes()).collect();
                vals.push(vec![1; 70000]);
                let r = db.extend_queue(&q, vals.iter());
                self.expect_reject("extend_queue", r.map(|_| ()))?;
                return self.check_queue(&q);
            }
            QDiscard(qb) => {
                let q = qb.bytes();
                let r = must!(self, db.discard_queue(&q));
                let mq = self.m.queues.entry(q.clone()).or_default();
                let had = mq.items.len();
                let maybe = had == 0;
                let ks: Vec<u64> = mq.items.keys().copied().collect();
                mq.dead.extend(ks);
                mq.items.clear();
                ck!(r || maybe, "discard_queue returned false for a queue of {had} elements");
                self.check_queue(&q)?;
            }
            QIter(qb) => return self.check_queue(&qb.bytes()),
            QLen(qb) => {
                let q = qb.bytes();
                let r = must!(self, db.queue_len(&q));
                let want = self.m.queues.get(&q).map(|x| x.items.len()).unwrap_or(0);
                ck!(r == want, "queue_len returned {r} instead of {want}");
            }
            BSet(kb, vb) => {
                let (mut k, v) = (kb.bytes(), vb.bytes());
                k.extend_from_slice(b"-big");
                let bad = self.queue_bad(k.len(), v.len().min(MAX_VALUE_SIZE_));
                let r = db.set_big(&k, &v);
                if bad { self.expect_reject("set_big", r.map(|_| ()))?; }
                else {
                    let r = must!(self, r);
                    let prev = self.m.big.insert(k.clone(), v);
                    ck!(r == prev.is_some(), "set_big returned {r}, previous value {}", sho(&prev));
                }
                let g = must!(self, db.get_big(&k));
                let want = self.m.big.get(&k).cloned();
                ck!(g == want, "after set_big get_big returned {} instead of {}", sho(&g), sho(&want));
            }
            BGet(kb) => {
                let mut k = kb.bytes(); k.extend_from_slice(b"-big");
                let g = must!(self, db.get_big(&k));
                let want = self.m.big.get(&k).cloned();
                ck!(g == want, "get_big returned {} instead of {}", sho(&g), sho(&want));
            }
            BRemove(kb) => {
                let mut k = kb.bytes(); k.extend_from_slice(b"-big");
                let r = must!(self, db.remove_big(&k));
                let prev = self.m.big.remove(&k);
                ck!(r == prev.is_some(), "remove_big returned {r}, previous value {}", sho(&prev));
                let g = must!(self, db.get_big(&k));
                ck!(g.is_none(), "get_big after remove_big returned {}", sho(&g));
            }
            T(kind, k, v) => return self.typed(*kind, *k, *v),
            Merge(level) => {
                let before = must!(self, Ok(db.stats().num_shards));
                let r = must!(self, db.merge_small_shards(*level as f32 / 10000.0));
                let after = db.stats();
                ck!(after.num_shards <= before, "merge_small_shards increased the number of shards");
                ck!(r == (after.num_shards != before), "merge_small_shards returned {r}, shards {before} -> {}", after.num_shards);
                if after.num_shards < before {
                    let need = candystore::Stats { num_inserts: after.num_entries().max(self.cfg.nkeys), ..Default::default() }.required_num_shards();
                    ck!(after.num_shards >= need, "merge_small_shards left {} shards, {need} are required", after.num_shards);
                }
                self.check_tiling()?;
            }
            Reopen => {
                drop(db);
                let a = self.db.take().unwrap();
                let Some(s) = Arc::into_inner(a) else { return Err("harness: store still referenced".into()) };
                drop(s);
                match CandyStore::open(&self.dir, self.cfg.config()) {
                    Ok(d) => self.db = Some(Arc::new(d)),
                    Err(e) => return Err(format!("reopen failed: {e}")),
                }
            }
            Flush => { must!(self, db.flush()); }
            Clear => {
                must!(self, db.clear());
                self.m = Model::default();
                let s = db.stats();
                ck!(s.num_entries() == 0 && s.occupied_bytes == 0 && s.wasted_bytes == 0 && s.num_updates == 0 && s.num_splits == 0 && s.num_compactions == 0 && s.num_read_ops == 0 && s.num_write_ops == 0 && s.num_positive_lookups == 0 && s.num_negative_lookups == 0
                    && s.num_read_bytes == 0 && s.num_write_bytes == 0 && s.num_collisions == 0 && s.entries_under_128 == 0 && s.entries_under_1k == 0 && s.entries_under_8k == 0 && s.entries_under_32k == 0 && s.entries_over_32k == 0, "after clear the stats are {s:?}");
                ck!(db.iter_raw().next().is_none(), "after clear the store still has entries");
            }
            Stats => return self.check_stats(),
            Full => return self.full(),
        }
        Ok(())
    }

    fn expect_size(&mut self, what: &str, r: Result<()>, want: CandyError) -> R {
        match got(r) {
            Got::Size(e) => { ck!(e == want, "{what} returned {e:?} instead of {want:?}"); Ok(()) }
            Got::Ok(_) => Err(format!("{what} accepted an entry that should be rejected with {want:?}")),
            Got::Narrow => { self.soft_stop = true; Ok(()) }
            Got::Err(e) => Err(format!("{what} returned {e} instead of {want:?}")),
        }
    }
    fn expect_reject(&mut self, what: &str, r: Result<()>) -> R {
        match got(r) {
            Got::Size(_) => Ok(()),
            Got::Ok(_) => Err(format!("{what} accepted an entry that is too large")),
            Got::Narrow => { self.soft_stop = true; Ok(()) }
            Got::Err(e) => Err(format!("{what} returned {e} instead of a size error")),
        }
    }
    fn check_list(&mut self, l: &B) -> R {
        let db = self.db();
        let want = self.m.lists.get(l).map(|x| x.items.clone()).unwrap_or_default();
        let mut got = vec![];
        for r in db.iter_list(l) { got.push(must!(self, r)); if got.len() > want.len() + 10 { break; } }
        ck!(got == want, "iter_list returned {got:?} instead of {want:?}");
        let mut got = vec![];
        for r in db.iter_list_backwards(l) { got.push(must!(self, r)); if got.len() > want.len() + 10 { break; } }
        got.reverse();
        ck!(got == want, "iter_list_backwards returned (reversed) {got:?} instead of {want:?}");
        let n = must!(self, db.list_len(l));
        ck!(n == want.len(), "list_len returned {n} instead of {}", want.len());
        for (k, v) in &want { let g = must!(self, db.get_from_list(l, k)); ck!(g.as_ref() == Some(v), "get_from_list({}) returned {}", sh(k), sho(&g)); }
        Ok(())
    }
    fn check_queue(&mut self, q: &B) -> R {
        let db = self.db();
        let want: Vec<(usize, B)> = self.m.queues.get(q).map(|x| x.items.iter().map(|(i, v)| (*i as usize, v.clone())).collect()).unwrap_or_default();
        let mut got = vec![];
        for r in db.iter_queue(q) { got.push(must!(self, r)); if got.len() > want.len() + 10 { break; } }
        ck!(got == want, "iter_queue returned {got:?} instead of {want:?}");
        let mut got = vec![];
        for r in db.iter_queue_backwards(q) { got.push(must!(self, r)); if got.len() > want.len() + 10 { break; } }
        got.reverse();
        ck!(got == want, "iter_queue_backwards returned (reversed) {got:?} instead of {want:?}");
        let n = must!(self, db.queue_len(q));
        ck!(n == want.len(), "queue_len returned {n} instead of {}", want.len());
        let rg = must!(self, db.queue_range(q));
        if let (Some(a), Some(b)) = (want.first(), want.last()) { ck!(rg.start <= a.0 && rg.end > b.0, "queue_range {rg:?} does not cover {}..={}", a.0, b.0); }
        Ok(())
    }
    pub fn check_iter(&mut self, stop: usize) -> R {
        let db = self.db();
        db.stats(); // waits for compactions
        let mut all = vec![];
        for r in db.iter() { all.push(must!(self, r)); if all.len() > self.m.plain.len() + 10 { break; } }
        let mut sorted = all.clone();
        sorted.sort();
        let want: Vec<(B, B)> = self.m.plain.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if sorted != want {
            let g: BTreeSet<_> = sorted.iter().cloned().collect();
            let w: BTreeSet<_> = want.iter().cloned().collect();
            return Err(format!("iter returned {} entries instead of {}; missing {:?}, extra {:?}", sorted.len(), want.len(), w.difference(&g).take(2).map(|x| sh(&x.0)).collect::<Vec<_>>(), g.difference(&w).take(2).map(|x| sh(&x.0)).collect::<Vec<_>>()));
        }
        let j = if all.is_empty() { 0 } else { stop % (all.len() + 1) };
        let mut it = db.iter();
        for _ in 0..j { it.next(); }
        if stop % 3 == 0 && j == all.len() { it.next(); }
        let cookie = it.cookie();
        let mut rest = vec![];
        for r in db.iter_from_cookie(cookie) { rest.push(must!(self, r)); if rest.len() > all.len() + 10 { break; } }
        ck!(rest == all[j..], "resuming from the cookie after {j} of {} entries yields {} entries instead of {}", all.len(), rest.len(), all.len() - j);
        Ok(())
    }
    pub fn check_tiling(&mut self) -> R {
        let mut spans = vec![];
        for e in std::fs::read_dir(&self.dir).map_err(|e| e.to_string())? {
            let n = e.map_err(|e| e.to_string())?.file_name().into_string().unwrap();
            if let Some(s) = n.strip_prefix("shard_") {
                let (a, b) = s.split_once('-').unwrap();
                spans.push((u32::from_str_radix(a, 16).unwrap(), u32::from_str_radix(b, 16).unwrap()));
            }
        }
        spans.sort();
        let mut at = 0;
        for (a, b) in &spans { ck!(*a == at && b > a, "shard files {spans:x?} do not tile 0..10000"); at = *b; }
        ck!(at == 0x10000, "shard files {spans:x?} do not cover 0..10000");
        let n = self.db().stats().num_shards;
        ck!(n == spans.len(), "{n} shards but {} shard files", spans.len());
        Ok(())
    }
    pub fn raw_snapshot(&self) -> std::result::Result<BTreeMap<B, B>, String> {
        let db = self.db();
        db.stats();
        let mut m = BTreeMap::new();
        for r in db.iter_raw() {
            let (k, v) = r.map_err(|e| format!("iter_raw: {e}"))?;
            if m.insert(k.clone(), v).is_some() { return Err(format!("iter_raw yields the key {} twice", sh(&k))); }
        }
        Ok(m)
    }
    pub fn check_stats(&mut self) -> R {
        let snap = self.raw_snapshot()?;
        let s = self.db().stats();
        ck!(s.num_entries() == snap.len(), "stats report {} entries, the store has {}", s.num_entries(), snap.len());
        let live: usize = snap.iter().map(|(k, v)| k.len() + v.len()).sum();
        ck!(s.data_bytes() == live, "occupied-wasted is {} bytes, live entries take {live}", s.data_bytes());
        let hist = s.entries_under_128 + s.entries_under_1k + s.entries_under_8k + s.entries_under_32k + s.entries_over_32k;
        ck!(hist == s.num_write_ops, "the size histogram counts {hist} entries, {} were written", s.num_write_ops);
        Ok(())
    }
    pub fn full(&mut self) -> R {
        self.check_iter(3)?;
        let db = self.db();
        for (k, v) in self.m.plain.clone() { let g = must!(self, db.get(&k)); ck!(g.as_ref() == Some(&v), "get({}) returned {} instead of {}", sh(&k), sho(&g), sh(&v)); }
        if self.quick_full { return Ok(()); }
        for l in self.m.lists.keys().cloned().collect::<Vec<_>>() { self.check_list(&l).map_err(|e| format!("list {}: {e}", sh(&l)))?; }
        for q in self.m.queues.keys().cloned().collect::<Vec<_>>() { self.check_queue(&q).map_err(|e| format!("queue {}: {e}", sh(&q)))?; }
        for (k, v) in self.m.big.clone() { let g = must!(self, db.get_big(&k)); ck!(g.as_ref() == Some(&v), "get_big({}) returned {} instead of {}", sh(&k), sho(&g), sh(&v)); }
        self.typed_full()?;
        // every internal entry is accounted for
        let snap = self.raw_snapshot()?;
        let mut lo = self.m.plain.len();
        let mut hi = lo;
        let m = &self.m;
        for l in m.lists.values() { if l.items.is_empty() { hi += (l.tail > l.head) as usize; } else { lo += 1 + 2 * l.items.len(); hi += 1 + 2 * l.items.len(); } }
        for q in m.queues.values() { if q.items.is_empty() { hi += 1; } else { lo += 1 + q.items.len(); hi += 1 + q.items.len(); } }
        for v in m.big.values().chain(m.t_big.values().map(|v| v)) { let n = 1 + (v.len() + 16).div_ceil(MAX_VALUE_SIZE_); hi += n; lo += 1 + v.len().div_ceil(MAX_VALUE_SIZE_); }
        lo += m.t_u32.len() + m.t_i32.len() + m.t_str.len();
        hi += m.t_u32.len() + m.t_i32.len() + m.t_str.len();
        for l in m.t_list.values() { if !l.is_empty() { lo += 1 + 2 * l.len(); } hi += 1 + 2 * l.len(); }
        for (k, q) in m.t_deq.iter() { if !q.is_empty() { lo += 1 + q.len(); } if m.t_deq_touched.contains(k) { hi += 1 + q.len(); } }
        ck!(snap.len() >= lo && snap.len() <= hi, "the store has {} internal entries, expected {lo}..={hi}", snap.len());
        Ok(())
    }

    // ---- typed wrappers -------------------------------------------------------------------------------------
    fn typed(&mut self, kind: u32, k: u32, v: u32) -> R {
        let db = self.db();
        let tu: CandyTypedStore<u32, String> = CandyTypedStore::new(db.clone());
        let ti: CandyTypedStore<i32, String> = CandyTypedStore::new(db.clone());
        let ts: CandyTypedStore<String, Vec<u8>> = CandyTypedStore::new(db.clone());
        let tl: CandyTypedList<u32, String, u64> = CandyTypedList::new(db.clone());
        let td: CandyTypedDeque<String, i64> = CandyTypedDeque::new(db.clone());
        let tb: CandyTypedStore<u64, Vec<u8>> = CandyTypedStore::new(db.clone());
        let sv = format!("val{v}");
        let ik = k as i32;
        let sk = if k % 4 == 0 { String::new() } else { format!("s{}", k % 4) };
        let item = format!("it{}", v % 5);
        macro_rules! eq { ($what:expr, $got:expr, $want:expr) => {{ let g = must!(self, $got); let w = $want; ck!(g == w, "typed {}: got {:?} instead of {:?}", $what, g, w); }} }
        match kind % 43 {
            0 => eq!("set u32", tu.set(&k, sv.as_str()), self.m.t_u32.insert(k, sv.clone())),
            1 => eq!("set i32", ti.set(&ik, sv.as_str()), self.m.t_i32.insert(ik, sv.clone())),
            2 => eq!("set String", ts.set(&sk, &sv.clone().into_bytes()), self.m.t_str.insert(sk.clone(), sv.clone().into_bytes())),
            3 => eq!("get u32", tu.get(&k), self.m.t_u32.get(&k).cloned()),
            4 => eq!("get i32", ti.get(&ik), self.m.t_i32.get(&ik).cloned()),
            5 => eq!("get String", ts.get(&sk), self.m.t_str.get(&sk).cloned()),
            6 => eq!("remove u32", tu.remove(&k), self.m.t_u32.remove(&k)),
            7 => eq!("remove i32", ti.remove(&ik), self.m.t_i32.remove(&ik)),
            8 => eq!("remove String", ts.remove(&sk), self.m.t_str.remove(&sk)),
            9 => eq!("contains u32", tu.contains(&k), self.m.t_u32.contains_key(&k)),
            10 => eq!("contains String", ts.contains(&sk), self.m.t_str.contains_key(&sk)),
            11 => { let cur = self.m.t_u32.get(&k).cloned(); let w = cur.clone(); if cur.is_some() { self.m.t_u32.insert(k, sv.clone()); } eq!("replace u32", tu.replace(&k, sv.as_str(), None), w) }
            12 => { let cur = self.m.t_u32.get(&k).cloned(); let e = cur.clone().unwrap_or("zz".into()); if cur.is_some() { self.m.t_u32.insert(k, sv.clone()); } eq!("replace u32 expected", tu.replace(&k, sv.as_str(), Some(e.as_str())), cur) }
            13 => { let cur = self.m.t_u32.get(&k).cloned(); let e = cur.clone().unwrap_or_default() + "x"; let _ = cur; eq!("replace u32 wrong", tu.replace(&k, sv.as_str(), Some(e.as_str())), None::<String>) }
            14 => { let w = self.m.t_i32.entry(ik).or_insert(sv.clone()).clone(); eq!("get_or_create i32", ti.get_or_create(&ik, sv.as_str()), w) }
            15 => { let w = self.m.t_u32.entry(k).or_insert(sv.clone()).clone(); eq!("get_or_create u32", tu.get_or_create(&k, sv.as_str()), w) }
            16 => { let big = vec![v as u8; (v as usize % 4) * if self.cfg.max_shard > 70_000 { 40000 } else { 700 } + v as usize % 3]; let w = self.m.t_big.insert(k as u64, big.clone()).is_some(); eq!("set_big", tb.set_big(&(k as u64), &big), w) }
            17 => eq!("get_big", tb.get_big(&(k as u64)), self.m.t_big.get(&(k as u64)).cloned()),
            18 => eq!("remove_big", tb.remove_big(&(k as u64)), self.m.t_big.remove(&(k as u64)).is_some()),
            19 | 20 => { let l = self.m.t_list.entry(k).or_default(); let w = match l.iter_mut().find(|x| x.0 == item) { Some(x) => Some(std::mem::replace(&mut x.1, v as u64)), None => { l.push((item.clone(), v as u64)); None } }; eq!("list set", tl.set(&k, &item, &(v as u64)), w) }
            21 => { let l = self.m.t_list.entry(k).or_default(); l.retain(|x| x.0 != item); l.push((item.clone(), v as u64)); eq!("list set_promoting", tl.set_promoting(&k, &item, &(v as u64)), None::<u64>) }
            22 => eq!("list get", tl.get(&k, &item), self.m.t_list.get(&k).and_then(|l| l.iter().find(|x| x.0 == item).map(|x| x.1))),
            23 => eq!("list contains", tl.contains(&k, &item), self.m.t_list.get(&k).is_some_and(|l| l.iter().any(|x| x.0 == item))),
            24 => { let l = self.m.t_list.entry(k).or_default(); let w = match l.iter().find(|x| x.0 == item) { Some(x) => x.1, None => { l.push((item.clone(), v as u64)); v as u64 } }; eq!("list get_or_create", tl.get_or_create(&k, &item, &(v as u64)), w) }
            25 => { let l = self.m.t_list.entry(k).or_default(); let w = l.iter().position(|x| x.0 == item).map(|i| l.remove(i).1); eq!("list remove", tl.remove(&k, &item), w) }
            26 => { let l = self.m.t_list.entry(k).or_default(); let w = l.iter_mut().find(|x| x.0 == item).map(|x| std::mem::replace(&mut x.1, v as u64)); eq!("list replace", tl.replace(&k, &item, &(v as u64), None), w) }
            27 => { let l = self.m.t_list.entry(k).or_default(); let cur = l.iter().find(|x| x.0 == item).map(|x| x.1); let e = cur.unwrap_or(9); let w = l.iter_mut().find(|x| x.0 == item).map(|x| std::mem::replace(&mut x.1, v as u64)); eq!("list replace expected", tl.replace(&k, &item, &(v as u64), Some(&e)), w) }
            28 => { let l = self.m.t_list.entry(k).or_default(); let cur = l.iter().find(|x| x.0 == item).map(|x| x.1); let e = cur.unwrap_or(9) + 1; eq!("list replace wrong", tl.replace(&k, &item, &(v as u64), Some(&e)), None::<u64>) }
            29 => { let l = self.m.t_list.entry(k).or_default(); let w = if l.is_empty() { None } else { Some(l.remove(0)) }; eq!("list pop_head", tl.pop_head(&k), w) }
            30 => { let l = self.m.t_list.entry(k).or_default(); let w = l.pop(); eq!("list pop_tail", tl.pop_tail(&k), w) }
            31 => { let l = self.m.t_list.entry(k).or_default(); eq!("list peek_head", tl.peek_head(&k), l.first().cloned()); eq!("list peek_tail", tl.peek_tail(&k), l.last().cloned()) }
            32 => { let had = self.m.t_list.remove(&k).is_some_and(|l| !l.is_empty()); let r = must!(self, tl.discard(&k)); ck!(r || !had, "typed list discard returned false"); eq!("list len after discard", tl.len(&k), 0usize) }
            33 => { must!(self, tl.compact_if_needed(&k, ListCompactionParams { min_length: 1, min_holes_ratio: 0.1 })); return self.typed_full(); }
            34 | 35 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); self.m.t_deq_touched.insert(sk.clone()); q.push((0, v as i64 - 5)); eq!("deque push_tail", td.push_tail(&sk, &(v as i64 - 5)), ()) }
            36 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); self.m.t_deq_touched.insert(sk.clone()); q.insert(0, (0, v as i64)); eq!("deque push_head", td.push_head(&sk, &(v as i64)), ()) }
            37 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); let w = if q.is_empty() { None } else { Some(q.remove(0).1) }; eq!("deque pop_head", td.pop_head(&sk), w) }
            38 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); let w = q.pop().map(|x| x.1); eq!("deque pop_tail", td.pop_tail(&sk), w) }
            39 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); eq!("deque peek_head", td.peek_head(&sk), q.first().map(|x| x.1)); eq!("deque peek_tail", td.peek_tail(&sk), q.last().map(|x| x.1)); }
            40 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); let a = must!(self, td.peek_head_with_idx(&sk)); let w = if q.is_empty() { None } else { Some(q.remove(0).1) }; let b = must!(self, td.pop_head_with_idx(&sk)); ck!(a == b && b.map(|x| x.1) == w, "typed deque pop_head_with_idx: {a:?} {b:?} {w:?}") }
            41 => { let q = self.m.t_deq.entry(sk.clone()).or_default(); let a = must!(self, td.peek_tail_with_idx(&sk)); let w = q.pop().map(|x| x.1); let b = must!(self, td.pop_tail_with_idx(&sk)); ck!(a == b && b.map(|x| x.1) == w, "typed deque pop_tail_with_idx: {a:?} {b:?} {w:?}") }
            _ => return self.typed_full(),
        }
        Ok(())
    }
    pub fn typed_full(&mut self) -> R {
        let db = self.db();
        let tu: CandyTypedStore<u32, String> = CandyTypedStore::new(db.clone());
        let ti: CandyTypedStore<i32, String> = CandyTypedStore::new(db.clone());
        let ts: CandyTypedStore<String, Vec<u8>> = CandyTypedStore::new(db.clone());
        let tl: CandyTypedList<u32, String, u64> = CandyTypedList::new(db.clone());
        let td: CandyTypedDeque<String, i64> = CandyTypedDeque::new(db.clone());
        for k in 0..8u32 {
            ck!(must!(self, tu.get(&k)) == self.m.t_u32.get(&k).cloned(), "typed u32 key {k} changed");
            ck!(must!(self, ti.get(&(k as i32))) == self.m.t_i32.get(&(k as i32)).cloned(), "typed i32 key {k} changed");
            let want = self.m.t_list.get(&k).cloned().unwrap_or_default();
            let mut got = vec![];
            for r in tl.iter(&k) { got.push(must!(self, r)); }
            ck!(got == want, "typed list {k}: iter yields {got:?} instead of {want:?}");
            got.clear();
            for r in tl.iter_backwards(&k) { got.push(must!(self, r)); }
            got.reverse();
            ck!(got == want, "typed list {k}: iter_backwards yields (reversed) {got:?} instead of {want:?}");
            ck!(must!(self, tl.len(&k)) == want.len(), "typed list {k}: wrong len");
        }
        for k in 0..4u32 {
            let sk = if k == 0 { String::new() } else { format!("s{k}") };
            ck!(must!(self, ts.get(&sk)) == self.m.t_str.get(&sk).cloned(), "typed String key {sk} changed");
            let want: Vec<i64> = self.m.t_deq.get(&sk).map(|x| x.iter().map(|x| x.1).collect()).unwrap_or_default();
            let mut got = vec![];
            for r in td.iter(&sk) { got.push(must!(self, r).1); }
            ck!(got == want, "typed deque {sk}: iter yields {got:?} instead of {want:?}");
            got.clear();
            for r in td.iter_backwards(&sk) { got.push(must!(self, r).1); }
            got.reverse();
            ck!(got == want, "typed deque {sk}: iter_backwards yields (reversed) {got:?} instead of {want:?}");
            ck!(must!(self, td.len(&sk)) == want.len(), "typed deque {sk}: wrong len");
            ck!(must!(self, td.range(&sk)).len() >= want.len(), "typed deque {sk}: wrong range");
        }
        Ok(())
    }
}
fn st(s: &SetStatus) -> String { match s { SetStatus::CreatedNew => "CreatedNew".into(), SetStatus::PrevValue(v) => format!("PrevValue({})", sh(v)) } }

pub const MAX_KEY_SIZE_: usize = 0x3fff - 0xff;
pub const MAX_VALUE_SIZE_: usize = 0xffff - 0xff;

impl MList {
    pub fn get(&self, k: &B) -> Option<B> { self.items.iter().find(|x| x.0 == *k).map(|x| x.1.clone()) }
    pub fn append(&mut self, k: B, v: B) {
        if self.head == self.tail { self.head = 1 << 32; self.tail = 1 << 32; }
        self.items.push((k, v)); self.idx.push(self.tail); self.tail += 1;
    }
    pub fn remove(&mut self, k: &B) -> Option<B> {
        let p = self.items.iter().position(|x| x.0 == *k)?;
        let i = self.idx.remove(p);
        let (_, v) = self.items.remove(p);
        if i == self.head { self.head += 1 } else if i + 1 == self.tail { self.tail -= 1 }
        Some(v)
    }
}
