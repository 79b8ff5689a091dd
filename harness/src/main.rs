//! Bounded stand-in and counterexample search: runs the real crate built from /repo.
//!   candy-harness run PROP --seed N --secs N --out DIR    all scenarios of one property; prints one JSON line
//!   candy-harness replay FILE                             exit 1 if the recorded failure still happens
mod conc;
mod crash;
mod inter;
mod misc;
mod model;
mod proc;
mod seq;
use std::time::{Duration, Instant};

pub struct Outcome { pub evals: u64, pub nontrivial: u64, pub samples: Vec<String>, pub violation: Option<(String, String)>, pub known: Vec<String>, pub rule: Vec<String>, pub exhaustive: bool }
impl Outcome {
    pub fn new() -> Self { Outcome { evals: 0, nontrivial: 0, samples: vec![], violation: None, known: vec![], rule: vec![], exhaustive: false } }
    pub fn add(&mut self, o: Outcome) {
        self.evals += o.evals; self.nontrivial += o.nontrivial;
        for s in o.samples { if self.samples.len() < 6 { self.samples.push(s) } }
        if self.violation.is_none() { self.violation = o.violation; }
        for k in o.known { if !self.known.contains(&k) { self.known.push(k) } }
        for r in o.rule { if !self.rule.contains(&r) { self.rule.push(r) } }
    }
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o.push('"'); o
}
pub struct Env { pub prop: String, pub seed: u64, pub deadline: Instant, pub secs: f64, pub scratch: std::path::PathBuf, pub w: u64, pub nw: u64 }
impl Env { pub fn left(&self) -> bool { Instant::now() < self.deadline } }

fn arg(args: &[String], k: &str, d: &str) -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.into()) }

/// the work of one worker process
fn work(e: &Env) -> Outcome {
    let mut o = Outcome::new();
    let wb = cfg!(feature = "wb");
    if misc::applies(&e.prop) && !wb { o.add(misc::run(e)); }
    if o.violation.is_none() && crash::applies(&e.prop) && !wb { o.add(crash::run(e)); }
    if o.violation.is_none() && conc::applies(&e.prop) { o.add(conc::run(e)); }
    if o.violation.is_none() && seq::applies(&e.prop) { o.add(seq::run(e)); }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scratch_root = || -> std::path::PathBuf {
        for d in ["/dev/shm", "/tmp"] { if std::fs::metadata(d).is_ok() { return d.into() } }
        ".".into()
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            let prop = args[2].clone();
            let secs: f64 = arg(&args, "--secs", "20").parse().unwrap();
            let e = Env { prop, seed: arg(&args, "--seed", "1").parse().unwrap(), deadline: Instant::now() + Duration::from_secs_f64(secs), secs, scratch: arg(&args, "--scratch", "/tmp/x").into(), w: arg(&args, "--w", "0").parse().unwrap(), nw: arg(&args, "--nw", "1").parse().unwrap() };
            std::fs::create_dir_all(&e.scratch).unwrap();
            let o = work(&e);
            let mut f = format!("{} {}\n", o.evals, o.nontrivial);
            for s in &o.samples { f += &format!("S {}\n", s.replace('\n', " ; ")); }
            for s in &o.rule { f += &format!("R {}\n", s.replace('\n', " ; ")); }
            for s in &o.known { f += &format!("K {}\n", s.replace('\n', " ; ")); }
            if let Some((m, r)) = &o.violation { f += &format!("V {}\n{}", m.replace('\n', " ; "), r); }
            std::fs::write(e.scratch.join("result"), f).unwrap();
        }
        Some("run") => {
            let t0 = Instant::now();
            let prop = args[2].clone();
            let secs: f64 = arg(&args, "--secs", "20").parse().unwrap();
            let seed = arg(&args, "--seed", "1");
            let out = arg(&args, "--out", ".");
            let nw: u64 = arg(&args, "--workers", "8").parse().unwrap();
            let root = scratch_root().join(format!("candy-harness-{}", std::process::id()));
            let mut kids = vec![];
            for w in 0..nw {
                let sc = root.join(format!("w{w}"));
                kids.push((sc.clone(), std::process::Command::new("/proc/self/exe").args(["worker", &prop, "--secs", &secs.to_string(), "--seed", &seed, "--scratch", sc.to_str().unwrap(), "--w", &w.to_string(), "--nw", &nw.to_string()]).stderr(std::process::Stdio::null()).stdout(std::process::Stdio::null()).spawn().unwrap()));
            }
            let mut o = Outcome::new();
            for (sc, mut k) in kids {
                let st = k.wait().unwrap();
                let Ok(f) = std::fs::read_to_string(sc.join("result")) else { eprintln!("worker failed: {st}"); std::fs::remove_dir_all(&root).ok(); std::process::exit(3) };
                let mut p = Outcome::new();
                let mut it = f.splitn(2, '\n');
                let mut head = it.next().unwrap().split(' ').map(|x| x.parse::<u64>().unwrap());
                p.evals = head.next().unwrap(); p.nontrivial = head.next().unwrap();
                let mut rest = it.next().unwrap_or("");
                while !rest.is_empty() {
                    let (line, r) = rest.split_once('\n').unwrap_or((rest, ""));
                    rest = r;
                    if let Some(s) = line.strip_prefix("S ") { p.samples.push(s.into()) }
                    else if let Some(s) = line.strip_prefix("R ") { p.rule.push(s.into()) }
                    else if let Some(s) = line.strip_prefix("K ") { p.known.push(s.into()) }
                    else if let Some(s) = line.strip_prefix("V ") { p.violation = Some((s.into(), rest.into())); break }
                }
                o.add(p);
            }
            std::fs::remove_dir_all(&root).ok();
            let mut viol = "null".to_string();
            if let Some((m, r)) = &o.violation {
                std::fs::create_dir_all(&out).ok();
                let p = format!("{out}/{prop}{}.replay", if cfg!(feature = "wb") { "-wb" } else { "" });
                std::fs::write(&p, format!("candy-harness replay v1\nproperty {prop}\nbuild {}\nmessage {m}\n{r}", if cfg!(feature = "wb") { "wb" } else { "std" })).unwrap();
                viol = format!("{{\"message\":{},\"replay\":{}}}", jstr(m), jstr(&p));
            }
            let l = |v: &Vec<String>| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
            println!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"samples\":[{}],\"known\":[{}],\"wall_s\":{:.1},\"violation\":{viol}}}", o.evals, o.nontrivial, jstr(&o.rule.join(" | ")), l(&o.samples), l(&o.known), t0.elapsed().as_secs_f64());
            std::process::exit(if o.violation.is_some() { 1 } else { 0 });
        }
        Some("replay") => {
            let f = std::fs::read_to_string(&args[2]).expect("replay file");
            let mut it = f.splitn(5, '\n');
            it.next();
            let prop = it.next().unwrap().strip_prefix("property ").unwrap().to_string();
            it.next(); it.next();
            let body = it.next().unwrap().to_string();
            let e = Env { prop, seed: 1, deadline: Instant::now() + Duration::from_secs(60), secs: 60.0, scratch: scratch_root().join(format!("candy-harness-{}", std::process::id())), w: 0, nw: 1 };
            std::fs::create_dir_all(&e.scratch).unwrap();
            let kind = body.lines().next().unwrap_or("");
            let r = if kind.starts_with("seq") { seq::replay(&e, &body) } else if kind.starts_with("crash") { crash::replay(&e, &body) } else if kind.starts_with("conc") { conc::replay(&e, &body) } else { misc::replay(&e, &body) };
            std::fs::remove_dir_all(&e.scratch).ok();
            match r { Some(m) => { println!("REPRODUCED: {m}"); std::process::exit(1) } None => println!("not reproduced") }
        }
        _ => { eprintln!("usage: candy-harness run|replay"); std::process::exit(2) }
    }
}
