// Template parsing and the options that direct the transformation.
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::*;

#[derive(Default, Clone)]
pub struct Opts {
    pub thread: HashSet<String>,
    pub bytes: HashSet<String>,
    pub const_fns: HashSet<String>,
    pub methods: HashMap<(String, usize), (String, String)>,
    pub path_renames: Vec<(String, String)>,
    pub types: HashMap<String, String>,
    pub sizes: HashMap<String, usize>,
    pub arr_set: HashMap<String, String>,
    pub with_closure: HashMap<String, (String, Option<String>)>,
    pub guards: HashMap<String, (String, u8, String)>, // method -> (release, bind, acquire method)
    pub flags: HashSet<String>,
    pub known: HashSet<String>, // names that are not to be inlined
}

impl Opts {
    /// (release statement, acquire expression, whether the guard is bound to its name)
    pub fn guard_of(&self, e: &Expr) -> Option<(proc_macro2::TokenStream, Expr, u8)> {
        let Expr::MethodCall(m) = e else { return None };
        // guards may be keyed by "field.method" or "method"
        let recv_last = match &*m.receiver {
            Expr::Field(f) => match &f.member {
                Member::Named(n) => n.to_string(),
                _ => String::new(),
            },
            Expr::Index(ix) => match &*ix.expr {
                Expr::Field(f) => match &f.member {
                    Member::Named(n) => n.to_string(),
                    _ => String::new(),
                },
                Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                _ => String::new(),
            },
            Expr::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            _ => String::new(),
        };
        let k1 = format!("{}.{}", recv_last, m.method);
        let k2 = m.method.to_string();
        let (rel, bind, acq) = self.guards.get(&k1).or_else(|| self.guards.get(&k2))?;
        let recv = &m.receiver;
        let rel: Expr = parse_str(rel).unwrap();
        let mut a = m.clone();
        a.method = Ident::new(acq, proc_macro2::Span::call_site());
        // a release written as a method call on `self`-less function takes the receiver as its first argument
        let rel = match rel {
            Expr::Path(p) if p.path.get_ident().is_some() => quote!(#recv.#p();),
            Expr::Call(c) => quote!(#c;),
            x => x.to_token_stream(),
        };
        Some((rel, Expr::MethodCall(a), *bind))
    }

    /// handles one option directive; false if it isn't one
    pub fn directive(&mut self, d: &str) -> bool {
        let mut w = d.split_whitespace();
        let Some(k) = w.next() else { return true };
        let rest: Vec<&str> = w.collect();
        match k {
            "thread" => self.thread.extend(rest.iter().map(|s| s.to_string())),
            "bytes" => self.bytes.extend(rest.iter().map(|s| s.to_string())),
            "flag" => self.flags.extend(rest.iter().map(|s| s.to_string())),
            "known" => self.known.extend(rest.iter().map(|s| s.to_string())),
            "method" => {
                // NAME/ARGC => FN MODE
                let (n, c) = rest[0].split_once('/').unwrap();
                self.methods.insert(
                    (n.to_string(), c.parse().unwrap()),
                    (rest[2].to_string(), rest.get(3).unwrap_or(&"val").to_string()),
                );
            }
            "rename" => {
                self.path_renames.retain(|x| x.0 != rest[0]);
                self.path_renames.push((rest[0].into(), rest[2].into()))
            }
            "type" => {
                let s = rest.join(" ");
                let (a, b) = s.split_once("=>").unwrap();
                self.types.insert(
                    a.chars().filter(|c| !c.is_whitespace()).collect(),
                    b.trim().to_string(),
                );
            }
            "size" => {
                self.sizes.insert(rest[0].into(), rest[1].parse().unwrap());
            }
            "arrset" => {
                self.arr_set.insert(rest[0].into(), rest[1].into());
            }
            "withclosure" => {
                self.with_closure.insert(rest[0].into(), (rest[1].into(), rest.get(2).map(|s| s.to_string())));
            }
            "guard" => {
                // guard KEY acquire ACQ release REL [bind|pass]: the guard is a variable; it is passed to REL
                self.guards.insert(
                    rest[0].into(),
                    (rest[4].into(), match rest.get(5) { Some(&"bind") => 1, Some(&"pass") => 2, _ => 0 }, rest[2].into()),
                );
            }
            _ => return false,
        }
        true
    }
}

#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub world: bool,
    pub assume: bool,
    pub vis: String,
    pub rename: Option<String>,
    pub closure: Option<usize>,
    pub sig: Option<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: String,
    pub loops: HashMap<usize, String>,
    pub ats: Vec<(String, String)>,
    pub nothread: Vec<String>,
    pub lifts: HashMap<usize, String>,
    pub deref: Vec<String>,
    pub lets: HashMap<String, String>,
    pub selfty: Option<String>,
    pub params: HashMap<String, String>, // parameter name -> type
}
