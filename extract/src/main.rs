// vx: mechanical extraction of functions of /repo/src into Verus text, directed by a template with contracts.
//   vx --src DIR --contracts DIR --tmpl FILE --out FILE --report FILE
// exit 0: done; exit 2: something in the source is outside the supported subset (reason on stdout)
mod printer;
mod tmpl;
mod xform;

use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use syn::visit_mut::VisitMut;
use syn::*;
use tmpl::*;
use xform::*;

struct Src {
    files: BTreeMap<String, File>,
}

#[derive(Clone)]
struct Found {
    sig: Signature,
    block: Block,
    generics: Generics, // of the impl
    file: String,
    owner: Option<String>,
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        _ => t.to_token_stream().to_string(),
    }
}

impl Src {
    fn load(dir: &str) -> Res<Self> {
        let mut files = BTreeMap::new();
        for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
            let p = e.map_err(|e| e.to_string())?.path();
            if p.extension().map_or(false, |x| x == "rs") {
                let s = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                let f = parse_file(&s).map_err(|e| format!("{p:?}: {e}"))?;
                files.insert(p.file_name().unwrap().to_string_lossy().to_string(), f);
            }
        }
        Ok(Self { files })
    }
    fn all_fns(&self) -> Vec<(String, Found)> {
        let mut out = vec![];
        for (fname, f) in &self.files {
            for it in &f.items {
                match it {
                    Item::Fn(x) => out.push((
                        x.sig.ident.to_string(),
                        Found {
                            sig: x.sig.clone(),
                            block: (*x.block).clone(),
                            generics: Default::default(),
                            file: fname.clone(),
                            owner: None,
                        },
                    )),
                    Item::Impl(im) => {
                        for ii in &im.items {
                            if let ImplItem::Fn(x) = ii {
                                if x.attrs.iter().any(|a| {
                                    a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("feature")
                                }) {
                                    continue;
                                }
                                out.push((
                                    format!("{}::{}", type_name(&im.self_ty), x.sig.ident),
                                    Found {
                                        sig: x.sig.clone(),
                                        block: x.block.clone(),
                                        generics: im.generics.clone(),
                                        file: fname.clone(),
                                        owner: Some(type_name(&im.self_ty)),
                                    },
                                ));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        out
    }
    // the declared file is a hint only: moving an item to another file is no change of behaviour
    fn find_fn(&self, file: &str, path: &str) -> Res<Found> {
        let v: Vec<Found> = self.all_fns().into_iter().filter(|(p, _)| p == path).map(|x| x.1).collect();
        if let Some(f) = v.iter().find(|f| f.file == file) {
            return Ok(f.clone());
        }
        match v.len() {
            1 => Ok(v[0].clone()),
            n => Err(format!("function {path}: {n} definitions, none in {file}")),
        }
    }
    fn items(&self) -> Vec<(String, Item)> {
        let mut v = vec![];
        for (n, f) in &self.files {
            for i in &f.items {
                v.push((n.clone(), i.clone()));
            }
        }
        v
    }
    fn find_item(&self, file: &str, name: &str, kind: &str) -> Res<Item> {
        let mut c: Vec<(String, Item)> = self
            .items()
            .into_iter()
            .filter(|(_, i)| match (kind, i) {
                ("struct", Item::Struct(s)) => s.ident == name,
                ("enum", Item::Enum(s)) => s.ident == name,
                ("const", Item::Const(s)) => s.ident == name,
                ("type", Item::Type(s)) => s.ident == name,
                _ => false,
            })
            .collect();
        if let Some(p) = c.iter().position(|(f, _)| f == file) {
            return Ok(c.remove(p).1);
        }
        if c.len() == 1 {
            return Ok(c.remove(0).1);
        }
        Err(format!("{kind} {name} not found ({} candidates)", c.len()))
    }
    fn find_assoc_const(&self, path: &str) -> Res<(Type, Expr)> {
        let (ty, name) = path.split_once("::").unwrap();
        for (_, i) in self.items() {
            if let Item::Impl(im) = i {
                if type_name(&im.self_ty) == ty {
                    for ii in &im.items {
                        if let ImplItem::Const(c) = ii {
                            if c.ident == name {
                                return Ok((c.ty.clone(), c.expr.clone()));
                            }
                        }
                    }
                }
            }
        }
        Err(format!("const {path} not found"))
    }
}

// ---------------------------------------------------------------- inlining of unknown helpers
struct Inliner<'a> {
    src: &'a Src,
    o: &'a Opts,
    fns: &'a HashMap<String, Vec<Found>>,
    depth: usize,
    pub inlined: Vec<String>,
    pub err: Option<String>,
    n: usize,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Ctx {
    Plain,
    Try,
    Tail,
}
fn exits(b: &Block) -> (bool, bool) {
    // (has `?` or return Err / bail / ensure, has any other return)
    struct V(bool, bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
            let is_err = match &r.expr {
                Some(e) => call_name(e).as_deref() == Some("Err"),
                None => false,
            };
            if is_err {
                self.0 = true
            } else {
                self.1 = true
            }
            visit::visit_expr_return(self, r);
        }
        fn visit_expr_try(&mut self, t: &'ast ExprTry) {
            self.0 = true;
            visit::visit_expr_try(self, t);
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            let n = m.path.segments.last().unwrap().ident.to_string();
            if n == "ensure" || n == "bail" {
                self.0 = true;
            }
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false, false);
    visit::Visit::visit_block(&mut v, b);
    (v.0, v.1)
}
impl Inliner<'_> {
    fn candidate(&self, e: &Expr) -> Option<(String, Found, Vec<Expr>)> {
        let (name, recv, mut args, qual) = match e {
            Expr::MethodCall(m) => (
                m.method.to_string(),
                Some((*m.receiver).clone()),
                m.args.iter().cloned().collect::<Vec<_>>(),
                None,
            ),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let n = p.path.segments.len();
                    let q = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
                    (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect(), q)
                }
                _ => return None,
            },
            _ => return None,
        };
        if self.o.known.contains(&name) || self.o.thread.contains(&name) {
            return None;
        }
        let c = self.fns.get(&name)?;
        if let Some(q) = &qual {
            // a path call must name a type of this crate, or Self
            if q != "Self" && !c.iter().any(|f| f.owner.as_deref() == Some(q)) {
                return None;
            }
        }
        if c.len() != 1 {
            return None;
        }
        let f = c[0].clone();
        match (&recv, f.sig.receiver().is_some()) {
            (Some(r), true) => {
                // only helpers on `self`
                if r.to_token_stream().to_string() != "self" {
                    return None;
                }
            }
            (None, true) => {
                if args.first().map(|a| a.to_token_stream().to_string()) != Some("self".into()) {
                    return None;
                }
                args.remove(0);
            }
            (Some(_), false) => return None,
            (None, false) => {}
        }
        Some((name, f, args))
    }
    fn expand(&mut self, name: &str, f: &Found, args: &[Expr], ctx: Ctx) -> Option<Expr> {
        if self.depth > 4 {
            self.err.get_or_insert(format!("inlining of {name} too deep"));
            return None;
        }
        let mut b = f.block.clone();
        Strip.visit_block_mut(&mut b);
        let (q, r) = exits(&b);
        // generic helpers other than over lifetimes / AsRef are left alone
        let mut tail_ok_unwrap = false;
        match ctx {
            Ctx::Plain if q || r => {
                self.err.get_or_insert(format!("helper {name} with early exits"));
                return None;
            }
            Ctx::Try => {
                if r {
                    self.err.get_or_insert(format!("helper {name} with early returns"));
                    return None;
                }
                tail_ok_unwrap = true;
            }
            _ => {}
        }
        self.inlined.push(name.to_string());
        self.depth += 1;
        // nested helpers
        self.block(&mut b, ctx == Ctx::Tail || ctx == Ctx::Try);
        self.depth -= 1;
        self.n += 1;
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut k = 0;
        for i in &f.sig.inputs {
            if let FnArg::Typed(t) = i {
                if k >= args.len() {
                    return None;
                }
                let tmp = ident(&format!("__a{}_{}", self.n, k));
                let a = &args[k];
                let p = &t.pat;
                pre.extend(ps(quote!(let #tmp = #a;)));
                post.extend(ps(quote!(let #p = #tmp;)));
                k += 1;
            }
        }
        if k != args.len() {
            return None;
        }
        let mut stmts = pre;
        stmts.extend(post);
        let body = std::mem::take(&mut b.stmts);
        if tail_ok_unwrap {
            let mut body = body;
            let tail = body.pop();
            match tail {
                Some(Stmt::Expr(Expr::Call(c), None)) if call_name(&Expr::Call(c.clone())).as_deref() == Some("Ok") => {
                    let x = c.args[0].clone();
                    stmts.extend(body);
                    stmts.push(Stmt::Expr(x, None));
                }
                Some(Stmt::Expr(e, None)) => {
                    stmts.extend(body);
                    stmts.push(Stmt::Expr(pe(quote!(#e?)), None));
                }
                _ => {
                    self.err.get_or_insert(format!("helper {name}: unsupported tail"));
                    return None;
                }
            }
        } else {
            stmts.extend(body);
        }
        let blk = Block { brace_token: Default::default(), stmts };
        Some(pe(quote!(#blk)))
    }
    fn block(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            match s {
                Stmt::Expr(e, None) if i == n - 1 && tail => self.expr(e, Ctx::Tail),
                Stmt::Expr(e, _) => self.expr(e, Ctx::Plain),
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        self.expr(&mut i.expr, Ctx::Plain);
                        if let Some((_, d)) = &mut i.diverge {
                            self.expr(d, Ctx::Plain);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn expr(&mut self, e: &mut Expr, ctx: Ctx) {
        match e {
            Expr::Try(t) => {
                if let Some((name, f, mut args)) = self.candidate(&t.expr) {
                    for a in args.iter_mut() {
                        self.expr(a, Ctx::Plain);
                    }
                    if let Some(x) = self.expand(&name, &f, &args, Ctx::Try) {
                        *e = pe(quote!((#x)));
                    }
                    return;
                }
                self.expr(&mut t.expr, Ctx::Plain);
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    if let Some((name, f, mut args)) = self.candidate(x) {
                        for a in args.iter_mut() {
                            self.expr(a, Ctx::Plain);
                        }
                        if let Some(y) = self.expand(&name, &f, &args, Ctx::Tail) {
                            **x = y;
                        }
                        return;
                    }
                    self.expr(x, Ctx::Plain);
                }
            }
            Expr::MethodCall(_) | Expr::Call(_) => {
                if let Some((name, f, mut args)) = self.candidate(e) {
                    for a in args.iter_mut() {
                        self.expr(a, Ctx::Plain);
                    }
                    if let Some(x) = self.expand(&name, &f, &args, ctx) {
                        *e = if ctx == Ctx::Tail { x } else { pe(quote!((#x))) };
                    }
                    return;
                }
                self.generic(e);
            }
            Expr::Block(b) => self.block(&mut b.block, ctx == Ctx::Tail),
            Expr::If(i) => {
                self.expr(&mut i.cond, Ctx::Plain);
                self.block(&mut i.then_branch, ctx == Ctx::Tail);
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr(x, ctx);
                }
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr, Ctx::Plain);
                for a in m.arms.iter_mut() {
                    self.expr(&mut a.body, ctx);
                }
            }
            _ => self.generic(e),
        }
    }
    fn generic(&mut self, e: &mut Expr) {
        struct G<'a, 'b>(&'a mut Inliner<'b>);
        impl VisitMut for G<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                self.0.expr(e, Ctx::Plain);
            }
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.0.block(b, false);
            }
        }
        let mut g = G(self);
        visit_mut::visit_expr_mut(&mut g, e);
    }
}

// ---------------------------------------------------------------- emission
struct FnReport {
    name: String,
    src: String,
    from: usize,
    to: usize,
    assumed: bool,
    loops: Vec<String>,
    loops_expected: usize,
    lost: Vec<String>,
    inlined: Vec<String>,
}

struct Ctxt {
    src: Src,
    fns: HashMap<String, Vec<Found>>,
    o: Opts,
    snippets: Vec<String>,
    contracts: HashMap<String, String>,
    out: String,
    report: Vec<FnReport>,
    unsupported: Vec<String>,
    extracted: Vec<String>,
    undecided: Vec<(String, String)>,
    vacuity: bool,
}

fn fields_text(v: &[Field], o: &Opts, named: bool) -> String {
    let mut s = String::new();
    for f in v {
        let mut t = f.ty.clone();
        TypePass { o, asref: HashSet::new() }.visit_type_mut(&mut t);
        if named {
            s += &format!("pub {}: {}, ", f.ident.as_ref().unwrap(), t.to_token_stream());
        } else {
            s += &format!("pub {}, ", t.to_token_stream());
        }
    }
    s
}

impl Ctxt {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    fn eval_bytes(&self, e: &Expr) -> Option<Vec<u8>> {
        match e {
            Expr::Reference(r) => self.eval_bytes(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.eval_bytes(&u.expr),
            Expr::Array(a) => a
                .elems
                .iter()
                .map(|x| match x {
                    Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u8>().ok(),
                    Expr::Path(p) => {
                        let n = p.path.segments.last()?.ident.to_string();
                        match self.src.find_item("", &n, "const") {
                            Ok(Item::Const(c)) => match &*c.expr {
                                Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<u8>().ok(),
                                _ => None,
                            },
                            _ => None,
                        }
                    }
                    _ => None,
                })
                .collect(),
            Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) => Some(b.value()),
            _ => None,
        }
    }

    fn emit_const(&mut self, file: &str, path: &str) -> Res<()> {
        if path.contains("::") {
            let (ty, e) = self.src.find_assoc_const(path)?;
            let name = path.split("::").last().unwrap();
            let mut e = e;
            self.pure_expr(&mut e)?;
            let mut t = ty.clone();
            TypePass { o: &self.o, asref: HashSet::new() }.visit_type_mut(&mut t);
            self.out += &format!("pub const {}: {} = {};\n", name, t.to_token_stream(), e.to_token_stream());
        } else {
            let Item::Const(c) = self.src.find_item(file, path, "const")? else { unreachable!() };
            if let Some(b) = self.eval_bytes(&c.expr) {
                let lits: Vec<String> = b.iter().map(|x| format!("{x}u8")).collect();
                self.out += &format!(
                    "pub open spec fn {path}_spec() -> Seq<u8> {{ seq![{}] }}\n#[verifier::external_body]\npub fn {path}() -> (r: &'static [u8]) ensures r@ == {path}_spec(), r@.len() == {} {{ unimplemented!() }}\n",
                    lits.join(", "),
                    b.len()
                );
                self.o.const_fns.insert(path.to_string());
            } else {
                let mut e = (*c.expr).clone();
                self.pure_expr(&mut e)?;
                let mut t = (*c.ty).clone();
                TypePass { o: &self.o, asref: HashSet::new() }.visit_type_mut(&mut t);
                self.out += &format!("pub const {}: {} = {};\n", path, t.to_token_stream(), e.to_token_stream());
            }
        }
        self.extracted.push(format!("const {path}"));
        Ok(())
    }
    fn pure_expr(&mut self, e: &mut Expr) -> Res<()> {
        let mut p = ExprPass { o: &self.o, err: None, ptrs: vec![] };
        p.visit_expr_mut(e);
        p.err.map_or(Ok(()), Err)
    }

    fn emit_struct(&mut self, file: &str, name: &str, opts: &[&str]) -> Res<()> {
        let Item::Struct(s) = self.src.find_item(file, name, "struct")? else { unreachable!() };
        let v = strip_fields(&s.fields);
        let drop: HashSet<&str> = opts.iter().filter_map(|o| o.strip_prefix("drop=")).flat_map(|s| s.split(',')).collect();
        let v: Vec<Field> = v
            .into_iter()
            .filter(|f| f.ident.as_ref().map_or(true, |i| !drop.contains(i.to_string().as_str())))
            .collect();
        let derive: Vec<&str> = opts.iter().filter_map(|o| o.strip_prefix("derive=")).collect();
        if !derive.is_empty() {
            self.out += &format!("#[derive({})]\n", derive.join(","));
        }
        let mut g = s.generics.clone();
        g.where_clause = None;
        let named = matches!(s.fields, Fields::Named(_));
        let mut fields = fields_text(&v, &self.o, named);
        // a ghost field
        for g in opts.iter().filter_map(|o| o.strip_prefix("ghost=")) {
            let (n, t) = g.split_once(':').ok_or("ghost=NAME:TYPE")?;
            fields += &format!("pub {n}: Ghost<{t}>");
        }
        if named {
            self.out += &format!("pub struct {}{} {{ {} }}\n", name, g.to_token_stream(), fields);
        } else {
            self.out += &format!("pub struct {}{} ({});\n", name, g.to_token_stream(), fields);
        }
        self.extracted.push(format!("struct {name}"));
        if opts.contains(&"pod") {
            // the byte encoding of a #[repr(C)] struct whose fields leave no padding: the fields' encodings in order
            let repr: String = s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
            if !repr.contains("repr") {
                return Err(format!("struct {name} is Pod without a repr"));
            }
            let packed = repr.contains("packed") || repr.contains("transparent");
            let mut total = 0;
            let mut parts = vec![];
            for (i, f) in v.iter().enumerate() {
                let t: String = f.ty.to_token_stream().to_string().replace(' ', "");
                let sz = *self.o.sizes.get(&t).ok_or(format!("size of {t} in {name}"))?;
                if !packed && total % sz.min(8) != 0 {
                    return Err(format!("struct {name} has padding"));
                }
                total += sz;
                parts.push(match &f.ident {
                    Some(n) => format!("self.{n}.enc()"),
                    None => format!("self.{i}.enc()"),
                });
            }
            self.o.sizes.insert(name.to_string(), total);
            self.out += &format!(
                "impl Pod for {name} {{ open spec fn enc(self) -> Seq<u8> {{ {} }} open spec fn enc_len() -> nat {{ {total} }} }}\n",
                parts.join(" + ")
            );
        }
        Ok(())
    }
    fn emit_enum(&mut self, file: &str, name: &str, opts: &[&str]) -> Res<()> {
        let Item::Enum(s) = self.src.find_item(file, name, "enum")? else { unreachable!() };
        let derive: Vec<&str> = opts.iter().filter_map(|o| o.strip_prefix("derive=")).collect();
        if !derive.is_empty() {
            self.out += &format!("#[derive({})]\n", derive.join(","));
        }
        let g = s.generics.clone();
        self.out += &format!("pub enum {}{} {{ ", name, g.to_token_stream());
        for v in &s.variants {
            let mut v = v.clone();
            v.attrs.clear();
            for f in v.fields.iter_mut() {
                f.attrs.clear();
                TypePass { o: &self.o, asref: HashSet::new() }.visit_type_mut(&mut f.ty);
            }
            self.out += &format!("{}, ", v.to_token_stream());
        }
        self.out += "}\n";
        self.extracted.push(format!("enum {name}"));
        Ok(())
    }

    fn snip(&mut self, s: &str) -> usize {
        self.snippets.push(s.trim_end().to_string());
        self.snippets.len() - 1
    }

    fn emit_fn(&mut self, f: &FnSpec) -> Res<()> {
        let found = self.src.find_fn(&f.file, &f.path)?;
        let mut sig = found.sig.clone();
        let mut block = found.block.clone();
        Strip.visit_block_mut(&mut block);
        if let Some(n) = f.closure {
            struct C(usize, Option<ExprClosure>, usize);
            impl<'ast> visit::Visit<'ast> for C {
                fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
                    if self.0 == self.2 {
                        self.1 = Some(c.clone());
                    }
                    self.0 += 1;
                    visit::visit_expr_closure(self, c);
                }
            }
            let mut c = C(0, None, n);
            visit::Visit::visit_block(&mut c, &block);
            let c = c.1.ok_or(format!("{}: no closure {n}", f.path))?;
            let body = &c.body;
            block = match &**body {
                Expr::Block(b) => b.block.clone(),
                e => parse2(quote!({ #e })).unwrap(),
            };
        }
        if let Some(s) = &f.sig {
            sig = parse_str::<Signature>(s).map_err(|e| format!("sig of {}: {e}", f.path))?;
        }

        let mut lost = vec![];
        let mut loops = vec![];
        let mut inlined = vec![];
        if !f.assume {
            // lifted closures
            if !f.lifts.is_empty() {
                let mut m = HashMap::new();
                for (k, v) in &f.lifts {
                    m.insert(*k, parse_str::<Expr>(v).map_err(|e| format!("lift of {}: {e}", f.path))?);
                }
                LiftPass { lifts: &m, n: 0 }.visit_block_mut(&mut block);
            }
            // helpers without a contract
            let mut inl = Inliner { src: &self.src, o: &self.o, fns: &self.fns, depth: 0, inlined: vec![], err: None, n: 0 };
            inl.block(&mut block, true);
            let _ = inl.src;
            if let Some(e) = inl.err {
                return Err(format!("{}: {e}", f.path));
            }
            inlined = inl.inlined;

            // anchors
            let mut anchors: Vec<Anchor> = vec![];
            let mut start = None;
            let mut release = None;
            let mut exit = None;
            let mut lp = LoopMaps::default();
            for (at, text) in &f.ats {
                let w: Vec<&str> = at.split_whitespace().collect();
                let id = {
                    let t = self.expand_spec(text)?;
                    self.snip(&t)
                };
                match w[0] {
                    "start" => start = Some(id),
                    "release" => release = Some(id),
                    "exit" => exit = Some(id),
                    "loop" => {
                        let n: usize = w[1].parse().unwrap();
                        match w[2] {
                            "start" => lp.start.insert(n, id),
                            "end" => lp.end.insert(n, id),
                            "after" => lp.after.insert(n, id),
                            "before" => lp.before.insert(n, id),
                            x => return Err(format!("at loop {x}")),
                        };
                    }
                    k @ ("after" | "before") => {
                        let nth = w.iter().find_map(|x| x.strip_prefix('#')).map_or(1, |x| x.parse().unwrap_or(0));
                        anchors.push(Anchor { kind: k.into(), what: w[1].into(), name: w[2].into(), nth, id, hit: false });
                    }
                    x => return Err(format!("at {x}")),
                }
            }
            {
                let mut p = AnchorPass { anchors: &mut anchors, counts: HashMap::new(), tmp: 0 };
                p.visit_block_mut(&mut block);
            }
            for a in &anchors {
                if !a.hit && a.nth != 0 {
                    lost.push(format!("{} {} {} #{}", a.kind, a.what, a.name, a.nth));
                }
            }

            let mut p = MacroPass { o: &self.o, err: None };
            p.visit_block_mut(&mut block);
            if let Some(e) = p.err {
                return Err(format!("{}: {e}", f.path));
            }
            TempPass.visit_block_mut(&mut block);
            let mut p = ClosurePass { o: &self.o, err: None };
            p.visit_block_mut(&mut block);
            if let Some(e) = p.err {
                return Err(format!("{}: {e}", f.path));
            }
            for (n, t) in &f.loops {
                let t = self.expand_spec(t)?;
                let id = self.snip(&t);
                lp.inv.insert(*n, id);
            }
            let mut p = LoopPass {
                o: &self.o,
                n: 0,
                inv: lp.inv,
                start: lp.start,
                end: lp.end,
                after: lp.after,
                before: lp.before,
                err: None,
                kinds: vec![],
            };
            p.visit_block_mut(&mut block);
            if let Some(e) = p.err {
                return Err(format!("{}: {e}", f.path));
            }
            loops = p.kinds;
            if self.vacuity {
                // every exit must be unprovable: `assert(false)` is expected to fail at one of them at least
                let t = format!("{}\nassert(false);", exit.map_or("", |id: usize| self.snippets[id].as_str()));
                exit = Some(self.snip(&t));
            }
            let mut p = GuardPass { o: &self.o, err: None, n: 0, proof: release };
            p.visit_block_mut(&mut block);
            if let Some(id) = exit {
                let mut x = ExitRewrite { rel: &proof_stmt(id), n: &mut p.n };
                x.wrap(&mut block);
            }
            if let Some(e) = p.err {
                return Err(format!("{}: {e}", f.path));
            }
            let mut p = ExprPass { o: &self.o, err: None, ptrs: f.deref.clone() };
            p.visit_block_mut(&mut block);
            if let Some(e) = p.err {
                return Err(format!("{}: {e}", f.path));
            }
            if !f.lets.is_empty() {
                struct L<'a>(&'a HashMap<String, String>);
                impl VisitMut for L<'_> {
                    fn visit_local_mut(&mut self, l: &mut Local) {
                        visit_mut::visit_local_mut(self, l);
                        if let Pat::Ident(i) = &l.pat {
                            if let Some(t) = self.0.get(&i.ident.to_string()) {
                                let t: Type = parse_str(t).unwrap();
                                let p = &l.pat;
                                l.pat = Pat::Type(parse2::<Local_>(quote!(let #p: #t;)).unwrap().0);
                            }
                        }
                    }
                }
                L(&f.lets).visit_block_mut(&mut block);
            }
            ThreadPass { o: &self.o, not: &f.nothread }.visit_block_mut(&mut block);
            if let Some(id) = start {
                let mut v = proof_stmt(id);
                v.append(&mut block.stmts);
                block.stmts = v;
            }
        }

        // signature
        let mut asref = HashSet::new();
        let mut generics: Vec<String> = vec![];
        for g in &sig.generics.params {
            match g {
                GenericParam::Type(t) => {
                    let b = t.bounds.to_token_stream().to_string().replace(' ', "");
                    if b.contains("AsRef<[u8]>") {
                        asref.insert(t.ident.to_string());
                    } else {
                        generics.push(t.to_token_stream().to_string());
                    }
                }
                g => generics.push(g.to_token_stream().to_string()),
            }
        }
        let _ = &found.generics;
        let mut tp = TypePass { o: &self.o, asref };
        tp.visit_block_mut(&mut block);
        let mut params: Vec<String> = vec![];
        for i in sig.inputs.iter_mut() {
            match i {
                FnArg::Receiver(r) => match &f.selfty {
                    Some(t) => params.push(t.clone()),
                    None => params.push(r.to_token_stream().to_string()),
                },
                FnArg::Typed(t) => {
                    tp.visit_type_mut(&mut t.ty);
                    let name = t.pat.to_token_stream().to_string();
                    let bare = name.trim_start_matches("mut ").to_string();
                    match f.params.get(&bare) {
                        Some(ty) if ty == "-" => {}
                        Some(ty) => params.push(format!("{name}: {ty}")),
                        None => params.push(format!("{}: {}", name, t.ty.to_token_stream())),
                    }
                }
            }
        }
        if f.world {
            params.push("Tracked(w): Tracked<&mut World>".into());
        }
        let ret = match &mut sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => {
                tp.visit_type_mut(t);
                match &f.ret {
                    Some(r) => format!(" -> ({}: {})", r, t.to_token_stream()),
                    None => format!(" -> {}", t.to_token_stream()),
                }
            }
        };
        let name = f.rename.clone().unwrap_or(sig.ident.to_string());
        let g = if generics.is_empty() { String::new() } else { format!("<{}>", generics.join(", ")) };
        let mut text = String::new();
        if !f.attrs.is_empty() {
            text += &f.attrs;
        }
        if f.assume {
            text += "#[verifier::external_body]\n";
        }
        text += &format!("{} fn {}{}({}){}\n", f.vis, name, g, params.join(", "), ret);
        text += &self.expand_spec(&f.spec)?;
        let from = self.line();
        if f.assume {
            text += "{ unimplemented!() }\n";
        } else {
            let p = printer::Printer::new(&self.snippets);
            let b = p.print(block.to_token_stream());
            text += b.trim_start();
            text += "\n";
        }
        self.out += &text;
        let to = self.line();
        self.report.push(FnReport {
            name: format!("{}{}", f.path, f.closure.map_or(String::new(), |c| format!("/closure{c}"))),
            src: found.file.clone(),
            from,
            to,
            assumed: f.assume,
            loops,
            loops_expected: f.loops.len(),
            lost,
            inlined,
        });
        Ok(())
    }

    fn expand_spec(&self, s: &str) -> Res<String> {
        let mut out = String::new();
        for l in s.lines() {
            if let Some(n) = l.trim().strip_prefix("@use ") {
                out += &self.expand_spec(self.contracts.get(n.trim()).ok_or(format!("contract {n}"))?)?;
            } else {
                out += l;
                out += "\n";
            }
        }
        Ok(out)
    }
}
struct Local_(PatType);
impl syn::parse::Parse for Local_ {
    fn parse(input: syn::parse::ParseStream) -> Result<Self> {
        match input.parse::<Stmt>()? {
            Stmt::Local(Local { pat: Pat::Type(p), .. }) => Ok(Local_(p)),
            _ => Err(input.error("let")),
        }
    }
}
#[derive(Default)]
struct LoopMaps {
    inv: HashMap<usize, usize>,
    start: HashMap<usize, usize>,
    end: HashMap<usize, usize>,
    after: HashMap<usize, usize>,
    before: HashMap<usize, usize>,
}

fn include(dir: &PathBuf, file: &str, out: &mut Vec<String>) -> Res<()> {
    let s = std::fs::read_to_string(dir.join(file)).map_err(|e| format!("{file}: {e}"))?;
    for l in s.lines() {
        if let Some(f) = l.trim().strip_prefix("//@include ") {
            include(dir, f.trim(), out)?;
        } else {
            out.push(l.to_string());
        }
    }
    Ok(())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += " ",
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jsv(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn parse_fn_header(rest: &str) -> Res<FnSpec> {
    let mut f = FnSpec { vis: "pub".into(), ..Default::default() };
    let mut w = rest.split_whitespace();
    f.file = w.next().ok_or("fn: file")?.into();
    f.path = w.next().ok_or("fn: path")?.into();
    while let Some(x) = w.next() {
        match x {
            "world" => f.world = true,
            "assume" => f.assume = true,
            "as" => f.rename = w.next().map(|s| s.into()),
            "closure" => f.closure = w.next().and_then(|s| s.parse().ok()),
            "novis" => f.vis = "".into(),
            x => return Err(format!("fn flag {x}")),
        }
    }
    Ok(f)
}

fn run() -> Res<()> {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Res<String> {
        a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().ok_or(format!("missing {k}"))
    };
    let dir = PathBuf::from(get("--contracts")?);
    let mut lines = vec![];
    include(&dir, &get("--tmpl")?, &mut lines)?;
    let src = Src::load(&get("--src")?)?;
    let mut fns: HashMap<String, Vec<Found>> = HashMap::new();
    for (p, f) in src.all_fns() {
        fns.entry(p.split("::").last().unwrap().to_string()).or_default().push(f);
    }
    let mut cx = Ctxt {
        src,
        fns,
        o: Opts::default(),
        snippets: vec![],
        contracts: HashMap::new(),
        out: String::new(),
        report: vec![],
        unsupported: vec![],
        extracted: vec![],
        undecided: vec![],
        vacuity: a.iter().any(|x| x == "--vacuity"),
    };
    for (t, n) in [("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8), ("usize", 8)] {
        cx.o.sizes.insert(t.into(), n);
    }
    // first pass: option directives, names with contracts or definitions in the template
    let name_of = |l: &str| -> Option<String> {
        let i = l.find("fn ")?;
        if i > 0 && !l[..i].ends_with(' ') {
            return None;
        }
        let r = &l[i + 3..];
        let e = r.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(r.len());
        if e == 0 { None } else { Some(r[..e].to_string()) }
    };
    let mut in_contract: Option<String> = None;
    for l in &lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@") {
            if let Some(n) = d.strip_prefix("contract ") {
                in_contract = Some(n.trim().to_string());
                cx.contracts.insert(n.trim().to_string(), String::new());
                continue;
            }
            if d.starts_with("endcontract") {
                in_contract = None;
                continue;
            }
            if cx.o.directive(d) {
                continue;
            }
            if let Some(r) = d.strip_prefix("fn ") {
                let f = parse_fn_header(r)?;
                let n = f.rename.clone().unwrap_or(f.path.split("::").last().unwrap().to_string());
                if f.world {
                    cx.o.thread.insert(n.clone());
                }
                cx.o.known.insert(n);
            }
        } else if let Some(c) = &in_contract {
            let e = cx.contracts.get_mut(c).unwrap();
            *e += l;
            *e += "\n";
        } else if let Some(n) = name_of(l) {
            cx.o.known.insert(n);
        }
    }
    // second pass
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].clone();
        i += 1;
        let t = l.trim();
        let Some(d) = t.strip_prefix("//@") else {
            cx.out += &l;
            cx.out += "\n";
            continue;
        };
        if d.starts_with("contract ") {
            while i < lines.len() && !lines[i].trim().starts_with("//@endcontract") {
                i += 1;
            }
            i += 1;
            continue;
        }
        let mut scratch = Opts::default();
        if scratch.directive(d) {
            continue;
        }
        let w: Vec<&str> = d.split_whitespace().collect();
        let r = match w[0] {
            "const" => cx.emit_const(w[1], w[2]),
            "struct" => cx.emit_struct(w[1], w[2], &w[3..]),
            "enum" => cx.emit_enum(w[1], w[2], &w[3..]),
            "fn" => {
                let mut f = parse_fn_header(&d[3..])?;
                let mut section = String::from("spec");
                let mut buf = String::new();
                let flush = |f: &mut FnSpec, section: &str, buf: &mut String| {
                    let text = std::mem::take(buf);
                    if let Some(n) = section.strip_prefix("loop ") {
                        f.loops.insert(n.trim().parse().unwrap(), text);
                    } else if let Some(a) = section.strip_prefix("at ") {
                        f.ats.push((a.trim().to_string(), text));
                    } else if section == "spec" {
                        f.spec += &text;
                    }
                };
                let mut done = false;
                while i < lines.len() {
                    let l = lines[i].clone();
                    i += 1;
                    let t = l.trim();
                    if let Some(d) = t.strip_prefix("//@") {
                        let d = d.trim();
                        if d == "end" {
                            flush(&mut f, &section, &mut buf);
                            done = true;
                            break;
                        }
                        let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
                        match k {
                            "ret" => f.ret = Some(rest.trim().into()),
                            "sig" => f.sig = Some(rest.trim().into()),
                            "nothread" => f.nothread.extend(rest.split_whitespace().map(|s| s.to_string())),
                            "attr" => f.attrs += &format!("{}\n", rest.trim()),
                            "let" => {
                                let (a, b) = rest.split_once(':').ok_or("let")?;
                                f.lets.insert(a.trim().into(), b.trim().into());
                            }
                            "deref" => f.deref.extend(rest.split_whitespace().map(|s| s.to_string())),
                            "self" => f.selfty = Some(rest.trim().into()),
                            "param" => {
                                let (a, b) = rest.split_once(':').ok_or("param")?;
                                f.params.insert(a.trim().into(), b.trim().into());
                            }
                            "lift" => {
                                let (n, e) = rest.split_once(' ').ok_or("lift")?;
                                f.lifts.insert(n.parse().map_err(|_| "lift")?, e.to_string());
                            }
                            "spec" | "loop" | "at" => {
                                flush(&mut f, &section, &mut buf);
                                section = d.to_string();
                            }
                            _ => return Err(format!("unknown section {d}")),
                        }
                    } else {
                        buf += &l;
                        buf += "\n";
                    }
                }
                if !done {
                    return Err(format!("{}: no //@end", f.path));
                }
                let sn = cx.snippets.len();
                match cx.emit_fn(&f) {
                    Err(e) if !f.assume => {
                        // outside the subset: nothing is claimed about it here, its callers go on with its contract
                        cx.snippets.truncate(sn);
                        f.assume = true;
                        cx.undecided.push((f.path.clone(), e));
                        cx.emit_fn(&f)
                    }
                    r => r,
                }
            }
            x => return Err(format!("unknown directive {x}")),
        };
        if let Err(e) = r {
            cx.unsupported.push(e);
        }
    }
    std::fs::write(get("--out")?, &cx.out).map_err(|e| e.to_string())?;
    let mut rep = String::from("{\"functions\":[");
    for (k, f) in cx.report.iter().enumerate() {
        if k > 0 {
            rep.push(',');
        }
        rep += &format!(
            "{{\"name\":{},\"file\":{},\"from\":{},\"to\":{},\"assumed\":{},\"loops\":{},\"loops_expected\":{},\"lost\":{},\"inlined\":{}}}\n",
            js(&f.name), js(&f.src), f.from, f.to, f.assumed, jsv(&f.loops), f.loops_expected, jsv(&f.lost), jsv(&f.inlined)
        );
    }
    let und: Vec<String> = cx.undecided.iter().map(|(a, b)| format!("{{\"name\":{},\"reason\":{}}}", js(a), js(b))).collect();
    rep += &format!("],\"items\":{},\"undecided\":[{}],\"unsupported\":{}}}\n", jsv(&cx.extracted), und.join(","), jsv(&cx.unsupported));
    for (a, b) in &cx.undecided {
        println!("undecided: {a}: {b}");
    }
    std::fs::write(get("--report")?, rep).map_err(|e| e.to_string())?;
    if !cx.unsupported.is_empty() {
        println!("unsupported: {}", cx.unsupported.join("; "));
        std::process::exit(2);
    }
    Ok(())
}

fn main() {
    if let Err(e) = run() {
        println!("vx: {e}");
        std::process::exit(2);
    }
}
