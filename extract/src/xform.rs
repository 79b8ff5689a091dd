// The mechanical source-to-source transformation of one function body.
use crate::tmpl::Opts;
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}
pub fn pe(ts: proc_macro2::TokenStream) -> Expr {
    parse2::<Expr>(ts.clone()).unwrap_or_else(|e| panic!("internal: {e}: {ts}"))
}
pub fn ps(ts: proc_macro2::TokenStream) -> Vec<Stmt> {
    Block::parse_within.parse2(ts.clone()).unwrap_or_else(|e| panic!("internal: {e}: {ts}"))
}
use syn::parse::Parser;

pub fn atom(e: &Expr) -> Expr {
    match e {
        Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_)
        | Expr::Index(_) | Expr::Array(_) | Expr::Tuple(_) | Expr::Macro(_) => e.clone(),
        Expr::Group(g) => atom(&g.expr),
        _ => pe(quote!((#e))),
    }
}

// ---------------------------------------------------------------- cfg / attributes
fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = a.meta.to_token_stream().to_string();
        s.contains("feature") || s.contains("cfg (test") || s.contains("cfg(test")
    })
}

pub struct Strip;
impl VisitMut for Strip {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| {
            let at: &[Attribute] = match s {
                Stmt::Local(l) => &l.attrs,
                Stmt::Item(_) => &[],
                Stmt::Expr(e, _) => expr_attrs(e),
                Stmt::Macro(m) => &m.attrs,
            };
            !cfg_off(at)
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, e: &mut ExprStruct) {
        let f: punctuated::Punctuated<FieldValue, Token![,]> =
            e.fields.iter().filter(|f| !cfg_off(&f.attrs)).cloned().collect();
        e.fields = f;
        visit_mut::visit_expr_struct_mut(self, e);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
}
fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Try(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        _ => &[],
    }
}
pub fn strip_fields(f: &Fields) -> Vec<Field> {
    f.iter().filter(|f| !cfg_off(&f.attrs)).cloned().map(|mut f| {
        f.attrs.clear();
        f
    }).collect()
}

// ---------------------------------------------------------------- names
/// the last path segment / method name of a call
pub fn call_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) => match &*c.func {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            _ => None,
        },
        Expr::MethodCall(m) => Some(m.method.to_string()),
        _ => None,
    }
}

// ---------------------------------------------------------------- anchors
// Inserts proof markers. Anchors are counted in source order before any other transformation.
pub struct Anchor {
    pub kind: String, // "after" | "before"
    pub what: String, // "let" | "call" | "assign" | "mac"
    pub name: String,
    pub nth: usize,
    pub id: usize,
    pub hit: bool,
}

struct CallFinder<'a> {
    what: &'a str,
    name: &'a str,
    n: usize,
}
impl<'ast> visit::Visit<'ast> for CallFinder<'_> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        visit::visit_expr(self, e);
        match self.what {
            "call" => {
                if call_name(e).as_deref() == Some(self.name) {
                    self.n += 1;
                }
            }
            "assign" => {
                let lhs = match e {
                    Expr::Assign(a) => Some(&a.left),
                    Expr::Binary(b)
                        if matches!(
                            b.op,
                            BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_)
                        ) =>
                    {
                        Some(&b.left)
                    }
                    _ => None,
                };
                if let Some(l) = lhs {
                    let s: String = l.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                    if s == self.name {
                        self.n += 1;
                    }
                }
            }
            _ => {}
        }
    }
}
fn count_in_stmt_shallow(s: &Stmt, what: &str, name: &str) -> usize {
    use visit::Visit;
    let mut f = CallFinder { what, name, n: 0 };
    f.visit_stmt(s);
    f.n
}

pub struct AnchorPass<'a> {
    pub anchors: &'a mut Vec<Anchor>,
    pub counts: HashMap<(String, String), usize>,
    pub tmp: usize,
}
fn pat_names(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'ast> visit::Visit<'ast> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            self.0.push(i.ident.to_string());
        }
    }
    visit::Visit::visit_pat(&mut V(out), p);
}
fn stmt_has_inner_block(s: &Stmt) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_block(&mut self, _: &'ast Block) {
            self.0 = true;
        }
        fn visit_expr_match(&mut self, _: &'ast ExprMatch) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    // the else block of a let-else does not count
    match s {
        Stmt::Local(l) => {
            if let Some(i) = &l.init {
                visit::Visit::visit_expr(&mut v, &i.expr);
            }
        }
        _ => visit::Visit::visit_stmt(&mut v, s),
    }
    v.0
}

impl AnchorPass<'_> {
    // number of the last event of that kind in this statement, relative to the function
    fn bump(&mut self, what: &str, name: &str, by: usize) -> (usize, usize) {
        let c = self.counts.entry((what.into(), name.into())).or_insert(0);
        let from = *c;
        *c += by;
        (from, *c)
    }
    fn do_block(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        for (i, mut s) in stmts.into_iter().enumerate() {
            let mut before: Vec<usize> = vec![];
            let mut after: Vec<usize> = vec![];
            let complex = stmt_has_inner_block(&s);
            if !complex {
                let keys: HashSet<(String, String)> =
                    self.anchors.iter().map(|a| (a.what.clone(), a.name.clone())).collect();
                for (what, name) in keys {
                    let cnt = if what == "let" {
                        let mut v = vec![];
                        if let Stmt::Local(l) = &s {
                            pat_names(&l.pat, &mut v);
                        }
                        v.iter().filter(|x| **x == name).count()
                    } else if what == "mac" {
                        match &s {
                            Stmt::Macro(m) if m.mac.path.segments.last().unwrap().ident == name => 1,
                            _ => 0,
                        }
                    } else {
                        count_in_stmt_shallow(&s, &what, &name)
                    };
                    if cnt > 0 {
                        let (from, to) = self.bump(&what, &name, cnt);
                        for a in self.anchors.iter_mut() {
                            if a.what == what && a.name == name && (a.nth == 0 || a.nth > from && a.nth <= to) {
                                a.hit = true;
                                if a.kind == "before" {
                                    before.push(a.id)
                                } else {
                                    after.push(a.id)
                                }
                            }
                        }
                    }
                }
                // blocks inside let-else
                if let Stmt::Local(l) = &mut s {
                    if let Some(init) = &mut l.init {
                        if let Some((_, e)) = &mut init.diverge {
                            self.visit_expr_mut(e);
                        }
                    }
                }
            } else {
                if let Stmt::Local(l) = &s {
                    let mut v = vec![];
                    pat_names(&l.pat, &mut v);
                    for nm in v {
                        let (from, to) = self.bump("let", &nm, 1);
                        for a in self.anchors.iter_mut() {
                            if a.what == "let" && a.name == nm && (a.nth == 0 || a.nth > from && a.nth <= to) {
                                a.hit = true;
                                if a.kind == "before" {
                                    before.push(a.id)
                                } else {
                                    after.push(a.id)
                                }
                            }
                        }
                    }
                }
                visit_mut::visit_stmt_mut(self, &mut s);
            }
            before.sort();
            after.sort();
            for id in before {
                out.extend(proof_stmt(id));
            }
            let is_tail = i == n - 1 && matches!(&s, Stmt::Expr(_, None));
            if is_tail && !after.is_empty() {
                if let Stmt::Expr(e, None) = s {
                    self.tmp += 1;
                    let t = ident(&format!("__t{}", self.tmp));
                    out.extend(ps(quote!(let #t = #e;)));
                    for id in after {
                        out.extend(proof_stmt(id));
                    }
                    out.push(Stmt::Expr(pe(quote!(#t)), None));
                }
            } else {
                out.push(s);
                for id in after {
                    out.extend(proof_stmt(id));
                }
            }
        }
        b.stmts = out;
    }
}
impl VisitMut for AnchorPass<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.do_block(b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        // an arm `P => expr,` counts as a block with one tail expression
        if !matches!(&*a.body, Expr::Block(_)) {
            let body = &a.body;
            let mut b: Block = parse2(quote!({ #body })).unwrap();
            let before = b.stmts.len();
            self.do_block(&mut b);
            if b.stmts.len() != before {
                a.body = Box::new(pe(quote!(#b)));
            } else if let Some(Stmt::Expr(e, None)) = b.stmts.pop() {
                a.body = Box::new(e);
            }
        } else {
            visit_mut::visit_arm_mut(self, a);
        }
    }
}

pub fn proof_stmt(id: usize) -> Vec<Stmt> {
    let l = LitInt::new(&id.to_string(), Span::call_site());
    ps(quote!(__proof!(#l);))
}
fn inv_stmt(id: usize) -> Vec<Stmt> {
    let l = LitInt::new(&id.to_string(), Span::call_site());
    ps(quote!(__inv!(#l);))
}

// ---------------------------------------------------------------- macros
fn mac_args(m: &Macro) -> Res<Vec<Expr>> {
    let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    p.parse2(m.tokens.clone()).map(|v| v.into_iter().collect()).map_err(|e| format!("macro args: {e}"))
}

pub struct MacroPass<'a> {
    pub o: &'a Opts,
    pub err: Option<String>,
}
impl MacroPass<'_> {
    fn fail(&mut self, s: String) {
        if self.err.is_none() {
            self.err = Some(s);
        }
    }
    fn errval(&mut self, args: &[Expr]) -> Expr {
        match args.first() {
            Some(Expr::Lit(_)) | None => pe(quote!(other_error())),
            Some(e) => pe(quote!(candy_error(#e))),
        }
    }
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        Some(match name.as_str() {
            "ensure" => {
                let a = mac_args(m).ok()?;
                let c = &a[0];
                let e = self.errval(&a[1..]);
                pe(quote!(if !(#c) { return Err(#e); }))
            }
            "bail" => {
                let a = mac_args(m).ok()?;
                let e = self.errval(&a);
                pe(quote!(return Err(#e)))
            }
            "anyhow" => {
                let a = mac_args(m).ok()?;
                self.errval(&a)
            }
            "assert" | "debug_assert" => {
                let a = mac_args(m).ok()?;
                let c = &a[0];
                pe(quote!(rt_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a = mac_args(m).ok()?;
                let (x, y) = (atom(&a[0]), atom(&a[1]));
                pe(quote!(rt_assert(#x == #y)))
            }
            "unreachable" | "panic" | "todo" | "unimplemented" => pe(quote!(rt_unreachable())),
            "matches" => {
                let f = |i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![,]>()?;
                    let p = Pat::parse_multi_with_leading_vert(i)?;
                    let g: Option<Expr> = if i.peek(Token![if]) {
                        i.parse::<Token![if]>()?;
                        Some(i.parse()?)
                    } else {
                        None
                    };
                    let _: Option<Token![,]> = i.parse()?;
                    Ok((e, p, g))
                };
                let (e, p, g) = f.parse2(m.tokens.clone()).ok()?;
                match g {
                    None => pe(quote!((match #e { #p => true, _ => false }))),
                    Some(g) => pe(quote!((match #e { #p if #g => true, _ => false }))),
                }
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(pe(quote!(Vec::new())));
                }
                let rep = |i: parse::ParseStream| {
                    let e: Expr = i.parse()?;
                    i.parse::<Token![;]>()?;
                    let n: Expr = i.parse()?;
                    Ok((e, n))
                };
                if let Ok((e, n)) = rep.parse2(m.tokens.clone()) {
                    pe(quote!(vec_from_elem(#e, #n)))
                } else {
                    let a = mac_args(m).ok()?;
                    match a.len() {
                        1 => {
                            let x = &a[0];
                            pe(quote!(vec_of1(#x)))
                        }
                        2 => {
                            let (x, y) = (&a[0], &a[1]);
                            pe(quote!(vec_of2(#x, #y)))
                        }
                        _ => return None,
                    }
                }
            }
            "format" => {
                let a = mac_args(m).ok()?;
                let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = a.first() else { return None };
                let s = s.value();
                // a name and two numbers; {NAME:04x} takes a variable
                let mut pre = String::new();
                let mut rest = &s[..];
                let mut nums: Vec<Expr> = vec![];
                let mut odd = false;
                let mut pos = 1;
                while let Some(i) = rest.find('{') {
                    let lit = &rest[..i];
                    if nums.is_empty() { pre = lit.to_string(); } else { odd |= lit != "-"; }
                    let j = rest.find('}')?;
                    let (name, spec) = rest[i + 1..j].split_once(':').unwrap_or((&rest[i + 1..j], ""));
                    odd |= spec != "04x";
                    if name.is_empty() {
                        nums.push(a.get(pos)?.clone());
                        pos += 1;
                    } else {
                        nums.push(parse_str(name).ok()?);
                    }
                    rest = &rest[j + 1..];
                }
                odd |= !rest.is_empty();
                if nums.len() != 2 || pos != a.len() {
                    return None;
                }
                let known = ["shard_", "compact_", "bottom_", "top_", "merge_"].contains(&&pre[..]);
                let f = ident(&if odd || !known { "fname_odd".into() } else { format!("fname_{}", pre.trim_end_matches('_')) });
                let (x, y) = (&nums[0], &nums[1]);
                pe(quote!(#f(#x, #y)))
            }
            _ => return None,
        })
    }
}
impl VisitMut for MacroPass<'_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "__proof" || n == "__inv" {
                return;
            }
            match self.expand(&m.mac) {
                Some(e) => {
                    // a macro in statement position; `panic!()` as a tail keeps its type
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi);
                }
                None => {
                    self.fail(format!("macro {}!", n));
                    return;
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            match self.expand(&m.mac) {
                Some(x) => *e = x,
                None => {
                    self.fail(format!("macro {}!", n));
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- closures given to shared_op & co
pub struct LiftPass<'a> {
    pub lifts: &'a HashMap<usize, Expr>,
    pub n: usize,
}
impl VisitMut for LiftPass<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let i = self.n;
        self.n += 1;
        if let Some(e) = self.lifts.get(&i) {
            c.body = Box::new(e.clone());
            return;
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_expr(&mut v, e);
    v.0
}

pub struct ClosurePass<'a> {
    pub o: &'a Opts,
    pub err: Option<String>,
}
impl VisitMut for ClosurePass<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let clo = match m.args.last() {
                Some(Expr::Closure(c)) => c.clone(),
                _ => return,
            };
            // with_closure NAME => ENTER: `recv.NAME(args, |pats| body)` is inlined as
            // `{ let (pats) = recv.ENTER(args); body }`; EXIT, if any, is called afterwards
            if let Some((enter, exit)) = self.o.with_closure.get(&name) {
                if has_exit(&clo.body) {
                    self.err.get_or_insert(format!("closure of {name} with early exits"));
                    return;
                }
                let recv = &m.receiver;
                let args: Vec<Expr> = m.args.iter().take(m.args.len() - 1).cloned().collect();
                let enter = ident(enter);
                let body = &clo.body;
                let pats: Vec<&Pat> = clo.inputs.iter().collect();
                let pat = if pats.len() == 1 { quote!(#(#pats)*) } else { quote!((#(#pats),*)) };
                let call = quote!(#recv.#enter(#(#args),*));
                *e = if let Some(x) = exit {
                    let x = ident(x);
                    pe(quote!({ let #pat = #call; let __cr = #body; #recv.#x(); __cr }))
                } else {
                    pe(quote!({ let #pat = #call; #body }))
                };
                return;
            }
            let recv = &m.receiver;
            if clo.inputs.len() != 1 || has_exit(&clo.body) {
                return;
            }
            let p = &clo.inputs[0];
            let b = &clo.body;
            match name.as_str() {
                "map" => *e = pe(quote!((match #recv { Some(#p) => Some(#b), None => None }))),
                "is_some_and" => *e = pe(quote!((match #recv { Some(#p) => #b, None => false }))),
                "and_then" => *e = pe(quote!((match #recv { Some(#p) => #b, None => None }))),
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- loops
pub struct LoopPass<'a> {
    pub o: &'a Opts,
    pub n: usize,
    pub inv: HashMap<usize, usize>,
    pub start: HashMap<usize, usize>,
    pub end: HashMap<usize, usize>,
    pub after: HashMap<usize, usize>,
    pub before: HashMap<usize, usize>,
    pub err: Option<String>,
    pub kinds: Vec<String>,
}
impl LoopPass<'_> {
    fn wrap_body(&self, i: usize, b: &mut Block, pre: Vec<Stmt>) {
        let mut v = vec![];
        if let Some(id) = self.inv.get(&i) {
            v.extend(inv_stmt(*id));
        }
        v.extend(pre);
        if let Some(id) = self.start.get(&i) {
            v.extend(proof_stmt(*id));
        }
        v.append(&mut b.stmts);
        if let Some(id) = self.end.get(&i) {
            // a loop body's tail has type ()
            if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
                *semi = Some(Default::default());
            }
            v.extend(proof_stmt(*id));
        }
        b.stmts = v;
    }
}
impl VisitMut for LoopPass<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let i = self.n;
            let is_loop = matches!(
                &s,
                Stmt::Expr(Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_), _)
            );
            visit_mut::visit_stmt_mut(self, &mut s);
            if is_loop {
                if let Some(id) = self.before.get(&i) {
                    b.stmts.extend(proof_stmt(*id));
                }
            }
            b.stmts.push(s);
            if is_loop {
                if let Some(id) = self.after.get(&i) {
                    b.stmts.extend(proof_stmt(*id));
                }
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::While(w) => {
                let i = self.n;
                self.n += 1;
                let label = w.label.clone();
                // names bound by `while let` chains are not supported
                if let Expr::Let(l) = &*w.cond {
                    self.kinds.push("whilelet".into());
                    let (p, x) = (&l.pat, &l.expr);
                    let mut x: Expr = (**x).clone();
                    visit_mut::visit_expr_mut(self, &mut x);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let pre = ps(quote!(let #p = #x else { break; };));
                    self.wrap_body(i, &mut body, pre);
                    *e = pe(quote!(#label loop #body));
                } else {
                    self.kinds.push("while".into());
                    self.visit_block_mut(&mut w.body);
                    let mut b = w.body.clone();
                    self.wrap_body(i, &mut b, vec![]);
                    w.body = b;
                }
            }
            Expr::Loop(l) => {
                let i = self.n;
                self.n += 1;
                self.kinds.push("loop".into());
                self.visit_block_mut(&mut l.body);
                let mut b = l.body.clone();
                self.wrap_body(i, &mut b, vec![]);
                l.body = b;
            }
            Expr::ForLoop(f) => {
                let i = self.n;
                self.n += 1;
                let label = f.label.clone();
                let p = (*f.pat).clone();
                let it = (*f.expr).clone();
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let iv = ident(&format!("__it{i}"));
                if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &it {
                    self.kinds.push("forrange".into());
                    let ev = ident(&format!("__end{i}"));
                    let bind = if matches!(p, Pat::Wild(_)) {
                        quote!()
                    } else {
                        quote!(let #p = #iv;)
                    };
                    let pre = ps(quote!(#bind #iv += 1;));
                    self.wrap_body(i, &mut body, pre);
                    // the types of the bounds agree; take the one that isn't a literal
                    *e = if matches!(**a, Expr::Lit(_)) {
                        pe(quote!({ let #ev = #b; let mut #iv = range_start(#a, #ev); #label while #iv < #ev #body }))
                    } else {
                        pe(quote!({ let mut #iv = #a; let #ev = #b; #label while #iv < #ev #body }))
                    };
                    return;
                }
                // `for (i, &x) in ARR.iter().enumerate()`
                if let Expr::MethodCall(en) = &it {
                    if en.method == "enumerate" && en.args.is_empty() {
                        if let Expr::MethodCall(itr) = &*en.receiver {
                            if itr.method == "iter" && itr.args.is_empty() {
                                if let Pat::Tuple(t) = &p {
                                    if t.elems.len() == 2 {
                                        self.kinds.push("forenum".into());
                                        let arr = &itr.receiver;
                                        let (ip, xp) = (&t.elems[0], &t.elems[1]);
                                        let ev = ident(&format!("__end{i}"));
                                        let bind = match xp {
                                            Pat::Reference(r) => {
                                                let x = &r.pat;
                                                quote!(let #x = #arr[#iv];)
                                            }
                                            x => quote!(let #x = &#arr[#iv];),
                                        };
                                        let pre = ps(quote!(#bind let #ip = #iv; #iv += 1;));
                                        self.wrap_body(i, &mut body, pre);
                                        *e = pe(quote!({ let mut #iv: usize = 0; let #ev: usize = #arr.len(); #label while #iv < #ev #body }));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    // `for x in V.iter()`
                    if en.method == "iter" && en.args.is_empty() {
                        self.kinds.push("foriter".into());
                        let arr = &en.receiver;
                        let ev = ident(&format!("__end{i}"));
                        let bind = match &p {
                            Pat::Reference(r) => {
                                let x = &r.pat;
                                quote!(let #x = #arr[#iv];)
                            }
                            x => quote!(let #x = &#arr[#iv];),
                        };
                        let pre = ps(quote!(#bind #iv += 1;));
                        self.wrap_body(i, &mut body, pre);
                        *e = pe(quote!({ let mut #iv: usize = 0; let #ev: usize = #arr.len(); #label while #iv < #ev #body }));
                        return;
                    }
                }
                // `for x in [A, B]` (of copyable elements)
                if let Expr::Array(arr) = &it {
                    self.kinds.push("forarray".into());
                    let ev = ident(&format!("__end{i}"));
                    let av = ident(&format!("__arr{i}"));
                    let pre = ps(quote!(let #p = #av[#iv]; #iv += 1;));
                    self.wrap_body(i, &mut body, pre);
                    *e = pe(quote!({ let #av = #arr; let mut #iv: usize = 0; let #ev: usize = #av.len(); #label while #iv < #ev #body }));
                    return;
                }
                self.kinds.push("for".into());
                let pre = ps(quote!(let #p = #iv.next() else { break; };));
                // an irrefutable pattern inside Some
                let pre = {
                    let _ = pre;
                    ps(quote!(let Some(#p) = #iv.next() else { break; };))
                };
                self.wrap_body(i, &mut body, pre);
                *e = pe(quote!({ let mut #iv = #it.into_it(); #label loop #body }));
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ---------------------------------------------------------------- lock guards
// `let _guard = <acquire>(..);` releases at the end of its block and at every exit in between.
pub struct GuardPass<'a> {
    pub o: &'a Opts,
    pub err: Option<String>,
    pub n: usize,
    pub proof: Option<usize>,
}
pub struct ExitRewrite<'a> {
    pub rel: &'a [Stmt],
    pub n: &'a mut usize,
}
impl ExitRewrite<'_> {
    // `rel` at every exit of the function body b
    pub fn wrap(&mut self, b: &mut Block) {
        self.visit_block_mut(b);
        let rel = self.rel.to_vec();
        match b.stmts.last() {
            Some(Stmt::Expr(_, None)) => {
                let Some(Stmt::Expr(e, None)) = b.stmts.pop() else { unreachable!() };
                if diverges(&e) {
                    b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                } else {
                    *self.n += 1;
                    let t = ident("__rv");
                    b.stmts.extend(ps(quote!(let #t = #e;)));
                    b.stmts.extend(rel);
                    b.stmts.push(Stmt::Expr(pe(quote!(#t)), None));
                }
            }
            _ => b.stmts.extend(rel),
        }
    }
}
impl VisitMut for ExitRewrite<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Return(r) => {
                let rel = self.rel;
                *self.n += 1;
                let t = ident("__rv");
                *e = match &r.expr {
                    Some(x) => pe(quote!({ let #t = #x; #(#rel)* return #t; })),
                    None => pe(quote!({ #(#rel)* return; })),
                };
            }
            Expr::Try(t) => {
                let x = &t.expr;
                let rel = self.rel;
                *e = pe(quote!((match #x { Ok(__ok) => __ok, Err(__er) => { let __rv = Err(__er); #(#rel)* return __rv; } })));
            }
            _ => {}
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}
impl VisitMut for GuardPass<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let stmts = std::mem::take(&mut b.stmts);
        b.stmts = self.flat(stmts);
    }
}
impl GuardPass<'_> {
    fn flat(&mut self, stmts: Vec<Stmt>) -> Vec<Stmt> {
        let mut out: Vec<Stmt> = vec![];
        let mut it = stmts.into_iter();
        while let Some(s) = it.next() {
            let (acq, named) = match &s {
                Stmt::Local(l) => {
                    let c = l.init.as_ref().and_then(|i| self.o.guard_of(&i.expr));
                    let named = match &l.pat {
                        Pat::Ident(i) => Some(i.ident.to_string()),
                        _ => None,
                    };
                    (c, named)
                }
                Stmt::Expr(e, Some(_)) => (self.o.guard_of(e), None),
                _ => (None, None),
            };
            let Some((release, acquire_expr, bind)) = acq else {
                out.push(s);
                continue;
            };
            let mut rel = self.proof.map_or(vec![], proof_stmt);
            if bind == 2 && named.is_some() {
                let g = ident(named.as_ref().unwrap());
                let Ok(Expr::MethodCall(mut m)) = parse2::<Expr>(release.to_string().trim_end_matches(';').parse().unwrap()) else {
                    self.err.get_or_insert("guard: pass needs a method".into());
                    continue;
                };
                m.args.push(pe(quote!(#g)));
                rel.extend(ps(quote!(#m;)));
            } else {
                rel.extend(ps(release));
            }
            let bind = bind > 0;
            match named {
                None => {
                    // the guard is dropped at once
                    out.extend(ps(quote!(#acquire_expr;)));
                    out.extend(rel);
                }
                Some(gname) => {
                    if bind {
                        let g = ident(&gname);
                        let m = match &s {
                            Stmt::Local(Local { pat: Pat::Ident(i), .. }) => i.mutability,
                            _ => None,
                        };
                        out.extend(ps(quote!(let #m #g = #acquire_expr;)));
                    } else {
                        out.extend(ps(quote!(#acquire_expr;)));
                    }
                    let rest: Vec<Stmt> = it.collect();
                    let mut rest = self.flat(rest);
                    // an explicit drop at the same level ends the region
                    let dpos = rest.iter().position(|s| match s {
                        Stmt::Expr(Expr::Call(c), Some(_)) => {
                            call_name(&Expr::Call(c.clone())).as_deref() == Some("drop")
                                && c.args.len() == 1
                                && c.args[0].to_token_stream().to_string() == gname
                        }
                        _ => false,
                    });
                    let tail = match dpos {
                        Some(p) => {
                            let t = rest.split_off(p + 1);
                            rest.pop();
                            Some(t)
                        }
                        None => None,
                    };
                    let used_elsewhere = !bind
                        && rest.iter().any(|s| {
                            s.to_token_stream().into_iter().any(|t| has_ident(&t, &gname))
                        });
                    if used_elsewhere {
                        self.err.get_or_insert(format!("lock guard {gname} is used"));
                    }
                    {
                        let mut x = ExitRewrite { rel: &rel, n: &mut self.n };
                        for s in rest.iter_mut() {
                            x.visit_stmt_mut(s);
                        }
                        // the guard was acquired in the body of a loop: it is also released at its `continue`s and `break`s
                        let mut x = LoopExits { rel: &rel, bad: false };
                        for s in rest.iter_mut() {
                            x.visit_stmt_mut(s);
                        }
                        if x.bad {
                            self.err.get_or_insert(format!("a labelled break in the scope of lock guard {gname}"));
                        }
                    }
                    match (tail, rest.last()) {
                        (Some(t), _) => {
                            out.extend(rest);
                            out.extend(rel);
                            out.extend(t);
                        }
                        (None, Some(Stmt::Expr(_, None))) => {
                            let Some(Stmt::Expr(e, None)) = rest.pop() else { unreachable!() };
                            self.n += 1;
                            let t = ident(&format!("__r{}", self.n));
                            out.extend(rest);
                            if diverges(&e) {
                                out.push(Stmt::Expr(e, Some(Default::default())));
                            } else {
                                out.extend(ps(quote!(let #t = #e;)));
                                out.extend(rel);
                                out.push(Stmt::Expr(pe(quote!(#t)), None));
                            }
                        }
                        (None, _) => {
                            out.extend(rest);
                            out.extend(rel);
                        }
                    }
                    return out;
                }
            }
        }
        out
    }
}
struct LoopExits<'a> {
    rel: &'a [Stmt],
    bad: bool,
}
impl VisitMut for LoopExits<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            // what is nested in them leaves them only
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {
                struct L(bool);
                impl<'ast> visit::Visit<'ast> for L {
                    fn visit_expr_break(&mut self, b: &'ast ExprBreak) {
                        self.0 |= b.label.as_ref().is_some_and(|l| !l.ident.to_string().starts_with("__"));
                    }
                    fn visit_expr_continue(&mut self, b: &'ast ExprContinue) {
                        self.0 |= b.label.is_some();
                    }
                }
                let mut l = L(false);
                visit::Visit::visit_expr(&mut l, e);
                self.bad |= l.0;
            }
            Expr::Continue(_) => {
                let rel = self.rel;
                let c = e.clone();
                *e = pe(quote!({ #(#rel)* #c; }));
            }
            Expr::Break(b) => {
                let rel = self.rel;
                match b.expr.take() {
                    Some(x) => {
                        let b = b.clone();
                        let l = &b.label;
                        *e = pe(quote!({ let __bv = #x; #(#rel)* break #l __bv; }));
                    }
                    None => {
                        let c = e.clone();
                        *e = pe(quote!({ #(#rel)* #c; }));
                    }
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn diverges(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Loop(l) => {
            struct V(bool);
            impl<'ast> visit::Visit<'ast> for V {
                fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
                    self.0 = true;
                }
            }
            let mut v = V(false);
            visit::Visit::visit_block(&mut v, &l.body);
            !v.0
        }
        Expr::Block(b) => matches!(b.block.stmts.last(), Some(Stmt::Expr(e, _)) if diverges(e)),
        _ => false,
    }
}
fn has_ident(t: &proc_macro2::TokenTree, n: &str) -> bool {
    match t {
        proc_macro2::TokenTree::Ident(i) => i == n,
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().any(|t| has_ident(&t, n)),
        _ => false,
    }
}

// ---------------------------------------------------------------- let x = &mut <temporary>;
pub struct TempPass;
impl VisitMut for TempPass {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(p), Some(i)) = (&mut l.pat, &mut l.init) {
            if let Expr::Reference(r) = &*i.expr {
                let is_tmp = match &*r.expr {
                    Expr::MethodCall(_) | Expr::Call(_) | Expr::Match(_) | Expr::Paren(_) => true,
                    _ => false,
                };
                if r.mutability.is_some() && is_tmp {
                    let x = (*r.expr).clone();
                    p.mutability = Some(Default::default());
                    i.expr = Box::new(x);
                }
            }
        }
    }
}

// ---------------------------------------------------------------- expressions
pub struct ExprPass<'a> {
    pub o: &'a Opts,
    pub err: Option<String>,
    pub ptrs: Vec<String>, // variables to dereference (captures of a lifted closure)
}
impl ExprPass<'_> {
    fn is_bytes(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| self.o.bytes.contains(&i.to_string())),
            Expr::Reference(r) => self.is_bytes(&r.expr),
            Expr::Paren(r) => self.is_bytes(&r.expr),
            Expr::Index(i) => matches!(&*i.index, Expr::Range(_)),
            Expr::Call(_) => matches!(call_name(e).as_deref(), Some("slice_sub" | "slice_from" | "slice_to" | "bytes_of")),
            Expr::Field(f) => {
                let s: String = f.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                self.o.bytes.contains(&s)
            }
            _ => false,
        }
    }
    fn range_call(&self, base: &Expr, r: &ExprRange) -> Option<Expr> {
        let base = match base {
            Expr::Paren(p) => &*p.expr,
            b => b,
        };
        let b = quote!(&#base);
        Some(match (&r.start, &r.end) {
            (Some(a), Some(e)) => pe(quote!(slice_sub(#b, #a, #e))),
            (Some(a), None) => pe(quote!(slice_from(#b, #a))),
            (None, Some(e)) => pe(quote!(slice_to(#b, #e))),
            (None, None) => return None,
        })
    }
}
impl VisitMut for ExprPass<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // before descending: copy_from_slice on a sub-range
        if let Expr::MethodCall(m) = e {
            if m.method == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(ix) = &*m.receiver {
                    if let Expr::Range(r) = &*ix.index {
                        let base = &ix.expr;
                        let a = r.start.as_ref().map(|x| quote!(#x)).unwrap_or(quote!(0));
                        let src = &m.args[0];
                        let n = match &r.end {
                            Some(b) => quote!(copy_into(&mut #base, #a, #b, #src)),
                            None => quote!(copy_into_from(&mut #base, #a, #src)),
                        };
                        *e = pe(n);
                    }
                }
            }
        }
        // [0u8; n] arrays of computed length
        if let Expr::Repeat(r) = e {
            if self.o.flags.contains("repeat_as_vec") {
                let (x, n) = (&r.expr, &r.len);
                *e = pe(quote!(vec_from_elem(#x, #n)));
            }
        }
        if let Expr::Call(c) = e {
            // u64::from_le_bytes(X.try_into().unwrap())
            if call_name(&Expr::Call(c.clone())).as_deref() == Some("from_le_bytes") && c.args.len() == 1 {
                if let Expr::MethodCall(u) = &c.args[0] {
                    if u.method == "unwrap" {
                        if let Expr::MethodCall(t) = &*u.receiver {
                            if t.method == "try_into" {
                                let x = &t.receiver;
                                *e = pe(quote!(u64_from_le_slice(#x)));
                            }
                        }
                    }
                }
            }
        }
        // X.signatures[i] = v
        if let Expr::Assign(a) = e {
            if let Expr::Index(ix) = &*a.left {
                if let Expr::Field(f) = &*ix.expr {
                    if let Member::Named(n) = &f.member {
                        if let Some(setter) = self.o.arr_set.get(&n.to_string()) {
                            let setter = ident(setter);
                            let (base, i, v) = (&f.base, &ix.index, &a.right);
                            *e = pe(quote!(#base.#setter(#i, #v)));
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // &X[a..b]
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                let inner = match &*r.expr {
                    Expr::Paren(p) => &*p.expr,
                    x => x,
                };
                if let Expr::Call(_) = inner {
                    if matches!(call_name(inner).as_deref(), Some("slice_sub" | "slice_from" | "slice_to")) {
                        let i = inner.clone();
                        *e = i;
                        return;
                    }
                }
            }
        }
        match e {
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    if let Some(x) = self.range_call(&ix.expr, r) {
                        *e = x;
                    } else {
                        let b = &ix.expr;
                        *e = pe(quote!(*#b));
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                if self.is_bytes(&b.left) || self.is_bytes(&b.right) {
                    let fix = |e: &Expr| -> Expr {
                        match e {
                            Expr::Reference(_) => e.clone(),
                            Expr::Call(_) if matches!(call_name(e).as_deref(), Some("slice_sub" | "slice_from" | "slice_to" | "bytes_of")) => e.clone(),
                            _ => pe(quote!(&#e)),
                        }
                    };
                    let (l, r) = (fix(&b.left), fix(&b.right));
                    *e = if matches!(b.op, BinOp::Eq(_)) {
                        pe(quote!(bytes_eq(#l, #r)))
                    } else {
                        pe(quote!((!bytes_eq(#l, #r))))
                    };
                }
            }
            // (a as f64) < (b as f64) * c
            Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Ge(_)) && b.to_token_stream().to_string().contains("as f64") => {
                fn strip(e: &Expr) -> Option<Expr> {
                    match e {
                        Expr::Paren(p) => strip(&p.expr),
                        Expr::Cast(c) if c.ty.to_token_stream().to_string() == "f64" => Some(match &*c.expr {
                            Expr::Paren(p) => (*p.expr).clone(),
                            x => x.clone(),
                        }),
                        _ => None,
                    }
                }
                let neg = matches!(b.op, BinOp::Ge(_));
                if let (Some(l), Expr::Binary(m)) = (strip(&b.left), &*b.right) {
                    if matches!(m.op, BinOp::Mul(_)) {
                        if let Some(r) = strip(&m.left) {
                            let c = &m.right;
                            *e = if neg {
                                pe(quote!((!f64_ratio_lt(#l, #r, #c))))
                            } else {
                                pe(quote!(f64_ratio_lt(#l, #r, #c)))
                            };
                        }
                    }
                }
            }
            Expr::Path(p) => {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap();
                if segs.len() == 1 && self.ptrs.contains(last) {
                    *e = pe(quote!((*#p)));
                    return;
                }
                if self.o.const_fns.contains(last) {
                    let f = ident(last);
                    *e = pe(quote!(#f()));
                }
            }
            Expr::Cast(c) => {
                // `x as T` with T a known alias is kept; nothing to do
                let _ = c;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if m.args.is_empty() && name == "as_ref" && self.o.flags.contains("drop_as_ref") && !self.o.methods.contains_key(&(name.clone(), 0)) {
                    let r = (*m.receiver).clone();
                    *e = r;
                    return;
                }
                if name == "next" || name == "next_back" {
                    // X.as_mut().unwrap().next()
                    if let Expr::MethodCall(u) = &*m.receiver {
                        if u.method == "unwrap" {
                            if let Expr::MethodCall(a) = &*u.receiver {
                                if a.method == "as_mut" {
                                    let r = &a.receiver;
                                    let f = ident(&format!("opt_{name}"));
                                    *e = pe(quote!(#f(&mut #r)));
                                    return;
                                }
                            }
                        }
                    }
                }
                if name == "collect" {
                    m.turbofish = None;
                    m.method = ident("collect_vec");
                    return;
                }
                if let Some((f, mode)) = self.o.methods.get(&(name.clone(), m.args.len())) {
                    let f: Expr = parse_str(f).unwrap();
                    let recv = &m.receiver;
                    let args: Vec<&Expr> = m.args.iter().collect();
                    if mode == "mut" && args.iter().any(|a| !matches!(a, Expr::Lit(_) | Expr::Path(_) | Expr::Reference(_))) {
                        // two-phase borrow: the arguments are evaluated before the receiver is borrowed
                        let names: Vec<Ident> = (0..args.len()).map(|i| ident(&format!("__a{i}"))).collect();
                        *e = pe(quote!({ #(let #names = #args;)* #f(&mut #recv #(, #names)*) }));
                        return;
                    }
                    let r = match mode.as_str() {
                        "ref" => quote!(&#recv),
                        "mut" => quote!(&mut #recv),
                        _ => quote!(#recv),
                    };
                    *e = pe(quote!(#f(#r #(, #args)*)));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let full = segs.join("::");
                    if segs.last().unwrap() == "size_of" {
                        if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                            let t: String = a.args.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
                            match self.o.sizes.get(&t) {
                                Some(n) => {
                                    let l = LitInt::new(&format!("{n}usize"), Span::call_site());
                                    *e = pe(quote!(#l));
                                }
                                None => {
                                    self.err.get_or_insert(format!("size_of {t}"));
                                }
                            }
                            return;
                        }
                    }
                    for pre in &self.o.path_renames {
                        if full == pre.0 || format!("{full}/{}", c.args.len()) == pre.0 || (full.ends_with(&format!("::{}", pre.0))) {
                            let f: Expr = parse_str(&pre.1).unwrap();
                            c.func = Box::new(f);
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(_) = s {
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    // patterns and types are handled by TypePass
}

// threads the ghost world through effectful calls
pub struct ThreadPass<'a> {
    pub o: &'a Opts,
    pub not: &'a Vec<String>,
}
impl VisitMut for ThreadPass<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = call_name(e) {
            if self.o.thread.contains(&n) && !self.not.contains(&n) {
                match e {
                    Expr::Call(c) => c.args.push(pe(quote!(Tracked(w)))),
                    Expr::MethodCall(m) => m.args.push(pe(quote!(Tracked(w)))),
                    _ => {}
                }
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(_) = s {
            return;
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// ---------------------------------------------------------------- types
pub struct TypePass<'a> {
    pub o: &'a Opts,
    pub asref: HashSet<String>, // type parameters bounded by AsRef<[u8]>
}
impl VisitMut for TypePass<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if self.asref.contains(&i.to_string()) {
                    *t = parse2(quote!([u8])).unwrap();
                    return;
                }
            }
            let s: String = p.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
            if let Some(r) = self.o.types.get(&s) {
                *t = parse_str(r).unwrap();
                return;
            }
        }
        if let Type::ImplTrait(it) = t {
            let s: String = it.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect();
            if let Some(r) = self.o.types.get(&s) {
                *t = parse_str(r).unwrap();
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // turbofish arguments
        visit_mut::visit_path_mut(self, p);
    }
}
