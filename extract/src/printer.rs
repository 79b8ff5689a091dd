// Prints a token stream as text, expanding the markers left by the transformation:
//   __inv!(N);    as the first statement of a loop body: the clauses are printed before the body's brace
//   __proof!(N);  raw (ghost) text
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub snippets: &'a [String],
    out: String,
    ind: usize,
    bol: bool,
    no_space: bool,
}

fn marker(ts: &[TokenTree], name: &str) -> Option<usize> {
    if ts.len() >= 3 {
        if let (TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g)) = (&ts[0], &ts[1], &ts[2]) {
            if i == name && p.as_char() == '!' {
                return g.stream().to_string().trim().parse().ok();
            }
        }
    }
    None
}

impl<'a> Printer<'a> {
    pub fn new(snippets: &'a [String]) -> Self {
        Self { snippets, out: String::new(), ind: 1, bol: true, no_space: true }
    }
    pub fn print(mut self, ts: TokenStream) -> String {
        self.stream(ts);
        self.out
    }
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
    }
    fn tok(&mut self, s: &str, no_space_before: bool) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.no_space && !no_space_before {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.no_space = false;
    }
    fn raw(&mut self, s: &str) {
        self.nl();
        for l in s.lines() {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
            self.out.push_str(l);
            self.out.push('\n');
        }
        self.bol = true;
    }
    fn stream(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(n) = marker(&v[i..], "__proof") {
                let s = self.snippets[n].clone();
                self.raw(&s);
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &v[i] {
                TokenTree::Ident(id) => self.tok(&id.to_string(), false),
                TokenTree::Literal(l) => self.tok(&l.to_string(), false),
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    let nsb = matches!(c, ';' | ',' | '.' | '?' | ':');
                    self.tok(&c.to_string(), nsb);
                    if p.spacing() == Spacing::Joint || c == '.' || c == '\'' {
                        self.no_space = true;
                    }
                    if c == ';' {
                        self.nl();
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        let mut inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        if let Some(n) = marker(&inner, "__inv") {
                            let s = self.snippets[n].clone();
                            self.ind += 1;
                            self.raw(&s);
                            self.ind -= 1;
                            inner.drain(0..4);
                        }
                        if inner.is_empty() {
                            self.tok("{ }", false);
                        } else {
                            self.tok("{", false);
                            self.ind += 1;
                            self.nl();
                            self.stream(inner.into_iter().collect());
                            self.ind -= 1;
                            self.nl();
                            self.tok("}", false);
                        }
                        // what follows a block usually starts a new line
                        match v.get(i + 1) {
                            Some(TokenTree::Punct(p)) if matches!(p.as_char(), ';' | ',' | '.' | '?') => {}
                            Some(TokenTree::Ident(id)) if id == "else" => {}
                            _ => self.nl(),
                        }
                    }
                    Delimiter::Parenthesis => {
                        self.tok("(", true);
                        self.no_space = true;
                        self.stream(g.stream());
                        self.tok(")", true);
                    }
                    Delimiter::Bracket => {
                        self.tok("[", true);
                        self.no_space = true;
                        self.stream(g.stream());
                        self.tok("]", true);
                    }
                    Delimiter::None => {
                        self.stream(g.stream());
                    }
                },
            }
            i += 1;
        }
    }
}
