use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    /// marker id -> text, filled by xform
    pub static MARKS: RefCell<BTreeMap<usize, String>> = RefCell::new(BTreeMap::new());
}

pub fn print_tokens(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, bol: true, glue: false };
    p.stream(ts, false);
    p.out
}

struct P {
    out: String,
    ind: usize,
    bol: bool,
    glue: bool,
}

fn marker(v: &[TokenTree], i: usize, name: &str) -> Option<usize> {
    // name ! ( N ) ;
    if let (Some(TokenTree::Ident(a)), Some(TokenTree::Punct(b)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
        if a == name && b.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

impl P {
    fn nl(&mut self) {
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
        self.glue = true;
    }
    fn word(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
            self.bol = false;
        } else if !self.glue {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.glue = false;
    }
    fn stream(&mut self, ts: TokenStream, brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let Some(n) = marker(&v, i, "vx_hint") {
                self.nl();
                let t = MARKS.with(|m| m.borrow().get(&n).cloned().unwrap_or_default());
                self.out.push_str(&t);
                if !t.ends_with('\n') {
                    self.out.push('\n');
                }
                self.bol = true;
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            if marker(&v, i, "vx_inv").is_some() {
                i += 3;
                if let Some(TokenTree::Punct(p)) = v.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            if let Some(n) = marker(&inner, 0, "vx_inv") {
                                self.nl();
                                let t = MARKS.with(|m| m.borrow().get(&n).cloned().unwrap_or_default());
                                self.out.push_str(&t);
                                if !t.ends_with('\n') {
                                    self.out.push('\n');
                                }
                                self.bol = true;
                            }
                            self.word("{");
                            self.ind += 1;
                            self.nl();
                            self.stream(g.stream(), true);
                            self.ind -= 1;
                            self.nl();
                            self.word("}");
                            // newline unless followed by , ; ) . ? else
                            let follow = v.get(i + 1);
                            let glue = match follow {
                                Some(TokenTree::Punct(p)) => matches!(p.as_char(), ',' | ';' | '.' | '?' | '='),
                                Some(TokenTree::Ident(id)) => id == "else",
                                None => false,
                                _ => false,
                            };
                            if !glue {
                                self.nl();
                            }
                        }
                        Delimiter::Parenthesis => {
                            self.word("(");
                            self.stream(g.stream(), false);
                            self.word(")");
                        }
                        Delimiter::Bracket => {
                            self.word("[");
                            self.stream(g.stream(), false);
                            self.word("]");
                        }
                        Delimiter::None => {
                            self.word("(");
                            self.stream(g.stream(), false);
                            self.word(")");
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    self.word(&p.as_char().to_string());
                    if p.spacing() == Spacing::Joint {
                        self.glue = true;
                    }
                    if p.as_char() == '\'' {
                        self.glue = true;
                    }
                    if p.as_char() == ';' && brace {
                        self.nl();
                    }
                    if p.as_char() == ',' && brace {
                        self.nl();
                    }
                }
                t => self.word(&t.to_string()),
            }
            i += 1;
        }
    }
}
