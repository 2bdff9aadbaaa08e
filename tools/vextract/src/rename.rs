//! Local names.  A local variable or parameter may be renamed by a refactoring; the annotations use the names of the
//! baseline.  Renaming a local to a name that occurs nowhere else in the function keeps its meaning, so the names
//! of the baseline are put back where the sequence of binders shows which one was renamed.
use crate::find::Found;
use crate::inline::{binders, idents};
use proc_macro2::{Ident, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};

#[derive(Clone, Default)]
pub struct Baseline {
    pub fp: String,
    pub binders: Vec<String>,
}
pub fn parse_baseline(t: &str) -> BTreeMap<String, Baseline> {
    t.lines()
        .filter_map(|l| {
            let v: Vec<&str> = l.split('\t').collect();
            if v.len() != 3 {
                return None;
            }
            let b = v[1].split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
            Some((v[0].to_string(), Baseline { fp: v[2].to_string(), binders: b }))
        })
        .collect()
}
/// hash of the token text (comments and layout do not count)
pub fn fingerprint(f: &Found) -> String {
    let s = format!("{} {}", f.sig.to_token_stream(), f.block.as_ref().map(|b| b.to_token_stream().to_string()).unwrap_or_default());
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}
pub fn baseline_entry(id: &str, f: &Found, fp: &str) -> String {
    let b = f.block.as_ref().map(|b| binders(Some(&f.sig), b)).unwrap_or_default();
    format!("{}\t{}\t{}", id, b.join(","), fp)
}

/// new name -> old name
pub fn align(old: &[String], new: &[String], used: &BTreeSet<String>) -> BTreeMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let news: BTreeSet<&String> = new.iter().collect();
    let olds: BTreeSet<&String> = old.iter().collect();
    let mut pairs: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let (mut i, mut j) = (0, 0);
    let (mut ga, mut gb): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut close = |ga: &mut Vec<usize>, gb: &mut Vec<usize>| {
        if ga.len() == gb.len() {
            for (a, b) in ga.iter().zip(gb.iter()) {
                if !news.contains(&old[*a]) && !olds.contains(&new[*b]) {
                    pairs.entry(new[*b].clone()).or_default().insert(old[*a].clone());
                }
            }
        }
        ga.clear();
        gb.clear();
    };
    while i < n || j < m {
        if i < n && j < m && old[i] == new[j] {
            close(&mut ga, &mut gb);
            i += 1;
            j += 1;
        } else if i < n && (j >= m || t[i + 1][j] >= t[i][j + 1]) {
            ga.push(i);
            i += 1;
        } else {
            gb.push(j);
            j += 1;
        }
    }
    close(&mut ga, &mut gb);
    let mut out = BTreeMap::new();
    let mut taken: BTreeSet<String> = BTreeSet::new();
    for (b, a) in pairs {
        if a.len() == 1 {
            let a = a.into_iter().next().unwrap();
            if !used.contains(&a) && taken.insert(a.clone()) {
                out.insert(b, a);
            }
        }
    }
    out
}

struct Ren<'a>(&'a BTreeMap<String, String>);
impl<'a> Ren<'a> {
    fn id(&self, i: &mut Ident) {
        if let Some(n) = self.0.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn toks(&self, ts: TokenStream) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        for (k, t) in v.iter().enumerate() {
            let dot = k > 0 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '.');
            let range = k > 1 && dot && matches!(&v[k - 2], TokenTree::Punct(p) if p.as_char() == '.');
            out.extend(std::iter::once(match t {
                TokenTree::Ident(i) if !dot || range => {
                    let mut i = i.clone();
                    self.id(&mut i);
                    TokenTree::Ident(i)
                }
                TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), self.toks(g.stream()))),
                t => t.clone(),
            }));
        }
        out
    }
}
impl<'a> VisitMut for Ren<'a> {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        self.id(&mut p.ident);
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_expr_path_mut(&mut self, p: &mut syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 && p.path.leading_colon.is_none() {
            self.id(&mut p.path.segments[0].ident);
        }
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        m.tokens = self.toks(m.tokens.clone());
    }
}
/// the function with the baseline's names for renamed locals
pub fn restore(f: &Found, b: &Baseline) -> (Found, Vec<String>) {
    let mut g = f.clone();
    let blk = match &f.block {
        Some(b) => b,
        None => return (g, vec![]),
    };
    let mut used = vec![];
    idents(f.sig.to_token_stream(), &mut used);
    idents(blk.to_token_stream(), &mut used);
    let map = align(&b.binders, &binders(Some(&f.sig), blk), &used.into_iter().collect());
    if map.is_empty() {
        return (g, vec![]);
    }
    let mut r = Ren(&map);
    for a in g.sig.inputs.iter_mut() {
        if let syn::FnArg::Typed(t) = a {
            r.visit_pat_mut(&mut t.pat);
        }
    }
    r.visit_block_mut(g.block.as_mut().unwrap());
    (g, map.iter().map(|(n, o)| format!("{} read as {}", n, o)).collect())
}
