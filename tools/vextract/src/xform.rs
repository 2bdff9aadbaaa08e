//! Rewriting of one extracted function into the Verus dialect.  Every rule is listed in
//! DESIGN.md ("What the extraction drops or rewrites"); `rules` records the ones used.
use crate::find::Found;
use crate::print::{print_tokens, MARKS};
use crate::template::FnSpec;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Emit {
    pub text: String,
    pub nloops: usize,
    pub rules: Vec<String>,
    pub lost: Option<String>,
}

const TRAITS: &[&str] = &["Unsigned", "Element", "Algorithm", "Store", "Node", "Hashable", "Hasher", "Sized", "Read", "Source", "IntoIterator", "Iterator", "IntoParallelIterator", "ParallelIterator", "IndexedParallelIterator"];

pub fn fix_bounds(b: &mut syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]>) {
    let mut out: syn::punctuated::Punctuated<syn::TypeParamBound, syn::Token![+]> = Default::default();
    for x in b.iter() {
        if let syn::TypeParamBound::Trait(t) = x {
            let n = t.path.segments.last().unwrap().ident.to_string();
            if n == "AsRef" && t.to_token_stream().to_string().contains("Path") {
                out.push(parse_quote!(PathLike));
            } else if n == "AsRef" {
                out.push(parse_quote!(Node));
            } else if TRAITS.contains(&n.as_str()) {
                out.push(x.clone());
            }
        }
    }
    *b = out;
}
pub fn fix_generics(g: &mut syn::Generics) {
    for p in g.params.iter_mut() {
        if let syn::GenericParam::Type(t) = p {
            fix_bounds(&mut t.bounds);
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = g.where_clause.as_mut() {
        let mut keep: syn::punctuated::Punctuated<syn::WherePredicate, syn::Token![,]> = Default::default();
        for p in w.predicates.iter() {
            if let syn::WherePredicate::Type(t) = p {
                let mut t = t.clone();
                fix_bounds(&mut t.bounds);
                if !t.bounds.is_empty() {
                    keep.push(syn::WherePredicate::Type(t));
                }
            }
        }
        if keep.is_empty() {
            g.where_clause = None;
        } else {
            w.predicates = keep;
        }
    }
}
pub fn fix_type(t: &mut syn::Type) {
    struct V;
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            norm_path(p);
            visit_mut::visit_path_mut(self, p);
        }
        fn visit_type_mut(&mut self, t: &mut syn::Type) {
            // a function pointer over a borrowed source is an object with a contract
            if let syn::Type::BareFn(b) = t {
                if let Some(syn::Type::Reference(r)) = b.inputs.last().map(|a| a.ty.clone()) {
                    let e = &r.elem;
                    *t = parse_quote!(ReadFn<#e>);
                }
            }
            visit_mut::visit_type_mut(self, t);
        }
    }
    V.visit_type_mut(t);
}
fn norm_path(p: &mut syn::Path) -> bool {
    let names: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let j = names.join("::");
    let drop = |p: &mut syn::Path, n: usize| {
        let segs: Vec<_> = p.segments.iter().skip(n).cloned().collect();
        p.leading_colon = None;
        p.segments = segs.into_iter().collect();
    };
    match j.as_str() {
        "std::cmp::min" | "cmp::min" => {
            *p = parse_quote!(vx_min);
            return true;
        }
        "std::cmp::max" | "cmp::max" => {
            *p = parse_quote!(vx_max);
            return true;
        }
        "mem::size_of" | "std::mem::size_of" | "core::mem::size_of" | "mem::size_of_val" | "std::mem::size_of_val" | "core::mem::size_of_val" | "slice::from_raw_parts" | "std::slice::from_raw_parts" | "core::slice::from_raw_parts" => {
            let l = p.segments.last().unwrap().clone();
            let mut q: syn::Path = syn::parse_str(&format!("vx_{}", l.ident)).unwrap();
            q.segments.last_mut().unwrap().arguments = l.arguments;
            *p = q;
            return true;
        }
        "ops::Range" | "std::ops::Range" | "Range" => {
            let args = p.segments.last().unwrap().arguments.clone();
            let mut q: syn::Path = parse_quote!(core::ops::Range);
            q.segments.last_mut().unwrap().arguments = args;
            *p = q;
            return false;
        }
        _ => {}
    }
    if names.len() > 1 && (names[0] == "crate" || names[0] == "std" || names[0] == "super" || names[0] == "anyhow") {
        let mut n = 1;
        while n + 1 < names.len() && names[n].chars().next().unwrap().is_lowercase() {
            n += 1;
        }
        drop(p, n);
        return true;
    }
    false
}

struct Norm {
    rules: BTreeSet<String>,
    locks: BTreeMap<String, Expr>,
    lost: Option<String>,
    /// names bound to parts of a shared mapping, and the file mapped
    mapped: BTreeSet<String>,
    mapfile: Expr,
    /// locals whose handle is resized
    resized: BTreeSet<String>,
    /// the function is a method of an object with an open handle
    method: bool,
}
fn margs(m: &syn::Macro) -> Vec<Expr> {
    m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default()
}
impl Norm {
    fn mac(&mut self, m: &syn::Macro) -> Option<Option<Expr>> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let a = margs(m);
        Some(match n.as_str() {
            "ensure" => {
                self.rules.insert("ensure! becomes a conditional return of an opaque error".into());
                let c = a.first().cloned()?;
                Some(parse_quote!(if !(#c) { return Err(vx_error()); }))
            }
            "bail" => {
                self.rules.insert("bail! becomes a return of an opaque error".into());
                Some(parse_quote!(return Err(vx_error())))
            }
            "anyhow" => {
                self.rules.insert("anyhow! becomes an opaque error".into());
                Some(parse_quote!(vx_error()))
            }
            "debug" | "info" | "trace" | "warn" | "error" | "println" | "eprintln" => {
                self.rules.insert("logging dropped".into());
                None
            }
            "assert" | "debug_assert" => {
                self.rules.insert("assert! becomes an obligation".into());
                let c = a.first().cloned()?;
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" => {
                self.rules.insert("assert_eq! becomes an obligation".into());
                let (x, y) = (a.get(0).cloned()?, a.get(1).cloned()?);
                Some(parse_quote!(vx_assert(#x == #y)))
            }
            "panic" | "unimplemented" | "unreachable" | "todo" => {
                self.rules.insert("panic! becomes an unreachability obligation".into());
                Some(parse_quote!(vx_panic()))
            }
            "array_ref" => {
                self.rules.insert("array_ref! becomes a checked call".into());
                let (x, o, n) = (a.get(0).cloned()?, a.get(1).cloned()?, a.get(2).cloned()?);
                Some(parse_quote!(vx_array_ref::<{ #n }>(#x, #o)))
            }
            "format" => {
                self.rules.insert("format! becomes an opaque string".into());
                Some(parse_quote!(vx_string()))
            }
            _ => return None,
        })
    }
    fn is_lock(e: &Expr) -> Option<Expr> {
        let call1 = |e: &Expr, names: &[&str]| -> Option<Expr> {
            if let Expr::Call(c) = e {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s.len() >= 2 && s[s.len() - 1] == "new" && names.contains(&s[s.len() - 2].as_str()) && c.args.len() == 1 {
                        return Some(c.args[0].clone());
                    }
                }
            }
            None
        };
        let i = call1(e, &["Arc"])?;
        call1(&i, &["RwLock", "Mutex"])
    }
}
/// names bound by a closure over (.., part of a mapping), and locals resized by set_len
fn prescan(b: &syn::Block, mapped: &mut BTreeSet<String>, resized: &mut BTreeSet<String>) {
    struct V<'a>(&'a mut BTreeSet<String>, &'a mut BTreeSet<String>);
    impl<'a, 'b> syn::visit::Visit<'a> for V<'b> {
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if m.method == "set_len" {
                let mut r = &*m.receiver;
                if let Expr::MethodCall(a) = r {
                    if a.method == "as_file" {
                        r = &*a.receiver;
                    }
                }
                if let Expr::Path(p) = r {
                    if let Some(i) = p.path.get_ident() {
                        self.1.insert(i.to_string());
                    }
                }
            }
            if let Expr::MethodCall(z) = &*m.receiver {
                if z.method == "zip" && z.args.len() == 1 && z.args[0].to_token_stream().to_string().contains("par_chunks_mut") {
                    if let Some((ps, _)) = m.args.first().and_then(closure_parts) {
                        if let Some(syn::Pat::Tuple(t)) = ps.first() {
                            if let Some(syn::Pat::Ident(i)) = t.elems.iter().nth(1) {
                                self.0.insert(i.ident.to_string());
                            }
                        }
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut v = V(mapped, resized);
    syn::visit::Visit::visit_block(&mut v, b);
}
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            match s {
                Stmt::Macro(m) => match self.mac(&m.mac) {
                    Some(Some(e)) => {
                        let semi = if matches!(e, Expr::If(_)) { None } else { m.semi_token };
                        out.push(Stmt::Expr(e, semi));
                    }
                    Some(None) => {}
                    None => out.push(Stmt::Macro(m)),
                },
                Stmt::Expr(Expr::Macro(m), semi) => match self.mac(&m.mac) {
                    Some(Some(e)) => {
                        let semi = if matches!(e, Expr::If(_)) { None } else { semi };
                        out.push(Stmt::Expr(e, semi));
                    }
                    Some(None) => {}
                    None => out.push(Stmt::Expr(Expr::Macro(m), semi)),
                },
                Stmt::Local(l) => {
                    if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                        if let Some(inner) = Norm::is_lock(&init.expr) {
                            self.rules.insert("a lock around a value shared by parallel workers is dropped (workers run one after another)".into());
                            self.locks.insert(i.ident.to_string(), inner);
                            continue;
                        }
                    }
                    let mut l = l;
                    l.attrs.clear();
                    if let syn::Pat::Ident(i) = &mut l.pat {
                        if self.resized.contains(&i.ident.to_string()) && i.mutability.is_none() {
                            i.mutability = Some(Default::default());
                        }
                    }
                    if let (syn::Pat::Ident(_), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = &*init.expr {
                            if i.suffix().is_empty() {
                                self.rules.insert("integer locals initialised by a literal are typed usize".into());
                                let p = l.pat.clone();
                                l.pat = syn::Pat::Type(parse_quote!(#p: usize));
                            }
                        }
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Item(syn::Item::Use(_)) => {}
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if norm_path(p) {
            self.rules.insert("paths shortened".into());
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(r) = self.mac(&m.mac) {
                *e = r.unwrap_or_else(|| parse_quote!(()));
            } else if m.mac.path.is_ident("vec") {
                // vec![a; n] / vec![a, b]: rewrite inside
                let ts = m.mac.tokens.clone();
                if let Ok(mut v) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    for x in v.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    m.mac.tokens = v.to_token_stream();
                } else if let Ok(mut r) = syn::parse2::<syn::ExprRepeat>(quote!([#ts])) {
                    self.visit_expr_mut(&mut r.expr);
                    self.visit_expr_mut(&mut r.len);
                    let (a, n) = (&r.expr, &r.len);
                    m.mac.tokens = quote!(#a; #n);
                }
                return;
            }
        }
        // lock.read().expect(..) / lock.write().unwrap()
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if n == "expect" || n == "unwrap" {
                if let Expr::MethodCall(r) = &*m.receiver {
                    let rn = r.method.to_string();
                    if (rn == "read" || rn == "write" || rn == "lock") && r.args.is_empty() {
                        if let Expr::Path(p) = &*r.receiver {
                            if let Some(x) = p.path.get_ident().and_then(|i| self.locks.get(&i.to_string())) {
                                *e = x.clone();
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            match n.as_str() {
                "context" | "with_context" if m.args.len() == 1 => {
                    self.rules.insert("error context dropped".into());
                    let r = &m.receiver;
                    new = Some(parse_quote!(#r.vx_context()));
                }
                "read_exact_at" if m.args.len() == 2 => {
                    if let Expr::Reference(rf) = &m.args[1] {
                        if let Expr::Index(ix) = strip_paren(&rf.expr) {
                            if rf.mutability.is_some() && matches!(strip_paren(&ix.index), Expr::Range(_)) {
                                self.rules.insert("reading into a part of a buffer takes the buffer and the range".into());
                                let (r, a, b, x) = (&m.receiver, &m.args[0], &ix.expr, strip_paren(&ix.index));
                                new = Some(parse_quote!(#r.vx_read_exact_into(#a, #b, #x)));
                            }
                        }
                    }
                }
                "read_at" if m.args.len() == 2 => {
                    if let Expr::Reference(rf) = &m.args[1] {
                        if let Expr::Index(ix) = strip_paren(&rf.expr) {
                            if rf.mutability.is_some() && matches!(strip_paren(&ix.index), Expr::Range(_)) {
                                self.rules.insert("reading into a part of a buffer takes the buffer and the range".into());
                                let (r, a, b, x) = (&m.receiver, &m.args[0], &ix.expr, strip_paren(&ix.index));
                                new = Some(parse_quote!(#r.vx_read_into_part(#a, #b, #x)));
                            }
                        }
                    }
                }
                "open" if m.args.len() == 1 && self.method => {
                    self.rules.insert("a file opened while a handle is open may be the same file".into());
                    let (r, p) = (&m.receiver, &m.args[0]);
                    new = Some(parse_quote!(vx_open_beside(&self.file, #r, #p)));
                }
                "expect" if m.args.len() == 1 => {
                    self.rules.insert("expect message dropped".into());
                    let r = &m.receiver;
                    new = Some(parse_quote!(#r.unwrap()));
                }
                "trailing_zeros" => {
                    let r = &m.receiver;
                    new = Some(parse_quote!(vx_trailing_zeros(#r)));
                }
                "next_power_of_two" => {
                    let r = &m.receiver;
                    new = Some(parse_quote!(vx_next_power_of_two(#r)));
                }
                "saturating_sub" if m.args.len() == 1 => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    new = Some(parse_quote!(vx_saturating_sub(#r, #a)));
                }
                "resize" if m.args.len() == 2 => {
                    let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                    new = Some(parse_quote!(vx_resize(&mut #r, #a, #b)));
                }
                "splice" if m.args.len() == 2 => {
                    self.rules.insert("Vec::splice takes a collected replacement".into());
                    let (r, a, b) = (&m.receiver, &m.args[0], &m.args[1]);
                    new = Some(parse_quote!(vx_splice(&mut #r, #a, #b.collect())));
                }
                "index" if m.args.len() == 1 => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    new = Some(parse_quote!(vx_index(&#r, #a)));
                }
                "reverse" if m.args.is_empty() => {
                    let r = &m.receiver;
                    new = Some(parse_quote!(vx_reverse(&mut #r)));
                }
                "extend" if m.args.len() == 1 => {
                    let (r, a) = (&m.receiver, &m.args[0]);
                    new = Some(parse_quote!(vx_extend(&mut #r, #a)));
                }
                "ok_or_else" if m.args.len() == 1 => {
                    if let Some((ps, b)) = closure_parts(&m.args[0]) {
                        if ps.is_empty() {
                            let r = &m.receiver;
                            new = Some(parse_quote!(#r.ok_or(#b)));
                        }
                    }
                }
                "as_bytes" if m.args.is_empty() => {
                    let r = &m.receiver;
                    new = Some(parse_quote!(#r.vx_as_bytes()));
                }
                "as_ref" if m.args.is_empty() && matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                    let r = &m.receiver;
                    new = Some(parse_quote!(#r.vx_as_ref()));
                }
                "to_vec" if m.args.is_empty() => {
                    let r = &m.receiver;
                    let is_ref = matches!(&**r, Expr::Call(_));
                    new = Some(if is_ref { parse_quote!(vx_to_vec(#r)) } else { parse_quote!(vx_to_vec(&#r)) });
                }
                "shrink_to_fit" | "reserve" => {
                    self.rules.insert("capacity hints dropped".into());
                    let a = m.args.first();
                    new = Some(match a { Some(a) => parse_quote!({ let _ = #a; }), None => parse_quote!(()) });
                }
                _ => {}
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Paren(p) = &*c.func {
                if let Expr::Field(_) = &*p.expr {
                    self.rules.insert("calling a function pointer is a call under its contract".into());
                    let (f, a) = (&p.expr, &c.args);
                    new = Some(parse_quote!(#f.vx_call(#a)));
                }
            }
        }
        if let Expr::Struct(s) = e {
            for f in s.fields.iter_mut() {
                if let (syn::Member::Named(n), Expr::Closure(_)) = (&f.member, &f.expr) {
                    self.rules.insert("a closure stored in a field is verified as a function of its own".into());
                    let g = format_ident!("vx_{}_value", n);
                    f.expr = parse_quote!(#g());
                    f.colon_token = Some(Default::default());
                }
                if let (syn::Member::Named(n), Expr::Call(c)) = (&f.member, &f.expr) {
                    if n.to_string().starts_with('_') && c.args.is_empty() && c.func.to_token_stream().to_string().replace(' ', "") == "Default::default" {
                        self.rules.insert("phantom fields are PhantomData".into());
                        f.expr = parse_quote!(PhantomData);
                    }
                }
            }
        }
        // X.file = OPTS.open(P)? : the handle is exchanged for another one
        if let Expr::Assign(a) = e {
            if let (Expr::Field(fl), Expr::Try(tr)) = (&*a.left, &*a.right) {
                if let (syn::Member::Named(n), Expr::Call(m)) = (&fl.member, &*tr.expr) {
                    if n == "file" && m.func.to_token_stream().to_string() == "vx_open_beside" && m.args.len() == 3 {
                        self.rules.insert("assigning a newly opened file to an existing handle is a reopen".into());
                        let (l, r, p) = (&a.left, &m.args[1], &m.args[2]);
                        new = Some(parse_quote!(vx_reopen(&mut #l, #r, #p)?));
                    }
                }
            }
        }
        // X[a..b].copy_from_slice(y)
        if let Expr::MethodCall(m) = e {
            if m.method == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(ix) = &*m.receiver {
                    if matches!(strip_paren(&ix.index), Expr::Range(_)) {
                        let (b, r, y) = (&ix.expr, strip_paren(&ix.index), &m.args[0]);
                        let mapped = if let Expr::Path(p) = &**b { p.path.get_ident().map(|i| self.mapped.contains(&i.to_string())).unwrap_or(false) } else { false };
                        new = Some(if mapped {
                            self.rules.insert("a write through a shared mapping is a write to the mapped file".into());
                            let f = self.mapfile.clone();
                            parse_quote!(#b.vx_write(&mut #f, #r, #y))
                        } else if matches!(&**b, Expr::MethodCall(_)) {
                            parse_quote!(vx_copy_into(#b, #r, #y))
                        } else if matches!(&**b, Expr::Path(_)) {
                            parse_quote!(vx_copy_into(#b, #r, #y))
                        } else {
                            parse_quote!(vx_copy_into(&mut #b, #r, #y))
                        });
                    }
                }
            }
            if m.method == "map_mut" && m.args.len() == 1 {
                if let Expr::Reference(r) = &m.args[0] {
                    self.mapfile = (*r.expr).clone();
                }
            }
        }
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string().replace(' ', "") == "MmapMut::map_mut" && c.args.len() == 1 {
                if let Expr::Reference(r) = &c.args[0] {
                    let f = &r.expr;
                    self.rules.insert("mappings of a file are shared".into());
                    new = Some(if let Expr::Field(fl) = &**f {
                        let b = &fl.base;
                        parse_quote!(vx_map_mut(&#b.map, &#f))
                    } else {
                        parse_quote!(vx_map_mut(&None, &#f))
                    });
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "take" && m.args.is_empty() {
                if let Expr::Field(fl) = &*m.receiver {
                    if fl.member.to_token_stream().to_string() == "map" {
                        let (b, r) = (&fl.base, &m.receiver);
                        self.rules.insert("dropping a mapping leaves its bytes in the file".into());
                        new = Some(parse_quote!(vx_unmap(&mut #r, &mut #b.file)));
                    }
                }
            }
            if m.method == "set_len" && m.args.len() == 1 {
                if let Expr::MethodCall(a) = &*m.receiver {
                    if a.method == "as_file" {
                        let (r, n) = (&a.receiver, &m.args[0]);
                        new = Some(parse_quote!(#r.set_len(#n)));
                    }
                }
            }
        }
        // &x[a..b]
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(rg) = strip_paren(&ix.index) {
                        if rg.start.is_none() && rg.end.is_none() && matches!(&*ix.expr, Expr::Path(_)) {
                            let b = &ix.expr;
                            self.rules.insert("slicing by a range is an obligation".into());
                            new = Some(parse_quote!(vx_index(&#b, 0..#b.len())));
                        } else if rg.start.is_some() && rg.end.is_some() {
                            let b = &ix.expr;
                            self.rules.insert("slicing by a range is an obligation".into());
                            new = Some(if matches!(&**b, Expr::Path(_)) { parse_quote!(vx_index(#b, #rg)) } else { parse_quote!(vx_index(&#b, #rg)) });
                        }
                    }
                }
            }
        }
        if let Expr::Cast(c) = e {
            if c.ty.to_token_stream().to_string().replace(' ', "") == "*constu8" {
                if let Expr::MethodCall(m) = &*c.expr {
                    if m.method == "as_ptr" && m.args.is_empty() {
                        self.rules.insert("the address of a slice is the bytes it holds in memory".into());
                        let r = &m.receiver;
                        new = Some(parse_quote!(vx_ptr(#r)));
                    }
                }
            }
        }
        if let Expr::Unsafe(u) = e {
            self.rules.insert("unsafe blocks are read as plain blocks".into());
            let b = &u.block;
            new = Some(parse_quote!(#b));
        }
        if let Expr::Paren(p) = e {
            if let Expr::Paren(_) = &*p.expr {
                new = Some((*p.expr).clone());
            }
        }
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_attribute_mut(&mut self, _a: &mut syn::Attribute) {}
}

// ------------------------------------------------------------------ iterator chains
#[derive(Clone)]
enum Src {
    Range(Expr, Expr),
    Step(Box<Src>, Expr),
    Ref(Expr),         // items are &v[i]
    Val(Expr),         // items are clones of v[i]
    Chunks(Expr, Expr), // slices, the last one may be short
    ChunksExact(Expr, Expr),
    ParChunks(Expr, Expr), // chunks of a parallel iterator, in any order, with their numbers
}
struct Chain {
    src: Src,
    par: bool,
    enumerate: bool,
    map: Option<Expr>,
    /// zipped with the mutable chunks of a shared mapping
    zip: Option<(Expr, Expr)>,
}
fn closure_parts(e: &Expr) -> Option<(Vec<syn::Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        return Some((c.inputs.iter().cloned().collect(), (*c.body).clone()));
    }
    None
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        _ => e,
    }
}
fn chain(e: &Expr) -> Option<Chain> {
    match strip_paren(e) {
        Expr::Range(r) => {
            if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                return Some(Chain { src: Src::Range((**a).clone(), (**b).clone()), par: false, enumerate: false, map: None, zip: None });
            }
            None
        }
        Expr::Reference(r) if r.mutability.is_none() => Some(Chain { src: Src::Ref((*r.expr).clone()), par: false, enumerate: false, map: None, zip: None }),
        Expr::Call(c) => {
            // Vec::from_iter(chain): materialised index list
            if let Expr::Path(p) = &*c.func {
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.join("::") == "Vec::from_iter" && c.args.len() == 1 {
                    return chain(&c.args[0]);
                }
            }
            None
        }
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            let recv = (*m.receiver).clone();
            match (n.as_str(), m.args.len()) {
                ("iter", 0) | ("par_iter", 0) | ("into_iter", 0) | ("into_par_iter", 0) => {
                    if let Some(mut c) = chain(&recv) {
                        if !matches!(c.src, Src::Ref(_)) {
                            c.par = n.contains("par");
                            return Some(c);
                        }
                    }
                    let src = if n.starts_with("into") { Src::Val(recv) } else { Src::Ref(recv) };
                    Some(Chain { src, par: false, enumerate: false, map: None, zip: None })
                }
                ("chunks", 1) | ("par_chunks", 1) => Some(Chain { src: Src::Chunks(recv, m.args[0].clone()), par: false, enumerate: false, map: None, zip: None }),
                ("chunks_exact", 1) => Some(Chain { src: Src::ChunksExact(recv, m.args[0].clone()), par: false, enumerate: false, map: None, zip: None }),
                ("step_by", 1) => {
                    let c = chain(&recv)?;
                    if c.enumerate || c.map.is_some() {
                        return None;
                    }
                    Some(Chain { src: Src::Step(Box::new(c.src), m.args[0].clone()), par: false, enumerate: false, map: None, zip: None })
                }
                ("zip", 1) => {
                    let mut c = chain(&recv)?;
                    if c.enumerate || c.map.is_some() || c.zip.is_some() {
                        return None;
                    }
                    if let Expr::MethodCall(p) = strip_paren(&m.args[0]) {
                        if p.method == "par_chunks_mut" && p.args.len() == 1 {
                            c.zip = Some(((*p.receiver).clone(), p.args[0].clone()));
                            return Some(c);
                        }
                    }
                    None
                }
                ("enumerate", 0) => {
                    let mut c = chain(&recv)?;
                    if c.enumerate || c.map.is_some() {
                        return None;
                    }
                    c.enumerate = true;
                    Some(c)
                }
                ("map", 1) => {
                    let mut c = chain(&recv)?;
                    if c.map.is_some() {
                        return None;
                    }
                    c.map = Some(m.args[0].clone());
                    Some(c)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

struct Loops<'a> {
    n: usize,
    spec: &'a FnSpec,
    rules: BTreeSet<String>,
    used: BTreeSet<String>,
    marks: usize,
    refs: BTreeSet<String>,
}
fn mark(text: &str, ctr: &mut usize) -> usize {
    *ctr += 1;
    let id = *ctr;
    MARKS.with(|m| m.borrow_mut().insert(id, text.to_string()));
    id
}
impl<'a> Loops<'a> {
    fn is_ref(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map(|i| self.refs.contains(&i.to_string())).unwrap_or(false))
    }
    fn hint(&mut self, key: String) -> Vec<Stmt> {
        match self.spec.hints.get(&key) {
            None => vec![],
            Some(t) => {
                self.used.insert(key);
                let id = proc_macro2::Literal::usize_unsuffixed(mark(t, &mut self.marks));
                vec![parse_quote!(vx_hint!(#id);)]
            }
        }
    }
    fn inv(&mut self, n: usize) -> Vec<Stmt> {
        match self.spec.loops.get(&n) {
            None => vec![],
            Some(t) => {
                self.used.insert(format!("loop {}", n));
                let id = proc_macro2::Literal::usize_unsuffixed(mark(t, &mut self.marks));
                vec![parse_quote!(vx_inv!(#id);)]
            }
        }
    }
    /// statements setting a source up, the loop guard, the item expression and the advance statement
    fn source(&mut self, n: usize, src: &Src) -> (Vec<Stmt>, Expr, Expr, Vec<Stmt>) {
        let (i, k, s) = (format_ident!("vx_i{}", n), format_ident!("vx_n{}", n), format_ident!("vx_s{}", n));
        let c = format_ident!("vx_c{}", n);
        let adv: Vec<Stmt> = vec![parse_quote!(#i = #i + 1;)];
        match src {
            Src::Range(a, b) => (vec![parse_quote!(let mut #i: usize = #a;), parse_quote!(let #k: usize = #b;)], parse_quote!(#i < #k), parse_quote!(#i), adv),
            Src::Step(inner, st) => {
                self.rules.insert("step_by becomes an index loop".into());
                let (mut pre, g, it, _) = self.source(n, inner);
                pre.push(parse_quote!(let #c: usize = #st;));
                pre.push(parse_quote!(vx_assert(#c != 0);));
                (pre, g, it, vec![parse_quote!(#i = vx_step(#i, #c, #k);)])
            }
            Src::Ref(e) => (
                vec![if self.is_ref(e) { parse_quote!(let #s = #e;) } else { parse_quote!(let #s = &#e;) }, parse_quote!(let #k: usize = #s.len();), parse_quote!(let mut #i: usize = 0;)],
                parse_quote!(#i < #k),
                parse_quote!(&#s[#i]),
                adv,
            ),
            Src::Val(e) if self.is_ref(e) => self.source(n, &Src::Ref(e.clone())),
            Src::Val(e) if self.spec.owned => {
                self.rules.insert("consuming iteration takes the elements from the front".into());
                (
                    vec![parse_quote!(let mut #s = #e;), parse_quote!(let #k: usize = #s.vx_count();), parse_quote!(let mut #i: usize = 0;)],
                    parse_quote!(#i < #k),
                    parse_quote!(#s.vx_take()),
                    adv,
                )
            }
            Src::Val(e) => {
                self.rules.insert("consuming iteration reads the elements by index (clones)".into());
                (
                    vec![parse_quote!(let #s = #e;), parse_quote!(let #k: usize = #s.len();), parse_quote!(let mut #i: usize = 0;)],
                    parse_quote!(#i < #k),
                    parse_quote!(#s[#i].clone()),
                    adv,
                )
            }
            Src::Chunks(e, w) => (
                vec![
                    parse_quote!(let #s = &#e;),
                    parse_quote!(let #c: usize = #w;),
                    parse_quote!(vx_assert(#c != 0);),
                    parse_quote!(let #k: usize = vx_div_ceil(#s.len(), #c);),
                    parse_quote!(let mut #i: usize = 0;),
                ],
                parse_quote!(#i < #k),
                parse_quote!(vx_chunk(#s, #i, #c)),
                adv,
            ),
            Src::ParChunks(e, w) => {
                self.rules.insert("parallel work items take their turns one after another in an arbitrary order".into());
                let p = format_ident!("vx_p{}", n);
                (
                    vec![
                        parse_quote!(let #s = #e;),
                        parse_quote!(let #c: usize = #w;),
                        parse_quote!(vx_assert(#c != 0);),
                        parse_quote!(let #k: usize = vx_div_ceil(#s.vx_count(), #c);),
                        parse_quote!(let #p = vx_perm(#k);),
                        parse_quote!(let mut #i: usize = 0;),
                    ],
                    parse_quote!(#i < #k),
                    parse_quote!((#p[#i], #s.vx_chunk(#p[#i], #c))),
                    adv,
                )
            }
            Src::ChunksExact(e, w) => (
                vec![
                    parse_quote!(let #s = &#e;),
                    parse_quote!(let #c: usize = #w;),
                    parse_quote!(vx_assert(#c != 0);),
                    parse_quote!(let #k: usize = #s.len() / #c;),
                    parse_quote!(let mut #i: usize = 0;),
                ],
                parse_quote!(#i < #k),
                parse_quote!(vx_chunk(#s, #i, #c)),
                adv,
            ),
        }
    }
    fn bind(&self, n: usize, pat: &syn::Pat, item: Expr, enumerate: bool) -> Option<Vec<Stmt>> {
        let i = format_ident!("vx_i{}", n);
        if enumerate {
            if let syn::Pat::Tuple(t) = pat {
                if t.elems.len() == 2 {
                    let (a, b) = (&t.elems[0], &t.elems[1]);
                    let mut v: Vec<Stmt> = vec![];
                    if !matches!(a, syn::Pat::Wild(_)) {
                        v.push(parse_quote!(let #a: usize = #i;));
                    }
                    v.extend(self.bind(n, b, item, false)?);
                    return Some(v);
                }
            }
            return None;
        }
        match pat {
            syn::Pat::Wild(_) => Some(vec![]),
            syn::Pat::Reference(r) => {
                let p = &r.pat;
                // item is `&x`: bind the value
                if let Expr::Reference(rf) = &item {
                    let inner = &rf.expr;
                    Some(vec![parse_quote!(let #p = #inner;)])
                } else {
                    Some(vec![parse_quote!(let #p = #item;)])
                }
            }
            p => Some(vec![parse_quote!(let #p = #item;)]),
        }
    }
    /// { setup; while guard { item; advance; body } result }
    fn build(&mut self, n: usize, c0: &Chain, pat: Option<&syn::Pat>, pre: Vec<Stmt>, extra_guard: Option<Expr>, body: Vec<Stmt>, result: Option<Expr>) -> Option<Expr> {
        let c = c0;
        if c.zip.is_some() && !(c.par && matches!(&c.src, Src::Step(r, _) if matches!(**r, Src::Range(_, _)))) {
            return None;
        }
        let (setup, mut guard, item, adv) = match &c.src {
            Src::Step(r, st) if c.par && matches!(**r, Src::Range(_, _)) => {
                let (a, b) = if let Src::Range(a, b) = &**r { (a.clone(), b.clone()) } else { return None };
                self.rules.insert("parallel work items take their turns one after another in an arbitrary order".into());
                let (i, k, p, c, s, e) = (format_ident!("vx_i{}", n), format_ident!("vx_n{}", n), format_ident!("vx_p{}", n), format_ident!("vx_c{}", n), format_ident!("vx_a{}", n), format_ident!("vx_e{}", n));
                let mut st: Vec<Stmt> = vec![
                    parse_quote!(let #s: usize = #a;),
                    parse_quote!(let #e: usize = #b;),
                    parse_quote!(let #c: usize = #st;),
                    parse_quote!(vx_assert(#c != 0);),
                    parse_quote!(let #k: usize = vx_div_ceil(vx_saturating_sub(#e, #s), #c);),
                ];
                let mut item: Expr = parse_quote!(vx_nth(#s, #p[#i], #c, #e));
                if let Some((z, w)) = &c0.zip {
                    let (zm, zw) = (format_ident!("vx_z{}", n), format_ident!("vx_w{}", n));
                    st.push(parse_quote!(let #zm = #z;));
                    st.push(parse_quote!(let #zw: usize = #w;));
                    st.push(parse_quote!(vx_assert(#zw != 0);));
                    st.push(parse_quote!(let #k: usize = vx_min(#k, vx_div_ceil(#zm.len(), #zw));));
                    item = parse_quote!((#item, #zm.vx_part(#p[#i], #zw)));
                    self.rules.insert("zipping with the chunks of a shared mapping pairs item i with chunk i".into());
                }
                st.push(parse_quote!(let #p = vx_perm(#k);));
                st.push(parse_quote!(let mut #i: usize = 0;));
                (st, parse_quote!(#i < #k), item, vec![parse_quote!(#i = #i + 1;)])
            }
            s => self.source(n, s),
        };
        if let Some(g) = extra_guard {
            guard = parse_quote!(#guard && #g);
        }
        let mut b: Vec<Stmt> = self.inv(n);
        match (&c.map, pat) {
            (None, Some(p)) => b.extend(self.bind(n, p, item, c.enumerate)?),
            (Some(m), Some(p)) => {
                // inner mapping
                if let Some((ps, mb)) = closure_parts(m) {
                    b.extend(self.bind(n, ps.first()?, item, c.enumerate)?);
                    b.push(parse_quote!(let #p = #mb;));
                } else {
                    if c.enumerate {
                        return None;
                    }
                    b.push(parse_quote!(let #p = #m(#item);));
                }
            }
            (_, None) => {}
        }
        b.extend(adv);
        b.extend(self.hint(format!("loop {} start", n)));
        b.extend(body);
        b.extend(self.hint(format!("loop {} end", n)));
        let before = self.hint(format!("loop {} before", n));
        let after = self.hint(format!("loop {} after", n));
        Some(parse_quote!({ #(#setup)* #(#pre)* #(#before)* while #guard { #(#b)* } #(#after)* #result }))
    }
    fn sink(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["collect", "fold", "all", "any", "try_for_each", "for_each", "sum"].contains(&name.as_str()) {
            return None;
        }
        let mut c = chain(&m.receiver)?;
        if self.spec.parchunks {
            if let (Src::Chunks(e, w), true) = (&c.src, c.enumerate) {
                c.src = Src::ParChunks(e.clone(), w.clone());
                c.enumerate = false;
            }
        }
        let n = self.n;
        let out = format_ident!("vx_out{}", n);
        let acc = format_ident!("vx_acc{}", n);
        let x: syn::Pat = {
            let id = format_ident!("vx_x{}", n);
            parse_quote!(#id)
        };
        let xe: Expr = {
            let id = format_ident!("vx_x{}", n);
            parse_quote!(#id)
        };
        let r = match name.as_str() {
            "collect" => {
                let fish = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
                if fish.contains("Result") {
                    // only under `?` (checked by the type checker: the block is Result typed and errors return early)
                    let r: Expr = parse_quote!(vx_ok(#out));
                    self.build(n, &c, Some(&x), vec![parse_quote!(let mut #out = Vec::new();)], None, vec![parse_quote!(#out.push(#xe?);)], Some(r))
                } else {
                    self.build(n, &c, Some(&x), vec![parse_quote!(let mut #out = Vec::new();)], None, vec![parse_quote!(#out.push(#xe);)], Some(parse_quote!(#out)))
                }
            }
            "fold" => {
                let init = m.args.first()?.clone();
                let (ps, body) = closure_parts(m.args.iter().nth(1)?)?;
                let (pa, px) = (ps.get(0)?.clone(), ps.get(1)?.clone());
                self.build(
                    n,
                    &c,
                    Some(&px),
                    vec![parse_quote!(let mut #acc = #init;)],
                    None,
                    vec![parse_quote!(let #pa = #acc;), parse_quote!(#acc = #body;)],
                    Some(parse_quote!(#acc)),
                )
            }
            "all" | "any" => {
                let (ps, body) = closure_parts(m.args.first()?)?;
                let p = ps.first()?.clone();
                if name == "all" {
                    self.build(n, &c, Some(&p), vec![parse_quote!(let mut #out: bool = true;)], Some(parse_quote!(#out)), vec![parse_quote!(#out = #body;)], Some(parse_quote!(#out)))
                } else {
                    self.build(n, &c, Some(&p), vec![parse_quote!(let mut #out: bool = false;)], Some(parse_quote!(!#out)), vec![parse_quote!(#out = #body;)], Some(parse_quote!(#out)))
                }
            }
            "try_for_each" => {
                let (ps, body) = closure_parts(m.args.first()?)?;
                let p = ps.first()?.clone();
                self.build(n, &c, Some(&p), vec![], None, vec![parse_quote!(#body?;)], Some(parse_quote!(vx_ok(()))))
            }
            "for_each" => {
                let (ps, body) = closure_parts(m.args.first()?)?;
                let p = ps.first()?.clone();
                self.build(n, &c, Some(&p), vec![], None, vec![parse_quote!(#body;)], None)
            }
            "sum" => self.build(n, &c, Some(&x), vec![parse_quote!(let mut #acc: usize = 0;)], None, vec![parse_quote!(#acc = #acc + #xe;)], Some(parse_quote!(#acc))),
            _ => None,
        };
        if r.is_some() {
            self.rules.insert(format!("iterator chain ending in {} becomes an index loop", name));
        }
        r
    }
}
impl<'a> Loops<'a> {
    /// X.into_iter().map(F) handed to a consumer: evaluated beforehand, with the size hint of X
    fn lazy(&mut self, e: &Expr) -> Option<Expr> {
        if !self.spec.owned {
            return None;
        }
        let m = if let Expr::MethodCall(m) = strip_paren(e) { m } else { return None };
        if m.method != "map" || m.args.len() != 1 {
            return None;
        }
        let mut c = chain(e)?;
        let src = match &c.src {
            Src::Val(s) => s.clone(),
            _ => return None,
        };
        if c.enumerate || c.zip.is_some() {
            return None;
        }
        let n = self.n;
        let (out, q, h, x) = (format_ident!("vx_out{}", n), format_ident!("vx_q{}", n), format_ident!("vx_h{}", n), format_ident!("vx_x{}", n));
        c.src = Src::Val(parse_quote!(#q));
        let p: syn::Pat = parse_quote!(#x);
        let r = self.build(n, &c, Some(&p), vec![parse_quote!(let mut #out = Vec::new();)], None, vec![parse_quote!(#out.push(#x);)], Some(parse_quote!(vx_items(#out, #h))))?;
        self.rules.insert("a mapped iterator handed to a consumer is evaluated beforehand".into());
        if let Expr::Block(mut b) = r {
            b.block.stmts.insert(0, parse_quote!(let #h = #q.size_hint();));
            b.block.stmts.insert(0, parse_quote!(let #q = #src.into_iter();));
            return Some(Expr::Block(b));
        }
        None
    }
}
impl<'a> VisitMut for Loops<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            for a in c.args.iter_mut() {
                if let Some(r) = self.lazy(a) {
                    *a = r;
                }
            }
        }
        match e {
            Expr::ForLoop(f) => {
                if let Some(c) = chain(&f.expr).or_else(|| Some(Chain { src: Src::Val((*f.expr).clone()), par: false, enumerate: false, map: None, zip: None })) {
                    let n = self.n;
                    let pat = (*f.pat).clone();
                    if let Some(r) = self.build(n, &c, Some(&pat), vec![], None, f.body.stmts.clone(), None) {
                        self.rules.insert("for becomes an index loop".into());
                        *e = r;
                        // numbered by the while inside
                    }
                }
            }
            Expr::MethodCall(m) => {
                let mc = m.clone();
                if let Some(r) = self.sink(&mc) {
                    *e = r;
                }
            }
            Expr::While(w) => {
                let n = self.n;
                self.n += 1;
                let already = w.body.stmts.first().map(|s| s.to_token_stream().to_string().starts_with("vx_inv")).unwrap_or(false);
                let generated = w.cond.to_token_stream().to_string().starts_with(&format!("vx_i{} <", n));
                if !already && !generated {
                    let mut b = self.inv(n);
                    b.extend(self.hint(format!("loop {} start", n)));
                    b.extend(std::mem::take(&mut w.body.stmts));
                    b.extend(self.hint(format!("loop {} end", n)));
                    w.body.stmts = b;
                    visit_mut::visit_expr_mut(self, e);
                    let before = self.hint(format!("loop {} before", n));
                    let after = self.hint(format!("loop {} after", n));
                    if !before.is_empty() || !after.is_empty() {
                        let w = e.clone();
                        *e = parse_quote!({ #(#before)* #w #(#after)* });
                    }
                    return;
                }
            }
            Expr::Loop(l) => {
                let n = self.n;
                self.n += 1;
                let mut b = self.inv(n);
                b.extend(self.hint(format!("loop {} start", n)));
                b.extend(std::mem::take(&mut l.body.stmts));
                l.body.stmts = b;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Hints<'a> {
    spec: &'a FnSpec,
    used: BTreeSet<String>,
    marks: usize,
    seen: BTreeMap<String, usize>,
}
fn own_calls(s: &Stmt) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_block(&mut self, _b: &'a syn::Block) {}
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            self.0.insert(m.method.to_string());
            syn::visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.insert(p.path.segments.last().unwrap().ident.to_string());
            }
            syn::visit::visit_expr_call(self, c);
        }
    }
    let mut v = V(BTreeSet::new());
    syn::visit::Visit::visit_stmt(&mut v, s);
    v.0
}
impl<'a> Hints<'a> {
    fn get(&mut self, key: &str) -> Vec<Stmt> {
        let c = self.seen.entry(key.to_string()).or_insert(0);
        *c += 1;
        let k = if *c == 1 { key.to_string() } else { format!("{}#{}", key, c) };
        match self.spec.hints.get(&k) {
            None => vec![],
            Some(t) => {
                self.used.insert(k);
                let id = proc_macro2::Literal::usize_unsuffixed(mark(t, &mut self.marks));
                vec![parse_quote!(vx_hint!(#id);)]
            }
        }
    }
}
pub fn pat_names(p: &syn::Pat) -> Vec<String> {
    match p {
        syn::Pat::Ident(i) => vec![i.ident.to_string()],
        syn::Pat::Type(t) => pat_names(&t.pat),
        syn::Pat::Tuple(t) => t.elems.iter().flat_map(pat_names).collect(),
        _ => vec![],
    }
}
impl<'a> VisitMut for Hints<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let last = stmts.len().saturating_sub(1);
        for (i, mut s) in stmts.into_iter().enumerate() {
            let calls = own_calls(&s);
            for c in calls.iter() {
                let h = self.get(&format!("pre {}", c));
                out.extend(h);
            }
            if matches!(&s, Stmt::Expr(Expr::Return(_), _)) {
                let h = self.get("return");
                out.extend(h);
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            let tail = i == last && matches!(&s, Stmt::Expr(_, None));
            let names = if let Stmt::Local(l) = &s { pat_names(&l.pat) } else { vec![] };
            out.push(s);
            if !tail {
                for c in calls.iter() {
                    let h = self.get(&format!("post {}", c));
                    out.extend(h);
                }
            }
            for n in names {
                let h = self.get(&format!("let {}", n));
                out.extend(h);
            }
            if !tail {
                for c in calls.iter() {
                    let h = self.get(&format!("call {}", c));
                    out.extend(h);
                }
            }
        }
        b.stmts = out;
    }
}

pub fn emit(f: &Found, spec: &FnSpec, force_ext: bool) -> Emit {
    MARKS.with(|m| m.borrow_mut().clear());
    let mut sig = f.sig.clone();
    let mut lost: Option<String> = None;
    let mut rules: BTreeSet<String> = BTreeSet::new();
    fix_generics(&mut sig.generics);
    for (vx_k, a) in sig.inputs.iter_mut().enumerate() {
        if let syn::FnArg::Typed(t) = a {
            if matches!(&*t.pat, syn::Pat::Wild(_)) {
                let n = format_ident!("vx_unused{}", vx_k);
                t.pat = Box::new(parse_quote!(#n));
            }
        }
        if let syn::FnArg::Typed(t) = a {
            t.attrs.clear();
            fix_type(&mut t.ty);
        }
    }
    if let syn::ReturnType::Type(_, t) = &mut sig.output {
        fix_type(t);
    }
    let name = spec.name_as.clone().unwrap_or_else(|| sig.ident.to_string());
    let mut head = String::new();
    for a in &spec.attrs {
        head.push_str(a);
        head.push('\n');
    }
    let external = force_ext || spec.trusted;
    let is_sig = spec.sig_only;
    let mut nloops = 0;
    let mut body_text = String::new();
    if !is_sig {
        match f.block.clone() {
            None => {
                lost = Some("the function has no body".into());
            }
            Some(mut block) => {
                let mut nm = Norm { rules: BTreeSet::new(), locks: BTreeMap::new(), lost: None, mapped: BTreeSet::new(), mapfile: parse_quote!(self.file), resized: BTreeSet::new(), method: sig.receiver().is_some() };
                prescan(&block, &mut nm.mapped, &mut nm.resized);
                nm.visit_block_mut(&mut block);
                let mut lp = Loops { n: 0, spec, rules: BTreeSet::new(), used: BTreeSet::new(), marks: 0, refs: BTreeSet::new() };
                for a in sig.inputs.iter() {
                    if let syn::FnArg::Typed(t) = a {
                        if let (syn::Pat::Ident(i), syn::Type::Reference(_)) = (&*t.pat, &*t.ty) {
                            lp.refs.insert(i.ident.to_string());
                        }
                    }
                }
                lp.visit_block_mut(&mut block);
                nloops = lp.n;
                let mut hv = Hints { spec, used: BTreeSet::new(), marks: lp.marks, seen: BTreeMap::new() };
                hv.visit_block_mut(&mut block);
                let mut used: BTreeSet<String> = lp.used.clone();
                used.extend(hv.used.clone());
                let mut marks = hv.marks;
                if let Some(t) = spec.hints.get("start") {
                    used.insert("start".into());
                    let id = proc_macro2::Literal::usize_unsuffixed(mark(t, &mut marks));
                    block.stmts.insert(0, parse_quote!(vx_hint!(#id);));
                }
                if let Some(t) = spec.hints.get("ret") {
                    used.insert("ret".into());
                    let id = proc_macro2::Literal::usize_unsuffixed(mark(t, &mut marks));
                    let tail = matches!(block.stmts.last(), Some(Stmt::Expr(_, None)) | Some(Stmt::Expr(Expr::Return(_), _)));
                    let tail = tail || block.stmts.last().map(|s| s.to_token_stream().to_string().starts_with("vx_panic")).unwrap_or(false);
                    let at = if tail { block.stmts.len() - 1 } else { block.stmts.len() };
                    block.stmts.insert(at, parse_quote!(vx_hint!(#id);));
                }
                for k in spec.hints.keys() {
                    if !used.contains(k) {
                        lost = Some(format!("no place for the annotation '{}'", k));
                    }
                }
                for k in spec.loops.keys() {
                    if !used.contains(&format!("loop {}", k)) {
                        lost = Some(format!("no loop number {}", k));
                    }
                }
                if nloops > spec.loops.len() && spec.nloops != Some(nloops) {
                    lost = Some(format!("{} loops where {} are annotated", nloops, spec.loops.len()));
                }
                if nm.lost.is_some() {
                    lost = nm.lost.clone();
                }
                rules.extend(nm.rules);
                rules.extend(lp.rules);
                body_text = print_tokens(block.to_token_stream());
            }
        }
    }
    let ext = external || lost.is_some();
    if ext && !is_sig {
        head.push_str("#[verifier::external_body]\n");
        body_text = "{ unimplemented!() }\n".into();
    }
    let vis = if spec.nopub || f.in_trait_impl { "" } else { "pub " };
    let gen = {
        let (_, _, _) = sig.generics.split_for_impl();
        let mut g = sig.generics.clone();
        g.where_clause = None;
        print_tokens(g.to_token_stream())
    };
    // an unused `mut` parameter marker stays as written
    let inputs = print_tokens(sig.inputs.to_token_stream());
    let out = match &sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.ret, print_tokens(t.to_token_stream()).trim()),
    };
    let wh = sig.generics.where_clause.as_ref().map(|w| print_tokens(w.to_token_stream())).unwrap_or_default();
    let mut text = format!("{}{}fn {}{}({}){}\n{}{}\n", head, vis, name, gen.trim(), inputs.trim(), out, if wh.is_empty() { String::new() } else { wh + "\n" }, spec.spec.trim_end());
    if is_sig {
        text = text.trim_end().to_string() + ";\n";
    } else {
        text.push_str(&body_text);
        text.push('\n');
    }
    for (a, b) in &spec.subst {
        if !text.contains(a.as_str()) && lost.is_none() && !ext {
            lost = Some(format!("nothing to substitute for '{}'", a));
        }
        text = text.replace(a.as_str(), b);
    }
    Emit { text, nloops, rules: rules.into_iter().collect(), lost }
}
