//! New helper functions, constants and local closures that a refactoring introduced are put back where they are
//! used, so that the contract of the function covers them.  "New" means: no function of that name existed in the
//! source when the baseline was written, and no contract names it.  Inlining keeps the meaning: arguments are
//! evaluated once, in order, before the body; early returns become branches; `?` and error returns stay returns of
//! the caller only where the call itself was followed by `?` or was the caller's result.
use crate::find::{Found, Helper};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Ctx<'a> {
    pub helpers: &'a [Helper],
    pub consts: &'a BTreeMap<String, (String, Expr)>,
    pub known: &'a BTreeSet<String>,
    pub old: &'a BTreeSet<String>,
    pub ty: String,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Plain,
    Try,
    Tail,
}

struct Inl<'a> {
    cx: &'a Ctx<'a>,
    done: Vec<String>,
    stack: Vec<String>,
    names: BTreeSet<String>,
    ctr: usize,
    result_fn: bool,
}

/// every identifier in the text
pub fn idents(ts: proc_macro2::TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}
fn ident_set<T: ToTokens>(x: &T) -> BTreeSet<String> {
    let mut v = vec![];
    idents(x.to_token_stream(), &mut v);
    v.into_iter().collect()
}
/// names bound by patterns, in order of appearance
pub fn binders(sig: Option<&syn::Signature>, b: &syn::Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            let n = p.ident.to_string();
            if n.chars().next().map(|c| c.is_lowercase() || c == '_').unwrap_or(false) && n != "self" {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, p);
        }
        fn visit_item(&mut self, _i: &'a syn::Item) {}
    }
    let mut v = V(vec![]);
    if let Some(s) = sig {
        for a in s.inputs.iter() {
            if let syn::FnArg::Typed(t) = a {
                v.visit_pat(&t.pat);
            }
        }
    }
    v.visit_block(b);
    v.0
}
/// `return`s (with their values), `?` and error macros outside closures
#[derive(Default)]
struct Exits {
    ret_other: usize,
    ret_err: usize,
    tries: usize,
    macs: usize,
    loops: usize,
}
fn is_err(e: &Expr) -> bool {
    matches!(e, Expr::Call(c) if c.func.to_token_stream().to_string() == "Err")
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        match &r.expr {
            Some(e) if is_err(e) => self.ret_err += 1,
            _ => self.ret_other += 1,
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tries += 1;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n == "ensure" || n == "bail" {
            self.macs += 1;
        }
        let mut v = vec![];
        for t in m.tokens.clone() {
            v.push(t.to_string());
        }
        if v.iter().any(|t| t == "?") || ident_set(&m.tokens).contains("return") {
            self.tries += 1;
        }
    }
    fn visit_expr_closure(&mut self, _c: &'a syn::ExprClosure) {}
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.loops += 1;
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.loops += 1;
        syn::visit::visit_expr_while(self, l);
    }
}
fn exits_b(b: &syn::Block) -> Exits {
    let mut e = Exits::default();
    e.visit_block(b);
    e
}
fn exits_s(s: &Stmt) -> Exits {
    let mut e = Exits::default();
    e.visit_stmt(s);
    e
}
fn diverges(b: &syn::Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges_e(e),
        Some(Stmt::Macro(m)) => div_mac(&m.mac),
        _ => false,
    }
}
fn div_mac(m: &syn::Macro) -> bool {
    ["bail", "panic", "unreachable", "unimplemented"].iter().any(|n| m.path.is_ident(n))
}
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Macro(m) => div_mac(&m.mac),
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => diverges(&i.then_branch) && i.else_branch.as_ref().map(|x| diverges_e(&x.1)).unwrap_or(false),
        Expr::Match(m) => m.arms.iter().all(|a| diverges_e(&a.body)),
        _ => false,
    }
}
/// returns that must become branches: all of them, or those that are not errors
fn bad(s: &Stmt, all: bool) -> bool {
    let e = exits_s(s);
    e.ret_other > 0 || (all && (e.ret_err > 0 || e.macs > 0))
}
fn as_block(e: &Expr) -> syn::Block {
    match e {
        Expr::Block(b) => b.block.clone(),
        e => parse_quote!({ #e }),
    }
}
/// statements whose early returns are branches and whose last expression is the value; None if out of reach
fn structure(stmts: Vec<Stmt>, all: bool) -> Option<Vec<Stmt>> {
    let mut out: Vec<Stmt> = vec![];
    let n = stmts.len();
    for i in 0..n {
        let s = &stmts[i];
        let last = i + 1 == n;
        if let Stmt::Expr(Expr::Return(r), _) = s {
            if all || !r.expr.as_ref().map(|e| is_err(e)).unwrap_or(false) {
                let v: Expr = r.expr.as_ref().map(|e| (**e).clone()).unwrap_or_else(|| parse_quote!(()));
                out.push(Stmt::Expr(v, None));
                return Some(out);
            }
        }
        if !bad(s, all) {
            out.push(s.clone());
            continue;
        }
        let rest: Vec<Stmt> = stmts[i + 1..].to_vec();
        let join = |b: syn::Block, used: &mut bool| -> Option<syn::Block> {
            let mut v = b.stmts.clone();
            if !diverges(&b) {
                if last {
                } else {
                    if *used && rest.iter().any(|s| exits_s(s).loops > 0) {
                        return None;
                    }
                    *used = true;
                    // a value of type unit in statement position
                    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                    v.extend(rest.clone());
                }
            }
            let v = structure(v, all)?;
            Some(syn::Block { brace_token: Default::default(), stmts: v })
        };
        let mut used = false;
        match s {
            Stmt::Macro(m) if m.mac.path.is_ident("ensure") => {
                let a = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
                let c = a.first()?;
                let b: syn::Block = syn::Block { brace_token: Default::default(), stmts: structure(rest.clone(), all)? };
                out.push(Stmt::Expr(parse_quote!(if !(#c) { Err(anyhow!("")) } else #b), None));
                return Some(out);
            }
            Stmt::Macro(m) if m.mac.path.is_ident("bail") => {
                out.push(Stmt::Expr(parse_quote!(Err(anyhow!(""))), None));
                return Some(out);
            }
            Stmt::Expr(Expr::If(f), _) => {
                if !exits_clean(&f.cond) {
                    return None;
                }
                let t = join(f.then_branch.clone(), &mut used)?;
                let e = match &f.else_branch {
                    Some(x) => join(as_block(&x.1), &mut used)?,
                    None => join(parse_quote!({}), &mut used)?,
                };
                let c = &f.cond;
                out.push(Stmt::Expr(parse_quote!(if #c #t else #e), None));
                return Some(out);
            }
            Stmt::Expr(Expr::Match(m), _) => {
                if !exits_clean(&m.expr) {
                    return None;
                }
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let b = join(as_block(&a.body), &mut used)?;
                    a.body = Box::new(parse_quote!(#b));
                    a.comma = Some(Default::default());
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return Some(out);
            }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                let (_, d) = init.diverge.as_ref()?;
                if !exits_clean(&init.expr) {
                    return None;
                }
                let (p, e) = (&l.pat, &init.expr);
                let d = syn::Block { brace_token: Default::default(), stmts: structure(as_block(d).stmts, all)? };
                let b = syn::Block { brace_token: Default::default(), stmts: structure(rest.clone(), all)? };
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #b, _ => #d, }), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}
fn exits_clean(e: &Expr) -> bool {
    let mut x = Exits::default();
    x.visit_expr(e);
    x.ret_err + x.ret_other + x.macs == 0
}
/// the value of a fallible body as the value after `?`
fn unwrap_tail(b: &mut syn::Block) -> Option<()> {
    match b.stmts.last_mut() {
        Some(Stmt::Expr(e, None)) => unwrap_e(e),
        Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.as_ref().map(|e| is_err(e)).unwrap_or(false) => Some(()),
        Some(Stmt::Macro(m)) if div_mac(&m.mac) => Some(()),
        _ => None,
    }
}
fn unwrap_e(e: &mut Expr) -> Option<()> {
    match e {
        Expr::Call(c) if c.func.to_token_stream().to_string() == "Ok" && c.args.len() == 1 => {
            *e = c.args[0].clone();
            Some(())
        }
        Expr::Call(c) if c.func.to_token_stream().to_string() == "Err" => {
            *e = parse_quote!(return #c);
            Some(())
        }
        Expr::Return(_) => Some(()),
        Expr::Macro(m) if div_mac(&m.mac) => Some(()),
        Expr::Block(b) => unwrap_tail(&mut b.block),
        Expr::If(i) => {
            unwrap_tail(&mut i.then_branch)?;
            unwrap_e(&mut i.else_branch.as_mut()?.1)
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                unwrap_e(&mut a.body)?;
            }
            Some(())
        }
        x => {
            *x = parse_quote!(#x?);
            Some(())
        }
    }
}

/// replaces a variable by an expression; `place` when the variable stood for a reference to the expression
struct Subst {
    name: String,
    with: Expr,
    refkind: Option<bool>,
    ok: bool,
}
impl Subst {
    fn is(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.is_ident(&self.name))
    }
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.refkind.is_some() {
            match e {
                Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) && self.is(&u.expr) => {
                    *e = self.with.clone();
                    return;
                }
                Expr::MethodCall(m) if self.is(&m.receiver) => {
                    *m.receiver = self.with.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Field(f) if self.is(&f.base) => {
                    *f.base = self.with.clone();
                    return;
                }
                Expr::Index(f) if self.is(&f.expr) => {
                    *f.expr = self.with.clone();
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
                _ => {}
            }
        }
        if self.is(e) {
            let w = &self.with;
            *e = match self.refkind {
                None => self.with.clone(),
                Some(false) => parse_quote!((&#w)),
                Some(true) => parse_quote!((&mut #w)),
            };
            return;
        }
        if let Expr::Assign(a) = e {
            if self.is(&a.left) && self.refkind.is_some() {
                self.ok = false;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        on_macro(m, |e| self.visit_expr_mut(e));
    }
}
/// the arguments of a macro, when they are expressions
pub fn on_macro(m: &mut syn::Macro, mut f: impl FnMut(&mut Expr)) {
    if let Ok(mut a) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
        for e in a.iter_mut() {
            f(e);
        }
        m.tokens = a.to_token_stream();
    } else {
        let ts = m.tokens.clone();
        if let Ok(mut r) = syn::parse2::<syn::ExprRepeat>(quote::quote!([#ts])) {
            f(&mut r.expr);
            f(&mut r.len);
            let (a, n) = (&r.expr, &r.len);
            m.tokens = quote::quote!(#a; #n);
        }
    }
}
fn simple_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple_place(&f.base),
        Expr::Paren(p) => simple_place(&p.expr),
        _ => false,
    }
}
fn root_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => root_ident(&f.base),
        Expr::Paren(p) => root_ident(&p.expr),
        _ => None,
    }
}

impl<'a> Inl<'a> {
    fn target(&self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        let (name, recv, args, qual) = match e {
            Expr::MethodCall(m) => (m.method.to_string(), Some((*m.receiver).clone()), m.args.iter().cloned().collect::<Vec<_>>(), None),
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let q = p.path.segments.iter().rev().nth(1).map(|s| s.ident.to_string());
                    (p.path.segments.last()?.ident.to_string(), None, c.args.iter().cloned().collect(), q)
                }
                _ => return None,
            },
            _ => return None,
        };
        if self.cx.known.contains(&name) || self.cx.old.contains(&name) || self.stack.contains(&name) || self.stack.len() > 4 {
            return None;
        }
        let ty = match &qual {
            Some(q) if q == "Self" => self.cx.ty.clone(),
            Some(q) => q.clone(),
            None => self.cx.ty.clone(),
        };
        let all: Vec<&Helper> = self.cx.helpers.iter().filter(|h| h.name == name).collect();
        let h = match all.len() {
            0 => return None,
            1 => all[0],
            _ => {
                let v: Vec<&&Helper> = all.iter().filter(|h| h.ty == ty).collect();
                if v.len() != 1 {
                    return None;
                }
                *v[0]
            }
        };
        let has = h.found.sig.receiver().is_some();
        let (recv, args) = match (has, recv) {
            (true, Some(r)) => (Some(r), args),
            (true, None) => {
                let mut a = args;
                if a.is_empty() {
                    return None;
                }
                let mut r = a.remove(0);
                if let Expr::Reference(x) = &r {
                    r = (*x.expr).clone();
                }
                (Some(r), a)
            }
            (false, None) => (None, args),
            (false, Some(_)) => return None,
        };
        if args.len() + has as usize != h.found.sig.inputs.len() {
            return None;
        }
        Some((h.clone(), recv, args))
    }
    /// (bindings and statements, value)
    fn expand(&mut self, e: &Expr, mode: Mode) -> Option<(Vec<Stmt>, Option<Expr>)> {
        let (h, recv, args) = self.target(e)?;
        let f: &Found = &h.found;
        let mut b = f.block.clone()?;
        // type parameters of the helper must not be needed in its body, unless they are the caller's own names
        let own: BTreeSet<String> = f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if !own.is_empty() && ident_set(&b).intersection(&own).next().is_some() {
            return None;
        }
        let bound: BTreeSet<String> = binders(None, &b).into_iter().collect();
        let mut lets: Vec<(syn::Pat, Expr)> = vec![];
        if let Some(r) = recv {
            let byref = f.sig.receiver().map(|r| r.reference.is_some()).unwrap_or(false);
            let isself = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !isself {
                let mutable = f.sig.receiver().map(|r| r.mutability.is_some()).unwrap_or(false);
                let ok = simple_place(&r) && root_ident(&r).map(|n| !bound.contains(&n)).unwrap_or(false);
                let mut s = if ok {
                    Subst { name: "self".into(), with: r, refkind: if byref { Some(mutable) } else { None }, ok: true }
                } else {
                    if mutable && byref {
                        return None;
                    }
                    self.ctr += 1;
                    let n = format_ident!("vx_self{}", self.ctr);
                    lets.push((parse_quote!(#n), if byref { parse_quote!(&#r) } else { r }));
                    Subst { name: "self".into(), with: parse_quote!(#n), refkind: None, ok: true }
                };
                s.visit_block_mut(&mut b);
            }
        }
        let params: Vec<syn::PatType> = f.sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(t) = a { Some(t.clone()) } else { None }).collect();
        for (p, a) in params.iter().zip(args.iter()) {
            let name = match &*p.pat {
                syn::Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none() => Some(i.ident.to_string()),
                _ => None,
            };
            let shadowed = name.as_ref().map(|n| bound.contains(n)).unwrap_or(true);
            if let (Some(n), false) = (&name, shadowed) {
                match a {
                    Expr::Path(q) if q.path.get_ident().map(|i| i == n).unwrap_or(false) => continue,
                    Expr::Path(q) if q.path.get_ident().map(|i| !bound.contains(&i.to_string()) && !params.iter().any(|x| ident_set(&x.pat).contains(&i.to_string()))).unwrap_or(false) => {
                        Subst { name: n.clone(), with: a.clone(), refkind: None, ok: true }.visit_block_mut(&mut b);
                        continue;
                    }
                    Expr::Reference(r) if simple_place(&r.expr) && root_ident(&r.expr).map(|i| !bound.contains(&i) && (i == *n && params.len() == 1 || !params.iter().any(|x| ident_set(&x.pat).contains(&i)))).unwrap_or(false) => {
                        let mut s = Subst { name: n.clone(), with: (*r.expr).clone(), refkind: Some(r.mutability.is_some()), ok: true };
                        s.visit_block_mut(&mut b);
                        if !s.ok {
                            return None;
                        }
                        continue;
                    }
                    _ => {}
                }
            }
            if matches!(a, Expr::Reference(r) if r.mutability.is_some()) {
                return None;
            }
            lets.push(((*p.pat).clone(), a.clone()));
        }
        // the value and the exits
        let value_mode = match mode {
            Mode::Tail => true,
            Mode::Try => {
                b.stmts = structure(b.stmts, false)?;
                if exits_b(&b).ret_other > 0 {
                    return None;
                }
                unwrap_tail(&mut b)?;
                true
            }
            Mode::Plain => {
                b.stmts = structure(b.stmts, true)?;
                let x = exits_b(&b);
                x.ret_other + x.ret_err + x.tries + x.macs == 0
            }
        };
        if !value_mode {
            return None;
        }
        self.stack.push(h.name.clone());
        self.done.push(h.name.clone());
        let tail = mode == Mode::Tail;
        self.block(&mut b, tail);
        self.stack.pop();
        let mut out: Vec<Stmt> = vec![];
        let names: BTreeSet<String> = lets.iter().flat_map(|l| ident_set(&l.0)).collect();
        let cross = lets.len() > 1 && lets.iter().skip(1).any(|l| ident_set(&l.1).intersection(&names).next().is_some());
        if cross {
            let (p, a): (Vec<_>, Vec<_>) = lets.into_iter().unzip();
            out.push(parse_quote!(let (#(#p),*) = (#(#a),*);));
        } else {
            for (p, a) in lets {
                out.push(parse_quote!(let #p = #a;));
            }
        }
        let mut v = None;
        let mut st = b.stmts;
        if let Some(Stmt::Expr(_, None)) = st.last() {
            if let Some(Stmt::Expr(e, None)) = st.pop() {
                v = Some(e);
            }
        }
        out.extend(st);
        Some((out, v))
    }
    fn try_any(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Option<Expr>)> {
        match e {
            Expr::Try(t) if self.result_fn => {
                let mut inner = &*t.expr;
                while let Expr::MethodCall(m) = inner {
                    if m.method == "context" || m.method == "with_context" {
                        inner = &*m.receiver;
                    } else {
                        break;
                    }
                }
                if let Expr::Paren(p) = inner {
                    inner = &*p.expr;
                }
                self.target(inner)?;
                self.expand(inner, Mode::Try)
            }
            e => {
                self.target(e)?;
                self.expand(e, Mode::Plain)
            }
        }
    }
    fn block(&mut self, b: &mut syn::Block, tail: bool) {
        let n = b.stmts.len();
        let mut out: Vec<Stmt> = vec![];
        for (i, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let last = i + 1 == n;
            // hoisted into the statement list
            if let Stmt::Local(l) = &mut s {
                if let Some(init) = &mut l.init {
                    if init.diverge.is_none() {
                        let mut e = (*init.expr).clone();
                        self.args(&mut e);
                        if let Some((st, v)) = self.try_any(&e) {
                            let v = v.unwrap_or_else(|| parse_quote!(()));
                            let pn: BTreeSet<String> = crate::xform::pat_names(&l.pat).into_iter().collect();
                            let fresh = st_binders(&st);
                            if fresh.iter().all(|x| pn.contains(x) || !self.names.contains(x)) {
                                self.names.extend(fresh);
                                out.extend(st);
                                out.extend(assign(&l.pat, v));
                            } else {
                                init.expr = Box::new(parse_quote!({ #(#st)* #v }));
                                out.push(s);
                            }
                            continue;
                        }
                        init.expr = Box::new(e);
                    }
                }
            }
            if let Stmt::Expr(e, semi) = &mut s {
                if last && semi.is_none() && tail {
                    self.args(e);
                    if self.target(e).is_some() {
                        if let Some((st, v)) = self.expand(&e.clone(), Mode::Tail) {
                            *e = block_of(st, v);
                            out.push(s);
                            continue;
                        }
                    }
                } else if let Some((st, v)) = {
                    self.args(e);
                    self.try_any(&e.clone())
                } {
                    let fresh = st_binders(&st);
                    if semi.is_some() && fresh.iter().all(|x| !self.names.contains(x)) {
                        self.names.extend(fresh);
                        out.extend(st);
                        if let Some(v) = v {
                            out.push(parse_quote!(#v;));
                        }
                    } else {
                        *e = block_of(st, v);
                        out.push(s);
                    }
                    continue;
                }
                if last && semi.is_none() && tail {
                    self.tail(e);
                    out.push(s);
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn args(&mut self, e: &mut Expr) {
        match e {
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Try(t) => self.args(&mut t.expr),
            _ => {}
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.block(&mut i.then_branch, true);
                if let Some(x) = &mut i.else_branch {
                    self.tail(&mut x.1);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(b) => self.block(&mut b.block, true),
            e => {
                self.args(e);
                if self.target(e).is_some() {
                    if let Some((st, v)) = self.expand(&e.clone(), Mode::Tail) {
                        *e = block_of(st, v);
                        return;
                    }
                }
                self.visit_expr_mut(e);
            }
        }
    }
}
fn block_of(st: Vec<Stmt>, v: Option<Expr>) -> Expr {
    let mut stmts = st;
    if let Some(v) = v {
        stmts.push(Stmt::Expr(v, None));
    }
    if let [Stmt::Expr(e, None)] = &stmts[..] {
        if !matches!(e, Expr::Block(_)) {
            return parse_quote!((#e));
        }
    }
    let b = syn::Block { brace_token: Default::default(), stmts };
    parse_quote!(#b)
}
fn st_binders(st: &[Stmt]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for x in st {
        if let Stmt::Local(l) = x {
            s.extend(crate::xform::pat_names(&l.pat));
        }
    }
    s
}
/// `let PAT = VALUE;`, a tuple of values taken apart
fn assign(p: &syn::Pat, v: Expr) -> Vec<Stmt> {
    if let (syn::Pat::Tuple(t), Expr::Tuple(x)) = (p, &v) {
        if t.elems.len() == x.elems.len() {
            let names: Vec<BTreeSet<String>> = t.elems.iter().map(|e| ident_set(e)).collect();
            let clash = x.elems.iter().enumerate().any(|(i, e)| names[..i].iter().enumerate().any(|(j, n)| ident_set(e).intersection(n).next().is_some() && ident_set(&x.elems[j]) != *n));
            if !clash {
                return t.elems.iter().zip(x.elems.iter()).flat_map(|(p, e)| assign(p, e.clone())).collect();
            }
        }
    }
    if let (syn::Pat::Ident(i), Expr::Path(q)) = (p, &v) {
        if i.mutability.is_none() && q.path.is_ident(&i.ident) {
            return vec![];
        }
    }
    vec![parse_quote!(let #p = #v;)]
}
impl<'a> VisitMut for Inl<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.block(b, false);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        let keep = self.result_fn;
        self.result_fn = false;
        // the body of a closure is a scope of its own; its own `?` stays inside
        visit_mut::visit_expr_closure_mut(self, c);
        self.result_fn = keep;
    }
    fn visit_expr_return_mut(&mut self, r: &mut syn::ExprReturn) {
        if let Some(e) = &mut r.expr {
            self.args(e);
            if self.target(e).is_some() {
                if let Some((st, v)) = self.expand(&(**e).clone(), Mode::Tail) {
                    **e = block_of(st, v);
                    return;
                }
            }
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some((ty, v)) = self.cx.consts.get(&i.to_string()) {
                    if !self.cx.old.contains(&format!("const:{}", i)) {
                        self.done.push(format!("const {}", i));
                        *e = match v {
                            Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) if n.suffix().is_empty() => {
                                let l = syn::LitInt::new(&format!("{}{}", n.base10_digits(), ty), n.span());
                                parse_quote!(#l)
                            }
                            v => parse_quote!((#v)),
                        };
                        return;
                    }
                }
            }
        }
        if let Some((st, v)) = self.try_any(&e.clone()) {
            *e = block_of(st, v);
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        let ids = ident_set(&m.tokens);
        let hit = self.cx.helpers.iter().any(|h| ids.contains(&h.name) && !self.cx.known.contains(&h.name) && !self.cx.old.contains(&h.name))
            || self.cx.consts.keys().any(|c| ids.contains(c) && !self.cx.old.contains(&format!("const:{}", c)));
        if hit {
            on_macro(m, |e| self.visit_expr_mut(e));
        }
    }
}

/// `let f = |a, b| body;` used only in calls `f(x, y)` becomes the body at each call
struct Closures {
    name: String,
    pats: Vec<syn::Pat>,
    body: Expr,
}
impl VisitMut for Closures {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(&self.name)) && c.args.len() == self.pats.len() {
                let (p, a, b) = (&self.pats, c.args.iter().collect::<Vec<_>>(), &self.body);
                *e = match p.len() {
                    0 => parse_quote!((#b)),
                    1 => {
                        let (p, a) = (&p[0], a[0]);
                        parse_quote!({ let #p = #a; #b })
                    }
                    _ => parse_quote!({ let (#(#p),*) = (#(#a),*); #b }),
                };
            }
        }
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        if ident_set(&m.tokens).contains(&self.name) {
            on_macro(m, |e| self.visit_expr_mut(e));
        }
    }
}
fn closures(b: &mut syn::Block, done: &mut Vec<String>) {
    let mut i = 0;
    while i < b.stmts.len() {
        if let Stmt::Local(l) = &b.stmts[i] {
            if let (syn::Pat::Ident(n), Some(init)) = (&l.pat, &l.init) {
                if let Expr::Closure(c) = &*init.expr {
                    let name = n.ident.to_string();
                    let mut x = Exits::default();
                    x.visit_expr(&c.body);
                    let pats: Vec<syn::Pat> = c.inputs.iter().map(|p| if let syn::Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect();
                    let free: BTreeSet<String> = ident_set(&c.body).into_iter().collect();
                    let all = binders(None, b);
                    let inside: Vec<String> = pats.iter().flat_map(|p| ident_set(p)).collect();
                    let once = free.iter().all(|f| inside.contains(f) || all.iter().filter(|a| *a == f).count() <= 1);
                    let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                    let mut total = vec![];
                    for s in &rest {
                        idents(s.to_token_stream(), &mut total);
                    }
                    let uses = total.iter().filter(|t| **t == name).count();
                    let mut cl = Closures { name: name.clone(), pats, body: (*c.body).clone() };
                    if c.capture.is_none() && once && uses > 0 && x.ret_err + x.ret_other + x.tries + x.macs == 0 && !free.contains(&name) {
                        for s in rest.iter_mut() {
                            cl.visit_stmt_mut(s);
                        }
                        let mut left = vec![];
                        for s in &rest {
                            idents(s.to_token_stream(), &mut left);
                        }
                        if !left.contains(&name) {
                            b.stmts.truncate(i);
                            b.stmts.extend(rest);
                            done.push(format!("closure {}", name));
                            continue;
                        }
                    }
                }
            }
        }
        i += 1;
    }
}

pub fn apply(f: &Found, cx: &Ctx) -> (Found, Vec<String>) {
    let mut g = f.clone();
    let mut done = vec![];
    if let Some(b) = &mut g.block {
        closures(b, &mut done);
        let result_fn = f.sig.output.to_token_stream().to_string().replace(' ', "").starts_with("->Result");
        let mut names: BTreeSet<String> = ident_set(&f.sig);
        names.extend(ident_set(b));
        let mut v = Inl { cx, done: vec![], stack: vec![], names, ctr: 0, result_fn };
        v.block(b, true);
        done.extend(v.done);
    }
    (g, done)
}
