use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct Found {
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub line: usize,
    pub in_trait_impl: bool,
}

fn last_ident(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => last_ident(&r.elem),
        _ => t.to_token_stream().to_string().replace(' ', ""),
    }
}

/// PATH ::= name | Type::name | Trait for Type::name | trait Trait::name | macro M(a,b,..) <PATH>
pub fn find_fn(f: &syn::File, path: &str) -> Option<Found> {
    if let Some(rest) = path.strip_prefix("macro ") {
        let o = rest.find('(')?;
        let c = rest.find(')')?;
        let items = expand_macro(f, &rest[..o], &rest[o + 1..c])?;
        return find_in(&items, rest[c + 1..].trim());
    }
    // FUNCTION@FIELD: the closure given to FIELD in a struct literal of FUNCTION, typed by the field's fn type
    if let Some((outer, field)) = path.split_once('@') {
        let g = find_in(&f.items, outer)?;
        let c = field_closure(g.block.as_ref()?, field)?;
        let bare = field_fn_type(f, field)?;
        let mut inputs: syn::punctuated::Punctuated<syn::FnArg, syn::Token![,]> = Default::default();
        if c.inputs.len() != bare.inputs.len() {
            return None;
        }
        for (p, b) in c.inputs.iter().zip(bare.inputs.iter()) {
            let (pat, ty) = match p {
                syn::Pat::Type(t) => ((*t.pat).clone(), (*t.ty).clone()),
                p => (p.clone(), b.ty.clone()),
            };
            inputs.push(syn::parse_quote!(#pat: #ty));
        }
        let out = &bare.output;
        let name = quote::format_ident!("vx_{}", field);
        let mut sig: syn::Signature = syn::parse_quote!(fn #name() #out);
        sig.inputs = inputs;
        let body = &c.body;
        let block: syn::Block = match &*c.body {
            syn::Expr::Block(b) => b.block.clone(),
            _ => syn::parse_quote!({ #body }),
        };
        return Some(Found { sig, block: Some(block), line: c.span().start().line, in_trait_impl: false });
    }
    find_in(&f.items, path)
}
fn field_closure(b: &syn::Block, field: &str) -> Option<syn::ExprClosure> {
    struct V<'a>(&'a str, Option<syn::ExprClosure>);
    impl<'a, 'b> syn::visit::Visit<'b> for V<'a> {
        fn visit_field_value(&mut self, v: &'b syn::FieldValue) {
            if let (syn::Member::Named(n), syn::Expr::Closure(c)) = (&v.member, &v.expr) {
                if n == self.0 && self.1.is_none() {
                    self.1 = Some(c.clone());
                }
            }
            syn::visit::visit_field_value(self, v);
        }
    }
    let mut v = V(field, None);
    syn::visit::Visit::visit_block(&mut v, b);
    v.1
}
fn field_fn_type(f: &syn::File, field: &str) -> Option<syn::TypeBareFn> {
    for it in &f.items {
        if let syn::Item::Struct(s) = it {
            for fl in s.fields.iter() {
                if let (Some(n), syn::Type::BareFn(b)) = (&fl.ident, &fl.ty) {
                    if n == field {
                        return Some(b.clone());
                    }
                }
            }
        }
    }
    None
}

fn find_in(items: &[syn::Item], path: &str) -> Option<Found> {
    if let Some(rest) = path.strip_prefix("trait ") {
        let (tn, name) = rest.split_once("::")?;
        for it in items {
            if let syn::Item::Trait(t) = it {
                if t.ident == tn {
                    for m in &t.items {
                        if let syn::TraitItem::Fn(m) = m {
                            if m.sig.ident == name {
                                return Some(Found { sig: m.sig.clone(), block: m.default.clone(), line: m.sig.span().start().line, in_trait_impl: true });
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    let (tr, tyname) = match path.split_once(" for ") {
        Some((a, b)) => (Some(a.trim().to_string()), b.trim()),
        None => (None, path),
    };
    match tyname.rsplit_once("::") {
        None => {
            for it in items {
                if let syn::Item::Fn(m) = it {
                    if m.sig.ident == tyname {
                        return Some(Found { sig: m.sig.clone(), block: Some((*m.block).clone()), line: m.sig.span().start().line, in_trait_impl: false });
                    }
                }
            }
            None
        }
        Some((ty, name)) => {
            // the type as written first (it tells `&'a T` from `T`), then its last path segment
            for exact in [true, false] {
                for it in items {
                    if let syn::Item::Impl(im) = it {
                        let want = ty.replace(' ', "");
                        let full = im.self_ty.to_token_stream().to_string().replace(' ', "");
                        if (exact && full != want) || (!exact && last_ident(&im.self_ty) != want) {
                            continue;
                        }
                        let itr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                        if itr != tr {
                            continue;
                        }
                        for m in &im.items {
                            if let syn::ImplItem::Fn(m) = m {
                                if m.sig.ident == name {
                                    return Some(Found { sig: m.sig.clone(), block: Some(m.block.clone()), line: m.sig.span().start().line, in_trait_impl: tr.is_some() });
                                }
                            }
                        }
                    }
                }
            }
            None
        }
    }
}

/// functions of the source that a refactoring may have introduced
#[derive(Clone)]
pub struct Helper {
    pub name: String,
    /// the type or trait it belongs to, empty for a free function
    pub ty: String,
    pub found: Found,
}
pub fn helpers(f: &syn::File, path: Option<&str>) -> Vec<Helper> {
    let mut m = vec![];
    let mut items: Vec<syn::Item> = f.items.clone();
    if let Some(rest) = path.and_then(|p| p.strip_prefix("macro ")) {
        if let (Some(o), Some(c)) = (rest.find('('), rest.find(')')) {
            if let Some(more) = expand_macro(f, &rest[..o], &rest[o + 1..c]) {
                items.extend(more);
            }
        }
    }
    let mk = |sig: &syn::Signature, b: &syn::Block, ty: String, tr: bool| Helper {
        name: sig.ident.to_string(),
        ty,
        found: Found { sig: sig.clone(), block: Some(b.clone()), line: sig.span().start().line, in_trait_impl: tr },
    };
    for it in &items {
        match it {
            syn::Item::Fn(x) => m.push(mk(&x.sig, &x.block, String::new(), false)),
            syn::Item::Impl(im) => {
                for y in &im.items {
                    if let syn::ImplItem::Fn(x) = y {
                        m.push(mk(&x.sig, &x.block, last_ident(&im.self_ty), im.trait_.is_some()));
                    }
                }
            }
            syn::Item::Trait(t) => {
                for y in &t.items {
                    if let syn::TraitItem::Fn(x) = y {
                        if let Some(b) = &x.default {
                            m.push(mk(&x.sig, b, t.ident.to_string(), true));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    m
}
/// constants: name -> (type, value)
pub fn consts(f: &syn::File, out: &mut BTreeMap<String, (String, syn::Expr)>) {
    for it in &f.items {
        if let syn::Item::Const(c) = it {
            out.insert(c.ident.to_string(), (c.ty.to_token_stream().to_string(), (*c.expr).clone()));
        }
    }
}
/// the type or trait a path names
pub fn type_of(path: &str) -> String {
    let p = path.rsplit(')').next().unwrap().trim();
    let p = p.split(" for ").last().unwrap().trim();
    let p = p.strip_prefix("trait ").unwrap_or(p);
    p.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default()
}

fn expand_macro(f: &syn::File, name: &str, args: &str) -> Option<Vec<syn::Item>> {
    for it in &f.items {
        if let syn::Item::Macro(m) = it {
            if m.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                let toks: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                // first rule: (pattern) => { body }
                let pat = match toks.first()? {
                    TokenTree::Group(g) => g.stream(),
                    _ => return None,
                };
                let body = match toks.get(3)? {
                    TokenTree::Group(g) => g.stream(),
                    _ => return None,
                };
                let mut vars = vec![];
                let pt: Vec<TokenTree> = pat.into_iter().collect();
                for w in pt.windows(2) {
                    if let (TokenTree::Punct(p), TokenTree::Ident(i)) = (&w[0], &w[1]) {
                        if p.as_char() == '$' {
                            vars.push(i.to_string());
                        }
                    }
                }
                let vals: Vec<&str> = args.split(',').map(|s| s.trim()).collect();
                if vals.len() != vars.len() {
                    return None;
                }
                let map: BTreeMap<String, String> = vars.into_iter().zip(vals.iter().map(|s| s.to_string())).collect();
                let s = subst(body, &map);
                return syn::parse2::<syn::File>(s).ok().map(|f| f.items);
            }
        }
    }
    None
}

fn subst(ts: TokenStream, map: &BTreeMap<String, String>) -> TokenStream {
    let mut out = TokenStream::new();
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = v.get(i + 1) {
                    if let Some(val) = map.get(&id.to_string()) {
                        out.extend(std::iter::once(TokenTree::Ident(proc_macro2::Ident::new(val, id.span()))));
                        i += 2;
                        continue;
                    }
                }
                out.extend(std::iter::once(v[i].clone()));
            }
            TokenTree::Group(g) => {
                let mut ng = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), map));
                ng.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(ng)));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

/// NAME, or MACRO(a,b,..)NAME for an item the macro makes
pub fn find_item(f: &syn::File, kind: &str, name: &str) -> Option<String> {
    if let (Some(o), Some(c)) = (name.find('('), name.find(')')) {
        let items = expand_macro(f, &name[..o], &name[o + 1..c])?;
        return item_in(&items, kind, &name[c + 1..]);
    }
    item_in(&f.items, kind, name)
}
fn item_in(items: &[syn::Item], kind: &str, name: &str) -> Option<String> {
    for it in items {
        match (kind, it) {
            ("const", syn::Item::Const(c)) if c.ident == name => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = syn::parse_quote!(pub);
                return Some(crate::print::print_tokens(c.to_token_stream()));
            }
            ("struct", syn::Item::Struct(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for fl in s.fields.iter_mut() {
                    fl.attrs.clear();
                    fl.vis = syn::parse_quote!(pub);
                    crate::xform::fix_type(&mut fl.ty);
                }
                crate::xform::fix_generics(&mut s.generics);
                return Some(crate::print::print_tokens(s.to_token_stream()));
            }
            ("enum", syn::Item::Enum(s)) if s.ident == name => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                        crate::xform::fix_type(&mut fl.ty);
                    }
                }
                crate::xform::fix_generics(&mut s.generics);
                return Some(crate::print::print_tokens(s.to_token_stream()));
            }
            _ => {}
        }
    }
    None
}
