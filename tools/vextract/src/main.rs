//! vextract: mechanical extraction of functions of /repo into a Verus file.
//!
//! usage: vextract --repo DIR --template FILE --out FILE.rs --map FILE.json
//!                 [--external ID]...   (emit ID with its contract assumed: its body is out of reach)
//!                 [--baseline FILE.json] [--write-baseline FILE.json]
//!
//! A template is Verus text in which lines starting with `//%` are directives:
//!   //% include FILE              textual inclusion (relative to the template)
//!   //% item FILE KIND NAME       struct / enum / const / type of the source, made public, attributes dropped
//!   //% include FILE               the template FILE
//!   //% include-proved UNIT FILE   the contracts of FILE; the bodies are verified in UNIT
//!   //% fn FILE PATH              the function; the following lines up to `//% end` annotate it:
//!   //% ret NAME                  name of the result in the contract
//!   //% attr TEXT                 verifier attribute put in front of the function
//!   //% spec                      requires/ensures/decreases text (until the next directive)
//!   //% loop N                    loop clauses of the N-th loop (pre-order, after desugaring)
//!   //% hint WHERE                proof text at WHERE: start | loop N start | loop N end | loop N after |
//!                                 let NAME | pre CALL | post CALL | ret
//!   //% nopub                     keep private
//!   //% end
mod find;
mod inline;
mod template;
mod xform;
mod print;
mod rename;

use std::collections::BTreeMap;
use std::fs;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = String::from("/repo");
    let mut tpl = String::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut external: Vec<String> = vec![];
    let mut baseline: Option<String> = None;
    let mut wbaseline: Option<String> = None;
    let mut canary = false;
    let mut plain: Vec<String> = vec![];
    let mut attrs: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--canary" => {
                canary = true;
                i += 1;
                continue;
            }
            "--repo" => repo = v,
            "--template" => tpl = v,
            "--out" => out = v,
            "--map" => map = v,
            "--keep-names" => plain.push(v),
            "--attr" => attrs.push(v),
            "--external" => external.push(v),
            "--baseline" => baseline = Some(v),
            "--write-baseline" => wbaseline = Some(v),
            x => {
                eprintln!("unknown argument {}", x);
                std::process::exit(2)
            }
        }
        i += 2;
    }
    let mut cache: BTreeMap<String, syn::File> = BTreeMap::new();
    // names that existed in the source when the baseline was written
    let names_file = |b: &String| std::path::Path::new(b).with_file_name("names.txt");
    let old: Option<std::collections::BTreeSet<String>> =
        baseline.as_ref().and_then(|b| fs::read_to_string(names_file(b)).ok()).map(|t| t.split_whitespace().map(|s| s.to_string()).collect());
    let sources = sources(&repo);
    let mut consts = BTreeMap::new();
    for f in &sources {
        find::consts(&f.1, &mut consts);
    }
    if let Some(w) = &wbaseline {
        let mut n: std::collections::BTreeSet<String> = consts.keys().map(|c| format!("const:{}", c)).collect();
        for f in &sources {
            n.extend(find::helpers(&f.1, None).into_iter().map(|h| h.name));
        }
        fs::write(names_file(w), n.into_iter().collect::<Vec<_>>().join("\n") + "\n").expect("write names");
    }
    let base = baseline.and_then(|b| fs::read_to_string(b).ok()).map(|t| rename::parse_baseline(&t)).unwrap_or_default();
    let items = template::parse(&tpl);
    let known = template::known_names(&items);
    let mut text = String::new();
    let mut entries: Vec<String> = vec![];
    let mut newbase: Vec<String> = vec![];
    for it in items {
        match it {
            template::Item::Text(t) => {
                text.push_str(&t);
                text.push('\n');
            }
            template::Item::SrcItem { file, kind, name } => {
                let f = load(&mut cache, &repo, &file);
                match f.as_ref().and_then(|f| find::find_item(f, &kind, &name)) {
                    Some(s) => {
                        text.push_str(&s);
                        text.push('\n');
                    }
                    None => {
                        eprintln!("LOST-ITEM {} {} {}", file, kind, name);
                        entries.push(format!(
                            "{{\"id\":{},\"file\":{},\"kind\":\"item\",\"status\":\"lost\",\"reason\":\"item not found in the source\",\"start\":0,\"end\":0,\"line\":0,\"loops\":0,\"rules\":[],\"inlined\":[],\"changed\":true}}",
                            js(&name), js(&file)
                        ));
                    }
                }
            }
            template::Item::Fn(mut spec) => {
                let mut canaried = false;
                let id = spec.path.clone();
                let start = text.lines().count() + 1;
                let f = load(&mut cache, &repo, &spec.file);
                let mut status = "ok".to_string();
                let mut reason = String::new();
                let mut line = 0;
                let mut nloops = 0;
                let mut rules: Vec<String> = vec![];
                let mut inlined: Vec<String> = vec![];
                let mut changed = false;
                match f.as_ref().and_then(|f| find::find_fn(f, &spec.path)) {
                    None => {
                        status = "lost".into();
                        reason = "function not found in the source".into();
                        text.push_str(&format!("// LOST {}\n", id));
                    }
                    Some(found) => {
                        line = found.line;
                        let force_ext = external.iter().any(|e| e == &id);
                        let fp = rename::fingerprint(&found);
                        if wbaseline.is_some() {
                            newbase.push(rename::baseline_entry(&id, &found, &fp));
                        }
                        if canary && !spec.sig_only && !spec.trusted && !force_ext {
                            canaried = true;
                            spec.hints.entry("ret".into()).or_default().push_str("\nproof { assert(false); }\n");
                        }
                        let b = base.get(&id);
                        changed = b.map(|b| b.fp != fp).unwrap_or(true);
                        let mut found = found;
                        if let (Some(old), true) = (&old, changed) {
                            let mut helpers = find::helpers(f.as_ref().unwrap(), Some(&spec.path));
                            for (n, g) in &sources {
                                if *n != spec.file {
                                    helpers.extend(find::helpers(g, None).into_iter().filter(|h| h.ty.is_empty() || h.ty == "Store"));
                                }
                            }
                            let cx = inline::Ctx { helpers: &helpers, consts: &consts, known: &known, old, ty: find::type_of(&spec.path) };
                            let (g, done) = inline::apply(&found, &cx);
                            found = g;
                            inlined = done;
                            if let (Some(b), false) = (b, plain.iter().any(|p| p == &id)) {
                                let (g, done) = rename::restore(&found, b);
                                found = g;
                                inlined.extend(done);
                            }
                        }
                        for a in &attrs {
                            if let Some((i, t)) = a.split_once('=') {
                                if i == id {
                                    spec.attrs.push(t.to_string());
                                }
                            }
                        }
                        let r = xform::emit(&found, &spec, force_ext);
                        nloops = r.nloops;
                        rules = r.rules;
                        if let Some(why) = r.lost {
                            status = "lost".into();
                            reason = why;
                            canaried = false;
                        } else if force_ext {
                            status = "external".into();
                        } else if spec.trusted || spec.sig_only {
                            status = match &spec.proved {
                                Some(u) => format!("proved in {}", u),
                                None => "trusted".into(),
                            };
                        }
                        text.push_str(&r.text);
                        text.push('\n');
                    }
                }
                let end = text.lines().count();
                entries.push(format!(
                    "{{\"id\":{},\"file\":{},\"kind\":\"fn\",\"status\":{},\"reason\":{},\"start\":{},\"end\":{},\"line\":{},\"loops\":{},\"rules\":[{}],\"inlined\":[{}],\"changed\":{},\"canary\":{}}}",
                    js(&id), js(&spec.file), js(&status), js(&reason), start, end, line, nloops,
                    rules.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    inlined.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                    changed,
                    canaried
                ));
            }
        }
    }
    fs::write(&out, &text).expect("write out");
    fs::write(&map, format!("[{}]\n", entries.join(",\n"))).expect("write map");
    if let Some(w) = wbaseline {
        fs::write(w, newbase.join("\n") + "\n").expect("write baseline");
    }
}

/// every source file of the crate
fn sources(repo: &str) -> Vec<(String, syn::File)> {
    let mut out = vec![];
    let mut todo = vec![std::path::PathBuf::from(format!("{}/src", repo))];
    while let Some(d) = todo.pop() {
        let mut v: Vec<_> = fs::read_dir(&d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for p in v {
            if p.is_dir() {
                todo.push(p);
            } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
                let name = p.strip_prefix(repo).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
                if name.contains("test") {
                    continue;
                }
                if let Some(f) = fs::read_to_string(&p).ok().and_then(|t| syn::parse_file(&t).ok()) {
                    out.push((name, f));
                }
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// FILE, or expanded:FILE for the file after the compiler's own macro expansion (with the crate modules it needs)
fn load(cache: &mut BTreeMap<String, syn::File>, repo: &str, file: &str) -> Option<syn::File> {
    if !cache.contains_key(file) {
        let f = match file.strip_prefix("expanded:") {
            Some(path) => expanded(repo, path)?,
            None => syn::parse_file(&fs::read_to_string(format!("{}/{}", repo, file)).ok()?).ok()?,
        };
        cache.insert(file.to_string(), f);
    }
    cache.get(file).cloned()
}

fn expanded(repo: &str, path: &str) -> Option<syn::File> {
    let stem = std::path::Path::new(path).file_stem()?.to_str()?.to_string();
    let dir = std::env::temp_dir().join(format!("vextract-{}", std::process::id()));
    fs::create_dir_all(&dir).ok()?;
    let lib = dir.join("lib.rs");
    let src = format!("#[path = \"{repo}/src/hash.rs\"] pub mod hash;\n#[path = \"{repo}/{path}\"] pub mod {stem};\n");
    fs::write(&lib, src).ok()?;
    let out = std::process::Command::new("rustc")
        .env_remove("RUSTUP_TOOLCHAIN")
        .args(["+nightly", "-Zunpretty=expanded", "--edition", "2018", "--crate-type", "lib"])
        .arg(&lib)
        .output();
    let _ = fs::remove_file(&lib);
    let _ = fs::remove_dir(&dir);
    let out = out.ok()?;
    if !out.status.success() {
        eprintln!("EXPAND {}: {}", path, String::from_utf8_lossy(&out.stderr));
        return None;
    }
    let mut f = syn::parse_file(&String::from_utf8_lossy(&out.stdout)).ok()?;
    let mut items = None;
    for it in &f.items {
        if let syn::Item::Mod(m) = it {
            if m.ident == stem {
                items = m.content.as_ref().map(|c| c.1.clone());
            }
        }
    }
    f.items = items?;
    Some(f)
}
