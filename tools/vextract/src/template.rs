use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub ret: String,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub hints: BTreeMap<String, String>,
    pub name_as: Option<String>,
    pub nloops: Option<usize>,
    pub nopub: bool,
    pub sig_only: bool,
    pub trusted: bool,
    pub subst: Vec<(String, String)>,
    pub optional: bool,
    pub owned: bool,
    pub parchunks: bool,
    /// the unit in which the body is verified; here only the contract is used
    pub proved: Option<String>,
}

pub enum Item {
    Text(String),
    SrcItem { file: String, kind: String, name: String },
    Fn(FnSpec),
}

fn expand(path: &str) -> Vec<String> {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("template {}: {}", path, e));
    let dir = Path::new(path).parent().unwrap().to_path_buf();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(r) = l.trim().strip_prefix("//% include ") {
            out.extend(expand(dir.join(r.trim()).to_str().unwrap()));
        } else if let Some(r) = l.trim().strip_prefix("//% include-proved ") {
            let p = r.trim().find(' ').expect("include-proved UNIT FILE");
            out.push(format!("//% proved-in {}", &r.trim()[..p]));
            out.extend(expand(dir.join(r.trim()[p + 1..].trim()).to_str().unwrap()));
            out.push("//% proved-end".into());
        } else {
            out.push(l.to_string());
        }
    }
    out
}

pub fn parse(path: &str) -> Vec<Item> {
    let lines = expand(path);
    let mut items = vec![];
    let mut text = String::new();
    let mut cur: Option<FnSpec> = None;
    let mut sect: String = String::new();
    let mut proved: Vec<String> = vec![];
    for l in lines {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//%") {
            let d = d.trim();
            let (w, rest) = match d.find(' ') {
                Some(p) => (&d[..p], d[p + 1..].trim()),
                None => (d, ""),
            };
            match w {
                "proved-in" => proved.push(rest.into()),
                "proved-end" => {
                    proved.pop();
                }
                "item" => {
                    items.push(Item::Text(std::mem::take(&mut text)));
                    let p: Vec<&str> = rest.split_whitespace().collect();
                    items.push(Item::SrcItem { file: p[0].into(), kind: p[1].into(), name: p[2].into() });
                }
                "fn" => {
                    items.push(Item::Text(std::mem::take(&mut text)));
                    let p = rest.find(' ').expect("fn FILE PATH");
                    cur = Some(FnSpec { file: rest[..p].into(), path: rest[p + 1..].trim().into(), ret: "r".into(), trusted: !proved.is_empty(), proved: proved.last().cloned(), ..Default::default() });
                    sect = "spec".into();
                }
                "ret" => cur.as_mut().unwrap().ret = rest.into(),
                "attr" => cur.as_mut().unwrap().attrs.push(rest.into()),
                "spec" => sect = "spec".into(),
                "nopub" => cur.as_mut().unwrap().nopub = true,
                "trusted" => cur.as_mut().unwrap().trusted = true,
                "sig" => cur.as_mut().unwrap().sig_only = true,
                "owned" => cur.as_mut().unwrap().owned = true,
                "parchunks" => cur.as_mut().unwrap().parchunks = true,
                "optional" => cur.as_mut().unwrap().optional = true,
                "as" => cur.as_mut().unwrap().name_as = Some(rest.into()),
                "nloops" => cur.as_mut().unwrap().nloops = Some(rest.parse().unwrap()),
                "subst" => {
                    let p = rest.find("=>").expect("subst A => B");
                    cur.as_mut().unwrap().subst.push((rest[..p].trim().into(), rest[p + 2..].trim().into()));
                }
                "loop" => {
                    sect = format!("loop {}", rest);
                    let n: usize = rest.parse().expect("loop N");
                    cur.as_mut().unwrap().loops.entry(n).or_default();
                }
                "hint" => {
                    sect = format!("hint {}", rest);
                }
                "end" => {
                    items.push(Item::Fn(cur.take().unwrap()));
                    sect.clear();
                }
                _ => panic!("unknown directive {}", t),
            }
            continue;
        }
        match cur.as_mut() {
            None => {
                text.push_str(&l);
                text.push('\n');
            }
            Some(c) => {
                let dst: &mut String = if sect == "spec" {
                    &mut c.spec
                } else if let Some(n) = sect.strip_prefix("loop ") {
                    c.loops.entry(n.parse().unwrap()).or_default()
                } else if let Some(h) = sect.strip_prefix("hint ") {
                    c.hints.entry(h.to_string()).or_default()
                } else {
                    panic!("text outside a section: {}", l)
                };
                dst.push_str(&l);
                dst.push('\n');
            }
        }
    }
    items.push(Item::Text(text));
    items
}

/// every identifier defined by a `fn` in the template text or extracted by it
pub fn known_names(items: &[Item]) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for it in items {
        match it {
            Item::Text(t) => {
                let mut prev = "";
                for w in t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()) {
                    if prev == "fn" {
                        s.insert(w.to_string());
                    }
                    prev = w;
                }
            }
            Item::Fn(f) => {
                s.insert(f.path.rsplit("::").next().unwrap().to_string());
            }
            _ => {}
        }
    }
    s
}
