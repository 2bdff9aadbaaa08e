#![allow(dead_code, unused_imports)]
mod model;
mod trees;
mod props;
mod props2;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub static CUR: Mutex<String> = Mutex::new(String::new());
pub static STARTED: AtomicU64 = AtomicU64::new(0);
thread_local! { pub static PMSG: RefCell<String> = RefCell::new(String::new()); }

pub struct Ctx {
    pub id: String,
    pub only: Option<String>,
    pub evals: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub thorough: bool,
    pub seed: u64,
}
pub type R = Result<(), String>;
#[macro_export]
macro_rules! ck {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0)
}
impl Ctx {
    pub fn case<F: FnOnce() -> Result<u64, String>>(&mut self, label: String, f: F) {
        if let Some(o) = &self.only {
            if *o != label {
                return;
            }
        }
        if self.fails.len() >= 3 {
            return;
        }
        *CUR.lock().unwrap() = label.clone();
        STARTED.store(now(), Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        STARTED.store(0, Ordering::SeqCst);
        self.evals += 1;
        if self.samples.len() < 6 && (self.evals % 37 == 1) {
            self.samples.push(label.clone());
        }
        match r {
            Ok(Ok(n)) => self.nontrivial += n,
            Ok(Err(e)) => self.fails.push((label, e)),
            Err(_) => {
                let m = PMSG.with(|p| p.borrow().clone());
                self.fails.push((label, format!("unexpected panic: {}", m)))
            }
        }
    }
}
/// runs f, true if it returned Err or panicked
pub fn refused<T, F: FnOnce() -> anyhow::Result<T>>(f: F) -> bool {
    matches!(catch_unwind(AssertUnwindSafe(f)), Err(_) | Ok(Err(_)))
}
/// runs f: Ok(Some(v)) value, Ok(None) error; a panic is an Err
pub fn run<T, F: FnOnce() -> anyhow::Result<T>>(what: &str, f: F) -> Result<Option<T>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(Some(v)),
        Ok(Err(_)) => Ok(None),
        Err(_) => Err(format!("{}: panicked: {}", what, PMSG.with(|p| p.borrow().clone()))),
    }
}
pub fn must<T, F: FnOnce() -> anyhow::Result<T>>(what: &str, f: F) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{}: error: {:#}", what, e)),
        Err(_) => Err(format!("{}: panicked: {}", what, PMSG.with(|p| p.borrow().clone()))),
    }
}
pub fn must_err<T, F: FnOnce() -> anyhow::Result<T>>(what: &str, f: F) -> R {
    match run(what, f)? {
        None => Ok(()),
        Some(_) => Err(format!("{}: succeeded where an error is required", what)),
    }
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}
fn report(c: &Ctx) {
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"samples\":[{}],\"failures\":[{}]}}",
        js(&c.id), c.evals, c.nontrivial,
        c.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        c.fails.iter().map(|(a, b)| format!("{{\"case\":{},\"what\":{}}}", js(a), js(b))).collect::<Vec<_>>().join(",")
    );
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let only = a.iter().position(|x| x == "--only").and_then(|i| a.get(i + 1).cloned());
    let thorough = a.iter().any(|x| x == "--thorough");
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        PMSG.with(|p| *p.borrow_mut() = s);
    }));
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && now() > s + 150 {
            let l = CUR.lock().map(|x| x.clone()).unwrap_or_default();
            println!(
                "{{\"property\":\"?\",\"evaluations\":1,\"distinct_nontrivial\":0,\"samples\":[],\"failures\":[{{\"case\":{},\"what\":\"did not terminate within 150 s\"}}]}}",
                js(&l)
            );
            std::process::exit(1);
        }
    });
    let mut c = Ctx { id: id.clone(), only, evals: 0, nontrivial: 0, samples: vec![], fails: vec![], thorough, seed };
    match id.as_str() {
        #[cfg(feature = "c01")]
        "C01" => props::c01(&mut c),
        #[cfg(feature = "c02")]
        "C02" => props::c02(&mut c),
        #[cfg(feature = "c03")]
        "C03" => props::c03(&mut c),
        #[cfg(feature = "c04")]
        "C04" => props::c04(&mut c),
        #[cfg(feature = "c05")]
        "C05" => props2::c05(&mut c),
        #[cfg(feature = "c06")]
        "C06" => props2::c06(&mut c),
        #[cfg(feature = "c07")]
        "C07" => props2::c07(&mut c),
        #[cfg(feature = "c08")]
        "C08" => props2::c08(&mut c),
        #[cfg(feature = "c09")]
        "C09" => props2::c09(&mut c),
        #[cfg(feature = "c10")]
        "C10" => props2::c10(&mut c),
        #[cfg(feature = "c11")]
        "C11" => props2::c11(&mut c),
        #[cfg(feature = "c12")]
        "C12" => props2::c12(&mut c),
        #[cfg(feature = "c13")]
        "C13" => props2::c13(&mut c),
        #[cfg(feature = "c14")]
        "C14" => props2::c14(&mut c),
        _ => std::process::exit(2),
    }
    report(&c);
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
