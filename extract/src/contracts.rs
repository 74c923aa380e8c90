//! Contract files: NN_*.rs with NN < 40 = prelude, 40..60 = specification functions, lemma files by name, *.spec = function contracts.
use std::collections::{BTreeMap, HashMap}; use std::fs; use std::path::Path;
#[derive(Default, Clone)]
pub struct FnC { pub spec: String, pub start: String, pub exit: String, pub loops: HashMap<usize, String>, pub after: BTreeMap<String, String>, pub body: HashMap<usize, String>, pub attrs: Vec<String> }
impl FnC { pub fn clauses(&self) -> usize { self.spec.matches(",\n").count() + 1 } }
pub struct Contracts { pub prelude: String, pub specs: String, pub lemmas: String, pub fns: BTreeMap<String, FnC> }
pub fn load(d: &Path, lemmas: &[String]) -> Contracts {
    let mut c = Contracts { prelude: String::new(), specs: String::new(), lemmas: String::new(), fns: BTreeMap::new() };
    let mut es: Vec<_> = fs::read_dir(d).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).collect(); es.sort();
    for p in es {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let Ok(t) = fs::read_to_string(&p) else { continue };
        if n.ends_with(".rs") {
            let k: u32 = n.split('_').next().and_then(|x| x.parse().ok()).unwrap_or(99);
            if k < 40 { c.prelude.push_str(&t); } else if k < 60 { c.specs.push_str(&t); } else if lemmas.iter().any(|l| n == format!("{l}.rs")) { c.lemmas.push_str(&t); }
        } else if n.ends_with(".spec") {
            let mut key = String::new(); let mut sec = String::new(); let mut buf = String::new();
            let mut flush = |key: &str, sec: &str, buf: &mut String, c: &mut Contracts| {
                if key.is_empty() { buf.clear(); return; }
                let f = c.fns.entry(key.to_string()).or_default();
                let w: Vec<&str> = sec.split_whitespace().collect();
                match w.first().copied().unwrap_or("") {
                    "spec" => f.spec.push_str(buf), "start" => f.start.push_str(buf), "exit" => f.exit.push_str(buf),
                    "loop" => { f.loops.insert(w[1].parse().unwrap(), buf.clone()); }
                    "body" => { f.body.insert(w[1].parse().unwrap(), buf.clone()); }
                    "after" => { f.after.insert(w[1].to_string(), buf.clone()); }
                    "attr" => f.attrs.push(buf.trim().to_string()),
                    _ => {} }
                buf.clear();
            };
            for l in t.lines() {
                if let Some(r) = l.strip_prefix("@@fn ") { flush(&key, &sec, &mut buf, &mut c); key = r.trim().to_string(); sec = String::new(); c.fns.entry(key.clone()).or_default(); }
                else if let Some(r) = l.strip_prefix('@') { flush(&key, &sec, &mut buf, &mut c); sec = r.trim().to_string(); }
                else if l.starts_with("## ") {}
                else { buf.push_str(l); buf.push('\n'); }
            }
            flush(&key, &sec, &mut buf, &mut c);
        }
    }
    c
}
