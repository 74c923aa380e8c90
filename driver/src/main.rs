#![allow(unexpected_cfgs, unused)]
mod api; mod conf; mod gen_; mod meta; mod props; mod refi; mod wit;
#[cfg(verif_hooks)] pub use rlibphonenumber::verif_hooks;
use std::{panic, sync::{atomic::*, Arc, Mutex}, time::*};

mod bundled_md { include!("/repo/src/generated/metadata/metadata.rs"); }
mod test_md { include!("/repo/src/generated/metadata/test_metadata.rs"); }

/// First failure found: call, input, expected, got.
pub struct Ctx { pub seed: u64, pub cases: AtomicU64, pub fail: Mutex<Option<[String; 5]>>, pub stop: AtomicBool, pub end: Instant, pub now: Vec<Mutex<(String, Instant)>>, pub known: Vec<String>, pub known_hit: Mutex<Vec<String>> }
impl Ctx {
    pub fn report(&self, world: &str, call: &str, input: String, exp: String, got: String) {
        let mut f = self.fail.lock().unwrap();
        if f.is_none() { *f = Some([world.into(), call.into(), input, exp, got]); }
        self.stop.store(true, Ordering::SeqCst);
    }
    pub fn done(&self) -> bool { self.stop.load(Ordering::Relaxed) || Instant::now() > self.end }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    if a[1] == "META" { meta::main() }
    if a[1] == "DUMP" { wit::dump() }
    if a[1] == "WIT" { wit::init(); println!("{:?} {:?} {}", wit::texts(), wit::rules(), wit::chars().len()); return }
    let prop = a[1].clone(); let seed: u64 = get("--seed", "1").parse().unwrap_or(1); let secs: f64 = get("--secs", "5").parse().unwrap_or(5.0); let threads: usize = get("--threads", "8").parse().unwrap_or(8);
    panic::set_hook(Box::new(|_| {}));
    let now = (0..threads).map(|_| Mutex::new((String::new(), Instant::now()))).collect();
    let ctx = Arc::new(Ctx { seed, cases: AtomicU64::new(0), fail: Mutex::new(None), stop: AtomicBool::new(false), end: Instant::now() + Duration::from_secs_f64(secs), now, known: vec![], known_hit: Mutex::new(vec![]) });
    wit::init();
    let start = Instant::now();
    let hs: Vec<_> = (0..threads).map(|t| { let c = ctx.clone(); let p = prop.clone(); std::thread::Builder::new().stack_size(64 << 20).spawn(move || props::run(&p, t, &c)).unwrap() }).collect();
    // watchdog: an operation that does not return
    let limit = Duration::from_secs(25); let mut hung = false;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break }
        for m in &ctx.now { if let Ok(g) = m.try_lock() { if !g.0.is_empty() && g.1.elapsed() > limit { ctx.report("any", "terminates", g.0.clone(), "returns".into(), format!("still running after {} s", limit.as_secs())); hung = true; } } }
        if hung || start.elapsed() > Duration::from_secs_f64(secs + 90.0) { break }
    }
    let mut err = false;
    if !hung { for h in hs { if h.is_finished() { if h.join().is_err() { err = true } } } }
    let f = ctx.fail.lock().unwrap();
    let hooks = cfg!(verif_hooks);
    let j = serde_json::json!({"property": prop, "seed": seed, "cases": ctx.cases.load(Ordering::SeqCst), "seconds": start.elapsed().as_secs_f64(), "hooks": hooks, "driver_error": err,
        "failure": f.as_ref().map(|x| serde_json::json!({"world": x[0], "call": x[1], "input": x[2], "expected": x[3], "got": x[4]}))});
    println!("{j}");
    std::process::exit(if f.is_some() { 1 } else if err { 3 } else { 0 });
}
