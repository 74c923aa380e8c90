//! Guided inputs: texts that the library's own patterns and maps treat differently from the reference ones
//! (decided on the product of the two automata), and characters at the edges of their classes.
#![allow(dead_code)]
use regex_automata::{hybrid::dfa::DFA, util::start, Anchored, MatchKind};
use regex_syntax::hir::*;
use std::{collections::{HashMap, VecDeque}, sync::OnceLock, time::*};
include!("base.rs");
static TEXTS: OnceLock<Vec<String>> = OnceLock::new();
static RULES: OnceLock<Vec<String>> = OnceLock::new();
static CHARS: OnceLock<Vec<char>> = OnceLock::new();
pub fn texts() -> &'static [String] { TEXTS.get().map_or(&[], |v| v) }
pub fn rules() -> &'static [String] { RULES.get().map_or(&[], |v| v) }
pub fn chars() -> &'static [char] { CHARS.get_or_init(|| {
    let mut v: Vec<u32> = vec![];
    for (_, p) in BASE { edges(&regex_syntax::parse(p).unwrap(), &mut v) }
    for (_, m) in MAPS { for (a, b) in *m { v.push(*a as u32); v.push(*b as u32) } }
    v.extend([0xB2, 0xBD, 0x2160, 0x2460, 0x3007, 0x130, 0x131, 0x17F, 0x212A, 0xDF, 0x1E9E, 0xFB01, 0x200B, 0x200E, 0x2028, 0xFEFF, 0x10FFFF, 0, 0x7F]);
    v.sort(); v.dedup(); v.into_iter().filter_map(char::from_u32).collect() }) }
fn edges(h: &Hir, v: &mut Vec<u32>) {
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => if c.ranges().len() < 90 { for r in c.ranges() { let (a, b) = (r.start() as u32, r.end() as u32); v.extend([a, b, a.saturating_sub(1), b + 1]) } },
        HirKind::Literal(l) => if let Ok(s) = std::str::from_utf8(&l.0) { v.extend(s.chars().map(|c| c as u32)) },
        HirKind::Repetition(p) => edges(&p.sub, v), HirKind::Capture(c) => edges(&c.sub, v),
        HirKind::Concat(x) | HirKind::Alternation(x) => for y in x { edges(y, v) }, _ => {} }
}
/// strings on which exactly one of the patterns matches the whole string
pub fn differ(p: &str, q: &str, max: usize) -> Vec<String> {
    let mk = |p: &str| DFA::builder().configure(DFA::config().match_kind(MatchKind::All).cache_capacity(400 << 20).skip_cache_capacity_check(true)).build(&format!("^(?:{p})$")).ok();
    let (Some(a), Some(b)) = (mk(p), mk(q)) else { return vec![] };
    let (mut ca, mut cb) = (a.create_cache(), b.create_cache()); let an = start::Config::new().anchored(Anchored::Yes);
    let (Ok(sa), Ok(sb)) = (a.start_state(&mut ca, &an), b.start_state(&mut cb, &an)) else { return vec![] };
    let mut reps: Vec<u8> = vec![]; let mut seen_c: HashMap<(u8, u8), ()> = HashMap::new();
    for x in (b'1'..=b'9').chain(b'a'..=b'z').chain(0x20..=0x7E).chain(0x80..=0xFF).chain(0..0x20) { if seen_c.insert((a.byte_classes().get(x), b.byte_classes().get(x)), ()).is_none() { reps.push(x) } }
    let mut par: Vec<(usize, u8)> = vec![(usize::MAX, 0)]; let mut ids = HashMap::new(); ids.insert((sa, sb), 0usize); let mut q = VecDeque::new(); q.push_back((sa, sb, 0usize)); let mut out = vec![]; let t0 = Instant::now();
    while let Some((x, y, i)) = q.pop_front() {
        let (Ok(ex), Ok(ey)) = (a.next_eoi_state(&mut ca, x), b.next_eoi_state(&mut cb, y)) else { break };
        if ex.is_match() != ey.is_match() {
            let mut w = vec![]; let mut k = i; while par[k].0 != usize::MAX { w.push(par[k].1); k = par[k].0 } w.reverse();
            if let Ok(s) = String::from_utf8(w) { out.push(s); if out.len() >= max { break } }
        }
        if par.len() > 300_000 || t0.elapsed() > Duration::from_secs(4) { break }
        for &c in &reps {
            let (Ok(nx), Ok(ny)) = (a.next_state(&mut ca, x, c), b.next_state(&mut cb, y, c)) else { continue };
            if nx.is_dead() && ny.is_dead() || ids.contains_key(&(nx, ny)) { continue }
            ids.insert((nx, ny), par.len()); par.push((i, c)); q.push_back((nx, ny, par.len() - 1));
        }
    }
    out
}
#[cfg(verif_pats)]
pub fn init() {
    let (mut t, mut r) = (vec![], vec![]);
    for (n, p) in crate::verif_hooks::patterns() {
        let Some((_, q)) = BASE.iter().find(|(m, _)| *m == n) else { continue };
        if p == *q { continue }
        let w = differ(&p, q, 60);
        if matches!(n, "single_international_prefix" | "first_group_capturing_pattern" | "carrier_code_pattern" | "formatting_rule_has_first_group_only_regex") { r.extend(w.clone()) }
        t.extend(w);
    }
    for (n, m) in crate::verif_hooks::maps() {
        let Some((_, b)) = MAPS.iter().find(|(k, _)| *k == n) else { continue };
        for x in &m { if !b.contains(x) { t.push(x.0.to_string()) } } for x in *b { if !m.contains(x) { t.push(x.0.to_string()) } }
    }
    let _ = TEXTS.set(t); let _ = RULES.set(r);
}
#[cfg(not(verif_pats))]
pub fn init() {}
#[cfg(verif_pats)]
pub fn dump() -> ! {
    println!("// Generated by `driver DUMP`: the reference patterns and maps."); println!("pub const BASE: &[(&str, &str)] = &[");
    for (n, p) in crate::verif_hooks::patterns() { println!("    ({n:?}, {p:?}),") } println!("];\npub const MAPS: &[(&str, &[(char, char)])] = &[");
    for (n, m) in crate::verif_hooks::maps() { println!("    ({n:?}, &{m:?}),") } println!("];"); std::process::exit(0)
}
#[cfg(not(verif_pats))]
pub fn dump() -> ! { std::process::exit(2) }
