//! `driver META`: checks what the proofs assume about the bundled metadata (coll_ok in contracts/48_build.rs,
//! md_ok/desc_ok/fmt_ok in contracts/40_model.rs) on every entry, and the two library patterns of ax_lib_regexes.
use protobuf::Message;
use regex_automata::{dfa::{dense, Automaton, StartKind}, util::{primitives::StateID, start}, Anchored, MatchKind};
use rlibphonenumber::phonemetadata::*;
use std::collections::{HashMap, HashSet};

/// for every string s: if some match of p covers s, the leftmost-first match of p covers s
/// (decided on the product of the leftmost-first and the all-matches automaton)
pub fn whole_if_full(p: &str) -> Result<(), String> {
    let mk = |k| dense::Builder::new().configure(dense::Config::new().match_kind(k).start_kind(StartKind::Anchored).minimize(false)).build(p).map_err(|e| e.to_string());
    let (f, a) = (mk(MatchKind::LeftmostFirst)?, mk(MatchKind::All)?);
    let st = |d: &dense::DFA<Vec<u32>>| d.start_state(&start::Config::new().anchored(Anchored::Yes)).map_err(|e| e.to_string());
    let s0 = (st(&f)?, st(&a)?);
    let mut seen: HashMap<(StateID, StateID), Vec<u8>> = HashMap::new(); seen.insert(s0, vec![]); let mut todo = vec![s0];
    while let Some(s) = todo.pop() {
        let w = seen[&s].clone();
        if a.is_match_state(a.next_eoi_state(s.1)) && !f.is_match_state(f.next_eoi_state(s.0)) { return Err(format!("{p}: {:?} is covered by a match but not by the preferred one", String::from_utf8_lossy(&w))) }
        if seen.len() > 200_000 { return Err(format!("{p}: too many states")) }
        for b in 0..=255u8 {
            let n = (f.next_state(s.0, b), a.next_state(s.1, b));
            if a.is_dead_state(n.1) || seen.contains_key(&n) { continue }
            let mut v = w.clone(); v.push(b); seen.insert(n, v); todo.push(n);
        }
    }
    Ok(())
}
pub fn check(coll: &PhoneMetadataCollection) -> (usize, Vec<String>) {
    let mut bad = vec![]; let mut n = 0usize; let mut okre: HashSet<String> = HashSet::new(); let mut okwhole: HashSet<String> = HashSet::new();
    let mut need = |c: bool, m: String, bad: &mut Vec<String>| { n += 1; if !c { bad.push(m) } };
    let re_ok = |p: &str, okre: &mut HashSet<String>| okre.contains(p) || (regex::Regex::new(p).is_ok() && regex::Regex::new(&format!("^(?:{p})$")).is_ok() && { okre.insert(p.into()); true });
    let mut ids = HashSet::new(); let mut codes: HashMap<i32, Vec<&PhoneMetadata>> = HashMap::new();
    for m in &coll.metadata {
        if m.id() == "ZZ" { continue }
        let at = format!("{} (+{})", m.id(), m.country_code());
        need(0 < m.country_code() && m.country_code() < 1000, format!("{at}: calling code"), &mut bad);
        need(m.id() == "001" || ids.insert(m.id()), format!("{at}: region listed twice"), &mut bad);
        codes.entry(m.country_code()).or_default().push(m);
        for (k, d) in [("general", &m.general_desc), ("fixed_line", &m.fixed_line), ("mobile", &m.mobile), ("toll_free", &m.toll_free), ("premium_rate", &m.premium_rate), ("shared_cost", &m.shared_cost), ("personal_number", &m.personal_number),
            ("voip", &m.voip), ("pager", &m.pager), ("uan", &m.uan), ("voicemail", &m.voicemail), ("no_international_dialling", &m.no_international_dialling)] {
            need(d.national_number_pattern().is_empty() || re_ok(d.national_number_pattern(), &mut okre), format!("{at} {k}: pattern"), &mut bad);
            need(d.possible_length.is_sorted() && d.possible_length_local_only.is_sorted(), format!("{at} {k}: lengths not sorted"), &mut bad);
            need(d.possible_length.iter().all(|&l| l >= -1), format!("{at} {k}: length below -1"), &mut bad);
            need(d.example_number().is_ascii(), format!("{at} {k}: example not ASCII"), &mut bad);
        }
        need(!m.general_desc.possible_length.is_empty(), format!("{at}: no general length"), &mut bad);
        for p in [m.leading_digits(), m.international_prefix(), m.national_prefix_for_parsing()] { need(re_ok(p, &mut okre), format!("{at}: {p}"), &mut bad) }
        // the transform rule consists of digits and references to groups, so the replaced text of digits is digits
        let t = m.national_prefix_transform_rule(); let mut cs = t.chars().peekable(); let mut good = true;
        while let Some(c) = cs.next() { good &= c.is_ascii_digit() || (c == '$' && cs.peek().is_some_and(|d| d.is_ascii_digit())) }
        need(good, format!("{at}: transform rule {t}"), &mut bad);
        for f in m.number_format.iter().chain(&m.intl_number_format) {
            let p = f.pattern(); need(re_ok(p, &mut okre), format!("{at}: format {p}"), &mut bad);
            if okwhole.insert(p.to_string()) { let r = whole_if_full(p); need(r.is_ok(), format!("{at}: {r:?}"), &mut bad) }
            for l in &f.leading_digits_pattern { need(re_ok(l, &mut okre), format!("{at}: leading digits {l}"), &mut bad) }
        }
    }
    for (c, v) in &codes {
        if v.len() > 1 { need(v.iter().all(|m| m.id() != "001"), format!("+{c}: non-geographical and shared"), &mut bad); need(v.iter().filter(|m| m.main_country_for_code()).count() <= 1, format!("+{c}: two main regions"), &mut bad) }
    }
    // no calling code starts another one; the lengths of every plan are lengths (or local-only lengths) of the main plan of its code
    for (c, v) in &codes {
        need(!codes.contains_key(&(c / 10)) && !codes.contains_key(&(c / 100)), format!("+{c}: starts with another code"), &mut bad);
        let main = v.iter().find(|m| m.main_country_for_code()).unwrap_or(&v[0]); let l = &main.general_desc.possible_length;
        for m in v { need(m.general_desc.possible_length.iter().all(|x| *x >= 0 && (l.contains(x) || main.general_desc.possible_length_local_only.contains(x))) && !l.contains(&-1), format!("{} (+{c}): length not in {}", m.id(), main.id()), &mut bad) }
    }
    need(codes.get(&1).is_some_and(|v| v.iter().any(|m| m.id() != "001")), "+1 is no region".into(), &mut bad);
    need(re_ok("NonMatch", &mut okre) && re_ok("(\\d+)(.*)", &mut okre), "library patterns".into(), &mut bad);
    let r = whole_if_full("(\\d+)(.*)"); need(r.is_ok() || r == Err(String::new()), format!("{r:?}"), &mut bad);
    (n, bad)
}
pub fn main() -> ! {
    let c = PhoneMetadataCollection::parse_from_bytes(&crate::bundled_md::METADATA);
    let (n, mut bad) = match &c { Ok(c) => check(c), Err(e) => (1, vec![format!("does not decode: {e}")]) };
    // what the prelude assumes about std, dec_from_char and regex (bounded), and e164_plain (exact)
    let mut k = crate::conf::check(&mut bad);
    if let Ok(c) = &c {
        let mut ps: HashSet<&str> = HashSet::new(); let mut texts: HashSet<String> = ["", "0", "1", "00", "011", "5", "123", "0015", "12345678901234567", "\u{661}\u{662}"].map(String::from).into();
        for m in &c.metadata { for d in [&m.general_desc, &m.fixed_line, &m.mobile, &m.toll_free, &m.premium_rate] { ps.insert(d.national_number_pattern()); } for p in [m.leading_digits(), m.international_prefix(), m.national_prefix_for_parsing()] { ps.insert(p); }
            for f in m.number_format.iter().chain(&m.intl_number_format) { ps.insert(f.pattern()); for l in &f.leading_digits_pattern { ps.insert(l); } } }
        for (i, m) in c.metadata.iter().enumerate() { if i % 8 == 0 { texts.insert(m.fixed_line.example_number().into()); texts.insert(format!("0{}", m.mobile.example_number())); } }
        let t: Vec<String> = texts.into_iter().collect(); let mut v: Vec<&str> = ps.into_iter().collect(); v.sort();
        let parts: Vec<(usize, Vec<String>)> = std::thread::scope(|s| v.chunks(v.len() / 8 + 1).map(|ch| { let t = &t; s.spawn(move || { let mut b = vec![]; let n = ch.iter().map(|p| crate::conf::pattern(p, t, &mut b)).sum(); (n, b) }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap_or((0, vec!["regex facts: panic".into()]))).collect());
        for (a, b) in parts { k += a; bad.extend(b) }
    }
    let plain = crate::conf::plain(&mut bad);
    println!("{}", serde_json::json!({"facts": n + plain, "conformance_cases": k, "violated": bad}));
    std::process::exit(if bad.is_empty() { 0 } else { 1 })
}
