//! Bounded test of what the prelude (contracts/10..36) assumes about std, dec_from_char and regex: the assumed
//! postconditions, written over sequences of characters, are compared with the real operations.  Character facts are
//! checked for every character, text facts for every text of up to 4 characters over an alphabet with 1-, 2-, 3- and 4-byte characters.
use dec_from_char::DecimalExtended;
use regex::Regex;
type S = Vec<char>;
fn st(s: &[char]) -> String { s.iter().collect() }
fn words(al: &[char], n: usize) -> Vec<S> { let mut v = vec![vec![]]; let mut k = 0; while k < v.len() { if v[k].len() < n { for &c in al { let mut w = v[k].clone(); w.push(c); v.push(w) } } k += 1 } v }
fn bo(s: &[char], i: usize) -> usize { s[..i].iter().map(|c| c.len_utf8()).sum() }
fn find(s: &[char], p: &[char]) -> Option<usize> { (0..=s.len()).find(|&i| i + p.len() <= s.len() && s[i..i + p.len()] == *p) }
fn rfind(s: &[char], p: &[char]) -> Option<usize> { (0..=s.len()).rev().find(|&i| i + p.len() <= s.len() && s[i..i + p.len()] == *p) }
fn repl(s: &[char], a: &[char], b: &[char]) -> S { match find(s, a) { Some(k) if !a.is_empty() => [&s[..k], b, &repl(&s[k + a.len()..], a, b)].concat(), _ => s.to_vec() } }
pub fn check(bad: &mut Vec<String>) -> usize {
    let mut n = 0usize; let mut need = |c: bool, m: &dyn Fn() -> String| { n += 1; if !c && bad.len() < 20 { bad.push(m()) } };
    // ax_clen, ax_dec, upc, lowc, v_char_string, v_normalize_decimals_filtering on one character
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32) {
        let l = c.len_utf8(); let d = c.to_decimal_utf8();
        let up = if c.is_ascii_lowercase() { (c as u8 - 32) as char } else { c }; let lo = if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c };
        let ok = (1..=4).contains(&l) && ((c as u32) < 128) == (l == 1) && d.is_none_or(|d| d <= 9) && (!c.is_ascii_digit() || d == Some((c as u32 as u8).wrapping_sub(48))) && (!c.is_ascii() || c.is_ascii_digit() || d.is_none())
            && c.is_decimal_utf8() == d.is_some() && c.to_ascii_uppercase() == up && c.to_ascii_lowercase() == lo && c.to_string().chars().eq([c]);
        need(ok, &|| format!("character {:x}", c as u32));
    }
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32).filter(|c| c.to_decimal_utf8().is_some() || (*c as u32) % 997 == 0) {
        let t = format!("x{c}7{c}"); let w: String = t.chars().filter_map(|c| c.to_decimal_utf8()).map(|d| char::from_digit(d as u32, 10).unwrap()).collect();
        need(dec_from_char::normalize_decimals_filtering(&t) == w, &|| format!("digits of {t:?}"));
    }
    // text operations
    let al = ['a', '\u{e9}', '\u{20ac}', '\u{1f600}']; let ws = words(&al, 4); let ps = words(&al, 2);
    for s in &ws { let t = st(s);
        need(t.len() == bo(s, s.len()) && t.is_empty() == s.is_empty() && t.chars().eq(s.iter().copied()) && t.char_indices().eq((0..s.len()).map(|i| (bo(s, i), s[i]))), &|| format!("{t:?}: length, characters"));
        for b in 0..=t.len() + 1 { need(t.is_char_boundary(b) == (0..=s.len()).any(|i| bo(s, i) == b), &|| format!("{t:?}: boundary {b}")) }
        for i in 0..=s.len() { let b = bo(s, i); need(t[b..] == st(&s[i..]) && t[..b] == st(&s[..i]), &|| format!("{t:?}: cut at {b}"));
            let mut x = t.clone(); x.truncate(b); need(x == st(&s[..i]), &|| format!("{t:?}: truncate {b}")); let mut x = t.clone(); x.drain(0..b); need(x == st(&s[i..]), &|| format!("{t:?}: drain {b}"));
            for k in i..=s.len() { need(t[b..bo(s, k)] == st(&s[i..k]), &|| format!("{t:?}: slice {i} {k}")) } }
        let mut x = t.clone(); x.truncate(t.len() + 3); need(x == t, &|| format!("{t:?}: truncate beyond"));
        for p in &ps { let q = st(p);
            need(t.find(&q) == find(s, p).map(|k| bo(s, k)) && t.rfind(&q) == rfind(s, p).map(|k| bo(s, k)) && t.contains(&q) == find(s, p).is_some(), &|| format!("{t:?}: find {q:?}"));
            need(t.starts_with(&q) == s.starts_with(p) && t.ends_with(&q) == s.ends_with(p) && t.strip_prefix(&q) == s.strip_prefix(&p[..]).map(st).as_deref() && t.strip_suffix(&q) == s.strip_suffix(&p[..]).map(st).as_deref(), &|| format!("{t:?}: ends {q:?}"));
            if !p.is_empty() { need(t.replace(&q, "x") == st(&repl(s, p, &['x'])), &|| format!("{t:?}: replace {q:?}")) }
            let mut y = t.clone(); y.push_str(&q); need(y == st(&[&s[..], &p[..]].concat()), &|| format!("{t:?}: push_str"));
            if p.len() == 1 { let c = p[0]; let f = s.iter().take_while(|x| **x == c).count(); let e = s[f..].iter().rev().take_while(|x| **x == c).count();
                need(t.find(c) == find(s, p).map(|k| bo(s, k)) && t.trim_start_matches(c) == st(&s[f..]) && t[bo(s, f)..].trim_end_matches(c) == st(&s[f..s.len() - e]) && t.starts_with(c) == s.starts_with(p), &|| format!("{t:?}: char {c}")); }
        }
    }
    for k in 0..9usize { need("0".repeat(k) == st(&vec!['0'; k]), &|| "repeat".into()) }
    // decimal notation and its inverse
    for v in (0..2000u64).chain((0..20).flat_map(|e| { let b = 10u64.checked_pow(e).unwrap_or(u64::MAX); [b.saturating_sub(1), b, b.saturating_add(7)] })).chain([u64::MAX, i32::MAX as u64, u32::MAX as u64]) {
        let mut d = vec![]; let mut x = v; loop { d.push((b'0' + (x % 10) as u8) as char); x /= 10; if x == 0 { break } } d.reverse();
        need(v.to_string() == st(&d) && st(&d).parse::<u64>() == Ok(v) && u64::from_str_radix(&format!("00{v}"), 10) == Ok(v) && (v > i32::MAX as u64 || st(&d).parse::<i32>() == Ok(v as i32) && format!("{}", v as i32) == st(&d) && (-(v as i32)).to_string() == if v == 0 { "0".into() } else { format!("-{}", st(&d)) }), &|| format!("decimal {v}"));
    }
    need(u64::from_str_radix("18446744073709551616", 10).is_err() && i32::from_str_radix("2147483648", 10).is_err() && "".parse::<u64>().is_err(), &|| "number out of range".into());
    // ax_class_plus, ax_re_cc
    for cs in ["+", "+\u{FF0B}", "\u{FF0B}+"] { let r = Regex::new(&format!("[{cs}]+")).unwrap(); for s in words(&['+', '\u{FF0B}', '1', ' '], 4) { let t = st(&s); let m = r.find(&t);
        let run = s.iter().take_while(|c| cs.contains(**c)).count(); need(m.is_some_and(|m| m.start() == 0) == (run > 0) && (run == 0 || m.unwrap().end() == bo(&s, run)), &|| format!("[{cs}]+ on {t:?}")); } }
    let cc = Regex::new("\\$CC").unwrap(); for s in words(&['$', 'C', 'x'], 5) { let t = st(&s); let w = match find(&s, &['$', 'C', 'C']) { Some(k) => format!("{}1\u{e9}{}", st(&s[..k]), st(&s[k + 3..])), None => t.clone() }; need(cc.replace(&t, "1\u{e9}") == w, &|| format!("$CC in {t:?}")) }
    n
}
/// regex facts on one pattern: ranges, group 0, '^(?:p)$' is "some match covers the text", no match means no replacement
pub fn pattern(p: &str, texts: &[String], bad: &mut Vec<String>) -> usize {
    let (Ok(r), Ok(a)) = (Regex::new(p), Regex::new(&format!("^(?:{p})$"))) else { bad.push(format!("{p}: does not compile")); return 1 };
    let all = regex_automata::dfa::dense::Builder::new().configure(regex_automata::dfa::dense::Config::new().match_kind(regex_automata::MatchKind::All).start_kind(regex_automata::dfa::StartKind::Anchored).dfa_size_limit(Some(4 << 20)).determinize_size_limit(Some(8 << 20))).build(p).ok();
    let mut n = 0;
    for t in texts { n += 1;
        let m = r.find(t); let c = r.captures(t);
        let mut ok = m.is_some() == c.is_some() && m.is_none_or(|m| m.start() <= m.end() && m.end() <= t.len() && t.is_char_boundary(m.start()) && t.is_char_boundary(m.end()));
        if let (Some(m), Some(c)) = (m, &c) { ok &= c.get(0).map(|g| g.range()) == Some(m.range()) && c.iter().flatten().all(|g| g.start() <= g.end() && g.end() <= t.len()); ok &= !(m.start() == 0 && m.end() == t.len()) || a.is_match(t) }
        if m.is_none() { ok &= r.replace(t, "x$1") == *t && r.replace_all(t, "x$1") == *t }
        if let Some(d) = &all { use regex_automata::dfa::Automaton; let s0 = d.start_state(&regex_automata::util::start::Config::new().anchored(regex_automata::Anchored::Yes));
            if let Ok(mut s) = s0 { for b in t.bytes() { s = d.next_state(s, b) } ok &= d.is_match_state(d.next_eoi_state(s)) == a.is_match(t) } }
        if !ok && bad.len() < 20 { bad.push(format!("{p} on {t:?}: assumed regex facts")) } }
    n
}
/// e164_plain (contracts/60_p31.rs): decided on the automata of the library's patterns for every text of '+' and 3 to 20 digits
#[cfg(verif_pats)]
pub fn plain(bad: &mut Vec<String>) -> usize {
    use regex_automata::{hybrid::dfa::DFA, util::start, Anchored, MatchKind}; use std::collections::HashSet;
    let ps = crate::verif_hooks::patterns(); let get = |n: &str| ps.iter().find(|x| x.0 == n).map(|x| x.1.clone()).unwrap_or_default();
    let walk = |p: &str, kind: MatchKind, anchored: Anchored| -> Result<Vec<(bool, bool)>, String> { // per length: (some text accepted at its end or before, every text accepted at its end)
        let d = DFA::builder().configure(DFA::config().match_kind(kind).cache_capacity(200 << 20).skip_cache_capacity_check(true)).build(p).map_err(|e| e.to_string())?; let mut c = d.create_cache();
        let s = d.start_state(&mut c, &start::Config::new().anchored(anchored)).map_err(|e| format!("{e:?}"))?; let e = |e: regex_automata::hybrid::CacheError| format!("{e:?}");
        let mut cur: HashSet<(regex_automata::hybrid::LazyStateID, bool)> = [(s, false)].into(); let mut out = vec![];
        for k in 0..=21usize { let mut any = false; let mut every = true;
            for &(x, seen) in &cur { let m = d.next_eoi_state(&mut c, x).map_err(e)?.is_match(); any |= m || seen; every &= m }
            out.push((any, every));
            let mut nx = HashSet::new();
            for &(x, seen) in &cur { for b in if k == 0 { b'+'..=b'+' } else { b'0'..=b'9' } { let y = d.next_state(&mut c, x, b).map_err(e)?; nx.insert((y, seen || y.is_match())); } }
            cur = nx; if cur.len() > 20000 { return Err("too many states".into()) } }
        Ok(out) };
    let mut n = 0;
    for name in ["capture_up_to_second_number_start_pattern", "extn_pattern"] { n += 1; match walk(&get(name), MatchKind::All, Anchored::No) { Ok(v) => if v[4..].iter().any(|x| x.0) { bad.push(format!("e164_plain: {name} matches in a text of plus and digits")) }, Err(e) => bad.push(format!("{name}: {e}")) } }
    n += 1; match walk(&get("valid_phone_number_pattern"), MatchKind::LeftmostFirst, Anchored::Yes) { Ok(v) => if !v[4..=21].iter().all(|x| x.1) { bad.push("e164_plain: plus and digits not viable".into()) }, Err(e) => bad.push(format!("valid_phone_number_pattern: {e}")) }
    let whole = |p: &str, t: &str| Regex::new(&get(p)).ok().and_then(|r| r.find(t).map(|m| m.start() == 0 && m.end() == t.len())).unwrap_or(false);
    n += 1; if !whole("valid_start_char_pattern", "+") { bad.push("e164_plain: plus does not start a number".into()) }
    for d in '0'..='9' { n += 1; if whole("unwanted_end_char_pattern", &d.to_string()) { bad.push("e164_plain: digit unwanted at the end".into()) } }
    n
}
#[cfg(not(verif_pats))]
pub fn plain(_: &mut Vec<String>) -> usize { 0 }
