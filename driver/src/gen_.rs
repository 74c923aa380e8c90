//! Seeded input generators: numbers, texts, regions, plans.
use crate::refi::*;
use rand::{rngs::StdRng, seq::SliceRandom, Rng};
use regex_syntax::hir::*;
use rlibphonenumber::phonemetadata::*;
use rlibphonenumber::{CountryCodeSource as Src, PhoneNumber};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

thread_local! { static H: RefCell<HashMap<String, Rc<Hir>>> = RefCell::new(HashMap::new()); }
pub fn from_pattern(p: &str, r: &mut StdRng) -> String {
    let h = H.with(|c| c.borrow_mut().entry(p.to_string()).or_insert_with(|| Rc::new(regex_syntax::parse(p).unwrap_or(Hir::empty()))).clone());
    let mut o = String::new(); walk(&h, r, &mut o); o
}
fn walk(h: &Hir, r: &mut StdRng, o: &mut String) {
    match h.kind() {
        HirKind::Literal(l) => o.push_str(std::str::from_utf8(&l.0).unwrap_or("")),
        HirKind::Class(Class::Unicode(c)) => { let mut v = vec![]; for g in c.ranges() { for x in g.start() as u32..=(g.end() as u32).min(127) { if let Some(x) = char::from_u32(x) { v.push(x) } } } if let Some(x) = v.choose(r) { o.push(*x) } }
        HirKind::Repetition(p) => { let m = p.max.unwrap_or(p.min + 3).min(p.min + 20); for _ in 0..r.gen_range(p.min..=m) { walk(&p.sub, r, o) } }
        HirKind::Capture(c) => walk(&c.sub, r, o),
        HirKind::Concat(v) => for x in v { walk(x, r, o) },
        HirKind::Alternation(v) => walk(&v[r.gen_range(0..v.len())], r, o),
        _ => {}
    }
}
pub fn descs(m: &PhoneMetadata) -> [&PhoneNumberDesc; 12] { [&m.general_desc, &m.fixed_line, &m.mobile, &m.toll_free, &m.premium_rate, &m.shared_cost, &m.personal_number, &m.voip, &m.pager, &m.uan, &m.voicemail, &m.no_international_dialling] }
pub fn digits(r: &mut StdRng, n: usize) -> String { (0..n).map(|_| (b'0' + r.gen_range(0..10u8)) as char).collect() }
pub fn pick<'a, X: ?Sized>(r: &mut StdRng, v: &[&'a X]) -> &'a X { v[r.gen_range(0..v.len())] }
pub fn p(r: &mut StdRng, pct: u32) -> bool { r.gen_range(0..100) < pct }

/// national digits that resemble the plan
pub fn national(m: &PhoneMetadata, r: &mut StdRng) -> String {
    let d = pick(r, &descs(m));
    let mut s = match r.gen_range(0..20) {
        0..=10 => from_pattern(d.national_number_pattern(), r),
        11 | 12 => d.example_number().to_string(),
        13 | 14 if !m.number_format.is_empty() => { let f = m.number_format.choose(r).unwrap(); let x = from_pattern(f.pattern(), r); match f.leading_digits_pattern.last() { Some(l) => { let y = from_pattern(l, r); if y.len() < x.len() { format!("{}{}", y, &x[y.len()..]) } else { x } } None => x } }
        15 if m.has_leading_digits() => { let k = r.gen_range(3..9); format!("{}{}", from_pattern(m.leading_digits(), r), digits(r, k)) }
        16 if !d.possible_length.is_empty() => { let k = *d.possible_length.choose(r).unwrap(); digits(r, k.max(0) as usize) }
        17 if !d.possible_length_local_only.is_empty() => { let k = *d.possible_length_local_only.choose(r).unwrap(); digits(r, k.max(0) as usize) }
        _ => { let k = r.gen_range(1..18); digits(r, k) }
    };
    if s.is_empty() { let k = r.gen_range(1..14); s = digits(r, k) }
    s.retain(|c| c.is_ascii_digit());
    if p(r, 12) && !s.is_empty() { let i = r.gen_range(0..s.len()); match r.gen_range(0..4) { 0 => { s.remove(i); } 1 => s.insert(i, '7'), 2 => s.push((b'0' + r.gen_range(0..10u8)) as char), _ => { let x = digits(r, 1); s.replace_range(i..i + 1, &x) } } }
    if p(r, 4) { let z = r.gen_range(1..5); s = format!("{}{}", "0".repeat(z), s) }
    if p(r, 2) { let k = r.gen_range(1..6); s = "0".repeat(k) }
    s
}
pub fn set_national(n: &mut PhoneNumber, s: &str) {
    let z = s.len().saturating_sub(1).min(s.bytes().take_while(|b| *b == b'0').count());
    if z > 0 { n.set_italian_leading_zero(true); if z > 1 { n.set_number_of_leading_zeros(z as i32) } }
    n.set_national_number(s[z.min(s.len())..].parse().unwrap_or(0));
}
pub fn carrier(r: &mut StdRng) -> String { match r.gen_range(0..6) { 0 => String::new(), 1 => "15".into(), 2 => "1 2".into(), 3 => "abc".into(), 4 => { let k = r.gen_range(1..4); digits(r, k) } _ => "é#".into() } }
pub struct Plans { pub all: Vec<PhoneMetadata> }
impl Plans {
    pub fn any(&self, r: &mut StdRng) -> &PhoneMetadata { &self.all[r.gen_range(0..self.all.len())] }
    pub fn region(&self, r: &mut StdRng) -> String { match r.gen_range(0..30) { 0 => "ZZ".into(), 1 => "001".into(), 2 => String::new(), 3 => "us".into(), 4 => near_region(self.any(r).id(), r), 5..=7 => pick(r, &["US", "CA", "BR", "IT", "AR", "MX", "CL", "UZ", "GB", "CN", "RU", "KZ", "CO", "AU"]).into(), _ => self.any(r).id().to_string() } }
    /// a well-formed number of a random plan
    pub fn plain(&self, r: &mut StdRng) -> PhoneNumber { let m = self.any(r); let mut n = PhoneNumber::new(); n.set_country_code(m.country_code()); let mut s = national(m, r); s.truncate(17); set_national(&mut n, &s); n }
    pub fn number(&self, r: &mut StdRng) -> PhoneNumber {
        let mut n = self.plain(r);
        if p(r, 8) { n.set_country_code(pick(r, &[&0, &1, &7, &39, &44, &54, &999, &-1, &i32::MAX, &i32::MIN, &800, &2]).to_owned()) }
        if p(r, 2) { n.clear_country_code() }
        if p(r, 4) { n.set_national_number(*pick(r, &[&0, &1, &9, &10, &99, &911, &u64::MAX, &12345678901234567890])) }
        if p(r, 8) { n.set_italian_leading_zero(p(r, 70)) }
        if p(r, 5) { n.set_number_of_leading_zeros(*pick(r, &[&-5, &-1, &0, &1, &2, &3, &15, &40])) }
        if p(r, 22) { let k = r.gen_range(1..8); let e = digits(r, k); n.set_extension(pick(r, &[e.as_str(), "", "abc", "12", "٣", ";ext=4", "0", "+1", "+", "5+6"]).to_string()) }
        if p(r, 35) { let t = self.raw(&n, r); n.set_raw_input(t) }
        if p(r, 40) { n.set_country_code_source(*pick(r, &[&Src::UNSPECIFIED, &Src::FROM_DEFAULT_COUNTRY, &Src::FROM_NUMBER_WITHOUT_PLUS_SIGN, &Src::FROM_NUMBER_WITH_IDD, &Src::FROM_NUMBER_WITH_PLUS_SIGN])) }
        if p(r, 20) { let c = carrier(r); n.set_preferred_domestic_carrier_code(c) }
        n
    }
    /// raw inputs that resemble a number, or not
    pub fn raw(&self, n: &PhoneNumber, r: &mut StdRng) -> String {
        let s = nsn(n); let s = if s.len() > 30 { "12345".to_string() } else { s }; let cc = n.country_code();
        let np = self.all.iter().find(|m| m.country_code() == cc).map_or("0".to_string(), |m| m.national_prefix().to_string());
        let sp = separated(&s, r);
        if p(r, if crate::wit::texts().is_empty() { 8 } else { 40 }) { let t = if p(r, 50) { alpha(&sp, r) } else { sp.clone() }; return if p(r, 50) { oddly(&t, r) } else { let w = odd(r); insert(&t, &w, r) }; }
        match r.gen_range(0..14) { 0 => s, 1 => sp, 2 => format!("+{cc} {sp}"), 3 => format!("+{cc}{s}"), 4 => format!("00{cc}{s}"), 5 => format!("{np}{s}"), 6 => format!("{np} {sp}"), 7 => format!("{cc}{s}"), 8 => alpha(&sp, r), 9 => format!("1-{}", alpha(&sp, r)), 10 => format!("{sp} ext. 12"), 11 => String::new(), 12 => garbage(r), _ => format!("011 {cc} {sp}") }
    }
    pub fn text(&self, r: &mut StdRng) -> (String, String) {
        if p(r, 12) { let g = garbage(r); return (g, self.region(r)); }
        let m = self.any(r); let mut s = national(m, r); let cc = m.country_code(); let id = m.id().to_string();
        if p(r, 5) { let k = r.gen_range(0..24); s = digits(r, k) }
        if p(r, 55) { s = separated(&s, r) }
        if p(r, 8) { s = alpha(&s, r) }
        let idd = from_pattern(m.international_prefix(), r); let home = self.any(r); let hidd = from_pattern(home.international_prefix(), r);
        let np = if p(r, 50) { m.national_prefix().replace('~', "") } else { from_pattern(m.national_prefix_for_parsing(), r) };
        let mut region = if p(r, 85) { id } else { self.region(r) };
        let mut t = match r.gen_range(0..15) {
            0..=2 => format!("+{cc}{s}"), 3 => format!("\u{FF0B}{cc} {s}"), 4 => format!("{idd}{cc}{s}"), 5 => { region = home.id().to_string(); format!("{hidd}{cc}{s}") }
            6..=8 => s, 9 | 10 => format!("{np}{s}"), 11 => format!("{cc}{s}"), 12 => format!("+{idd}{cc}{s}"), 13 => format!("{cc}{np}{s}"), _ => format!("+{cc}{np}{s}") };
        if p(r, 25) { let k = r.gen_range(1..22); let e = digits(r, k); let f = pick(r, &[" ext. ", ";ext=", "x", " x", " extn ", ",,", ",", ";", " #", " доб. ", "ext:", " anexo ", "~", " int ", "-", " EXTENSION "]); t = format!("{t}{f}{e}"); if p(r, 25) { t.push('#') } }
        if p(r, 14) { t = self.rfc(&t, cc, r) }
        if p(r, 6) { t = format!("{}{t}", pick(r, &["Tel: ", "tel:", " ", "(", "call ", "٠"])) }
        if p(r, 6) { t = format!("{t}{}", pick(r, &[" ", ")", "/x 12", "\\ x2", "...", "\u{200E}", ";", "; x", "\n", "é"])) }
        if p(r, 6) { t = t.chars().map(|c| if c.is_ascii_digit() && p(r, 60) { char::from_u32(pick(r, &[&0x660u32, &0xFF10, &0x966, &0x1D7CE]) + c as u32 - 48).unwrap() } else { c }).collect() }
        if p(r, if crate::wit::texts().is_empty() { 10 } else { 40 }) { t = mutate(&t, r) }
        (t, region)
    }
    pub fn rfc(&self, t: &str, cc: i32, r: &mut StdRng) -> String {
        let ctx = match r.gen_range(0..9) { 0 | 1 => format!("+{cc}"), 2 => "example.com".into(), 3 => format!("+{cc}-0"), 4 => "".into(), 5 => "www.a-b.c1.".into(), 6 => "+".into(), 7 => format!("+1{cc}"), _ => pick(r, &["1.2", "a..b", "-a", "+(.)", "64", "a;b", "+64-é", "ab.c-", "a_b.com"]).to_string() };
        let isub = if p(r, 30) { ";isub=12345" } else { "" }; let c = format!(";phone-context={ctx}"); let tel = if p(r, 60) { "tel:" } else { "" }; let junk = if p(r, 10) { "tel:" } else { "" };
        match r.gen_range(0..6) { 0 => format!("{tel}{t}{c}{isub}"), 1 => format!("{tel}{t}{isub}{c}"), 2 => format!("{c}{tel}{t}{isub}"), 3 => format!("{tel}{t}{isub}"), 4 => format!("x{tel}{t}{c};{junk}{isub}"), _ => format!("{tel}{junk}{t}{c};a=b{isub};ext=3") }
    }
    pub fn any_text(&self, r: &mut StdRng) -> String { if p(r, 50) { self.text(r).0 } else { garbage(r) } }
}
pub fn separated(s: &str, r: &mut StdRng) -> String {
    let seps = [" ", "-", ".", "(", ")", "/", "\u{A0}", "\u{2010}", "~", " - ", "*", "x", "\u{FF0D}"]; let mut o = String::new(); let k = if p(r, 70) { 4 } else { 9 };
    for c in s.chars() { if p(r, 25) { o.push_str(seps[r.gen_range(0..seps.len()).min(k)]) } o.push(c) } o
}
pub fn alpha(s: &str, r: &mut StdRng) -> String {
    let keys = ["0", "1", "abc", "DEF", "ghi", "JKL", "mnO", "PQRS", "tuv", "WxYz"]; let n = s.chars().count(); let from = if n > 3 { r.gen_range(0..n - 1) } else { 0 };
    s.chars().enumerate().map(|(i, c)| if i >= from && c.is_ascii_digit() { let k: Vec<char> = keys[c as usize - 48].chars().collect(); k[r.gen_range(0..k.len())] } else { c }).collect()
}
pub fn garbage(r: &mut StdRng) -> String {
    let toks = ["tel:", ";phone-context=", "+", "\u{FF0B}", ";ext=", ";isub=", "x", " ", "0", "00", "011", "1", "12", "345", "6789", "A", "abc", "Flowers", "(", ")", "-", "/", "\\", "~", "\u{663}", "\u{FF11}", "é", "😀", "\n", ",", ";", "#", "*", "ext", "=", "example.com", "\u{A0}", "\u{301}", "+44", "+1", "+39", "2", "650", "+800", "\u{2013}", "\u{7}", "\u{200B}", "доб", "\u{FF58}", "$1", "%", "tel", "+64", "NonMatch"];
    let k = r.gen_range(0..14); (0..k).map(|_| toks[r.gen_range(0..toks.len())]).collect()
}
/// a text the library's patterns treat unlike the reference's, if there is one, or a character at the edge of a class
pub fn odd(r: &mut StdRng) -> String { let t = crate::wit::texts(); if !t.is_empty() && p(r, 80) { t.choose(r).unwrap().clone() } else { crate::wit::chars().choose(r).unwrap().to_string() } }
pub fn insert(s: &str, w: &str, r: &mut StdRng) -> String {
    let v: Vec<char> = s.chars().collect(); let i = match r.gen_range(0..4) { 0 => 0, 1 => v.len(), _ => r.gen_range(0..=v.len()) };
    v[..i].iter().collect::<String>() + w + &v[i..].iter().collect::<String>()
}
pub fn oddly(s: &str, r: &mut StdRng) -> String {
    let w = odd(r);
    match r.gen_range(0..12) { 0 => w, 1 => format!("tel:{s};phone-context={w}"), 2 => format!("{s};phone-context=+{w}"), 3 => { let k = r.gen_range(1..7); let d = digits(r, k); format!("{s}{w}{d}") } 4 => { let k = r.gen_range(1..12); let d = digits(r, k); format!("{w}{d}") } 5 => { let q = insert("a.b", &w, r); format!("{s};phone-context={q}") }
        6 => format!("{s}{w}"), _ => insert(s, &w, r) }
}
pub fn mutate(s: &str, r: &mut StdRng) -> String {
    if p(r, 35) { return oddly(s, r); }
    let mut v: Vec<char> = s.chars().collect(); if v.is_empty() { return garbage(r); }
    for _ in 0..r.gen_range(1..4) { let i = r.gen_range(0..v.len()); match r.gen_range(0..4) { 0 => { v.remove(i); if v.is_empty() { return String::new(); } } 1 => { let c = v[i]; v.insert(i, c) } 2 => { let g: Vec<char> = garbage(r).chars().collect(); v.splice(i..i, g); } _ => { let j = r.gen_range(0..v.len()); v.swap(i, j) } } }
    v.into_iter().collect()
}
/// A small synthetic numbering plan that exercises every metadata feature.
pub fn synthetic(r: &mut StdRng) -> PhoneMetadataCollection {
    let mut c = PhoneMetadataCollection::new();
    let ids = ["US", "CA", "BS", "BR", "MX", "CL", "UZ", "AR", "CN", "IT", "RU", "KZ", "AA", "AB", "AC", "001", "001", "001"];
    let codes = [1, 1, 1, 55, 52, 56, 998, 54, 86, 39, 7, 7, 44, 44, 44, 800, 979, 881];
    let mut shared_main: HashMap<i32, usize> = HashMap::new();
    for cc in [1, 7, 44] { let ks: Vec<usize> = (0..ids.len()).filter(|i| codes[*i] == cc).collect(); shared_main.insert(cc, *ks.choose(r).unwrap()); }
    let mut order: Vec<usize> = (0..ids.len()).collect(); order.shuffle(r); order.truncate(14);
    for i in order {
        let mut m = PhoneMetadata::new(); m.set_id(ids[i].into()); m.set_country_code(codes[i]);
        if shared_main.get(&codes[i]) == Some(&i) { m.set_main_country_for_code(true) }
        let general = pick(r, &[r"\d{4,8}", r"[2-9]\d{3,7}", r"12|12\d{3}|1\d{2}|[2-9]\d{4,6}", r"0?\d{5,7}", r"(?:3|30)\d{2,5}|[12]\d{5}", r"\d{2,12}", r"9\d{2}(?:\d{2})?|[0-5]\d{4,9}"]);
        m.general_desc = Some(desc(general, r, true)).into();
        macro_rules! d { ($($f:ident),*) => { $( if p(r, 62) { let pt = sub(r); m.$f = Some(desc(pt, r, false)).into(); } else if p(r, 70) { let mut x = PhoneNumberDesc::new(); x.possible_length.push(-1); m.$f = Some(x).into(); } )* } }
        d!(fixed_line, mobile, toll_free, premium_rate, shared_cost, personal_number, voip, pager, uan, voicemail, no_international_dialling);
        if p(r, 20) { m.mobile = m.fixed_line.clone(); m.set_same_mobile_and_fixed_line_pattern(true) } else if p(r, 10) { m.set_same_mobile_and_fixed_line_pattern(true) }
        m.set_international_prefix(pick(r, &["00", "011", "00|011", "0(?:0|11)", "810", "00[1-9]", "(?:0|00)", "8~10", "1[0-5]"]).into());
        let w = crate::wit::rules(); if !w.is_empty() && p(r, 40) { let x = w.choose(r).unwrap(); if regex::Regex::new(x).is_ok() { m.set_international_prefix(x.clone()) } }
        if p(r, 30) { m.set_preferred_international_prefix(pick(r, &["0011", "00", "8~10", ""]).into()) }
        if p(r, 70) { m.set_national_prefix(pick(r, &["0", "1", "8", "8~10", "06", ""]).into()) }
        let (pp, tr) = *pick(r, &[&("0", ""), &("0|1", ""), &("", ""), &("1", ""), &("0(?:(15))?", ""), &("(?:0|(1[2-5]))", ""), &("1(\\d{3})", "77$1"), &("0(12)?(\\d{3})", "9$2"), &("(?:0(1\\d))(\\d*)", "8$2"), &("0?(\\d{2})15", "9$1"), &("8", "3")]);
        m.set_national_prefix_for_parsing(pp.into()); if !tr.is_empty() || p(r, 10) { m.set_national_prefix_transform_rule(tr.into()) }
        if p(r, 30) { m.set_preferred_extn_prefix(pick(r, &[" extn ", " #", ""]).into()) }
        if ids[i] != "001" && p(r, 35) { m.set_leading_digits(pick(r, &["[2-4]", "3|30", "9", "12|1"]).into()) }
        let k = r.gen_range(0..4); for _ in 0..k { let f = fmt(r); m.number_format.push(f) }
        if p(r, 40) { let k = r.gen_range(1..4); for _ in 0..k { let f = fmt(r); m.intl_number_format.push(f) } }
        c.metadata.push(m);
    }
    c
}
fn sub(r: &mut StdRng) -> &'static str { pick(r, &[r"\d{4,6}", r"[2-5]\d{3,5}", r"3\d{4}", r"12|12\d{3}", r"9\d{2}(?:\d{2})?", r"(?:1|10|100)\d{2}", r"0\d{4,6}", r"[5-9]\d{4,7}", r"2[0-4]\d{3}|2\d{5}", r"", r"30\d{2,4}"]) }
fn desc(pt: &str, r: &mut StdRng, general: bool) -> PhoneNumberDesc {
    let mut d = PhoneNumberDesc::new(); if !pt.is_empty() || p(r, 50) { d.set_national_number_pattern(pt.into()) }
    if p(r, if general { 90 } else { 55 }) { let mut v: Vec<i32> = (2..12).filter(|_| p(r, 45)).collect(); if v.is_empty() { v.push(5) } d.possible_length = v; }
    if p(r, 30) { let v: Vec<i32> = (1..9).filter(|x| p(r, 25) && !d.possible_length.contains(x)).collect(); d.possible_length_local_only = v; }
    if p(r, 80) { let e = from_pattern(pt, r); d.set_example_number(if e.is_empty() { "12345".into() } else { e }) }
    d
}
pub fn fmt(r: &mut StdRng) -> NumberFormat {
    let mut f = NumberFormat::new();
    let (pt, fs): (&str, &[&str]) = *pick(r, &[&(r"(\d{2})(\d{3,5})", &["$1 $2", "$1-$2", "($1) $2", "$2 $1"] as &[&str]), &(r"(\d)(\d{3})(\d*)", &["$1 $2 $3", "$1-$2-$3", "9 $1 $2-$3", "($1) $2/$3"]), &(r"(\d{3,})", &["$1", "-$1"]), &(r"(\d{2})(\d{2})(\d{2,6})", &["$1 $2 $3", "$1.$2.$3", "$1 $3"]), &(r"(\d{1,3})(\d{4})", &["$1 $2", "~$1 $2"])]);
    f.set_pattern(pt.into()); let mut t = pick(r, fs).to_string();
    if p(r, if crate::wit::texts().is_empty() { 25 } else { 60 }) { let w = odd(r); if !w.contains('$') && !w.chars().any(|c| c.is_alphanumeric()) { t = t.replacen([' ', '-', '.', '/'], &w, 1) } }
    f.set_format(t);
    match r.gen_range(0..5) { 0 => f.leading_digits_pattern.push("[2-5]".into()), 1 => { f.leading_digits_pattern.push("[2-9]".into()); f.leading_digits_pattern.push("3[0-4]|4".into()) } 2 => { f.leading_digits_pattern.push("3".into()); f.leading_digits_pattern.push("[0-9]".into()) } _ => {} }
    let w = crate::wit::rules();
    if !w.is_empty() && p(r, 20) { let x = w.choose(r).unwrap().clone(); f.set_national_prefix_formatting_rule(if p(r, 50) || x.contains("$1") { x } else { format!("{x}$1") }) } else if p(r, 60) { f.set_national_prefix_formatting_rule(pick(r, &["0$1", "($1)", "8 ($1)", "$1", "", "0-$1"]).into()) }
    if p(r, 45) { f.set_domestic_carrier_code_formatting_rule(pick(r, &["0$CC $1", "$CC $1", "0$CC ($1)", "", "0 $CC-$1"]).into()) }
    f
}

/// a string that resembles a region code but is none
pub fn near_region(id: &str, r: &mut StdRng) -> String {
    let o = pick(r, &["US", "GB", "IT", "CA", "ZZ", "001"]);
    match r.gen_range(0..16) { 0 => id.to_lowercase(), 1 => format!("{id}-{o}"), 2 => format!("{id}-"), 3 => format!(" {id}"), 4 => format!("{id} "), 5 => format!("{id}_{o}"), 6 => id.chars().take(1).collect(), 7 => format!("{id}{o}"), 8 => format!("-{id}"), 9 => format!("{id}A"), 10 => format!("{id}\0"), 11 => id.chars().rev().collect(), 12 => { let mut c = id.chars(); let a = c.next().unwrap_or('U'); format!("{a}{}", c.as_str().to_lowercase()) } 13 => "XX".into(), 14 => id.chars().map(|c| char::from_u32(c as u32 + 0xFEE0).unwrap_or(c)).collect(), _ => format!("{id},{o}") }
}
