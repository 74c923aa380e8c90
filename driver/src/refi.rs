//! Independent reference for the listed properties: written from the property texts, on the
//! plain metadata, with its own regexes (always anchored) and no code of the crate under test
//! except the protobuf data types.
use regex::{Captures, Regex};
use rlibphonenumber::phonemetadata::*;
use rlibphonenumber::{CountryCodeSource as Src, MatchType, NumberLengthType, PhoneNumber, PhoneNumberFormat as F, PhoneNumberType as T, ValidationError as V};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub const EXT: &str = "(?:;ext=([\\p{Nd}]{1,20})|[ \u{A0}\\t,]*(?:e?xt(?:ensi(?:o\u{301}?|\u{F3}))?n?|(?:\u{FF45})?\u{FF58}\u{FF54}(?:\u{FF4E})?|\u{434}\u{43E}\u{431}|anexo)[:\\.\u{FF0E}]?[ \u{A0}\\t,-]*([\\p{Nd}]{1,20})#?|[ \u{A0}\\t,]*(?:[x\u{FF58}#\u{FF03}~\u{FF5E}]|int|\u{FF49}\u{FF4E}\u{FF54})[:\\.\u{FF0E}]?[ \u{A0}\\t,-]*([\\p{Nd}]{1,9})#?|[- ]+([\\p{Nd}]{1,6})#|[ \u{A0}\t]*(?:,{2}|;)[:\\.\u{FF0E}]?[ \u{A0}\\t,-]*([\\p{Nd}]{1,15})#?|[ \u{A0}\t]*(?:,)+[:\\.\u{FF0E}]?[ \u{A0}\\t,-]*([\\p{Nd}]{1,9})#?)";
pub const PUNCT: &str = "-x\u{2010}-\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{A0}\u{AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.\\[\\]/~\u{2053}\u{223C}";

thread_local! { static RE: RefCell<HashMap<String, Option<Rc<Regex>>>> = RefCell::new(HashMap::new()); }
pub fn re(p: &str) -> Rc<Regex> { RE.with(|c| c.borrow_mut().entry(p.to_string()).or_insert_with(|| Regex::new(p).ok().map(Rc::new)).clone()).expect("reference regex") }
pub fn whole(p: &str, s: &str) -> bool { re(&format!("^(?:{p})$")).is_match(s) }
pub fn start_end(p: &str, s: &str) -> Option<usize> { re(&format!("^(?:{p})")).find(s).map(|m| m.end()) }
pub fn start_caps<'a>(p: &str, s: &'a str) -> Option<Captures<'a>> { re(&format!("^(?:{p})")).captures(s) }
pub fn is_punct(c: char) -> bool { matches!(c, '-' | 'x' | '\u{2010}'..='\u{2015}' | '\u{2212}' | '\u{30FC}' | '\u{FF0D}'..='\u{FF0F}' | ' ' | '\u{A0}' | '\u{AD}' | '\u{200B}' | '\u{2060}' | '\u{3000}' | '(' | ')' | '\u{FF08}' | '\u{FF09}' | '\u{FF3B}' | '\u{FF3D}' | '.' | '[' | ']' | '/' | '~' | '\u{2053}' | '\u{223C}') }
pub fn is_nd(c: char) -> bool { re(r"^\p{Nd}$").is_match(c.encode_utf8(&mut [0; 4])) }
/// decimal value of a digit of any script (blocks of ten, in order)
pub fn nd_value(c: char) -> Option<u32> {
    if c.is_ascii_digit() { return Some(c as u32 - 48); }
    if !is_nd(c) { return None; }
    let mut lo = c as u32;
    while let Some(p) = char::from_u32(lo - 1) { if is_nd(p) { lo -= 1 } else { break } }
    Some((c as u32 - lo) % 10)
}
pub fn keypad(c: char) -> Option<char> { Some(match c.to_ascii_uppercase() { 'A'..='C' => '2', 'D'..='F' => '3', 'G'..='I' => '4', 'J'..='L' => '5', 'M'..='O' => '6', 'P'..='S' => '7', 'T'..='V' => '8', 'W'..='Z' => '9', _ => return None }) }
pub fn digits_only(s: &str) -> String { s.chars().filter_map(|c| nd_value(c).map(|d| (b'0' + d as u8) as char)).collect() }
pub fn diallable(s: &str) -> String { s.chars().filter(|c| c.is_ascii_digit() || "+*#".contains(*c)).collect() }
pub fn convert_alpha(s: &str) -> String { s.chars().map(|c| keypad(c).unwrap_or(c)).collect() }
pub fn grouping(s: &str) -> String {
    s.chars().filter_map(|c| match c {
        'a'..='z' | 'A'..='Z' => Some(c.to_ascii_uppercase()), '0'..='9' => Some(c),
        '-' | '\u{FF0D}' | '\u{2010}'..='\u{2015}' | '\u{2212}' => Some('-'),
        '/' | '\u{FF0F}' => Some('/'), ' ' | '\u{3000}' | '\u{2060}' => Some(' '), '.' | '\u{FF0E}' => Some('.'), _ => None }).collect()
}
pub fn normalize(s: &str) -> String {
    // three letters on one line make it an alpha number
    if s.split('\n').any(|l| l.chars().filter(|c| c.is_ascii_alphabetic()).count() >= 3) {
        s.chars().filter_map(|c| if c.is_ascii_digit() { Some(c) } else { keypad(c) }).collect()
    } else { digits_only(s) }
}
/// "$N" template over the captures; anything else literal (`$` only followed by one digit is special)
pub fn expand(t: &str, c: &Captures) -> String {
    let v: Vec<char> = t.chars().collect(); let mut o = String::new(); let mut i = 0;
    while i < v.len() { if v[i] == '$' && i + 1 < v.len() && v[i + 1].is_ascii_digit() { o.push_str(c.get(v[i + 1] as usize - 48).map_or("", |m| m.as_str())); i += 2 } else { o.push(v[i]); i += 1 } }
    o
}
pub fn first_group(fmt: &str, rule: &str) -> String {
    // replaces the first "$d" of fmt by rule, in which "$1" stands for that very group
    let b = fmt.as_bytes();
    for i in 0..b.len() { if b[i] == b'$' && i + 1 < b.len() && b[i + 1].is_ascii_digit() { let g = &fmt[i..i + 2]; return format!("{}{}{}", &fmt[..i], rule.replace("$1", g), &fmt[i + 2..]); } }
    fmt.to_string()
}
pub fn viable(s: &str) -> bool {
    s.len() >= 2 && re(&format!("(?i)^(?:[+\u{FF0B}]*(?:[{PUNCT}*]*\\p{{Nd}}){{3,}}[{PUNCT}*\\p{{Nd}}a-z\\p{{Nd}}]*|\\p{{Nd}}{{2}})(?:{EXT})?$")).is_match(s)
}
pub fn strip_ext(s: &str) -> (String, Option<String>) {
    if let Some(c) = re(&format!("(?i)(?:{EXT})$")).captures(s) {
        let before = &s[..c.get(0).unwrap().start()];
        if viable(before) { for i in 1..c.len() { if let Some(m) = c.get(i) { if !m.as_str().is_empty() { return (before.to_string(), Some(m.as_str().to_string())); } } } }
    }
    (s.to_string(), None)
}
pub fn context_valid(c: &str) -> bool {
    if let Some(r) = c.strip_prefix('+') { return r.chars().all(|c| is_nd(c) || "-.()".contains(c)) && r.chars().any(is_nd); }
    let d = c.strip_suffix('.').unwrap_or(c);
    let an = |c: char| c.is_ascii_alphabetic() || is_nd(c);
    let labels: Vec<&str> = d.split('.').collect();
    labels.iter().all(|l| !l.is_empty() && l.chars().all(|c| an(c) || c == '-') && an(l.chars().next().unwrap()) && an(l.chars().last().unwrap())) && labels.last().unwrap().starts_with(|c: char| c.is_ascii_alphabetic())
}
pub fn extract_possible(s: &str) -> Option<String> {
    let st = s.char_indices().find(|(_, c)| *c == '+' || *c == '\u{FF0B}' || is_nd(*c))?.0;
    let mut t = &s[st..];
    while let Some(c) = t.chars().last() { if re(r"^[\p{N}\p{L}#]$").is_match(c.encode_utf8(&mut [0; 4])) { break } t = &t[..t.len() - c.len_utf8()]; }
    if t.is_empty() { return None; }
    Some(re(r"(.*)[\\/] *x").captures(t).map_or(t, |c| c.get(1).unwrap().as_str()).to_string())
}
pub fn build_national(s: &str) -> Result<String, String> {
    let mut o = String::new();
    if let Some(i) = s.find(";phone-context=") {
        let rest = &s[i + 15..]; let ctx = rest.split(';').next().unwrap();
        if ctx.is_empty() || !context_valid(ctx) { return Err("NotANumber".into()); }
        if ctx.starts_with('+') { o.push_str(ctx) }
        let b = s[..i].find("tel:").map_or(0, |j| j + 4);
        o.push_str(&s[b..i]);
    } else { o.push_str(&extract_possible(s).ok_or("NotANumber")?) }
    if let Some(i) = o.find(";isub=") { o.truncate(i) }
    Ok(o)
}
pub fn zeros_of(s: &str) -> usize { let n = s.len(); if n < 2 { return 0; } s.bytes().take(n - 1).take_while(|b| *b == b'0').count() }
pub fn nsn(n: &PhoneNumber) -> String { format!("{}{}", if n.italian_leading_zero() { "0".repeat(n.number_of_leading_zeros().max(0) as usize) } else { String::new() }, n.national_number()) }
pub fn desc_match(s: &str, d: &PhoneNumberDesc) -> bool { let p = d.national_number_pattern(); (d.possible_length.is_empty() || d.possible_length.contains(&(s.len() as i32))) && !p.is_empty() && whole(p, s) }
pub fn pat_match(s: &str, d: &PhoneNumberDesc) -> bool { let p = d.national_number_pattern(); !p.is_empty() && whole(p, s) }
pub fn type_in(s: &str, m: &PhoneMetadata) -> T {
    if !desc_match(s, &m.general_desc) { return T::Unknown; }
    for (d, t) in [(&m.premium_rate, T::PremiumRate), (&m.toll_free, T::TollFree), (&m.shared_cost, T::SharedCost), (&m.voip, T::VoIP), (&m.personal_number, T::PersonalNumber), (&m.pager, T::Pager), (&m.uan, T::UAN), (&m.voicemail, T::VoiceMail)] { if desc_match(s, d) { return t; } }
    let mob = desc_match(s, &m.mobile); let fixed = desc_match(s, &m.fixed_line); let same = m.same_mobile_and_fixed_line_pattern();
    if fixed { if same || mob { T::FixedLineOrMobile } else { T::FixedLine } } else if mob && !same { T::Mobile } else { T::Unknown }
}
pub fn desc_of(m: &PhoneMetadata, t: T) -> &PhoneNumberDesc { match t { T::PremiumRate => &m.premium_rate, T::TollFree => &m.toll_free, T::Mobile => &m.mobile, T::FixedLine | T::FixedLineOrMobile => &m.fixed_line, T::SharedCost => &m.shared_cost, T::VoIP => &m.voip, T::PersonalNumber => &m.personal_number, T::Pager => &m.pager, T::UAN => &m.uan, T::VoiceMail => &m.voicemail, T::Unknown => &m.general_desc } }
pub fn length_class(len: i32, m: &PhoneMetadata, t: T) -> Result<NumberLengthType, V> {
    let own = |t: T| -> Vec<i32> { let d = desc_of(m, t); if d.possible_length.is_empty() { m.general_desc.possible_length.clone() } else { d.possible_length.clone() } };
    let none = |t: T| desc_of(m, t).possible_length == [-1];
    let (mut l, mut loc) = (own(t), desc_of(m, t).possible_length_local_only.clone());
    if t == T::FixedLineOrMobile {
        if none(T::FixedLine) { l = own(T::Mobile); loc = m.mobile.possible_length_local_only.clone() }
        else if !none(T::Mobile) { l.extend(own(T::Mobile)); loc.extend(m.mobile.possible_length_local_only.clone()) }
    }
    l.sort();
    if l.is_empty() || l[0] == -1 { return Err(V::InvalidLength); }
    if loc.contains(&len) { return Ok(NumberLengthType::IsPossibleLocalOnly); }
    if l.contains(&len) { return Ok(NumberLengthType::IsPossible); }
    Err(if len < l[0] { V::TooShort } else if len > *l.last().unwrap() { V::TooLong } else { V::InvalidLength })
}
pub fn strip_national(m: &PhoneMetadata, s: &str) -> (String, Option<String>) {
    let p = m.national_prefix_for_parsing();
    if s.is_empty() || p.is_empty() { return (s.into(), None); }
    let Some(c) = start_caps(p, s) else { return (s.into(), None) };
    let rule = m.national_prefix_transform_rule();
    let (g1, g2) = (c.get(1).map(|m| m.as_str()), c.get(2).map(|m| m.as_str()));
    let keyed = match (g1, g2) { (Some(_), Some(b)) => !b.is_empty(), (Some(a), None) => !a.is_empty(), _ => false };
    let rest = &s[c.get(0).unwrap().end()..];
    let (out, cc) = if !rule.is_empty() && keyed { (format!("{}{}", expand(rule, &c), rest), if g2.is_some() { g1 } else { None }) } else { (rest.to_string(), g1) };
    if pat_match(s, &m.general_desc) && !pat_match(&out, &m.general_desc) { return (s.into(), None); }
    (out, cc.map(|x| x.to_string()))
}
pub fn strip_idd(s: &str, p: &str) -> (String, Src) {
    if s.is_empty() { return (String::new(), Src::FROM_DEFAULT_COUNTRY); }
    let t = s.trim_start_matches(['+', '\u{FF0B}']);
    if t.len() < s.len() { return (normalize(t), Src::FROM_NUMBER_WITH_PLUS_SIGN); }
    let n = normalize(s);
    if let Some(e) = start_end(p, &n) { if !n[e..].starts_with('0') { return (n[e..].to_string(), Src::FROM_NUMBER_WITH_IDD); } }
    (n, Src::FROM_DEFAULT_COUNTRY)
}
pub fn suffix(a: &PhoneNumber, b: &PhoneNumber) -> bool { let (x, y) = (a.national_number().to_string(), b.national_number().to_string()); x.ends_with(&y) || y.ends_with(&x) }
pub fn is_match(a: &PhoneNumber, b: &PhoneNumber) -> MatchType {
    if a.has_extension() && b.has_extension() && a.extension() != b.extension() { return MatchType::NoMatch; }
    let z = |n: &PhoneNumber| if n.italian_leading_zero() { Some(n.number_of_leading_zeros()) } else { None };
    let same = a.national_number() == b.national_number() && a.extension() == b.extension() && z(a) == z(b);
    if a.country_code() != 0 && b.country_code() != 0 {
        if a.country_code() != b.country_code() { MatchType::NoMatch } else if same { MatchType::ExactMatch } else if suffix(a, b) { MatchType::ShortNsnMatch } else { MatchType::NoMatch }
    } else if same { MatchType::NsnMatch } else if suffix(a, b) { MatchType::ShortNsnMatch } else { MatchType::NoMatch }
}
pub fn with_code(cc: i32, f: F, s: &str) -> String { match f { F::E164 => format!("+{cc}{s}"), F::International => format!("+{cc} {s}"), F::RFC3966 => format!("tel:+{cc}-{s}"), F::National => s.to_string() } }
pub fn extension(n: &PhoneNumber, m: &PhoneMetadata, f: F) -> String {
    if n.extension().is_empty() { return String::new(); }
    let p = if f == F::RFC3966 { ";ext=" } else if m.has_preferred_extn_prefix() { m.preferred_extn_prefix() } else { " ext. " };
    format!("{p}{}", n.extension())
}
pub fn choose<'a>(fs: &'a [NumberFormat], s: &str) -> Option<&'a NumberFormat> { fs.iter().find(|f| f.leading_digits_pattern.last().map_or(true, |p| start_end(p, s).is_some()) && whole(f.pattern(), s)) }
pub fn layout(s: &str, f: &NumberFormat, nf: F, carrier: &str) -> String {
    let mut t = f.format().to_string();
    if nf == F::National && !carrier.is_empty() && !f.domestic_carrier_code_formatting_rule().is_empty() { t = first_group(&t, &f.domestic_carrier_code_formatting_rule().replacen("$CC", carrier, 1)) }
    else if nf == F::National && !f.national_prefix_formatting_rule().is_empty() { t = first_group(&t, f.national_prefix_formatting_rule()) }
    let mut o = String::new(); let mut last = 0; let r = re(f.pattern());
    for c in r.captures_iter(s) { let m = c.get(0).unwrap(); o.push_str(&s[last..m.start()]); o.push_str(&expand(&t, &c)); last = m.end() }
    o.push_str(&s[last..]);
    if nf == F::RFC3966 {
        let t = o.trim_start_matches(is_punct).to_string(); o.clear(); let mut inrun = false;
        for c in t.chars() { if is_punct(c) { if !inrun { o.push('-') } inrun = true } else { o.push(c); inrun = false } }
    }
    o
}
pub fn national_part(s: &str, m: &PhoneMetadata, nf: F, carrier: &str) -> String {
    let fs = if nf == F::National || m.intl_number_format.is_empty() { &m.number_format } else { &m.intl_number_format };
    choose(fs, s).map_or(s.to_string(), |f| layout(s, f, nf, carrier))
}

pub struct Ref { pub md: BTreeMap<String, PhoneMetadata>, pub ng: BTreeMap<i32, PhoneMetadata>, pub codes: BTreeMap<i32, Vec<String>>, pub nanpa: Vec<String> }
impl Ref {
    pub fn new(c: &PhoneMetadataCollection) -> Ref {
        let mut r = Ref { md: BTreeMap::new(), ng: BTreeMap::new(), codes: BTreeMap::new(), nanpa: vec![] };
        for m in &c.metadata {
            let id = m.id().to_string(); let cc = m.country_code(); if id == "ZZ" { continue }
            let l = r.codes.entry(cc).or_default(); if m.main_country_for_code() { l.insert(0, id.clone()) } else { l.push(id.clone()) }
            if cc == 1 { r.nanpa.push(id.clone()) }
            if id == "001" { r.ng.insert(cc, m.clone()); } else { r.md.insert(id, m.clone()); }
        }
        r
    }
    pub fn main(&self, cc: i32) -> &str { self.codes.get(&cc).map_or("ZZ", |v| &v[0]) }
    pub fn plan(&self, cc: i32, r: &str) -> Option<&PhoneMetadata> { if r == "001" { self.ng.get(&cc) } else { self.md.get(r) } }
    pub fn main_plan(&self, cc: i32) -> Option<&PhoneMetadata> { self.plan(cc, self.main(cc)) }
    pub fn region_of(&self, n: &PhoneNumber) -> &str {
        let Some(v) = self.codes.get(&n.country_code()) else { return "ZZ" };
        if v.len() == 1 { return &v[0]; }
        let s = nsn(n);
        for r in v { let Some(m) = self.md.get(r) else { return "ZZ" }; if (m.has_leading_digits() && start_end(m.leading_digits(), &s).is_some()) || type_in(&s, m) != T::Unknown { return r; } }
        "ZZ"
    }
    pub fn type_of(&self, n: &PhoneNumber) -> T { self.plan(n.country_code(), self.region_of(n)).map_or(T::Unknown, |m| type_in(&nsn(n), m)) }
    pub fn valid_for(&self, n: &PhoneNumber, r: &str) -> bool { self.plan(n.country_code(), r).is_some_and(|m| (r == "001" || m.country_code() == n.country_code()) && type_in(&nsn(n), m) != T::Unknown) }
    pub fn valid(&self, n: &PhoneNumber) -> bool { self.valid_for(n, self.region_of(n)) }
    pub fn reason(&self, n: &PhoneNumber, t: T) -> Result<NumberLengthType, V> { self.main_plan(n.country_code()).map_or(Err(V::InvalidCountryCode), |m| length_class(nsn(n).len() as i32, m, t)) }
    pub fn can_dial(&self, n: &PhoneNumber) -> bool { self.md.get(self.region_of(n)).map_or(true, |m| !desc_match(&nsn(n), &m.no_international_dialling)) }
    pub fn truncate(&self, n: &PhoneNumber) -> Option<PhoneNumber> {
        let mut c = n.clone(); if self.valid(&c) { return Some(c); }
        loop { let x = c.national_number() / 10; c.set_national_number(x); if x == 0 || self.reason(&c, T::Unknown) == Err(V::TooShort) { return None; } if self.valid(&c) { return Some(c); } }
    }
    pub fn format(&self, n: &PhoneNumber, f: F) -> String {
        if n.national_number() == 0 && !n.raw_input().is_empty() { return n.raw_input().to_string(); }
        let s = nsn(n); let cc = n.country_code();
        if f == F::E164 { return with_code(cc, f, &s); }
        match self.main_plan(cc) { None => s, Some(m) => with_code(cc, f, &format!("{}{}", national_part(&s, m, f, ""), extension(n, m, f))) }
    }
    pub fn format_by_pattern(&self, n: &PhoneNumber, f: F, u: &[NumberFormat]) -> String {
        let s = nsn(n); let cc = n.country_code(); let Some(m) = self.main_plan(cc) else { return s };
        let body = match choose(u, &s) { None => s.clone(), Some(r) => { let mut r = r.clone(); if !r.national_prefix_formatting_rule().is_empty() { if m.national_prefix().is_empty() { r.clear_national_prefix_formatting_rule() } else { let t = r.national_prefix_formatting_rule().replace("$NP", m.national_prefix()).replace("$FG", "$1"); r.set_national_prefix_formatting_rule(t) } } layout(&s, &r, f, "") } };
        with_code(cc, f, &format!("{body}{}", extension(n, m, F::National)))
    }
    pub fn carrier(&self, n: &PhoneNumber, c: &str) -> String { let s = nsn(n); match self.main_plan(n.country_code()) { None => s, Some(m) => format!("{}{}", national_part(&s, m, F::National, c), extension(n, m, F::National)) } }
    pub fn preferred_carrier(&self, n: &PhoneNumber, c: &str) -> String { self.carrier(n, if n.preferred_domestic_carrier_code().is_empty() { c } else { n.preferred_domestic_carrier_code() }) }
    pub fn mobile(&self, n0: &PhoneNumber, from: &str, fmt: bool) -> String {
        let cc = n0.country_code(); if !self.codes.contains_key(&cc) { return n0.raw_input().to_string(); }
        let mut n = n0.clone(); n.clear_extension(); let r = self.main(cc); let t = self.type_of(&n); let dial = self.can_dial(&n);
        let fom = matches!(t, T::FixedLine | T::Mobile | T::FixedLineOrMobile);
        let out = if from == r {
            if r == "BR" && fom { if n.preferred_domestic_carrier_code().is_empty() { String::new() } else { self.preferred_carrier(&n, "") } }
            else if cc == 1 { let short = length_class(nsn(&n).len() as i32, self.md.get(from).unwrap(), T::Unknown) == Err(V::TooShort); self.format(&n, if dial && !short { F::International } else { F::National }) }
            else { let intl = (r == "001" || (["MX", "CL", "UZ"].contains(&r) && fom)) && dial; self.format(&n, if intl { F::International } else { F::National }) }
        } else if t != T::Unknown && dial { return self.format(&n, if fmt { F::International } else { F::E164 }) } else { String::new() };
        if fmt { out } else { diallable(&out) }
    }
    fn single(p: &str) -> bool { whole("\\d+(?:[~\u{2053}\u{223C}\u{FF5E}]\\d+)?", p) }
    pub fn out(&self, n: &PhoneNumber, from: &str) -> String {
        let Some(fm) = self.md.get(from) else { return self.format(n, F::International) };
        let cc = n.country_code(); let s = nsn(n); let Some(m) = self.main_plan(cc) else { return s };
        if cc == 1 { if self.nanpa.iter().any(|x| x == from) { return format!("1 {}", self.format(n, F::National)); } } else if cc == fm.country_code() { return self.format(n, F::National); }
        let p = if fm.has_preferred_international_prefix() { fm.preferred_international_prefix() } else if Self::single(fm.international_prefix()) { fm.international_prefix() } else { "" };
        let body = format!("{}{}", national_part(&s, m, F::International, ""), extension(n, m, F::International));
        if p.is_empty() { with_code(cc, F::International, &body) } else { format!("{p} {cc} {body}") }
    }
    pub fn out_alpha(&self, n: &PhoneNumber, from: &str) -> String {
        if n.raw_input().is_empty() { return self.out(n, from); }
        let cc = n.country_code(); if !self.codes.contains_key(&cc) { return n.raw_input().to_string(); }
        let s = nsn(n); let mut raw = grouping(n.raw_input());
        if s.len() > 3 { if let Some(i) = raw.find(&s[..3]) { raw = raw[i..].to_string() } }
        let fm = self.md.get(from);
        if cc == 1 { if self.nanpa.iter().any(|x| x == from) { return format!("1 {raw}"); } }
        else if let Some(fm) = fm { if fm.country_code() == cc {
            let Some(r) = choose(&fm.number_format, &s) else { return raw };
            let rule = r.national_prefix_formatting_rule(); let Some(i) = raw.find(|c: char| c.is_ascii_digit()) else { return raw };
            let e = raw[i..].find(|c: char| !c.is_ascii_digit()).map_or(raw.len(), |j| i + j);
            let lead = if rule.is_empty() { raw[i..e].to_string() } else { rule.replace("$1", &raw[i..e]) };
            return format!("{}{}{}", &raw[..i], lead, &raw[e..]);
        } }
        let p = fm.map_or("", |f| if Self::single(f.international_prefix()) { f.international_prefix() } else { f.preferred_international_prefix() });
        let t = if p.is_empty() { with_code(cc, F::International, &raw) } else { format!("{p} {cc} {raw}") };
        let m = self.main_plan(cc).unwrap();
        format!("{}{}", strip_ext(&t).0, extension(n, m, F::International))
    }
    pub fn original(&self, n: &PhoneNumber, from: &str) -> String {
        let cc = n.country_code(); let s = nsn(n);
        if n.has_raw_input() && !self.main_plan(cc).is_some_and(|m| choose(&m.number_format, &s).is_some()) { return n.raw_input().to_string(); }
        if !n.has_country_code_source() { return self.format(n, F::National); }
        let f = match n.country_code_source() {
            Src::FROM_NUMBER_WITH_PLUS_SIGN => self.format(n, F::International),
            Src::FROM_NUMBER_WITH_IDD => self.out(n, from),
            Src::FROM_NUMBER_WITHOUT_PLUS_SIGN => { let f = self.format(n, F::International); f.strip_prefix('+').map(|x| x.to_string()).unwrap_or(f) }
            _ => self.original_national(n),
        };
        if !f.is_empty() && !n.raw_input().is_empty() && diallable(&f) != diallable(n.raw_input()) { return n.raw_input().to_string(); }
        f
    }
    fn original_national(&self, n: &PhoneNumber) -> String {
        let nat = self.format(n, F::National); let r = self.main(n.country_code());
        let Some(m) = self.md.get(r) else { return nat };
        let np = m.national_prefix().replace('~', "");
        if let Some(rest) = digits_only(n.raw_input()).strip_prefix(&np) { if self.parse(rest, r, false, true).is_ok_and(|x| self.valid(&x)) { return nat; } }
        let Some(rule) = choose(&m.number_format, &nsn(n)) else { return nat };
        let c = rule.national_prefix_formatting_rule();
        let Some(i) = c.find("$1") else { return nat };
        if digits_only(&c[..i]).is_empty() { return nat; }
        let mut x = rule.clone(); x.clear_national_prefix_formatting_rule();
        self.format_by_pattern(n, F::National, &[x])
    }
    pub fn extract_cc(&self, s: &str) -> Option<(String, i32)> {
        if s.is_empty() || s.starts_with('0') { return None; }
        (1..=3.min(s.len())).find_map(|i| { let c = s[..i].parse::<i32>().ok()?; self.codes.contains_key(&c).then(|| (s[i..].to_string(), c)) })
    }
    /// Ok((national, country code or 0, source))
    pub fn country(&self, m: Option<&PhoneMetadata>, s: &str) -> Result<(String, i32, Src), (String, Src)> {
        let (n, src) = strip_idd(s, m.map_or("NonMatch", |m| m.international_prefix()));
        if src != Src::FROM_DEFAULT_COUNTRY {
            if n.len() <= 2 { return Err(("TooShortAfterIdd".into(), src)); }
            return match self.extract_cc(&n) { Some((rest, c)) => Ok((rest, c, src)), None => Err(("InvalidCountryCode".into(), src)) };
        }
        if let Some(m) = m { if let Some(rest) = n.strip_prefix(&m.country_code().to_string()) {
            let st = strip_national(m, rest).0;
            if (!pat_match(&n, &m.general_desc) && pat_match(&st, &m.general_desc)) || length_class(n.len() as i32, m, T::Unknown) == Err(V::TooLong) { return Ok((rest.to_string(), m.country_code(), Src::FROM_NUMBER_WITHOUT_PLUS_SIGN)); }
        } }
        Ok((n, 0, src))
    }
    pub fn parse(&self, text: &str, region: &str, keep: bool, check: bool) -> Result<PhoneNumber, String> {
        let s = build_national(text)?;
        if !viable(&s) { return Err("NotANumber".into()); }
        let plus = s.starts_with(['+', '\u{FF0B}']);
        if check && !self.md.contains_key(region) && !plus { return Err("InvalidCountryCode".into()); }
        let (s, ext) = strip_ext(&s); let home = self.md.get(region);
        let (mut nat, cc, src) = match self.country(home, &s) { Ok(x) => x, Err((e, _)) if e == "InvalidCountryCode" && plus => {
            let x = self.country(home, s.trim_start_matches(['+', '\u{FF0B}'])).map_err(|e| e.0)?; if x.1 == 0 { return Err("InvalidCountryCode".into()); } x }, Err((e, _)) => return Err(e) };
        let plan = if cc != 0 { let r = self.main(cc); if r == region { home } else { self.plan(cc, r) } } else { home };
        let code = if cc != 0 { cc } else { home.map_or(0, |m| m.country_code()) };
        if nat.len() < 2 { return Err("TooShortNsn".into()); }
        let mut carrier = None;
        if let Some(m) = plan {
            let (x, c) = strip_national(m, &nat);
            if !matches!(length_class(x.len() as i32, m, T::Unknown), Err(V::TooShort) | Err(V::InvalidLength) | Ok(NumberLengthType::IsPossibleLocalOnly)) { nat = x; carrier = c }
        }
        if nat.len() < 2 { return Err("TooShortNsn".into()); }
        if nat.len() > 17 { return Err("TooLongNsn".into()); }
        let mut n = PhoneNumber::new(); n.set_country_code(code);
        let z = zeros_of(&nat); if z > 0 { n.set_italian_leading_zero(true); if z > 1 { n.set_number_of_leading_zeros(z as i32) } }
        n.set_national_number(nat.parse::<u64>().map_err(|_| "NotANumber".to_string())?);
        if let Some(e) = ext { n.set_extension(e) }
        if keep { n.set_raw_input(text.to_string()); n.set_country_code_source(src); if let Some(c) = carrier { n.set_preferred_domestic_carrier_code(c) } }
        Ok(n)
    }
    pub fn match1(&self, a: &PhoneNumber, s: &str) -> Option<MatchType> {
        match self.parse(s, "ZZ", false, true) { Ok(b) => return Some(is_match(a, &b)), Err(e) if e != "InvalidCountryCode" => return None, _ => {} }
        let r = self.main(a.country_code());
        if r != "ZZ" { let b = self.parse(s, r, false, true).ok()?; Some(match is_match(a, &b) { MatchType::ExactMatch => MatchType::NsnMatch, m => m }) }
        else { Some(is_match(a, &self.parse(s, "ZZ", false, false).ok()?)) }
    }
    pub fn match2(&self, a: &str, b: &str) -> Option<MatchType> {
        match self.parse(a, "ZZ", false, true) { Ok(x) => return self.match1(&x, b), Err(e) if e != "InvalidCountryCode" => return None, _ => {} }
        match self.parse(b, "ZZ", false, true) { Ok(x) => return self.match1(&x, a), Err(e) if e != "InvalidCountryCode" => return None, _ => {} }
        Some(is_match(&self.parse(a, "ZZ", false, false).ok()?, &self.parse(b, "ZZ", false, false).ok()?))
    }
    pub fn geographical(&self, n: &PhoneNumber) -> bool { match self.type_of(n) { T::FixedLine | T::FixedLineOrMobile => true, T::Mobile => [52, 54, 55, 62, 86].contains(&n.country_code()), _ => false } }
    pub fn ndc(&self, n: &PhoneNumber) -> usize {
        let mut c = n.clone(); c.clear_extension(); let f = self.format(&c, F::International);
        let g: Vec<usize> = re(r"\d+").find_iter(&f).map(|m| m.len()).collect(); if g.len() < 3 { return 0; }
        if self.type_of(n) == T::Mobile && n.country_code() == 54 { g[2] + 1 } else { g[1] }
    }
    pub fn area(&self, n: &PhoneNumber) -> usize {
        let Some(m) = self.md.get(self.region_of(n)) else { return 0 }; let cc = n.country_code();
        if !m.has_national_prefix() && !n.italian_leading_zero() && cc != 52 { return 0; }
        if self.type_of(n) == T::Mobile && cc == 86 { return 0; }
        if !self.geographical(n) { return 0; }
        self.ndc(n)
    }
}
