//! One random-search stream per property, comparing the real code with the reference.
use crate::api::*; use crate::gen_::*; use crate::refi::{self, *}; use crate::Ctx;
#[cfg(verif_hooks)] use crate::verif_hooks;
use protobuf::Message;
use rand::{rngs::StdRng, Rng, SeedableRng};
use rlibphonenumber::phonemetadata::*;
use rlibphonenumber::{CountryCodeSource as Src, MatchType, PhoneNumber, PhoneNumberFormat as F, PhoneNumberType as T, ValidationError as V};
use std::fmt::Debug; use std::panic::{catch_unwind, AssertUnwindSafe}; use std::sync::atomic::Ordering; use std::time::Instant;

pub const FMTS: [F; 4] = [F::E164, F::International, F::National, F::RFC3966];
pub const TYPES: [T; 12] = [T::FixedLine, T::Mobile, T::FixedLineOrMobile, T::TollFree, T::PremiumRate, T::SharedCost, T::VoIP, T::PersonalNumber, T::Pager, T::UAN, T::VoiceMail, T::Unknown];
#[cfg(verif_hooks)] pub type U = verif_hooks::Util;
pub struct World { pub name: String, pub r: Ref, pub plans: Plans, pub a: Box<dyn Api>, #[cfg(verif_hooks)] pub u: U }
pub struct Run<'a> { pub c: &'a Ctx, pub t: usize, pub w: &'a World }
impl<'a> Run<'a> {
    /// run `f` on the real code; a panic is a failure of every property (no value is returned)
    pub fn call<X>(&self, call: &str, input: impl Fn() -> String, f: impl FnOnce() -> X) -> Option<X> {
        self.c.cases.fetch_add(1, Ordering::Relaxed);
        { let mut g = self.c.now[self.t].lock().unwrap(); g.0.clear(); g.0.push_str(call); g.0.push(' '); g.0.push_str(&input()); g.1 = Instant::now(); }
        let r = catch_unwind(AssertUnwindSafe(f));
        self.c.now[self.t].lock().unwrap().0.clear();
        match r { Ok(x) => Some(x), Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); self.c.report(&self.w.name, call, input(), "no panic".into(), format!("panic: {m}")); None } }
    }
    pub fn eq<X: PartialEq + Debug>(&self, call: &str, input: impl Fn() -> String, want: X, f: impl FnOnce() -> X) {
        if let Some(g) = self.call(call, &input, f) { if g != want { self.c.report(&self.w.name, call, input(), format!("{want:?}"), format!("{g:?}")) } }
    }
    pub fn holds(&self, call: &str, input: impl Fn() -> String, what: &str, ok: bool, got: impl Debug) { if !ok { self.c.report(&self.w.name, call, input(), what.into(), format!("{got:?}")) } }
}
pub fn sn(n: &PhoneNumber) -> String {
    let mut o = format!("cc={:?} nat={:?}", n.country_code, n.national_number);
    if n.has_italian_leading_zero() { o += &format!(" ilz={}", n.italian_leading_zero()) } if n.has_number_of_leading_zeros() { o += &format!(" zeros={}", n.number_of_leading_zeros()) }
    if n.has_extension() { o += &format!(" ext={:?}", n.extension()) } if n.has_raw_input() { o += &format!(" raw={:?}", n.raw_input()) }
    if n.has_country_code_source() { o += &format!(" source={:?}", n.country_code_source()) } if n.has_preferred_domestic_carrier_code() { o += &format!(" carrier={:?}", n.preferred_domestic_carrier_code()) } o
}
fn worlds(t: usize, c: &Ctx, rng: &mut StdRng) -> Vec<World> {
    let b = PhoneMetadataCollection::parse_from_bytes(&crate::bundled_md::METADATA).unwrap();
    let pl = |c: &PhoneMetadataCollection| Plans { all: c.metadata.clone() };
    let mut v = vec![];
    let _ = (t, c, &rng);
    #[cfg(verif_hooks)]
    {
        let tm = PhoneMetadataCollection::parse_from_bytes(&crate::test_md::TEST_METADATA).unwrap();
        v.push(World { name: "bundled".into(), r: Ref::new(&b), plans: pl(&b), a: Box::new(Pub), u: U::bundled() });
        v.push(World { name: "test".into(), r: Ref::new(&tm), plans: pl(&tm), a: Box::new(U::with(tm.clone())), u: U::with(tm.clone()) });
        for i in 0..12 { let s = synthetic(rng); v.push(World { name: format!("synthetic-{}-{t}-{i}", c.seed), r: Ref::new(&s), plans: pl(&s), a: Box::new(U::with(s.clone())), u: U::with(s.clone()) }) }
    }
    #[cfg(not(verif_hooks))]
    v.push(World { name: "bundled".into(), r: Ref::new(&b), plans: pl(&b), a: Box::new(Pub) });
    v
}
pub fn run(prop: &str, t: usize, c: &Ctx) {
    let mut rng = StdRng::seed_from_u64(c.seed.wrapping_mul(1000) + t as u64);
    let ws = worlds(t, c, &mut rng);
    if t == 0 { for w in &ws { let x = Run { c, t, w }; fixed(prop, &x, &mut rng); if c.done() && c.fail.lock().unwrap().is_some() { return; } } }
    let mut i = 0usize;
    while !c.done() {
        // bundled half of the time, then test and synthetic plans
        let k = if i % 2 == 0 || ws.len() == 1 { 0 } else { 1 + (i / 2) % (ws.len() - 1) };
        let x = Run { c, t, w: &ws[k] }; one(prop, &x, &mut rng); i += 1;
    }
}
fn pr(r: &Result<PhoneNumber, String>) -> String { match r { Ok(n) => sn(n), Err(e) => format!("Err({e})") } }
/// one random case
pub fn one(prop: &str, x: &Run, g: &mut StdRng) {
    let (r, a, pl) = (&x.w.r, &x.w.a, &x.w.plans);
    match prop {
        "P01" => {
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            x.call("parse", i, || { let _ = a.parse(&s, &reg); }); x.call("parse_raw", i, || { let _ = a.parse_raw(&s, &reg); });
            x.call("is_alpha", i, || a.is_alpha(&s)); x.call("convert_alpha", i, || a.convert_alpha(&s));
            #[cfg(verif_hooks)] { let u = &x.w.u; let n = pl.number(g); let s2 = pl.any_text(g);
                x.call("possible_str", i, || u.possible_str(&s, &reg)); x.call("match2", || format!("{s:?} {s2:?}"), || u.is_match_2(&s, &s2)); x.call("match1", || format!("{} {s:?}", sn(&n)), || u.is_match_1(&n, &s));
                x.call("viable", i, || u.viable(&s)); x.call("strip_ext", i, || u.strip_ext(&s)); x.call("normalize", i, || u.normalize(&s)); x.call("parse_helper", i, || { let _ = u.parse_helper(&s, &reg, true, false); }); }
        }
        "P02" => {
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            for keep in [false, true] { let Some(q) = x.call("parse", i, || if keep { a.parse_raw(&s, &reg) } else { a.parse(&s, &reg) }) else { return };
                if let Ok(n) = &q { let k = refi::nsn(n).len(); x.holds("parse", i, "2 to 17 national digits", (2..=17).contains(&k), sn(n)); x.holds("parse", i, "supported country code", r.codes.contains_key(&n.country_code()), sn(n)); }
                let want = r.parse(&s, &reg, keep, true); x.holds("parse", i, &format!("error {:?}", want.as_ref().err()), want.as_ref().err() == q.as_ref().err(), pr(&q)); }
        }
        "P03" => {
            let n = pl.number(g); x.eq("nsn", || sn(&n), refi::nsn(&n), || a.nsn(&n));
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            if let Some(Ok(n)) = x.call("parse", i, || a.parse(&s, &reg)) { if let Ok(w) = r.parse(&s, &reg, false, true) { x.holds("parse", i, &format!("national digits {}", refi::nsn(&w)), refi::nsn(&n) == refi::nsn(&w) && n.has_number_of_leading_zeros() == w.has_number_of_leading_zeros(), sn(&n)); x.eq("nsn(parse)", i, refi::nsn(&w), || a.nsn(&n)); } }
            let k = g.gen_range(0..20); let z = g.gen_range(0..6); let d = format!("{}{}", "0".repeat(z), digits(g, k)); let _ = &d;
            #[cfg(verif_hooks)] { let want = refi::zeros_of(&d); x.eq("zeros", || d.clone(), if want == 0 { None } else { Some(want) }, || x.w.u.zeros(&d)); }
            // E.164 texts with leading zeros survive
            let m = pl.any(g); let s = format!("+{}{}", m.country_code(), national(m, g)); if let (Some(Ok(n)), Ok(w)) = (x.call("parse", || s.clone(), || a.parse(&s, "ZZ")), r.parse(&s, "ZZ", false, true)) { x.eq("nsn(parse)", || s.clone(), refi::nsn(&w), || a.nsn(&n)); x.eq("format(parse)", || s.clone(), r.format(&w, F::E164), || a.format(&n, F::E164)); }
        }
        "P04" => {
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            let (Some(p0), Some(p1)) = (x.call("parse", i, || a.parse(&s, &reg)), x.call("parse_raw", i, || a.parse_raw(&s, &reg))) else { return };
            match (&p0, &p1) { (Ok(n), Ok(k)) => {
                x.holds("parse", i, "no raw input, source or carrier code", !n.has_raw_input() && !n.has_country_code_source() && !n.has_preferred_domestic_carrier_code(), sn(n));
                x.holds("parse_raw", i, "records the text given", k.has_raw_input() && k.raw_input() == s, sn(k));
                let mut c = k.clone(); c.clear_raw_input(); c.clear_country_code_source(); c.clear_preferred_domestic_carrier_code(); x.holds("parse vs parse_raw", i, &sn(n), c == *n, sn(k));
                if let Ok(w) = r.parse(&s, &reg, true, true) { x.holds("parse_raw", i, &format!("source/carrier of {}", sn(&w)), w.country_code_source == k.country_code_source && w.preferred_domestic_carrier_code == k.preferred_domestic_carrier_code, sn(k)); } }
              _ => x.holds("parse vs parse_raw", i, &pr(&p0), p0 == p1, pr(&p1)) }
        }
        "P05" => { let n = pl.number(g); x.eq("format E164", || sn(&n), r.format(&n, F::E164), || a.format(&n, F::E164)); if n.national_number() == 0 && !n.raw_input().is_empty() { for f in FMTS { x.eq("format zero", || sn(&n), n.raw_input().to_string(), || a.format(&n, f)); } } }
        "P06" | "P07" | "P08" => {
            let mut n = pl.number(g); if prop == "P08" { n.clear_extension() } if prop == "P07" && p(g, 50) { let k = g.gen_range(1..8); n.set_extension(digits(g, k)) }
            for f in FMTS { x.eq(&format!("format {f:?}"), || sn(&n), r.format(&n, f), || a.format(&n, f)); }
            #[cfg(verif_hooks)] { let u: Vec<NumberFormat> = (0..g.gen_range(0..3)).map(|_| { let mut f = fmt(g); if p(g, 30) { f.set_national_prefix_formatting_rule(pick(g, &["$NP$FG", "($NP) $FG", "$NP $FG"]).into()) } f }).collect(); for f in FMTS { x.eq(&format!("format_by_pattern {f:?}"), || format!("{} {u:?}", sn(&n)), Ok(r.format_by_pattern(&n, f, &u)), || x.w.u.format_by_pattern(&n, f, &u)); } }
        }
        "P09" => {
            let n = pl.number(g); let i = || sn(&n); x.eq("reason", i, r.reason(&n, T::Unknown), || a.reason(&n)); x.eq("possible", i, r.reason(&n, T::Unknown).is_ok(), || a.possible(&n));
            #[cfg(verif_hooks)] for t in TYPES { x.eq(&format!("reason {t:?}"), i, r.reason(&n, t), || x.w.u.reason_type(&n, t)); x.eq(&format!("possible {t:?}"), i, r.reason(&n, t).is_ok(), || x.w.u.possible_type(&n, t));
                let m = pl.any(g); let k = g.gen_range(0..20); let s = digits(g, k); x.eq(&format!("test_length {t:?} {}", m.id()), || s.clone(), length_class(k as i32, m, t), || x.w.u.test_length(&s, m, t)); }
            #[cfg(verif_hooks)] { let (s, reg) = pl.text(g); x.eq("possible_str", || format!("{s:?} {reg:?}"), r.parse(&s, &reg, false, true).is_ok_and(|n| r.reason(&n, T::Unknown).is_ok()), || x.w.u.possible_str(&s, &reg)); }
        }
        "P10" => {
            let n = pl.number(g); x.eq("number_type", || sn(&n), r.type_of(&n), || a.number_type(&n));
            #[cfg(verif_hooks)] { let m = pl.any(g); let s = national(m, g); let i = || format!("{s} {}", m.id()); x.eq("type_helper", i, type_in(&s, m), || x.w.u.type_helper(&s, m)); let d = pick(g, &descs(m)); x.eq("matches_desc", i, desc_match(&s, d), || x.w.u.matches_desc(&s, d)); }
        }
        "P11" => {
            let n = pl.number(g); let reg = pl.region(g); x.eq("valid_for", || format!("{} {reg}", sn(&n)), r.valid_for(&n, &reg), || a.valid_for(&n, &reg)); x.eq("valid", || sn(&n), r.valid(&n), || a.valid(&n));
            let rg = r.region_of(&n).to_string(); x.eq("valid_for", || format!("{} {rg}", sn(&n)), r.valid(&n), || a.valid_for(&n, &rg));
            if let (Some(v), Some(t), Some(q)) = (x.call("valid", || sn(&n), || a.valid(&n)), x.call("number_type", || sn(&n), || a.number_type(&n)), x.call("reason", || sn(&n), || a.reason(&n))) { x.holds("valid", || sn(&n), "valid iff type known", v == (t != T::Unknown), (v, t)); x.holds("reason", || sn(&n), "valid implies known country code", !v || q != Err(V::InvalidCountryCode), q); }
            for m in [pl.any(g), pl.any(g)] { let id = m.id(); x.eq("valid_for", || format!("{} {id}", sn(&n)), r.valid_for(&n, id), || a.valid_for(&n, id)); }
        }
        "P12" => {
            let n = pl.number(g); x.eq("number_type", || sn(&n), r.type_of(&n), || a.number_type(&n));
            #[cfg(verif_hooks)] {
                let m = pl.any(g); let s = national(m, g); let d = pick(g, &descs(m)); x.eq("matches_desc", || format!("{s} {:?}", d.national_number_pattern()), desc_match(&s, d), || x.w.u.matches_desc(&s, d));
                let mut d = PhoneNumberDesc::new(); let pats = ["a", "", r"\d", "1|12|123", "12|1|123", "(?:1|12)3?", r"\d{2}|\d{4}|\d{3}", "1(?:2|23)4?", "", "[2-9]", r"\d*", "(?:)", "1|", "9|99|999"]; let pt = pats[g.gen_range(0..pats.len())]; if p(g, 90) { d.set_national_number_pattern(pt.into()) }
                let k = g.gen_range(0..5); let s: String = (0..k).map(|_| pick(g, &["1", "2", "3", "4", "9", "a"])).collect(); x.eq("matches_desc", || format!("{s:?} {pt:?}"), desc_match(&s, &d), || x.w.u.matches_desc(&s, &d));
                let ca = verif_hooks::Cache::new(); let seq: Vec<&str> = (0..16).map(|_| *pick(g, &[&"a", &"b", &"(", &"a|b", &"", &"[", &r"\d+", &"b|a", &"a$", &"^a", &"^(?:a)$", &"(?:a)", &"(?:a", &"A", &" a", &"(?:a|b)", &"^(?:a|b)$", &"^a|b$", &"aa", &"a)"])).collect();
                for q in &seq { x.eq("cache get", || format!("{seq:?} {q:?}"), regex::Regex::new(q).ok().map(|r| r.as_str().to_string()), || ca.get(q)); } }
        }
        "P13" => { let c = g.gen_range(-3..1300); codes(x, c); let reg = pl.region(g); region(x, &reg); }
        "P14" => { let n = pl.number(g); x.eq("region_for_number", || sn(&n), r.region_of(&n).to_string(), || a.region_for_number(&n)); }
        "P15" => {
            let n = pl.number(g); let mut m = if p(g, 25) { pl.number(g) } else { n.clone() };
            for _ in 0..g.gen_range(0..3) { match g.gen_range(0..12) { 0 => m.set_country_code(0), 1 => m.clear_country_code(), 2 => m.set_extension(pick(g, &["", "1", "12", "001"]).into()), 3 => m.clear_extension(), 4 => m.set_national_number(m.national_number() % 1000000), 5 => m.set_national_number(m.national_number() / 10), 6 => m.set_italian_leading_zero(p(g, 50)), 7 => m.set_number_of_leading_zeros(g.gen_range(0..3)), 8 => m.set_raw_input("zz".into()), 9 => m.set_country_code_source(Src::FROM_NUMBER_WITH_IDD), 10 => m.set_preferred_domestic_carrier_code("9".into()), _ => m.set_country_code(44) } }
            let i = || format!("{} / {}", sn(&n), sn(&m)); x.eq("is_match", i, refi::is_match(&n, &m), || a.is_match(&n, &m)); x.eq("is_match swapped", i, refi::is_match(&n, &m), || a.is_match(&m, &n));
            if n.country_code() != 0 { x.eq("is_match self", || sn(&n), MatchType::ExactMatch, || a.is_match(&n, &n)); }
            #[cfg(verif_hooks)] { let (s, _) = pl.text(g); let t = if p(g, 50) { pl.raw(&n, g) } else { pl.text(g).0 }; x.eq("match1", || format!("{} {t:?}", sn(&n)), r.match1(&n, &t), || x.w.u.is_match_1(&n, &t)); x.eq("match2", || format!("{s:?} {t:?}"), r.match2(&s, &t), || x.w.u.is_match_2(&s, &t)); let k = pl.raw(&n, g); x.eq("match2", || format!("{k:?} {t:?}"), r.match2(&k, &t), || x.w.u.is_match_2(&k, &t)); }
        }
        "P16" => {
            let mut n = pl.number(g); if p(g, 70) { let k = g.gen_range(1..6); let d = digits(g, k); if let Ok(v) = format!("{}{d}", n.national_number()).parse() { n.set_national_number(v) } }
            let want = r.truncate(&n); let before = n.clone(); let mut c = n.clone(); let Some(ok) = x.call("truncate", || sn(&before), || a.truncate(&mut c)) else { return };
            x.holds("truncate", || sn(&before), &format!("{:?}", want.as_ref().map(sn)), ok == want.is_some() && c == want.unwrap_or(before.clone()), (ok, sn(&c)));
        }
        "P17" => {
            let s = pl.any_text(g); let s = if p(g, 40) { alpha(&s, g) } else { s }; x.eq("convert_alpha", || s.clone(), refi::convert_alpha(&s), || a.convert_alpha(&s));
            #[cfg(verif_hooks)] { x.eq("norm_diallable", || s.clone(), refi::diallable(&s), || x.w.u.norm_diallable(&s)); x.eq("norm_digits", || s.clone(), refi::digits_only(&s), || x.w.u.norm_digits(&s)); x.eq("normalize", || s.clone(), refi::normalize(&s), || x.w.u.normalize(&s)); }
        }
        "P18" => {
            let m = pl.any(g); let s = if p(g, 30) { pl.text(g).0 } else { national(m, g) }; let s = pl.rfc(&s, m.country_code(), g); let s = if p(g, 15) { mutate(&s, g) } else { s }; let reg = if p(g, 80) { m.id().to_string() } else { pl.region(g) }; let i = || format!("{s:?} {reg:?}");
            #[cfg(verif_hooks)] { x.eq("build_national", i, refi::build_national(&s), || x.w.u.build_national(&s)); }
            let want = r.parse(&s, &reg, false, true); if let Some(q) = x.call("parse", i, || a.parse(&s, &reg)) { x.holds("parse", i, &pr(&want), q == want, pr(&q)); }
        }
        "P19" => { let mut n = pl.number(g); let reg = if p(g, 65) { r.main(n.country_code()).to_string() } else { pl.region(g) }; if p(g, 10) { n.set_national_number(0) } for w in [true, false] { x.eq(&format!("format_mobile {w}"), || format!("{} {reg}", sn(&n)), r.mobile(&n, &reg, w), || a.format_mobile(&n, &reg, w)); } }
        "P20" => { let n = pl.number(g); let reg = if p(g, 25) { r.region_of(&n).to_string() } else { pl.region(g) }; x.eq("format_out", || format!("{} {reg}", sn(&n)), r.out(&n, &reg), || a.format_out(&n, &reg)); }
        "P21" => { let mut n = pl.number(g); if p(g, 70) { let t = pl.raw(&n, g); let t = if p(g, 50) { alpha(&t, g) } else { t }; n.set_raw_input(t) } let reg = if p(g, 25) { r.region_of(&n).to_string() } else { pl.region(g) }; x.eq("format_out_alpha", || format!("{} {reg}", sn(&n)), r.out_alpha(&n, &reg), || a.format_out_alpha(&n, &reg)); }
        "P22" => {
            let reg; let n = if p(g, 60) { let (s, q) = pl.text(g); reg = q; match r.parse(&s, &reg, true, true) { Ok(n) => n, Err(_) => pl.number(g) } } else { reg = pl.region(g); let mut n = pl.number(g); if p(g, 60) { let t = pl.raw(&n, g); n.set_raw_input(t) } n };
            let i = || format!("{} {reg}", sn(&n)); let Some(o) = x.call("format_original", i, || a.format_original(&n, &reg)) else { return };
            if !n.raw_input().is_empty() && n.has_country_code_source() { x.holds("format_original", i, "same diallable characters or the raw input", o == n.raw_input() || o.is_empty() || diallable(&o) == diallable(n.raw_input()), &o) }
            x.holds("format_original", i, &r.original(&n, &reg), o == r.original(&n, &reg), &o);
        }
        "P23" => { let n = pl.number(g); let c = carrier(g); let i = || format!("{} {c:?}", sn(&n)); x.eq("format_carrier", i, r.carrier(&n, &c), || a.format_carrier(&n, &c)); #[cfg(verif_hooks)] x.eq("format_preferred_carrier", i, r.preferred_carrier(&n, &c), || x.w.u.format_preferred_carrier(&n, &c)); }
        "P24" => { let n = pl.number(g); x.eq("can_dial", || sn(&n), r.can_dial(&n), || a.can_dial(&n)); }
        "P25" => { let n = pl.number(g); let i = || sn(&n); x.eq("geographical", i, r.geographical(&n), || a.geographical(&n)); x.eq("area_len", i, r.area(&n), || a.area_len(&n)); x.eq("ndc_len", i, r.ndc(&n), || a.ndc_len(&n)); }
        "P26" => { let reg = pl.region(g); examples(x, &reg); }
        "P27" => {
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            #[cfg(verif_hooks)] { x.eq("strip_ext", i, refi::strip_ext(&s), || x.w.u.strip_ext(&s)); x.eq("viable", i, refi::viable(&s), || x.w.u.viable(&s)); }
            x.eq("is_alpha", i, refi::viable(&s) && whole("(?:.*?[A-Za-z]){3}.*", &refi::strip_ext(&s).0), || a.is_alpha(&s));
            if let (Some(Ok(n)), Ok(w)) = (x.call("parse", i, || a.parse(&s, &reg)), r.parse(&s, &reg, false, true)) { x.holds("parse", i, &format!("ext {:?}", w.extension), n.extension == w.extension, sn(&n)); }
        }
        "P28" => {
            let (s, reg) = pl.text(g); let i = || format!("{s:?} {reg:?}");
            #[cfg(verif_hooks)] {
                let u = &x.w.u; let m = pl.any(g); let ip = m.international_prefix(); x.eq("strip_idd", || format!("{s:?} {ip:?}"), Ok(refi::strip_idd(&s, ip)), || u.strip_idd(&s, ip));
                let d = format!("{}{}", m.country_code(), national(m, g)); let d = if d.len() < 3 { format!("{d}00") } else { d }; x.eq("extract_cc", || d.clone(), r.extract_cc(&d), || u.extract_cc(&d)); let k = g.gen_range(3..10); let d = digits(g, k); x.eq("extract_cc", || d.clone(), r.extract_cc(&d), || u.extract_cc(&d));
                if s.len() < 60 { let mut n = PhoneNumber::new(); let want = r.country(r.md.get(&reg), &s).map_err(|e| e.0); let Some(q) = x.call("maybe_extract_cc", i, || u.maybe_extract_cc(&reg, true, &s, &mut n)) else { return };
                    let got = q.map(|rest| (rest, n.country_code(), n.country_code_source())); x.holds("maybe_extract_cc", i, &format!("{want:?}"), got == want, &got); } }
            if let (Some(q), w) = (x.call("parse", i, || a.parse_raw(&s, &reg)), r.parse(&s, &reg, true, true)) { if let (Ok(n), Ok(w)) = (&q, &w) { x.holds("parse_raw", i, &sn(w), n.country_code == w.country_code && refi::nsn(n) == refi::nsn(w) && n.country_code_source == w.country_code_source, sn(n)) } else { x.holds("parse_raw", i, &pr(&w), q.is_ok() == w.is_ok(), pr(&q)) } }
        }
        "P29" => {
            let m = pl.any(g); let s = national(m, g); let pre = from_pattern(m.national_prefix_for_parsing(), g); let s = match g.gen_range(0..4) { 0 => s, 1 => format!("{}{s}", m.national_prefix().replace('~', "")), _ => format!("{pre}{s}") }; let s: String = s.chars().filter(|c| c.is_ascii_digit()).collect(); let i = || format!("{s} {}", m.id());
            #[cfg(verif_hooks)] { let want = refi::strip_national(m, &s); if let Some(Ok((o, c))) = x.call("strip_national", i, || x.w.u.strip_national(m, &s)) { x.holds("strip_national", i, "a viable number stays viable", !pat_match(&s, &m.general_desc) || pat_match(&o, &m.general_desc), (&o, &c)); x.holds("strip_national", i, &format!("{want:?}"), (o.clone(), c.clone()) == want, (&o, &c)); } }
            let id = m.id().to_string(); let w = r.parse(&s, &id, true, true); if let (Some(Ok(n)), Ok(w)) = (x.call("parse_raw", i, || a.parse_raw(&s, &id)), &w) { x.holds("parse_raw", i, &sn(w), refi::nsn(&n) == refi::nsn(w) && n.preferred_domestic_carrier_code == w.preferred_domestic_carrier_code, sn(&n)); }
        }
        "P30" => {
            let mut n = pl.number(g); let reg = pl.region(g); let i = || format!("{} {reg:?}", sn(&n));
            for f in FMTS { x.call("format", i, || a.format(&n, f)); }
            x.call("number_type", i, || a.number_type(&n)); x.call("valid", i, || a.valid(&n)); x.call("valid_for", i, || a.valid_for(&n, &reg)); x.call("reason", i, || a.reason(&n)); x.call("possible", i, || a.possible(&n)); x.call("region_for_number", i, || a.region_for_number(&n));
            x.call("can_dial", i, || a.can_dial(&n)); x.call("format_out", i, || a.format_out(&n, &reg)); x.call("format_out_alpha", i, || a.format_out_alpha(&n, &reg)); x.call("format_original", i, || a.format_original(&n, &reg)); for w in [true, false] { x.call("format_mobile", i, || a.format_mobile(&n, &reg, w)); }
            let c = carrier(g); x.call("format_carrier", i, || a.format_carrier(&n, &c)); x.call("geographical", i, || a.geographical(&n)); x.call("area_len", i, || a.area_len(&n)); x.call("ndc_len", i, || a.ndc_len(&n)); let m = pl.number(g); x.call("is_match", || format!("{} / {}", sn(&n), sn(&m)), || a.is_match(&n, &m));
            x.call("nsn", i, || a.nsn(&n)); x.call("cc_for_region", i, || a.cc_for_region(&reg)); x.call("region_for_cc", i, || a.region_for_cc(n.country_code()));
            #[cfg(verif_hooks)] { let u = &x.w.u; for t in TYPES { x.call("reason_type", i, || u.reason_type(&n, t)); } x.call("format_preferred_carrier", i, || u.format_preferred_carrier(&n, &c)); let f = [fmt(g)]; x.call("format_by_pattern", i, || u.format_by_pattern(&n, F::National, &f)); }
            let s = sn(&n); x.call("truncate", || s.clone(), || a.truncate(&mut n));
        }
        "P31" => {
            let n = pl.number(g); let q = refi::nsn(&n); if r.main_plan(n.country_code()).is_none() || !(2..=17).contains(&q.len()) || n.national_number() == 0 { return }
            let t = format!("+{}{q}", n.country_code()); let reg = if p(g, 50) { pl.region(g) } else { r.main(n.country_code()).to_string() }; let i = || format!("{} {reg:?}", sn(&n));
            x.eq("format E164", i, t.clone(), || a.format(&n, F::E164));
            if r.parse(&t, &reg, false, true).is_ok_and(|w| refi::nsn(&w) == q) { for keep in [false, true] { let Some(v) = x.call("parse", i, || if keep { a.parse_raw(&t, &reg) } else { a.parse(&t, &reg) }) else { continue };
                x.holds("parse(format E164)", i, &format!("{} {q}", n.country_code()), v.as_ref().is_ok_and(|w| w.country_code() == n.country_code() && refi::nsn(w) == q && !w.has_extension()), pr(&v));
                if let Ok(w) = &v { x.eq("nsn", i, q.clone(), || a.nsn(w)); x.eq("format E164 again", i, t.clone(), || a.format(w, F::E164)); } } }
        }
        "P32" => {
            let n = if p(g, 70) { pl.plain(g) } else { pl.number(g) }; let i = || sn(&n);
            let Some(v) = x.call("valid", i, || a.valid(&n)) else { return }; let Some(w) = x.call("reason", i, || a.reason(&n)) else { return };
            // synthetic collections need not meet what `driver META` checks of the bundled one (lens_main)
            let nested = r.main_plan(n.country_code()).is_some_and(|b| r.codes[&n.country_code()].iter().all(|c| r.plan(n.country_code(), c).is_some_and(|m| !m.general_desc.possible_length.is_empty() && m.general_desc.possible_length.iter().all(|k| *k >= 0 && (b.general_desc.possible_length.contains(k) || b.general_desc.possible_length_local_only.contains(k))))));
            x.holds("valid", i, "a valid number is possible", !v || !nested || w.is_ok(), format!("{w:?}")); x.eq("possible", i, w.is_ok(), || a.possible(&n));
            x.eq("valid", i, r.valid(&n), || v); x.eq("reason", i, r.reason(&n, T::Unknown), || a.reason(&n));
            let reg = pl.region(g); let Some(vf) = x.call("valid_for", i, || a.valid_for(&n, &reg)) else { return }; if vf { x.holds("valid_for", || format!("{} {reg:?}", sn(&n)), "a number valid for a region is possible", !nested || w.is_ok(), format!("{w:?}")) }
        }
        _ => panic!("unknown property"),
    }
}
fn codes(x: &Run, c: i32) {
    let (r, a) = (&x.w.r, &x.w.a); let i = || format!("{c}");
    x.eq("region_for_cc", i, r.main(c).to_string(), || a.region_for_cc(c)); x.eq("regions_for_cc", i, r.codes.get(&c).cloned(), || a.regions_for_cc(c));
    #[cfg(verif_hooks)] { x.eq("has_cc", i, r.codes.contains_key(&c), || x.w.u.has_cc(c)); x.eq("types_for_non_geo", i, r.ng.get(&c).map(|m| stypes(m)), || x.w.u.types_for_non_geo(c).map(|v| { let mut v: Vec<usize> = v.iter().map(|t| *t as usize).collect(); v.sort(); v })); }
}
#[cfg(verif_hooks)]
fn stypes(m: &PhoneMetadata) -> Vec<usize> { TYPES.iter().filter(|t| !matches!(t, T::FixedLineOrMobile | T::Unknown)).filter(|t| { let d = desc_of(m, **t); d.has_example_number() || d.possible_length != [-1] || d.has_national_number_pattern() }).map(|t| *t as usize).collect() }
fn region(x: &Run, reg: &str) {
    let (r, a) = (&x.w.r, &x.w.a); let i = || format!("{reg:?}");
    x.eq("cc_for_region", i, r.md.get(reg).map(|m| m.country_code()), || a.cc_for_region(reg)); x.eq("is_nanpa", i, r.nanpa.iter().any(|q| q == reg), || a.is_nanpa(reg));
    #[cfg(verif_hooks)] { x.eq("types_for_region", i, r.md.get(reg).map(|m| stypes(m)), || x.w.u.types_for_region(reg).map(|v| { let mut v: Vec<usize> = v.iter().map(|t| *t as usize).collect(); v.sort(); v })); for s in [true, false] { x.eq("ndd", i, r.md.get(reg).map(|m| if s { m.national_prefix().replace('~', "") } else { m.national_prefix().to_string() }), || x.w.u.ndd(reg, s)); } }
}
fn examples(x: &Run, reg: &str) {
    let (r, a) = (&x.w.r, &x.w.a); let i = || format!("{reg:?}");
    let ok = |q: &Result<PhoneNumber, String>| q.as_ref().ok().cloned();
    let ex = |m: Option<&PhoneMetadata>, t: T, reg: &str| m.and_then(|m| { let d = desc_of(m, t); if d.has_example_number() { r.parse(d.example_number(), reg, false, true).ok() } else { None } });
    if let Some(q) = x.call("example", i, || a.example(reg)) { let w = ex(r.md.get(reg), T::FixedLine, reg); x.holds("example", i, &format!("{:?}", w.as_ref().map(sn)), ok(&q) == w, pr(&q)); }
    if let Some(q) = x.call("invalid_example", i, || a.invalid_example(reg)) {
        match &q { Ok(n) => x.holds("invalid_example", i, "an invalid number", !r.valid(n), sn(n)), Err(_) => {} }
        let w = r.md.get(reg).and_then(|m| { let d = &m.fixed_line; if !d.has_example_number() { return None; } let e = d.example_number(); (2..e.len()).rev().find_map(|k| r.parse(&e[..k], reg, false, true).ok().filter(|n| !r.valid(n))) });
        x.holds("invalid_example", i, &format!("{:?}", w.as_ref().map(sn)), ok(&q) == w, pr(&q));
    }
    #[cfg(verif_hooks)] for t in TYPES { if let Some(q) = x.call("example_type_region", i, || x.w.u.example_type_region(reg, t)) { let w = ex(r.md.get(reg), t, reg); x.holds(&format!("example_type_region {t:?}"), i, &format!("{:?}", w.as_ref().map(sn)), ok(&q) == w, pr(&q)); } }
}
/// deterministic cases: exhaustive tables and the inputs of the defects already repaired
pub fn fixed(prop: &str, x: &Run, g: &mut StdRng) {
    let (r, a) = (&x.w.r, &x.w.a); let b = x.w.name == "bundled";
    let num = |cc: i32, n: u64| { let mut p = PhoneNumber::new(); p.set_country_code(cc); p.set_national_number(n); p };
    let same = |s: &str, reg: &str| { let i = || format!("{s:?} {reg:?}"); let w = r.parse(s, reg, true, true); if let Some(q) = x.call("parse_raw", i, || a.parse_raw(s, reg)) { x.holds("parse_raw", i, &pr(&w), q == w, pr(&q)); } };
    match prop {
        "P01" | "P18" => { for s in ["2034567890;phone-context=+1;tel:", "tel:1;phone-context=+1;tel:;isub=", ";phone-context=+1;tel:", ";phone-context=", "", "+", ";isub=", "tel:", ";ext=", "1;phone-context=+44", "\u{FF0B}", "+0", "00", "0", "000000000000000000000000000"] { for reg in ["US", "ZZ", "GB", "IT", ""] { same(s, reg) } } }
        "P12" => { if b { for (cc, n) in [(82, 125750105), (90, 4427248356u64), (974, 800809586)] { let n = num(cc, n); x.eq("number_type", || sn(&n), r.type_of(&n), || a.number_type(&n)); } }
            #[cfg(verif_hooks)] if b { let ca = std::sync::Arc::new(verif_hooks::Cache::new()); let hs: Vec<_> = (0..8).map(|k| { let ca = ca.clone(); std::thread::spawn(move || (0..3000usize).all(|i| { let q = format!("a{}", (i * (k + 1)) % 97); ca.get(&q).as_deref() == Some(&q) })) }).collect(); for h in hs { let ok = h.join().unwrap_or(false); x.holds("cache", || "8 threads".into(), "compilation of the requested pattern", ok, ok); } } }
        "P15" => { let mut m = num(1, 2015550123); let n = m.clone(); m.set_extension(String::new()); x.eq("is_match", || format!("{} / {}", sn(&n), sn(&m)), MatchType::ExactMatch, || a.is_match(&n, &m)); }
        "P19" => { let mut n = num(1, 0); n.set_raw_input("abc".into()); for reg in ["US", "ZZ", "GB"] { for w in [true, false] { x.eq("format_mobile", || format!("{} {reg}", sn(&n)), r.mobile(&n, reg, w), || a.format_mobile(&n, reg, w)); } } }
        "P21" => { let mut n = num(1, 8003569377); for c in (0..0x3100u32).chain(0xFE00..0x10000).chain(0x1D7C0..0x1D800).filter_map(char::from_u32) { for t in [format!("1 800{c}FLOWERS"), format!("{c}FLOWERS"), format!("800 FLO{c}WERS")] { n.set_raw_input(t); for reg in ["GB", "US", "IT"] { x.eq("format_out_alpha", || format!("{} {reg}", sn(&n)), r.out_alpha(&n, reg), || a.format_out_alpha(&n, reg)); } } if !b { break } }
            n.set_raw_input("1 800 FLOWERS".into()); for m in &x.w.plans.all { let reg = m.id(); x.eq("format_out_alpha", || format!("{} {reg}", sn(&n)), r.out_alpha(&n, reg), || a.format_out_alpha(&n, reg)); } }
        "P22" | "P30" => { let mut n = num(999, 1234567); n.set_country_code_source(Src::FROM_NUMBER_WITHOUT_PLUS_SIGN); x.eq("format_original", || sn(&n), r.original(&n, "US"), || a.format_original(&n, "US")); }
        "P28" => { same("35909383750", "BG"); for m in &x.w.plans.all { for d in descs(m) { if d.has_example_number() { let e = d.example_number(); for s in [format!("+{}{e}", m.country_code()), format!("{}{e}", m.country_code()), e.to_string()] { same(&s, m.id()) } } } } }
        "P13" => {
            let mut v = a.regions(); v.sort(); let mut w: Vec<String> = r.md.keys().cloned().collect(); w.sort(); x.holds("regions", String::new, "the regions of the plans", v == w, v.len());
            #[cfg(verif_hooks)] { let mut v = x.w.u.calling_codes(); v.sort(); x.holds("calling_codes", String::new, "the codes of the plans", v == r.codes.keys().cloned().collect::<Vec<_>>(), v.len()); let mut v = x.w.u.global_codes(); v.sort(); x.holds("global_codes", String::new, "the non-geographic codes", v == r.ng.keys().cloned().collect::<Vec<_>>(), v.len()); }
            for c in -10..1200 { codes(x, c) } for c in [i32::MAX, i32::MIN] { codes(x, c) } for m in &x.w.plans.all { region(x, m.id()) } for q in ["ZZ", "001", "", "us", "XX", "USA", "US-CA", "US-", " US", "US ", "Us", "GB_ENG", "U"] { region(x, q) }
            for (reg, m) in &r.md { let l = a.regions_for_cc(m.country_code()).unwrap_or_default(); x.holds("regions_for_cc", || reg.clone(), "lists the region", l.contains(reg), &l); }
        }
        "P17" => {
            let mut ok = true;
            for c in (0..=0x10FFFFu32).filter_map(char::from_u32) { if c as u32 > 0x3000 && x.w.name != "bundled" { break } let s = c.to_string(); if refi::convert_alpha(&s) != a.convert_alpha(&s) { ok = false; x.eq("convert_alpha", || format!("{:x}", c as u32), refi::convert_alpha(&s), || a.convert_alpha(&s)); }
                #[cfg(verif_hooks)] { let u = &x.w.u; if refi::diallable(&s) != u.norm_diallable(&s) { x.eq("norm_diallable", || format!("{:x}", c as u32), refi::diallable(&s), || u.norm_diallable(&s)); } if u.norm_digits(&s) != (if c.is_numeric() { refi::digits_only(&s) } else { String::new() }) { x.eq("norm_digits", || format!("{:x}", c as u32), refi::digits_only(&s), || u.norm_digits(&s)); } } }
            x.holds("per character", String::new, "same map", ok, ok); x.c.cases.fetch_add(0x110000, Ordering::Relaxed);
        }
        "P26" => {
            let mut regs: Vec<String> = x.w.plans.all.iter().map(|m| m.id().to_string()).collect(); regs.extend(["ZZ", "", "us", "XX", "US-CA", "US-", " US", "US ", "Us", "GB_ENG", "U", "USA"].map(|s| s.to_string())); for q in &regs { examples(x, q) } x.holds("invalid_example", || "XX".into(), "an error", a.invalid_example("XX").is_err() && a.example("XX").is_err(), "");
            for t in TYPES {
                let geo: Vec<PhoneNumber> = r.md.iter().filter_map(|(q, m)| { let d = desc_of(m, t); if d.has_example_number() { r.parse(d.example_number(), q, false, true).ok() } else { None } }).collect();
                let ngx: Vec<_> = r.ng.iter().filter(|(_, m)| desc_of(m, t).has_example_number()).map(|(c, m)| r.parse(&format!("+{c}{}", desc_of(m, t).example_number()), "ZZ", false, true)).collect();
                if let Some(q) = x.call("example_type", || format!("{t:?}"), || a.example_type(t)) { let ok = match &q { Ok(n) => if geo.is_empty() { ngx.iter().any(|w| w.as_ref().ok() == Some(n)) } else { geo.contains(n) }, Err(_) => geo.is_empty() && (ngx.is_empty() || ngx.iter().any(|w| w.is_err())) }; x.holds("example_type", || format!("{t:?}"), "a parsed example of a plan that has one", ok, pr(&q)); } }
            #[cfg(verif_hooks)] for c in -1..1000 { if let Some(q) = x.call("example_non_geo", || format!("{c}"), || x.w.u.example_non_geo(c)) { let w = r.ng.get(&c).and_then(|m| [&m.mobile, &m.toll_free, &m.shared_cost, &m.voip, &m.voicemail, &m.uan, &m.premium_rate].into_iter().find(|d| d.has_example_number()).and_then(|d| r.parse(&format!("+{c}{}", d.example_number()), "ZZ", false, true).ok())); x.holds("example_non_geo", || format!("{c}"), &format!("{:?}", w.as_ref().map(sn)), q.as_ref().ok() == w.as_ref(), pr(&q)); } }
        }
        _ => {}
    }
    let _ = g;
}
