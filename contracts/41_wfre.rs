// ---- facts about the regular expressions and maps of PhoneNumberRegExpsAndMappings used by the contracts ----
// established by the constructor (contract of PhoneNumberRegExpsAndMappings::new)
pub open spec fn is_up(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn keypad(c: char) -> char {
    if c <= 'C' { '2' } else if c <= 'F' { '3' } else if c <= 'I' { '4' } else if c <= 'L' { '5' } else if c <= 'O' { '6' }
    else if c <= 'S' { '7' } else if c <= 'V' { '8' } else { '9' }
}
pub open spec fn is_diall(c: char) -> bool { is_dig(c) || c == '+' || c == '*' || c == '#' }
pub open spec fn dashy(c: char) -> bool { c == '-' || c == '\u{FF0D}' || c == '\u{2010}' || c == '\u{2011}' || c == '\u{2012}' || c == '\u{2013}' || c == '\u{2014}' || c == '\u{2015}' || c == '\u{2212}' }
pub open spec fn spacy(c: char) -> bool { c == ' ' || c == '\u{3000}' || c == '\u{2060}' }
pub open spec fn group_of(c: char) -> Option<char> {
    if is_up(c) || is_dig(c) { Some(c) } else if 'a' <= c && c <= 'z' { Some(upc(c)) } else if dashy(c) { Some('-') }
    else if c == '/' || c == '\u{FF0F}' { Some('/') } else if spacy(c) { Some(' ') } else if c == '.' || c == '\u{FF0E}' { Some('.') } else { None }
}
pub open spec fn map_is(m: Map<char, char>, f: spec_fn(char) -> Option<char>) -> bool {
    forall|c: char| (#[trigger] m.dom().contains(c) <==> f(c) is Some) && (m.dom().contains(c) ==> m[c] == f(c).unwrap())
}
pub open spec fn f_alpha(c: char) -> Option<char> { if is_up(c) { Some(keypad(c)) } else { None } }
pub open spec fn f_alpha_phone(c: char) -> Option<char> { if is_dig(c) { Some(c) } else { f_alpha(c) } }
pub open spec fn f_diall(c: char) -> Option<char> { if is_diall(c) { Some(c) } else { None } }
#[verifier::opaque]
pub open spec fn maps_ok(r: &PhoneNumberRegExpsAndMappings) -> bool {
    &&& forall|c: char| (#[trigger] r.alpha_phone_mappings.m().dom().contains(c) <==> f_alpha_phone(c) is Some) && (r.alpha_phone_mappings.m().dom().contains(c) ==> r.alpha_phone_mappings.m()[c] == f_alpha_phone(c).unwrap())
    &&& forall|c: char| (#[trigger] r.diallable_char_mappings.m().dom().contains(c) <==> is_diall(c)) && (r.diallable_char_mappings.m().dom().contains(c) ==> r.diallable_char_mappings.m()[c] == c)
    &&& forall|c: char| (#[trigger] r.all_plus_number_grouping_symbols.m().dom().contains(c) <==> group_of(c) is Some) && (r.all_plus_number_grouping_symbols.m().dom().contains(c) ==> r.all_plus_number_grouping_symbols.m()[c] == group_of(c).unwrap())
    &&& r.mobile_token_mappings.m() == Map::<i32, char>::empty().insert(54, '9')
    &&& r.geo_mobile_countries_without_mobile_area_codes.st() == set![86i32]
    &&& forall|c: i32| #[trigger] r.geo_mobile_countries.st().contains(c) <==> c == 52 || c == 54 || c == 55 || c == 62 || c == 86
    &&& r.countries_without_national_prefix_with_area_codes.st() == set![52i32]
}
pub open spec fn ctor_ok(r: &PhoneNumberRegExpsAndMappings) -> bool {
    &&& maps_ok(r)
    &&& r.carrier_code_pattern.pat() == "\\$CC"@
    &&& exists|cs: Str| #[trigger] class_of(cs, r.plus_chars_pattern.pat()) && cs.contains('+') && cs.contains('\u{FF0B}') && forall|c: char| #[trigger] cs.contains(c) ==> is_plus(c)
}
pub open spec fn is_plus(c: char) -> bool { c == '+' || c == '\u{FF0B}' }
// p is the pattern "[cs]+" where cs are characters that stand for themselves in a class
pub open spec fn class_of(cs: Str, p: Str) -> bool { p == "["@ + cs + "]+"@ && forall|i: int| 0 <= i < cs.len() ==> is_plus(#[trigger] cs[i]) }
pub axiom fn ax_class_plus(cs: Str, s: Str) requires forall|i: int| 0 <= i < cs.len() ==> is_plus(#[trigger] cs[i]), cs.len() > 0
    ensures re_start("["@ + cs + "]+"@, s) <==> s.len() > 0 && cs.contains(s[0]),
        s.len() > 1 && cs.contains(s[0]) && !cs.contains(s[1]) ==> re_find("["@ + cs + "]+"@, s) == Some((0int, 1int));
pub open spec fn wf_re(u: &Util) -> bool {
    &&& re_ok("NonMatch"@)
    &&& re_ok("(\\d+)(.*)"@) && (forall|s: Str| #[trigger] re_full("(\\d+)(.*)"@, s) ==> re_whole("(\\d+)(.*)"@, s))
    &&& ctor_ok(&u.reg_exps)
}
pub proof fn lem_alpha_dig(u: &Util, c: char) requires wf_re(u), u.reg_exps.alpha_phone_mappings.m().dom().contains(c) ensures is_dig(u.reg_exps.alpha_phone_mappings.m()[c]) { reveal(maps_ok); }
pub proof fn lem_plus(u: &Util, s: Str) requires wf_re(u) ensures re_start(u.reg_exps.plus_chars_pattern.pat(), s) <==> s.len() > 0 && is_plus(s[0])
{ let cs = choose|cs: Str| #[trigger] class_of(cs, u.reg_exps.plus_chars_pattern.pat()) && cs.contains('+') && cs.contains('\u{FF0B}') && forall|c: char| #[trigger] cs.contains(c) ==> is_plus(c); ax_class_plus(cs, s); }
