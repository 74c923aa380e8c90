// ===== P01-P04, P18, P28, P29: parsing =====
// ---- byte offsets of parts ----
pub proof fn lem_bo_add(s: Str, i: int, j: int) requires 0 <= i <= j <= s.len()
    ensures bo(s, j) == bo(s, i) + bl(s.subrange(i, j)), is_ci(s, bo(s, j) as int, j), is_ci(s, bo(s, i) as int, i) { bo_mono(s, i, j); }
pub proof fn lem_bo_tail(s: Str, i: int, j: int) requires 0 <= i, 0 <= j, i + j <= s.len()
    ensures bo(s.subrange(i, s.len() as int), j) + bo(s, i) == bo(s, i + j), is_ci(s, bo(s, i + j) as int, i + j)
{ lem_bo_add(s, i, i + j); assert(s.subrange(i, s.len() as int).subrange(0, j) =~= s.subrange(i, i + j)); }
pub broadcast proof fn lem_find_end(s: Str, p: Str) requires str_find(s, p) is Some
    ensures ({ let k = (#[trigger] str_find(s, p))->0; &&& is_ci(s, (bo(s, k) + bl(p)) as int, k + p.len()) &&& bo(s, k + p.len()) == bo(s, k) + bl(p) &&& bo(s, k) + bl(p) <= bl(s) })
{ str_find_is(s, p); let k = str_find(s, p)->0; lem_bo_add(s, k, k + p.len()); lem_bo_add(s, k + p.len(), s.len() as int); bo_end(s); }
pub proof fn lem_cut_find(s: Str, i: int, p: Str) requires 0 <= i <= s.len(), str_find(s.subrange(i, s.len() as int), p) is Some
    ensures ({ let k = str_find(s.subrange(i, s.len() as int), p)->0; is_ci(s, (bo(s, i) + bo(s.subrange(i, s.len() as int), k)) as int, i + k) })
{ str_find_is(s.subrange(i, s.len() as int), p); lem_bo_tail(s, i, str_find(s.subrange(i, s.len() as int), p)->0); }
// ---- decimal value and digits ----
pub open spec fn pow10(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
pub proof fn lem_parse_dec(s: Str) requires all_dig(s) ensures 0 <= parse_dec(s) < pow10(s.len()) decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies is_dig(#[trigger] t[i]) by { assert(is_dig(s[i])); } lem_parse_dec(t); assert(is_dig(s[s.len() - 1])); } }
pub proof fn lem_pow10_mono(a: nat, b: nat) requires a <= b ensures 1 <= pow10(a) <= pow10(b) decreases b
{ if b > 0 { if a < b { lem_pow10_mono(a, (b - 1) as nat); } else { lem_pow10_mono((a - 1) as nat, (b - 1) as nat); } } }
pub proof fn lem_pow17(n: nat) requires n <= 17 ensures 1 <= pow10(n) <= 100000000000000000 { lem_pow10_mono(n, 17); reveal_with_fuel(pow10, 18); }
pub proof fn lem_pow3(n: nat) requires n <= 3 ensures 1 <= pow10(n) <= 1000 { lem_pow10_mono(n, 3); reveal_with_fuel(pow10, 4); }
pub proof fn lem_sub_dig(s: Str, i: int, j: int) requires all_dig(s), 0 <= i <= j <= s.len() ensures all_dig(s.subrange(i, j)), all_ascii(s.subrange(i, j))
{ assert forall|k: int| 0 <= k < j - i implies is_dig(#[trigger] s.subrange(i, j)[k]) by { assert(is_dig(s[i + k])); } dig_ascii(s.subrange(i, j)); }
pub proof fn lem_push_dig(s: Str, c: char) requires all_dig(s), is_dig(c) ensures all_dig(s.push(c))
{ assert forall|k: int| 0 <= k < s.len() + 1 implies is_dig(#[trigger] s.push(c)[k]) by { if k < s.len() { assert(is_dig(s[k])); } } }
pub proof fn lem_digits_only(s: Str) ensures all_dig(digits_only(s)) decreases s.len()
{ if s.len() > 0 { lem_digits_only(s.drop_last()); match dec_val(s.last()) { Some(d) => { ax_dec(s.last()); lem_dchar(d); lem_push_dig(digits_only(s.drop_last()), dchar(d)); }, None => {} } } }
pub proof fn lem_map_dig(m: Map<char, char>, s: Str) requires forall|c: char| #[trigger] m.dom().contains(c) ==> is_dig(m[c]) ensures all_dig(map_chars(m, true, s)) decreases s.len()
{ if s.len() > 0 { lem_map_dig(m, s.drop_last()); let a = map_chars(m, true, s.drop_last()); let c = upc(s.last());
    if m.dom().contains(c) { assert(map_chars(m, true, s) =~= a.push(m[c])); lem_push_dig(a, m[c]); } else { assert(map_chars(m, true, s) =~= a); } } }
// ---- P17: digits of a text ----
pub open spec fn alpha_map(u: &Util) -> Map<char, char> { u.reg_exps.alpha_phone_mappings.m() }
pub open spec fn norm(u: &Util, s: Str) -> Str { if re_find(u.reg_exps.valid_alpha_phone_pattern.pat(), s) is Some { map_chars(alpha_map(u), true, s) } else { digits_only(s) } }
pub proof fn lem_norm(u: &Util, s: Str) requires wf_re(u) ensures all_dig(norm(u, s))
{ reveal(maps_ok); lem_digits_only(s); lem_map_dig(alpha_map(u), s); }
// ---- P18: which part of the text is the number ----
pub type PErr = ParseErrorInternal;
pub open spec fn ctx_mark() -> Str { ";phone-context="@ }
pub open spec fn up_to(s: Str, p: Str) -> Str { match str_find(s, p) { Some(k) => s.subrange(0, k), None => s } }
pub open spec fn context_of(t: Str, k: int) -> Str { up_to(t.subrange(k + ctx_mark().len(), t.len() as int), seq![';']) }
pub open spec fn ctx_valid(u: &Util, c: Str) -> bool { c.len() > 0 && (re_whole(u.reg_exps.rfc3966_global_number_digits_pattern.pat(), c) || re_whole(u.reg_exps.rfc3966_domainname_pattern.pat(), c)) }
pub open spec fn first_start(u: &Util, t: Str, i: int) -> int decreases t.len() - i { if i < 0 || i >= t.len() { t.len() as int } else if re_whole(u.reg_exps.valid_start_char_pattern.pat(), t.subrange(i, i + 1)) { i } else { first_start(u, t, i + 1) } }
pub open spec fn trim_end(u: &Util, s: Str) -> Str decreases s.len() { if s.len() == 0 { s } else if re_whole(u.reg_exps.unwanted_end_char_pattern.pat(), seq![s.last()]) { trim_end(u, s.drop_last()) } else { s } }
pub open spec fn second_pat(u: &Util) -> Str { u.reg_exps.capture_up_to_second_number_start_pattern.pat() }
pub open spec fn grp(p: Str, s: Str, i: int) -> Option<Str> { if re_find(p, s) is Some && 0 <= i < re_caps(p, s).len() && re_caps(p, s)[i] is Some { Some(s.subrange((re_caps(p, s)[i]->0).0, (re_caps(p, s)[i]->0).1)) } else { None } }
pub open spec fn extract_possible(u: &Util, t: Str) -> Result<Str, ExtractNumberError> {
    let i = first_start(u, t, 0); let e = trim_end(u, t.subrange(i, t.len() as int));
    if i >= t.len() { Err(ExtractNumberError::NoValidStartCharacter) } else if e.len() == 0 { Err(ExtractNumberError::NotANumber) }
    else { Ok(match grp(second_pat(u), e, 1) { Some(x) => x, None => e }) } }
pub open spec fn build_nat(u: &Util, t: Str) -> Result<Str, PErr> {
    match str_find(t, ctx_mark()) {
        Some(k) => { let c = context_of(t, k); let h = t.subrange(0, k);
            if !ctx_valid(u, c) { Err(PErr::FailedToParse(ParseError::NotANumber(NotANumberError::InvalidPhoneContext))) }
            else { Ok(up_to((if is_pre("+"@, c) { c } else { Seq::empty() }) + (match str_find(h, "tel:"@) { Some(j) => h.subrange(j + 4, k), None => h }), ";isub="@)) } }
        None => match extract_possible(u, t) { Ok(x) => Ok(up_to(x, ";isub="@)), Err(e) => Err(PErr::FailedToParse(ParseError::NotANumber(NotANumberError::FailedToExtractNumber(e)))) } } }
// ---- P29: national prefix and carrier code ----
pub open spec fn np_pat(m: &PhoneMetadata) -> Str { m.s_national_prefix_for_parsing() }
pub open spec fn keyed(m: &PhoneMetadata, s: Str) -> bool { m.s_national_prefix_transform_rule().len() > 0 && match (grp(np_pat(m), s, 1), grp(np_pat(m), s, 2)) { (Some(_), Some(b)) => b.len() > 0, (Some(a), None) => a.len() > 0, _ => false } }
pub open spec fn after_match(p: Str, s: Str) -> Str { s.subrange((re_find(p, s)->0).1, s.len() as int) }
pub open spec fn np_out(m: &PhoneMetadata, s: Str) -> Str { if keyed(m, s) { re_replace(np_pat(m), s, m.s_national_prefix_transform_rule()) } else { after_match(np_pat(m), s) } }
pub open spec fn np_carrier(m: &PhoneMetadata, s: Str) -> Option<Str> { if keyed(m, s) && grp(np_pat(m), s, 2) is None { None } else { grp(np_pat(m), s, 1) } }
pub open spec fn strip_np(m: &PhoneMetadata, s: Str) -> (Str, Option<Str>) {
    if s.len() == 0 || np_pat(m).len() == 0 || !re_start(np_pat(m), s) { (s, None) }
    else if desc_match(s, &m.general_desc) && !desc_match(np_out(m, s), &m.general_desc) { (s, None) }
    else { (np_out(m, s), np_carrier(m, s)) } }
pub proof fn lem_strip_np_dig(m: &PhoneMetadata, s: Str) requires md_ok(m), all_dig(s) ensures all_dig(strip_np(m, s).0)
{ broadcast use gre; if re_start(np_pat(m), s) { lem_sub_dig(s, (re_find(np_pat(m), s)->0).1, s.len() as int); } }
// ---- P28: international prefix and country code ----
pub open spec fn plus_pat(u: &Util) -> Str { u.reg_exps.plus_chars_pattern.pat() }
pub open spec fn first_dec(s: Str) -> Option<u32> decreases s.len() { if s.len() == 0 { None } else if dec_val(s[0]) is Some { dec_val(s[0]) } else { first_dec(s.subrange(1, s.len() as int)) } }
pub open spec fn idd_rest(p: Str, n: Str) -> Option<Str> { if re_start(p, n) && first_dec(after_match(p, n)) != Some(0u32) { Some(after_match(p, n)) } else { None } }
pub open spec fn strip_idd(u: &Util, s: Str, p: Str) -> (Str, CountryCodeSource) {
    if s.len() == 0 { (s, CountryCodeSource::FROM_DEFAULT_COUNTRY) }
    else if re_start(plus_pat(u), s) { (norm(u, after_match(plus_pat(u), s)), CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN) }
    else { match idd_rest(p, norm(u, s)) { Some(r) => (r, CountryCodeSource::FROM_NUMBER_WITH_IDD), None => (norm(u, s), CountryCodeSource::FROM_DEFAULT_COUNTRY) } } }
pub open spec fn cc_scan(u: &Util, s: Str, i: int) -> Option<(Str, i32)> decreases 4 - i {
    if i < 1 || i > 3 || i > s.len() { None } else if cc_known(u, parse_dec(s.subrange(0, i)) as i32) { Some((s.subrange(i, s.len() as int), parse_dec(s.subrange(0, i)) as i32)) } else { cc_scan(u, s, i + 1) } }
pub open spec fn split_cc(u: &Util, s: Str) -> Option<(Str, i32)> { if s.len() == 0 || s[0] == '0' { None } else { cc_scan(u, s, 1) } }
pub open spec fn fits_better(m: &PhoneMetadata, n: Str, rest: Str) -> bool {
    (!desc_match(n, &m.general_desc) && desc_match(strip_np(m, rest).0, &m.general_desc)) || len_class(ilen(n), m, PhoneNumberType::Unknown) == Err::<NumberLengthType, ValidationError>(ValidationError::TooLong) }
pub open spec fn intl_prefix(hm: Option<&PhoneMetadata>) -> Str { match hm { Some(m) => m.s_international_prefix(), None => "NonMatch"@ } }
pub struct Split { pub nat: Str, pub cc: i32, pub src: CountryCodeSource }
pub open spec fn country(u: &Util, hm: Option<&PhoneMetadata>, s: Str) -> Result<Split, PErr> {
    let (n, src) = strip_idd(u, s, intl_prefix(hm));
    if src != CountryCodeSource::FROM_DEFAULT_COUNTRY {
        if n.len() <= 2 { Err(PErr::FailedToParse(ParseError::TooShortAfterIdd)) }
        else { match split_cc(u, n) { Some((r, c)) => Ok(Split { nat: r, cc: c, src: src }), None => Err(PErr::FailedToParse(ParseError::InvalidCountryCode)) } } }
    else { match hm { None => Ok(Split { nat: n, cc: 0, src: src }),
        Some(m) => { let d = int_digits(m.s_country_code() as int); let rest = n.subrange(d.len() as int, n.len() as int);
            if is_pre(d, n) && fits_better(m, n, rest) { Ok(Split { nat: rest, cc: m.s_country_code(), src: CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN }) }
            else { Ok(Split { nat: n, cc: 0, src: src }) } } } } }
pub proof fn lem_strip_idd_dig(u: &Util, s: Str, p: Str) requires wf_re(u) ensures all_dig(strip_idd(u, s, p).0)
{ broadcast use gre; if s.len() > 0 { lem_norm(u, s); lem_norm(u, after_match(plus_pat(u), s)); if re_start(p, norm(u, s)) { lem_sub_dig(norm(u, s), (re_find(p, norm(u, s))->0).1, norm(u, s).len() as int); } } }
pub proof fn lem_scan(u: &Util, s: Str, i: int) requires 1 <= i
    ensures match cc_scan(u, s, i) { Some((r, c)) => exists|k: int| i <= k <= 3 && k <= s.len() && r == #[trigger] s.subrange(k, s.len() as int) && c == parse_dec(s.subrange(0, k)) as i32 && cc_known(u, c), None => true }
    decreases 4 - i
{ if i <= 3 && i <= s.len() { if cc_known(u, parse_dec(s.subrange(0, i)) as i32) { assert(s.subrange(i, s.len() as int) == (cc_scan(u, s, i)->0).0); } else { lem_scan(u, s, i + 1); } } }
pub proof fn lem_country_dig(u: &Util, hm: Option<&PhoneMetadata>, s: Str) requires wf_re(u), wf_tab(u), country(u, hm, s) is Ok
    ensures all_dig((country(u, hm, s)->Ok_0).nat), (country(u, hm, s)->Ok_0).cc == 0 || cc_known(u, (country(u, hm, s)->Ok_0).cc) || (hm is Some && (country(u, hm, s)->Ok_0).cc == hm->0.s_country_code())
{ let p = intl_prefix(hm); lem_strip_idd_dig(u, s, p); let n = strip_idd(u, s, p).0; lem_scan(u, n, 1);
  match hm { Some(m) => { let d = int_digits(m.s_country_code() as int); if is_pre(d, n) { lem_sub_dig(n, d.len() as int, n.len() as int); } }, None => {} }
  match cc_scan(u, n, 1) { Some((r, c)) => { let k = choose|k: int| 1 <= k <= 3 && k <= n.len() && r == #[trigger] n.subrange(k, n.len() as int) && c == parse_dec(n.subrange(0, k)) as i32 && cc_known(u, c); lem_sub_dig(n, k, n.len() as int); }, None => {} } }
// ---- P03: leading zeros ----
pub open spec fn lead0(s: Str) -> nat decreases s.len() { if s.len() > 0 && s[0] == '0' { 1 + lead0(s.subrange(1, s.len() as int)) } else { 0 } }
pub open spec fn zeros_of(s: Str) -> nat { if s.len() < 2 { 0 } else if lead0(s) == s.len() { (s.len() - 1) as nat } else { lead0(s) } }
pub proof fn lem_lead0(s: Str) ensures lead0(s) <= s.len(), forall|i: int| 0 <= i < lead0(s) ==> #[trigger] s[i] == '0', lead0(s) < s.len() ==> s[lead0(s) as int] != '0' decreases s.len()
{ if s.len() > 0 && s[0] == '0' { let t = s.subrange(1, s.len() as int); lem_lead0(t); assert forall|i: int| 0 <= i < lead0(s) implies #[trigger] s[i] == '0' by { if i > 0 { assert(t[i - 1] == '0'); } } if lead0(s) < s.len() { assert(t[lead0(t) as int] == s[lead0(s) as int]); } } }
pub proof fn lem_dec_back(t: Str) requires all_dig(t), t.len() > 0, t.len() == 1 || t[0] != '0' ensures dec_digits(parse_dec(t) as nat) == t, t.len() > 1 ==> parse_dec(t) >= 10, parse_dec(t) >= 0, t[0] != '0' ==> parse_dec(t) >= 1 decreases t.len()
{
    let r = t.drop_last(); let c = t.last(); assert(is_dig(t[t.len() - 1]));
    let d = dig_val(c); assert(0 <= d <= 9); assert(dchar(d as u32) == c);
    if t.len() == 1 { assert(r.len() == 0); assert(parse_dec(t) == d) by { reveal_with_fuel(parse_dec, 2); } assert(dec_digits(d as nat) =~= t); assert(is_dig(t[0])); }
    else { assert(r[0] == t[0]); assert forall|i: int| 0 <= i < r.len() implies is_dig(#[trigger] r[i]) by { assert(is_dig(t[i])); }
        lem_dec_back(r); let v = parse_dec(r); assert(v >= 1); assert(parse_dec(t) == v * 10 + d); assert((v * 10 + d) / 10 == v && (v * 10 + d) % 10 == d); assert(dec_digits(parse_dec(t) as nat) =~= r.push(c)); assert(r.push(c) =~= t); }
}
pub proof fn lem_parse_lead(z: nat, t: Str) ensures parse_dec(reps('0', z) + t) == parse_dec(t) decreases t.len()
{ let s = reps('0', z) + t;
  if t.len() > 0 { assert(s.drop_last() =~= reps('0', z) + t.drop_last()); assert(s.last() == t.last()); lem_parse_lead(z, t.drop_last()); } else { assert(s =~= reps('0', z)); lem_parse_zero(z); } }
pub proof fn lem_parse_zero(z: nat) ensures parse_dec(reps('0', z)) == 0 decreases z
{ let s = reps('0', z); if z > 0 { assert(s.drop_last() =~= reps('0', (z - 1) as nat)); assert(s.last() == '0'); lem_parse_zero((z - 1) as nat); } }
pub proof fn lem_join(s: Str) requires all_dig(s), s.len() >= 2 ensures reps('0', zeros_of(s)) + dec_digits(parse_dec(s) as nat) == s, zeros_of(s) < s.len()
{ lem_lead0(s); let z = zeros_of(s); let t = s.subrange(z as int, s.len() as int); lem_sub_dig(s, z as int, s.len() as int);
  assert(s =~= reps('0', z) + t) by { assert forall|i: int| 0 <= i < s.len() implies s[i] == (reps('0', z) + t)[i] by {} }
  lem_parse_lead(z, t); assert(t.len() == 1 || t[0] != '0'); lem_dec_back(t); }
// ---- the whole ----
pub struct Core { pub nat: Str, pub cc: i32, pub src: CountryCodeSource, pub ext: Option<Str>, pub carrier: Option<Str> }
pub open spec fn home(u: &Util, region: Str) -> Option<PhoneMetadata> { if rmap(u).dom().contains(region) { Some(rmap(u)[region]) } else { None } }
pub open spec fn oref(m: &Option<PhoneMetadata>) -> Option<&PhoneMetadata> { match m { Some(x) => Some(x), None => None } }
pub open spec fn bad_cc(e: PErr) -> bool { e == PErr::FailedToParse(ParseError::InvalidCountryCode) }
pub open spec fn country2(u: &Util, hm: Option<&PhoneMetadata>, s: Str) -> Result<Split, PErr> {
    match country(u, hm, s) { Ok(x) => Ok(x), Err(e) => if bad_cc(e) && re_start(plus_pat(u), s) {
        match country(u, hm, after_match(plus_pat(u), s)) { Ok(y) => if y.cc == 0 { Err(PErr::FailedToParse(ParseError::InvalidCountryCode)) } else { Ok(y) }, Err(f) => Err(f) } } else { Err(e) } } }
pub open spec fn plan_for(u: &Util, region: Str, cc: i32) -> Option<PhoneMetadata> {
    if cc == 0 || main_region(u, cc) == region { home(u, region) } else if md_has(u, cc, main_region(u, cc)) { Some(md_get(u, cc, main_region(u, cc))) } else { None } }
pub open spec fn keep_stripped(m: &PhoneMetadata, x: Str) -> bool {
    let v = len_class(ilen(x), m, PhoneNumberType::Unknown);
    v != Err::<NumberLengthType, ValidationError>(ValidationError::TooShort) && v != Err::<NumberLengthType, ValidationError>(ValidationError::InvalidLength) && v != Ok::<NumberLengthType, ValidationError>(NumberLengthType::IsPossibleLocalOnly) }
pub open spec fn national(u: &Util, plan: Option<PhoneMetadata>, n: Str) -> (Str, Option<Str>) {
    match plan { None => (n, None), Some(m) => if keep_stripped(&m, strip_np(&m, n).0) { strip_np(&m, n) } else { (n, None) } } }
pub open spec fn parse_core(u: &Util, text: Str, region: Str, check: bool) -> Result<Core, PErr> {
    match build_nat(u, text) { Err(e) => Err(e), Ok(s) =>
        if !viable(u, s) { Err(PErr::FailedToParse(ParseError::NotANumber(NotANumberError::NotMatchedValidNumberPattern))) }
        else if check && !(rmap(u).dom().contains(region) || re_start(plus_pat(u), s)) { Err(PErr::FailedToParse(ParseError::InvalidCountryCode)) }
        else { let (s2, ext) = ext_split(u, s); let hm = home(u, region);
            match country2(u, oref(&hm), s2) { Err(e) => Err(e), Ok(x) => {
                let code = if x.cc != 0 { x.cc } else { match hm { Some(m) => m.s_country_code(), None => 0 } };
                let (n, carrier) = national(u, plan_for(u, region, x.cc), x.nat);
                if x.nat.len() < 2 || n.len() < 2 { Err(PErr::FailedToParse(ParseError::TooShortNsn)) }
                else if n.len() > 17 { Err(PErr::FailedToParse(ParseError::TooLongNsn)) }
                else { Ok(Core { nat: n, cc: code, src: x.src, ext: ext, carrier: carrier }) } } } } } }
pub open spec fn opt_text(o: Option<String>, v: Option<Str>) -> bool { match v { Some(x) => o is Some && o->0@ == x, None => o is None } }
pub open spec fn num_of(c: Core, text: Str, keep: bool, p: &PhoneNumber) -> bool {
    &&& p.country_code == Some(c.cc)
    &&& p.national_number is Some && p.s_national_number() == parse_dec(c.nat)
    &&& p.italian_leading_zero == (if zeros_of(c.nat) > 0 { Some(true) } else { None::<bool> })
    &&& p.number_of_leading_zeros == (if zeros_of(c.nat) > 1 { Some(zeros_of(c.nat) as i32) } else { None::<i32> })
    &&& opt_text(p.extension, c.ext)
    &&& opt_text(p.raw_input, if keep { Some(text) } else { None })
    &&& p.h_country_code_source() == keep && (keep ==> p.s_country_code_source() == c.src)
    &&& opt_text(p.preferred_domestic_carrier_code, if keep { c.carrier } else { None }) }
pub open spec fn parsed(u: &Util, text: Str, region: Str, keep: bool, check: bool, r: ParseResult<PhoneNumber>) -> bool {
    match r { Ok(p) => parse_core(u, text, region, check) is Ok && num_of(parse_core(u, text, region, check)->Ok_0, text, keep, &p), Err(e) => parse_core(u, text, region, check) == Err::<Core, PErr>(e) } }
pub proof fn lem_dig_len(s: Str) requires all_dig(s) ensures bl(s) == s.len(), parse_dec(s) >= 0, s.len() <= 17 ==> parse_dec(s) <= 100000000000000000, zeros_of(s) <= s.len()
{ dig_ascii(s); bo_ascii(s, s.len() as int); bo_end(s); lem_parse_dec(s); if s.len() <= 17 { lem_pow17(s.len()); } lem_lead0(s); }
pub proof fn lem_after_find(p: Str, s: Str) ensures re_find(p, s) is Some ==> ({ let e = (re_find(p, s)->0).1; (forall|b: int| is_ci(s, b, e) ==> #[trigger] is_cb(s, b) && ci(s, b) == e) && 0 <= e <= s.len() && is_cb(s, bo(s, e) as int) && ci(s, bo(s, e) as int) == e && bo(s, e) <= bl(s) })
{ broadcast use {gstr, gre}; }
pub proof fn lem_plan_ok(u: &Util, region: Str) requires wf(u)
    ensures match home(u, region) { Some(m) => md_ok(&m), None => true } { }
pub proof fn lem_plan_ok2(u: &Util, region: Str, cc: i32) requires wf(u) ensures match plan_for(u, region, cc) { Some(m) => md_ok(&m), None => true } { }
pub proof fn lem_core_dig(u: &Util, text: Str, region: Str, check: bool) requires wf(u), parse_core(u, text, region, check) is Ok
    ensures ({ let c = parse_core(u, text, region, check)->Ok_0; all_dig(c.nat) && 2 <= c.nat.len() <= 17 })
{ let s = ext_split(u, build_nat(u, text)->Ok_0).0; let hm = home(u, region); let h = oref(&hm);
  if country(u, h, s) is Ok { lem_country_dig(u, h, s); } else { lem_country_dig(u, h, after_match(plus_pat(u), s)); }
  let x = country2(u, h, s)->Ok_0; match plan_for(u, region, x.cc) { Some(m) => lem_strip_np_dig(&m, x.nat), None => {} } }
pub proof fn lem_trim_step(s: Str, n: int) requires 0 < n <= s.len()
    ensures s.subrange(0, n).drop_last() == s.subrange(0, n - 1), s.subrange(0, n).last() == s[n - 1], bl(s.subrange(n - 1, s.len() as int)) == clen(s[n - 1]) + bl(s.subrange(n, s.len() as int)),
        bo(s, n) == bo(s, n - 1) + clen(s[n - 1]), bo(s, n) + bl(s.subrange(n, s.len() as int)) == bl(s), bo(s, n - 1) + bl(s.subrange(n - 1, s.len() as int)) == bl(s),
{ broadcast use gstr; bo_end(s);
        assert(s.subrange(0, n).drop_last() =~= s.subrange(0, n - 1)); assert(s.subrange(0, n).last() == s[n - 1]);
        lem_bo_add(s, n - 1, n); assert(s.subrange(n - 1, n) =~= seq![s[n - 1]]); assert(bl(seq![s[n - 1]]) == clen(s[n - 1])) by { reveal_with_fuel(bl, 2); assert(seq![s[n - 1]].drop_last() =~= Seq::<char>::empty()); }
        assert(s.subrange(n - 1, s.len() as int) =~= s.subrange(n - 1, n) + s.subrange(n, s.len() as int)); bl_app(s.subrange(n - 1, n), s.subrange(n, s.len() as int));
        lem_bo_add(s, n, s.len() as int); lem_bo_add(s, n - 1, s.len() as int); }
// parse_core, case by case
pub proof fn lem_pc_early(u: &Util, text: Str, region: Str, check: bool)
    ensures match build_nat(u, text) { Err(e) => parse_core(u, text, region, check) == Err::<Core, PErr>(e), Ok(s) =>
        (!viable(u, s) ==> parse_core(u, text, region, check) == Err::<Core, PErr>(PErr::FailedToParse(ParseError::NotANumber(NotANumberError::NotMatchedValidNumberPattern))))
        && (viable(u, s) && check && !(rmap(u).dom().contains(region) || re_start(plus_pat(u), s)) ==> parse_core(u, text, region, check) == Err::<Core, PErr>(PErr::FailedToParse(ParseError::InvalidCountryCode))) },
{}
pub open spec fn pc_at(u: &Util, text: Str, region: Str, check: bool, b: Str) -> bool { build_nat(u, text) == Ok::<Str, PErr>(b) && viable(u, b) && !(check && !(rmap(u).dom().contains(region) || re_start(plus_pat(u), b))) }
pub proof fn lem_pc_country(u: &Util, text: Str, region: Str, check: bool, b: Str, hm: Option<PhoneMetadata>) requires pc_at(u, text, region, check, b), hm == home(u, region)
    ensures match country2(u, oref(&hm), ext_split(u, b).0) { Err(e) => parse_core(u, text, region, check) == Err::<Core, PErr>(e), Ok(x) => x.nat.len() < 2 ==> parse_core(u, text, region, check) == Err::<Core, PErr>(PErr::FailedToParse(ParseError::TooShortNsn)) },
{}
pub proof fn lem_pc_end(u: &Util, text: Str, region: Str, check: bool, b: Str, hm: Option<PhoneMetadata>, x: Split) requires pc_at(u, text, region, check, b), hm == home(u, region), country2(u, oref(&hm), ext_split(u, b).0) == Ok::<Split, PErr>(x), x.nat.len() >= 2
    ensures ({ let y = national(u, plan_for(u, region, x.cc), x.nat); parse_core(u, text, region, check) == (if y.0.len() < 2 { Err::<Core, PErr>(PErr::FailedToParse(ParseError::TooShortNsn)) } else if y.0.len() > 17 { Err::<Core, PErr>(PErr::FailedToParse(ParseError::TooLongNsn)) }
        else { Ok::<Core, PErr>(Core { nat: y.0, cc: if x.cc != 0 { x.cc } else { match hm { Some(m) => m.s_country_code(), None => 0 } }, src: x.src, ext: ext_split(u, b).1, carrier: y.1 }) }) }),
{}
