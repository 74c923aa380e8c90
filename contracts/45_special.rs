// ===== P19-P22, P25, P27 =====
pub open spec fn no_ext(p: &PhoneNumber) -> PhoneNumber { PhoneNumber { extension: None, ..*p } }
pub open spec fn flm(t: PhoneNumberType) -> bool { t == PhoneNumberType::FixedLine || t == PhoneNumberType::FixedLineOrMobile || t == PhoneNumberType::Mobile }
pub open spec fn diall(u: &Util, s: Str) -> Str { map_chars(u.reg_exps.diallable_char_mappings.m(), true, s) }
pub open spec fn too_short(u: &Util, p: &PhoneNumber) -> bool { possible_class(u, p, PhoneNumberType::Unknown) == Err::<NumberLengthType, ValidationError>(ValidationError::TooShort) }
pub open spec fn mobile_own(u: &Util, q: &PhoneNumber) -> Str {
    let cc = q.s_country_code(); let rc = main_region(u, cc); let t = type_for(u, q);
    if rc == "BR"@ && flm(t) { if q.s_preferred_domestic_carrier_code().len() > 0 { carrier_form(u, q, q.s_preferred_domestic_carrier_code()) } else { Seq::empty() } }
    else if cc == 1 { formatted(u, q, if can_dial(u, q) && !too_short(u, q) { PhoneNumberFormat::International } else { PhoneNumberFormat::National }) }
    else { formatted(u, q, if (rc == nongeo() || ((rc == "MX"@ || rc == "CL"@ || rc == "UZ"@) && flm(t))) && can_dial(u, q) { PhoneNumberFormat::International } else { PhoneNumberFormat::National }) } }
pub open spec fn mobile_dial(u: &Util, p: &PhoneNumber, from: Str, with_fmt: bool) -> Str {
    let cc = p.s_country_code(); let q = no_ext(p);
    if !cc_known(u, cc) { p.s_raw_input() }
    else if from == main_region(u, cc) { if with_fmt { mobile_own(u, &q) } else { diall(u, mobile_own(u, &q)) } }
    else if type_for(u, &q) != PhoneNumberType::Unknown && can_dial(u, &q) { formatted(u, &q, if with_fmt { PhoneNumberFormat::International } else { PhoneNumberFormat::E164 }) }
    else { Seq::empty() } }
pub open spec fn single_pat(u: &Util) -> Str { u.reg_exps.single_international_prefix.pat() }
pub open spec fn oocc_prefix(u: &Util, m: &PhoneMetadata) -> Str {
    if m.h_preferred_international_prefix() { m.s_preferred_international_prefix() } else if re_whole(single_pat(u), m.s_international_prefix()) { m.s_international_prefix() } else { Seq::empty() } }
pub open spec fn dialled(ip: Str, cc: i32, body: Str) -> Str { if ip.len() > 0 { ip + " "@ + int_digits(cc as int) + " "@ + body } else { with_code(cc, PhoneNumberFormat::International, body) } }
pub open spec fn intl_body(u: &Util, p: &PhoneNumber) -> Str {
    let m = md_main(u, p.s_country_code()); nat_part(u, &m, nsn(p), PhoneNumberFormat::International, Seq::empty()) + ext_text(p, &m, PhoneNumberFormat::International) }
pub open spec fn oocc(u: &Util, p: &PhoneNumber, from: Str) -> Str {
    let cc = p.s_country_code();
    if !rmap(u).dom().contains(from) { formatted(u, p, PhoneNumberFormat::International) }
    else if !cc_known(u, cc) { nsn(p) }
    else if cc == 1 && listed(u, 1, from) { int_digits(1) + " "@ + formatted(u, p, PhoneNumberFormat::National) }
    else if cc != 1 && cc == rmap(u)[from].s_country_code() { formatted(u, p, PhoneNumberFormat::National) }
    else { dialled(oocc_prefix(u, &rmap(u)[from]), cc, intl_body(u, p)) } }
// P27
pub open spec fn viable(u: &Util, s: Str) -> bool { bl(s) >= 2 && re_whole(u.reg_exps.valid_phone_number_pattern.pat(), s) }
pub open spec fn first_ne(cv: Seq<Option<(int, int)>>, i: int) -> Option<(int, int)> decreases cv.len() - i {
    if i < 0 || i >= cv.len() { None } else if cv[i] is Some && (cv[i]->0).0 < (cv[i]->0).1 { cv[i] } else { first_ne(cv, i + 1) } }
pub open spec fn ext_pat(u: &Util) -> Str { u.reg_exps.extn_pattern.pat() }
pub open spec fn ext_split(u: &Util, t: Str) -> (Str, Option<Str>) {
    match re_find(ext_pat(u), t) { None => (t, None), Some((a, b)) => match first_ne(re_caps(ext_pat(u), t), 1) {
        Some((x, y)) => if viable(u, t.subrange(0, a)) { (t.subrange(0, a), Some(t.subrange(x, y))) } else { (t, None) },
        None => (t, None) } } }
pub open spec fn first_nem(ms: Seq<Match>) -> Option<Match> decreases ms.len() { if ms.len() == 0 { None } else if ms[0].sa() != ms[0].sb() { Some(ms[0]) } else { first_nem(ms.subrange(1, ms.len() as int)) } }
pub proof fn lem_flat_caps(s: Str, ms: Seq<Option<Match>>, cv: Seq<Option<(int, int)>>, i: int)
    requires 0 <= i, ms.len() == (if i <= cv.len() { cv.len() - i } else { 0 }),
        forall|j: int| 0 <= j < ms.len() ==> match #[trigger] ms[j] { Some(m) => cv[i + j] is Some && m.mok(s, cv[i + j]->0), None => cv[i + j] is None }
    ensures forall|j: int| 0 <= j < flat(ms).len() ==> (#[trigger] flat(ms)[j]).inv() && flat(ms)[j].h@ == s,
        match first_ne(cv, i) { Some((x, y)) => first_nem(flat(ms)) is Some && (first_nem(flat(ms))->0).mok(s, (x, y)), None => first_nem(flat(ms)) is None }
    decreases ms.len()
{
    broadcast use gstr;
    if ms.len() > 0 {
        let r = ms.subrange(1, ms.len() as int);
        assert forall|j: int| 0 <= j < r.len() implies match #[trigger] r[j] { Some(m) => cv[i + 1 + j] is Some && m.mok(s, cv[i + 1 + j]->0), None => cv[i + 1 + j] is None } by { assert(r[j] == ms[j + 1]); }
        lem_flat_caps(s, r, cv, i + 1);
        match ms[0] { Some(m) => { assert(m.mok(s, cv[i + 0]->0)); assert(m.sa() == (cv[i]->0).0 && m.sb() == (cv[i]->0).1);
                assert(flat(ms) =~= seq![m] + flat(r)); assert(flat(ms).subrange(1, flat(ms).len() as int) =~= flat(r)); },
            None => { assert(cv[i + 0] is None); } }
    }
}
pub broadcast proof fn lem_caps_flat(s: Str, cv: Seq<Option<(int, int)>>, o: Seq<Option<Match>>) requires #[trigger] caps_of(s, cv, o), o.len() >= 1
    ensures ({ let f = flat(o.subrange(1, o.len() as int));
        &&& forall|j: int| 0 <= j < f.len() ==> (#[trigger] f[j]).inv() && f[j].h@ == s
        &&& match first_ne(cv, 1) { Some((x, y)) => first_nem(f) is Some && (first_nem(f)->0).mok(s, (x, y)), None => first_nem(f) is None } })
{ let r = o.subrange(1, o.len() as int);
  assert forall|j: int| 0 <= j < r.len() implies match #[trigger] r[j] { Some(m) => cv[1 + j] is Some && m.mok(s, cv[1 + j]->0), None => cv[1 + j] is None } by { assert(r[j] == o[1 + j]); }
  lem_flat_caps(s, r, cv, 1); }
// P21
pub open spec fn grouping(u: &Util) -> Map<char, char> { u.reg_exps.all_plus_number_grouping_symbols.m() }
pub open spec fn kept_text(u: &Util, p: &PhoneNumber) -> Str {
    let n = map_chars(grouping(u), true, p.s_raw_input());
    if nsn(p).len() > 3 { match str_find(n, nsn(p).subrange(0, 3)) { Some(k) => n.subrange(k, n.len() as int), None => n } } else { n } }
pub open spec fn keep_prefix(u: &Util, from: Str) -> Str {
    if !rmap(u).dom().contains(from) { Seq::empty() } else { let m = rmap(u)[from]; if re_whole(single_pat(u), m.s_international_prefix()) { m.s_international_prefix() } else { m.s_preferred_international_prefix() } } }
pub open spec fn keep_alpha(u: &Util, p: &PhoneNumber, from: Str) -> Str {
    let cc = p.s_country_code(); let k = kept_text(u, p);
    if p.s_raw_input().len() == 0 { oocc(u, p, from) }
    else if !cc_known(u, cc) { p.s_raw_input() }
    else if cc == 1 && listed(u, 1, from) { int_digits(1) + " "@ + k }
    else if cc != 1 && rmap(u).dom().contains(from) && rmap(u)[from].s_country_code() == cc {
        match first_fmt(rmap(u)[from].number_format@, nsn(p), 0) { None => k,
            Some(f) => laid_with(u, k, "(\\d+)(.*)"@, "$1$2"@, f.s_national_prefix_formatting_rule(), f.s_domestic_carrier_code_formatting_rule(), PhoneNumberFormat::National, Seq::empty()) } }
    else { ext_split(u, dialled(keep_prefix(u, from), cc, k)).0 + ext_text(p, &md_main(u, cc), PhoneNumberFormat::International) } }
// P22
pub open spec fn has_rule(u: &Util, p: &PhoneNumber) -> bool { cc_known(u, p.s_country_code()) && first_fmt(md_main(u, p.s_country_code()).number_format@, nsn(p), 0) is Some }
pub open spec fn unless_altered(u: &Util, p: &PhoneNumber, t: Str) -> Str { if t.len() > 0 && p.s_raw_input().len() > 0 && diall(u, t) != diall(u, p.s_raw_input()) { p.s_raw_input() } else { t } }
pub open spec fn no_plus(t: Str) -> Str { if is_pre("+"@, t) { t.subrange(1, t.len() as int) } else { t } }
pub open spec fn bare_rule(f: &NumberFormat) -> NumberFormat { NumberFormat { national_prefix_formatting_rule: None, ..*f } }
// the number has been typed with its national prefix: the raw digits start with it and the rest reads as a valid number of the region
pub open spec fn reads_as(u: &Util, t: Str, region: Str, q: &PhoneNumber) -> bool { parse_core(u, t, region, true) is Ok && num_of(parse_core(u, t, region, true)->Ok_0, t, false, q) }
pub open spec fn raw_np(u: &Util, raw: Str, np: Str, region: Str) -> bool {
    let d = digits_only(raw); is_pre(np, d) && exists|q: PhoneNumber| #[trigger] reads_as(u, d.subrange(np.len() as int, d.len() as int), region, &q) && valid(u, &q) }
pub proof fn lem_reads_one(u: &Util, t: Str, region: Str, a: &PhoneNumber, b: &PhoneNumber) requires reads_as(u, t, region, a), reads_as(u, t, region, b) ensures valid(u, a) == valid(u, b)
{ assert(nsn(a) == nsn(b)); assert(a.s_country_code() == b.s_country_code()); }
pub open spec fn rule_adds_np(f: &NumberFormat) -> bool {
    let rule = f.s_national_prefix_formatting_rule();
    rule.len() > 0 && match str_find(rule, "$1"@) { Some(k) => digits_only(rule.subrange(0, k)).len() > 0, None => false } }
pub open spec fn nat_choice(u: &Util, p: &PhoneNumber) -> Str {
    let cc = p.s_country_code(); let rc = main_region(u, cc);
    if rmap(u).dom().contains(rc) && !raw_np(u, p.s_raw_input(), repl_all(rmap(u)[rc].s_national_prefix(), "~"@, ""@), rc)
        && first_fmt(rmap(u)[rc].number_format@, nsn(p), 0) is Some && rule_adds_np(&(first_fmt(rmap(u)[rc].number_format@, nsn(p), 0)->0))
    { by_pattern(u, p, PhoneNumberFormat::National, seq![bare_rule(&(first_fmt(rmap(u)[rc].number_format@, nsn(p), 0)->0))]) }
    else { formatted(u, p, PhoneNumberFormat::National) } }
pub open spec fn original_ok(u: &Util, p: &PhoneNumber, from: Str, r: Str) -> bool {
    if p.h_raw_input() && !has_rule(u, p) { r == p.s_raw_input() }
    else if !p.h_country_code_source() { r == formatted(u, p, PhoneNumberFormat::National) }
    else { match p.s_country_code_source() {
        CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => r == unless_altered(u, p, formatted(u, p, PhoneNumberFormat::International)),
        CountryCodeSource::FROM_NUMBER_WITH_IDD => r == unless_altered(u, p, oocc(u, p, from)),
        CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => r == unless_altered(u, p, no_plus(formatted(u, p, PhoneNumberFormat::International))),
        _ => r == unless_altered(u, p, nat_choice(u, p)) } } }
// P25
pub open spec fn geo_type(u: &Util, t: PhoneNumberType, cc: i32) -> bool { t == PhoneNumberType::FixedLine || t == PhoneNumberType::FixedLineOrMobile || (t == PhoneNumberType::Mobile && u.reg_exps.geo_mobile_countries.st().contains(cc)) }
pub open spec fn grp_len(s: Str, g: Seq<Option<(int, int)>>) -> Option<int> { if g.len() > 1 && g[1] is Some { Some(bl(s.subrange((g[1]->0).0, (g[1]->0).1)) as int) } else { None } }
pub open spec fn ndc_len(u: &Util, p: &PhoneNumber) -> int {
    let s = formatted(u, &no_ext(p), PhoneNumberFormat::International);
    let g = re_caps_iter(u.reg_exps.capturing_ascii_digits_pattern.pat(), s);
    let tok = u.reg_exps.mobile_token_mappings.m();
    if g.len() < 3 || grp_len(s, g[0]) is None || grp_len(s, g[1]) is None || grp_len(s, g[2]) is None { 0 }
    else if type_for(u, p) == PhoneNumberType::Mobile && tok.dom().contains(p.s_country_code()) { grp_len(s, g[2])->0 + clen(tok[p.s_country_code()]) }
    else { grp_len(s, g[1])->0 } }
pub open spec fn area_len(u: &Util, p: &PhoneNumber) -> int {
    let cc = p.s_country_code(); let rc = region_for(u, p); let t = type_for(u, p);
    if !rmap(u).dom().contains(rc) { 0 }
    else if !rmap(u)[rc].h_national_prefix() && !p.s_italian_leading_zero() && !u.reg_exps.countries_without_national_prefix_with_area_codes.st().contains(cc) { 0 }
    else if t == PhoneNumberType::Mobile && u.reg_exps.geo_mobile_countries_without_mobile_area_codes.st().contains(cc) { 0 }
    else if !geo_type(u, t, cc) { 0 }
    else { ndc_len(u, p) } }
