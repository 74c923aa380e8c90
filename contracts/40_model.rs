// ===== specification vocabulary: numbers, plans, code tables =====
pub type Util = PhoneNumberUtilInternal;
pub type Str = Seq<char>;
// ---- numbers ----
pub open spec fn zeros(p: &PhoneNumber) -> nat { if p.s_italian_leading_zero() && p.s_number_of_leading_zeros() >= 0 { p.s_number_of_leading_zeros() as nat } else { 0 } }
pub open spec fn nsn(p: &PhoneNumber) -> Str { reps('0', zeros(p)) + dec_digits(p.s_national_number() as nat) }
pub open spec fn ilen(s: Str) -> i32 { (bl(s) as usize) as i32 }
// ---- code table ----
pub open spec fn tab(u: &Util) -> Seq<(i32, Vec<String>)> { u.country_calling_code_to_region_code_map@ }
pub open spec fn cc_at(u: &Util, cc: i32, i: int) -> bool { 0 <= i < tab(u).len() && tab(u)[i].0 == cc }
pub open spec fn cc_known(u: &Util, cc: i32) -> bool { exists|i: int| #[trigger] cc_at(u, cc, i) }
pub open spec fn cc_idx(u: &Util, cc: i32) -> int { choose|i: int| #[trigger] cc_at(u, cc, i) }
pub open spec fn strs(v: Seq<String>) -> Seq<Str> { Seq::new(v.len(), |i: int| v[i]@) }
pub open spec fn regions(u: &Util, cc: i32) -> Seq<Str> { strs(tab(u)[cc_idx(u, cc)].1@) }
pub open spec fn zz() -> Str { "ZZ"@ }
pub open spec fn nongeo() -> Str { "001"@ }
pub open spec fn main_region(u: &Util, cc: i32) -> Str { if cc_known(u, cc) { regions(u, cc)[0] } else { zz() } }
// ---- plans ----
pub open spec fn rmap(u: &Util) -> Map<Str, PhoneMetadata> { u.region_to_metadata_map.m() }
pub open spec fn ngmap(u: &Util) -> Map<i32, PhoneMetadata> { u.country_code_to_non_geographical_metadata_map.m() }
pub open spec fn md_has(u: &Util, cc: i32, rc: Str) -> bool { if rc == nongeo() { ngmap(u).dom().contains(cc) } else { rmap(u).dom().contains(rc) } }
pub open spec fn md_get(u: &Util, cc: i32, rc: Str) -> PhoneMetadata { if rc == nongeo() { ngmap(u)[cc] } else { rmap(u)[rc] } }
pub open spec fn re_opt_ok(p: Str) -> bool { p.len() == 0 || re_ok(p) }
pub open spec fn desc_ok(d: &PhoneNumberDesc) -> bool {
    &&& re_opt_ok(d.s_national_number_pattern())
    &&& sorted_i32(d.possible_length@)
    &&& sorted_i32(d.possible_length_local_only@)
    &&& forall|i: int| 0 <= i < d.possible_length@.len() ==> #[trigger] d.possible_length@[i] >= -1
    &&& all_ascii(d.s_example_number())
}
pub open spec fn fmt_ok(f: &NumberFormat) -> bool {
    &&& re_ok(f.s_pattern())
    &&& forall|s: Str| #[trigger] re_full(f.s_pattern(), s) ==> re_whole(f.s_pattern(), s)
    &&& forall|i: int| 0 <= i < f.leading_digits_pattern@.len() ==> re_ok((#[trigger] f.leading_digits_pattern@[i])@)
}
pub open spec fn fmts_ok(v: Seq<NumberFormat>) -> bool { forall|i: int| 0 <= i < v.len() ==> fmt_ok(#[trigger] &v[i]) }
pub open spec fn md_ok(m: &PhoneMetadata) -> bool {
    &&& desc_ok(&m.general_desc) && desc_ok(&m.fixed_line) && desc_ok(&m.mobile) && desc_ok(&m.toll_free) && desc_ok(&m.premium_rate)
    &&& desc_ok(&m.shared_cost) && desc_ok(&m.personal_number) && desc_ok(&m.voip) && desc_ok(&m.pager) && desc_ok(&m.uan)
    &&& desc_ok(&m.voicemail) && desc_ok(&m.no_international_dialling)
    &&& m.general_desc.possible_length@.len() > 0
    &&& re_ok(m.s_leading_digits()) && re_ok(m.s_international_prefix()) && re_ok(m.s_national_prefix_for_parsing())
    &&& forall|s: Str| all_dig(s) ==> all_dig(#[trigger] re_replace(m.s_national_prefix_for_parsing(), s, m.s_national_prefix_transform_rule()))
    &&& fmts_ok(m.number_format@) && fmts_ok(m.intl_number_format@)
}
// ---- the state every constructed PhoneNumberUtil is in (established by new_for_metadata from the bundled metadata) ----
pub open spec fn listed(u: &Util, cc: i32, rc: Str) -> bool { cc_known(u, cc) && regions(u, cc).contains(rc) }
pub open spec fn wf_tab(u: &Util) -> bool {
    &&& sorted0(tab(u))
    &&& forall|i: int| 0 <= i < tab(u).len() ==> (#[trigger] tab(u)[i]).1@.len() > 0
    &&& forall|cc: i32, i: int| cc_known(u, cc) && 0 <= i < regions(u, cc).len() ==> md_has(u, cc, #[trigger] regions(u, cc)[i]) && md_get(u, cc, regions(u, cc)[i]).s_country_code() == cc
    &&& forall|cc: i32| #[trigger] cc_known(u, cc) ==> 0 < cc < 1000
    &&& forall|cc: i32, i: int, j: int| cc_known(u, cc) && 0 <= i < j < regions(u, cc).len() ==> #[trigger] regions(u, cc)[i] != #[trigger] regions(u, cc)[j]
    &&& forall|cc: i32| cc_known(u, cc) && (#[trigger] regions(u, cc)).len() > 1 ==> !regions(u, cc).contains(nongeo())
    &&& forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) ==> rc != zz() && rc != nongeo() && listed(u, rmap(u)[rc].s_country_code(), rc)
    &&& forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) && rmap(u)[rc].s_main_country_for_code() ==> regions(u, rmap(u)[rc].s_country_code())[0] == rc
    &&& forall|cc: i32| #[trigger] ngmap(u).dom().contains(cc) ==> cc_known(u, cc) && regions(u, cc) == seq![nongeo()] && ngmap(u)[cc].s_country_code() == cc
    &&& forall|rc: Str| #[trigger] u.nanpa_regions.st().contains(rc) <==> listed(u, 1, rc)
    &&& cc_known(u, 1) && !regions(u, 1).contains(nongeo())
    &&& prefix_free(u)
    &&& lens_main(u)
}
// every general length of a plan is a general length of the main plan of its code; none is the marker of non-existence
#[verifier::opaque]
pub open spec fn lens_main(u: &Util) -> bool { forall|cc: i32, i: int| cc_known(u, cc) && 0 <= i < regions(u, cc).len() ==> lens_in(&md_get(u, cc, #[trigger] regions(u, cc)[i]), &md_get(u, cc, main_region(u, cc))) }
pub open spec fn lens_in(a: &PhoneMetadata, b: &PhoneMetadata) -> bool { forall|n: i32| #[trigger] a.general_desc.possible_length@.contains(n) ==> n >= 0 && (b.general_desc.possible_length@.contains(n) || b.general_desc.possible_length_local_only@.contains(n)) && !b.general_desc.possible_length@.contains(-1i32) }
// no calling code is the beginning of another one
#[verifier::opaque]
pub open spec fn prefix_free(u: &Util) -> bool { forall|a: i32, b: i32| #[trigger] cc_known(u, a) && #[trigger] cc_known(u, b) ==> a != b / 10 && a != b / 100 }
pub open spec fn wf_md(u: &Util) -> bool {
    &&& forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) ==> md_ok(&rmap(u)[rc])
    &&& forall|cc: i32| #[trigger] ngmap(u).dom().contains(cc) ==> md_ok(&ngmap(u)[cc])
}
pub open spec fn wf(u: &Util) -> bool { wf_tab(u) && wf_md(u) && wf_re(u) }
pub proof fn lem_cc_uniq(u: &Util, cc: i32, i: int) requires wf_tab(u), cc_at(u, cc, i) ensures cc_known(u, cc), cc_idx(u, cc) == i
{ let j = cc_idx(u, cc); assert(cc_at(u, cc, j)); if i < j { assert(tab(u)[i].0 < tab(u)[j].0); } else if j < i { assert(tab(u)[j].0 < tab(u)[i].0); } }
// ---- matching and types (P10, P12) ----
pub open spec fn desc_match(s: Str, d: &PhoneNumberDesc) -> bool { d.s_national_number_pattern().len() > 0 && re_full(d.s_national_number_pattern(), s) }
pub open spec fn num_matches(s: Str, d: &PhoneNumberDesc) -> bool { (d.possible_length@.len() == 0 || d.possible_length@.contains(ilen(s))) && desc_match(s, d) }
pub open spec fn type_in(s: Str, m: &PhoneMetadata) -> PhoneNumberType {
    if !num_matches(s, &m.general_desc) { PhoneNumberType::Unknown }
    else if num_matches(s, &m.premium_rate) { PhoneNumberType::PremiumRate }
    else if num_matches(s, &m.toll_free) { PhoneNumberType::TollFree }
    else if num_matches(s, &m.shared_cost) { PhoneNumberType::SharedCost }
    else if num_matches(s, &m.voip) { PhoneNumberType::VoIP }
    else if num_matches(s, &m.personal_number) { PhoneNumberType::PersonalNumber }
    else if num_matches(s, &m.pager) { PhoneNumberType::Pager }
    else if num_matches(s, &m.uan) { PhoneNumberType::UAN }
    else if num_matches(s, &m.voicemail) { PhoneNumberType::VoiceMail }
    else if num_matches(s, &m.fixed_line) { if m.s_same_mobile_and_fixed_line_pattern() || num_matches(s, &m.mobile) { PhoneNumberType::FixedLineOrMobile } else { PhoneNumberType::FixedLine } }
    else if num_matches(s, &m.mobile) && !m.s_same_mobile_and_fixed_line_pattern() { PhoneNumberType::Mobile }
    else { PhoneNumberType::Unknown }
}
// ---- region of a number (P14) ----
pub open spec fn claims(u: &Util, s: Str, rc: Str) -> bool {
    rmap(u).dom().contains(rc) && ((rmap(u)[rc].h_leading_digits() && re_start(rmap(u)[rc].s_leading_digits(), s)) || type_in(s, &rmap(u)[rc]) != PhoneNumberType::Unknown) }
pub open spec fn first_claim(u: &Util, s: Str, rcs: Seq<Str>, i: int) -> Option<Str> decreases rcs.len() - i {
    if i < 0 || i >= rcs.len() { None } else if claims(u, s, rcs[i]) { Some(rcs[i]) } else { first_claim(u, s, rcs, i + 1) } }
pub open spec fn region_for(u: &Util, p: &PhoneNumber) -> Str {
    let cc = p.s_country_code();
    if !cc_known(u, cc) { zz() } else if regions(u, cc).len() == 1 { regions(u, cc)[0] }
    else { match first_claim(u, nsn(p), regions(u, cc), 0) { Some(r) => r, None => zz() } } }
pub open spec fn type_for(u: &Util, p: &PhoneNumber) -> PhoneNumberType {
    let rc = region_for(u, p); if md_has(u, p.s_country_code(), rc) { type_in(nsn(p), &md_get(u, p.s_country_code(), rc)) } else { PhoneNumberType::Unknown } }
pub open spec fn valid_in(u: &Util, p: &PhoneNumber, rc: Str) -> bool {
    let cc = p.s_country_code();
    md_has(u, cc, rc) && md_get(u, cc, rc).s_country_code() == cc && type_in(nsn(p), &md_get(u, cc, rc)) != PhoneNumberType::Unknown }
pub open spec fn valid(u: &Util, p: &PhoneNumber) -> bool { valid_in(u, p, region_for(u, p)) }
pub open spec fn can_dial(u: &Util, p: &PhoneNumber) -> bool {
    let rc = region_for(u, p); !rmap(u).dom().contains(rc) || !num_matches(nsn(p), &rmap(u)[rc].no_international_dialling) }
pub open spec fn views(v: Seq<&str>) -> Seq<Str> { Seq::new(v.len(), |i: int| v[i]@) }
