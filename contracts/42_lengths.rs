// ===== P09: classification by length =====
pub open spec fn desc_of(m: &PhoneMetadata, t: PhoneNumberType) -> PhoneNumberDesc {
    match t {
        PhoneNumberType::PremiumRate => m.premium_rate, PhoneNumberType::TollFree => m.toll_free, PhoneNumberType::Mobile => m.mobile,
        PhoneNumberType::FixedLine => m.fixed_line, PhoneNumberType::FixedLineOrMobile => m.fixed_line, PhoneNumberType::SharedCost => m.shared_cost,
        PhoneNumberType::VoIP => m.voip, PhoneNumberType::PersonalNumber => m.personal_number, PhoneNumberType::Pager => m.pager,
        PhoneNumberType::UAN => m.uan, PhoneNumberType::VoiceMail => m.voicemail, PhoneNumberType::Unknown => m.general_desc } }
// lengths of a type, inherited from the general description when it has none of its own
pub open spec fn own_lens(m: &PhoneMetadata, t: PhoneNumberType) -> Seq<i32> { let d = desc_of(m, t); if d.possible_length@.len() == 0 { m.general_desc.possible_length@ } else { d.possible_length@ } }
pub open spec fn nonexistent(d: &PhoneNumberDesc) -> bool { d.possible_length@.len() == 1 && d.possible_length@[0] == -1 }
pub open spec fn declared(m: &PhoneMetadata, t: PhoneNumberType, n: i32) -> bool {
    if t != PhoneNumberType::FixedLineOrMobile { own_lens(m, t).contains(n) }
    else if nonexistent(&m.fixed_line) { own_lens(m, PhoneNumberType::Mobile).contains(n) }
    else if nonexistent(&m.mobile) { own_lens(m, PhoneNumberType::FixedLine).contains(n) }
    else { own_lens(m, PhoneNumberType::FixedLine).contains(n) || own_lens(m, PhoneNumberType::Mobile).contains(n) } }
pub open spec fn declared_local(m: &PhoneMetadata, t: PhoneNumberType, n: i32) -> bool {
    if t != PhoneNumberType::FixedLineOrMobile { desc_of(m, t).possible_length_local_only@.contains(n) }
    else if nonexistent(&m.fixed_line) { m.mobile.possible_length_local_only@.contains(n) }
    else if nonexistent(&m.mobile) { m.fixed_line.possible_length_local_only@.contains(n) }
    else { m.fixed_line.possible_length_local_only@.contains(n) || m.mobile.possible_length_local_only@.contains(n) } }
pub open spec fn below_all(m: &PhoneMetadata, t: PhoneNumberType, n: i32) -> bool { forall|k: i32| #[trigger] declared(m, t, k) ==> n < k }
pub open spec fn above_all(m: &PhoneMetadata, t: PhoneNumberType, n: i32) -> bool { forall|k: i32| #[trigger] declared(m, t, k) ==> k < n }
pub open spec fn len_class(n: i32, m: &PhoneMetadata, t: PhoneNumberType) -> Result<NumberLengthType, ValidationError> {
    if declared(m, t, -1i32) { Err(ValidationError::InvalidLength) }
    else if declared_local(m, t, n) { Ok(NumberLengthType::IsPossibleLocalOnly) }
    else if declared(m, t, n) { Ok(NumberLengthType::IsPossible) }
    else if below_all(m, t, n) { Err(ValidationError::TooShort) }
    else if above_all(m, t, n) { Err(ValidationError::TooLong) }
    else { Err(ValidationError::InvalidLength) } }
pub open spec fn possible_class(u: &Util, p: &PhoneNumber, t: PhoneNumberType) -> Result<NumberLengthType, ValidationError> {
    let cc = p.s_country_code();
    if !cc_known(u, cc) { Err(ValidationError::InvalidCountryCode) } else { len_class(ilen(nsn(p)), &md_get(u, cc, main_region(u, cc)), t) } }
// ===== P16 =====
pub open spec fn with_nat(p: &PhoneNumber, n: u64) -> PhoneNumber { PhoneNumber { national_number: Some(n), ..*p } }
pub open spec fn trunc_stop(u: &Util, p: &PhoneNumber, n: u64) -> bool { possible_class(u, &with_nat(p, n), PhoneNumberType::Unknown) == Err::<NumberLengthType, ValidationError>(ValidationError::TooShort) || n == 0 }
pub open spec fn trunc_from(u: &Util, p: &PhoneNumber, n: u64) -> Option<u64> decreases n {
    let m = (n / 10) as u64;
    if n == 0 || trunc_stop(u, p, m) { None } else if valid(u, &with_nat(p, m)) { Some(m) } else { trunc_from(u, p, m) } }
// ===== P15 =====
pub open spec fn same_zeros(a: &PhoneNumber, b: &PhoneNumber) -> bool { a.s_italian_leading_zero() == b.s_italian_leading_zero() && (a.s_italian_leading_zero() ==> a.s_number_of_leading_zeros() == b.s_number_of_leading_zeros()) }
pub open spec fn same_national(a: &PhoneNumber, b: &PhoneNumber) -> bool { a.s_national_number() == b.s_national_number() && same_zeros(a, b) && a.s_extension() == b.s_extension() }
pub open spec fn dec_suffix(a: &PhoneNumber, b: &PhoneNumber) -> bool { is_suf(dec_digits(a.s_national_number() as nat), dec_digits(b.s_national_number() as nat)) }
pub open spec fn match_of(a: &PhoneNumber, b: &PhoneNumber) -> MatchType {
    if a.h_extension() && b.h_extension() && a.s_extension() != b.s_extension() { MatchType::NoMatch }
    else if a.s_country_code() != 0 && b.s_country_code() != 0 {
        if a.s_country_code() == b.s_country_code() && same_national(a, b) { MatchType::ExactMatch }
        else if a.s_country_code() == b.s_country_code() && (dec_suffix(a, b) || dec_suffix(b, a)) { MatchType::ShortNsnMatch }
        else { MatchType::NoMatch } }
    else if same_national(a, b) { MatchType::NsnMatch }
    else if dec_suffix(a, b) || dec_suffix(b, a) { MatchType::ShortNsnMatch }
    else { MatchType::NoMatch } }
// country code prefix of the formats (P05, P06)
pub open spec fn with_code(cc: i32, f: PhoneNumberFormat, s: Str) -> Str { match f {
    PhoneNumberFormat::E164 => "+"@ + int_digits(cc as int) + s,
    PhoneNumberFormat::International => "+"@ + int_digits(cc as int) + " "@ + s,
    PhoneNumberFormat::RFC3966 => "tel:"@ + "+"@ + int_digits(cc as int) + "-"@ + s,
    PhoneNumberFormat::National => s } }
// P17
pub open spec fn mapped(m: Map<char, char>, drop: bool, c: char) -> Str { if m.dom().contains(upc(c)) { seq![m[upc(c)]] } else if drop { Seq::empty() } else { seq![c] } }
pub open spec fn map_chars(m: Map<char, char>, drop: bool, s: Str) -> Str decreases s.len() { if s.len() == 0 { s } else { map_chars(m, drop, s.drop_last()) + mapped(m, drop, s.last()) } }
pub proof fn lem_len_class(pl: Seq<i32>, n: i32, m: &PhoneMetadata, t: PhoneNumberType)
    requires sorted_i32(pl), pl.len() > 0, forall|x: i32| pl.contains(x) <==> #[trigger] declared(m, t, x), forall|i: int| 0 <= i < pl.len() ==> #[trigger] pl[i] >= -1
    ensures pl[0] == -1 <==> declared(m, t, -1i32),
        n < pl[0] ==> below_all(m, t, n) && !declared(m, t, n),
        pl[pl.len() - 1] < n ==> above_all(m, t, n) && !declared(m, t, n) && !below_all(m, t, n),
        pl[0] <= n ==> !below_all(m, t, n), n <= pl[pl.len() - 1] ==> !above_all(m, t, n),
        n == pl[0] ==> declared(m, t, n),
        pl.subrange(1, pl.len() as int).contains(n) || pl[0] == n <==> declared(m, t, n),
{
    broadcast use gvec;
    assert(declared(m, t, pl[0])); assert(declared(m, t, pl[pl.len() - 1]));
    assert forall|k: i32| #[trigger] declared(m, t, k) implies pl[0] <= k <= pl[pl.len() - 1] by { assert(pl.contains(k)); let i = pl.index_of(k); assert(pl[i] == k); }
    assert(pl.subrange(1, pl.len() as int).contains(n) || pl[0] == n <==> pl.contains(n));
}
