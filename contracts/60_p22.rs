// P22: original-format output never alters the dialled digits
pub proof fn p22_same_digits(u: &Util, p: &PhoneNumber, from: Str, r: Str) requires original_ok(u, p, from, r), p.h_country_code_source(), p.s_raw_input().len() > 0, r.len() > 0
    ensures r == p.s_raw_input() || diall(u, r) == diall(u, p.s_raw_input()) {}
pub proof fn p22_no_rule(u: &Util, p: &PhoneNumber, from: Str, r: Str) requires original_ok(u, p, from, r), p.h_raw_input(), !has_rule(u, p) ensures r == p.s_raw_input() {}
pub proof fn p22_no_source(u: &Util, p: &PhoneNumber, from: Str, r: Str) requires original_ok(u, p, from, r), !p.h_country_code_source(), !p.h_raw_input() ensures r == formatted(u, p, PhoneNumberFormat::National) {}
pub proof fn p22_styles(u: &Util, p: &PhoneNumber, from: Str, r: Str) requires original_ok(u, p, from, r), p.h_country_code_source(), !(p.h_raw_input() && !has_rule(u, p)), r != p.s_raw_input()
    ensures match p.s_country_code_source() {
        CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN => r == formatted(u, p, PhoneNumberFormat::International),
        CountryCodeSource::FROM_NUMBER_WITH_IDD => r == oocc(u, p, from),
        CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => r == no_plus(formatted(u, p, PhoneNumberFormat::International)),
        _ => r == nat_choice(u, p) } {}
