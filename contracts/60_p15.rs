// P15: symmetry, reflexivity, independence of the non-core fields
pub proof fn p15_symmetric(a: &PhoneNumber, b: &PhoneNumber) ensures match_of(a, b) == match_of(b, a) {}
pub proof fn p15_reflexive(a: &PhoneNumber) ensures a.s_country_code() != 0 ==> match_of(a, a) == MatchType::ExactMatch, a.s_country_code() == 0 ==> match_of(a, a) == MatchType::NsnMatch {}
pub proof fn p15_exact(a: &PhoneNumber, b: &PhoneNumber)
    ensures match_of(a, b) == MatchType::ExactMatch <==> a.s_country_code() != 0 && a.s_country_code() == b.s_country_code() && same_national(a, b),
        a.s_extension().len() > 0 && b.s_extension().len() > 0 && a.s_extension() != b.s_extension() ==> match_of(a, b) == MatchType::NoMatch,
        a.s_country_code() != 0 && b.s_country_code() != 0 && a.s_country_code() != b.s_country_code() ==> match_of(a, b) == MatchType::NoMatch {}
pub proof fn p15_ignores(a: &PhoneNumber, a2: &PhoneNumber, b: &PhoneNumber)
    requires a.country_code == a2.country_code, a.national_number == a2.national_number, a.extension == a2.extension, a.italian_leading_zero == a2.italian_leading_zero, a.number_of_leading_zeros == a2.number_of_leading_zeros
    ensures match_of(a, b) == match_of(a2, b), match_of(b, a) == match_of(b, a2) {}
