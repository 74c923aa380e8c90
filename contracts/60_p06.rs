// P06: the shared layout of the standard formats
pub open spec fn national_text(u: &Util, p: &PhoneNumber, f: PhoneNumberFormat) -> Str { nat_part(u, &md_main(u, p.s_country_code()), nsn(p), f, Seq::empty()) }
pub open spec fn extension_text(u: &Util, p: &PhoneNumber, f: PhoneNumberFormat) -> Str { ext_text(p, &md_main(u, p.s_country_code()), f) }
pub proof fn p06_layout(u: &Util, p: &PhoneNumber) requires !raw_only(p)
    ensures cc_known(u, p.s_country_code()) ==> ({
          &&& formatted(u, p, PhoneNumberFormat::International) == "+"@ + int_digits(p.s_country_code() as int) + " "@ + (national_text(u, p, PhoneNumberFormat::International) + extension_text(u, p, PhoneNumberFormat::International))
          &&& formatted(u, p, PhoneNumberFormat::RFC3966) == "tel:"@ + "+"@ + int_digits(p.s_country_code() as int) + "-"@ + (national_text(u, p, PhoneNumberFormat::RFC3966) + extension_text(u, p, PhoneNumberFormat::RFC3966))
          &&& formatted(u, p, PhoneNumberFormat::National) == national_text(u, p, PhoneNumberFormat::National) + extension_text(u, p, PhoneNumberFormat::National) }),
        !cc_known(u, p.s_country_code()) ==> formatted(u, p, PhoneNumberFormat::International) == nsn(p) && formatted(u, p, PhoneNumberFormat::RFC3966) == nsn(p) && formatted(u, p, PhoneNumberFormat::National) == nsn(p) {}
