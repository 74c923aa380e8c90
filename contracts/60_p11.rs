// P11: validity is having a known type; a valid number has a supported country code
pub proof fn p11_valid_iff_known_type(u: &Util, p: &PhoneNumber) requires wf(u)
    ensures valid(u, p) <==> type_for(u, p) != PhoneNumberType::Unknown,
        valid(u, p) ==> cc_known(u, p.s_country_code()) && possible_class(u, p, PhoneNumberType::Unknown) != Err::<NumberLengthType, ValidationError>(ValidationError::InvalidCountryCode)
{
    lem_zz();
    let cc = p.s_country_code(); let rc = region_for(u, p);
    if cc_known(u, cc) { lem_first_claim(u, nsn(p), regions(u, cc), 0); }
}
