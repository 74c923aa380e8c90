// P05: E.164 is '+', the decimal code, the national significant number: digits only, no extension; raw input only for the unparsed zero number
pub proof fn p05_e164(u: &Util, p: &PhoneNumber) requires !raw_only(p)
    ensures formatted(u, p, PhoneNumberFormat::E164) == "+"@ + int_digits(p.s_country_code() as int) + nsn(p),
        p.s_country_code() >= 0 ==> all_dig(formatted(u, p, PhoneNumberFormat::E164).subrange(1, formatted(u, p, PhoneNumberFormat::E164).len() as int))
{ reveal_strlit("+"); lem_nsn_dig(p); let cc = p.s_country_code();
  if cc >= 0 { lem_dec_digits(cc as nat); let t = formatted(u, p, PhoneNumberFormat::E164); let d = dec_digits(cc as nat);
    assert("+"@.len() == 1);
    let r = t.subrange(1, t.len() as int);
    assert forall|i: int| 0 <= i < r.len() implies is_dig(#[trigger] r[i]) by { if i < d.len() { assert(r[i] == d[i]); } else { assert(r[i] == nsn(p)[i - d.len()]); } } } }
pub proof fn p05_no_extension(u: &Util, p: &PhoneNumber, q: &PhoneNumber) requires q == (PhoneNumber { extension: q.extension, ..*p })
    ensures formatted(u, p, PhoneNumberFormat::E164) == formatted(u, q, PhoneNumberFormat::E164) {}
pub proof fn p05_raw(u: &Util, p: &PhoneNumber, f: PhoneNumberFormat) requires p.s_national_number() == 0, p.s_raw_input().len() > 0 ensures formatted(u, p, f) == p.s_raw_input() {}
