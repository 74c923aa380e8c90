// P20: out-of-country decision table
pub proof fn p20_unknown_region(u: &Util, p: &PhoneNumber, from: Str) requires !rmap(u).dom().contains(from) ensures oocc(u, p, from) == formatted(u, p, PhoneNumberFormat::International) {}
pub proof fn p20_unknown_code(u: &Util, p: &PhoneNumber, from: Str) requires rmap(u).dom().contains(from), !cc_known(u, p.s_country_code()) ensures oocc(u, p, from) == nsn(p) {}
pub proof fn p20_nanpa(u: &Util, p: &PhoneNumber, from: Str) requires rmap(u).dom().contains(from), cc_known(u, 1), p.s_country_code() == 1, listed(u, 1, from)
    ensures oocc(u, p, from) == "1 "@ + formatted(u, p, PhoneNumberFormat::National)
{ reveal_strlit("1 "); reveal_strlit(" "); assert(int_digits(1) =~= seq!['1']); assert("1 "@ =~= int_digits(1) + " "@); }
pub proof fn p20_same_code(u: &Util, p: &PhoneNumber, from: Str) requires rmap(u).dom().contains(from), cc_known(u, p.s_country_code()), p.s_country_code() != 1, rmap(u)[from].s_country_code() == p.s_country_code()
    ensures oocc(u, p, from) == formatted(u, p, PhoneNumberFormat::National) {}
pub proof fn p20_abroad(u: &Util, p: &PhoneNumber, from: Str) requires wf(u), rmap(u).dom().contains(from), cc_known(u, p.s_country_code()), rmap(u)[from].s_country_code() != p.s_country_code()
    ensures ({ let m = rmap(u)[from]; let cc = p.s_country_code();
        let body = nat_part(u, &md_main(u, cc), nsn(p), PhoneNumberFormat::International, Seq::empty()) + ext_text(p, &md_main(u, cc), PhoneNumberFormat::International);
        let ip = if m.h_preferred_international_prefix() { m.s_preferred_international_prefix() } else if re_whole(single_pat(u), m.s_international_prefix()) { m.s_international_prefix() } else { Seq::empty() };
        oocc(u, p, from) == (if ip.len() > 0 { ip + " "@ + int_digits(cc as int) + " "@ + body } else { "+"@ + int_digits(cc as int) + " "@ + body }) })
{ if listed(u, 1, from) && p.s_country_code() == 1 { let i = choose|i: int| 0 <= i < regions(u, 1).len() && regions(u, 1)[i] == from; assert(md_has(u, 1, regions(u, 1)[i])); } }
