// P19: mobile dialing decision table
pub open spec fn p19_diallable_only(s: Str) -> bool { forall|i: int| 0 <= i < s.len() ==> is_diall(#[trigger] s[i]) }
pub proof fn lem_diall_all(u: &Util, s: Str) requires wf_re(u) ensures p19_diallable_only(diall(u, s)) decreases s.len()
{ reveal(maps_ok); if s.len() > 0 { lem_diall_all(u, s.drop_last()); } }
pub proof fn p19_unknown_code(u: &Util, p: &PhoneNumber, from: Str, f: bool) requires !cc_known(u, p.s_country_code()) ensures mobile_dial(u, p, from, f) == p.s_raw_input() {}
pub proof fn p19_extension_ignored(u: &Util, p: &PhoneNumber, from: Str, f: bool) ensures mobile_dial(u, p, from, f) == mobile_dial(u, &no_ext(p), from, f), !has_ext(&no_ext(p))
{ assert(no_ext(&no_ext(p)) == no_ext(p)); }
pub proof fn p19_no_formatting(u: &Util, p: &PhoneNumber, from: Str) requires wf(u), cc_known(u, p.s_country_code()), from == main_region(u, p.s_country_code()) || !raw_only(p)
    ensures p19_diallable_only(mobile_dial(u, p, from, false))
{ let cc = p.s_country_code(); let q = no_ext(p); lem_diall_all(u, mobile_own(u, &q));
  if from != main_region(u, cc) { lem_nsn_dig(&q); lem_dec_digits(cc as nat); reveal_strlit("+"); assert("+"@.len() == 1);
    let d = dec_digits(cc as nat); let t = "+"@ + d + nsn(&q);
    assert forall|i: int| 0 <= i < t.len() implies is_diall(#[trigger] t[i]) by { if i == 0 { assert(t[i] == "+"@[0]); } else if i <= d.len() { assert(t[i] == d[i - 1]); } else { assert(t[i] == nsn(&q)[i - 1 - d.len()]); } } } }
pub proof fn p19_abroad(u: &Util, p: &PhoneNumber, from: Str) requires cc_known(u, p.s_country_code()), from != main_region(u, p.s_country_code())
    ensures ({ let q = no_ext(p); let ok = type_for(u, &q) != PhoneNumberType::Unknown && can_dial(u, &q);
        &&& mobile_dial(u, p, from, true) == (if ok { formatted(u, &q, PhoneNumberFormat::International) } else { Seq::empty() })
        &&& mobile_dial(u, p, from, false) == (if ok { formatted(u, &q, PhoneNumberFormat::E164) } else { Seq::empty() }) }) {}
pub proof fn p19_brazil(u: &Util, p: &PhoneNumber) requires wf(u), cc_known(u, p.s_country_code()), main_region(u, p.s_country_code()) == "BR"@, flm(type_for(u, &no_ext(p)))
    ensures mobile_dial(u, p, "BR"@, true) == (if p.s_preferred_domestic_carrier_code().len() == 0 { Seq::empty() } else { carrier_form(u, &no_ext(p), p.s_preferred_domestic_carrier_code()) }) {}
pub proof fn p19_nanpa(u: &Util, p: &PhoneNumber) requires wf(u), p.s_country_code() == 1, main_region(u, 1) != "BR"@
    ensures ({ let q = no_ext(p); mobile_dial(u, p, main_region(u, 1), true) == formatted(u, &q, if can_dial(u, &q) && !too_short(u, &q) { PhoneNumberFormat::International } else { PhoneNumberFormat::National }) }) {}
pub proof fn p19_plain(u: &Util, p: &PhoneNumber) requires wf(u), cc_known(u, p.s_country_code()), p.s_country_code() != 1
    ensures ({ let q = no_ext(p); let rc = main_region(u, p.s_country_code()); let t = type_for(u, &q);
        &&& rc != "BR"@ && rc != "MX"@ && rc != "CL"@ && rc != "UZ"@ && rc != nongeo() ==> mobile_dial(u, p, rc, true) == formatted(u, &q, PhoneNumberFormat::National)
        &&& rc != "BR"@ && rc != nongeo() && !flm(t) ==> mobile_dial(u, p, rc, true) == formatted(u, &q, PhoneNumberFormat::National)
        &&& rc != "BR"@ && (rc == nongeo() || (flm(t) && (rc == "MX"@ || rc == "CL"@ || rc == "UZ"@))) ==> mobile_dial(u, p, rc, true) == formatted(u, &q, if can_dial(u, &q) { PhoneNumberFormat::International } else { PhoneNumberFormat::National }) }) {}
