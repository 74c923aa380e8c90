// P23: the carrier code is inserted once, where the rule's $CC stands; otherwise the ordinary national form
pub open spec fn no_dollar(c: Str) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] != '$' }
pub open spec fn put_at(s: Str, tok: Str, c: Str) -> Str { match str_find(s, tok) { Some(k) => s.subrange(0, k) + c + s.subrange(k + tok.len(), s.len() as int), None => s } }
pub open spec fn ordinary(u: &Util, p: &PhoneNumber) -> Str { carrier_form(u, p, Seq::empty()) }
pub proof fn p23_ordinary_is_national(u: &Util, p: &PhoneNumber) requires !raw_only(p) ensures ordinary(u, p) == formatted(u, p, PhoneNumberFormat::National) {}
pub proof fn p23_unknown_code(u: &Util, p: &PhoneNumber, c: Str) requires !cc_known(u, p.s_country_code()) ensures carrier_form(u, p, c) == nsn(p) {}
pub proof fn p23_carrier(u: &Util, p: &PhoneNumber, c: Str) requires wf_re(u), cc_known(u, p.s_country_code()), no_dollar(c)
    ensures ({ let m = md_main(u, p.s_country_code()); let s = nsn(p);
        match first_fmt(m.number_format@, s, 0) {
            None => carrier_form(u, p, c) == ordinary(u, p),
            Some(f) => if c.len() == 0 || f.s_domestic_carrier_code_formatting_rule().len() == 0 { carrier_form(u, p, c) == ordinary(u, p) }
                else { carrier_form(u, p, c) == re_replace_all(f.s_pattern(), s, re_replace(grp_pat(u), f.s_format(), put_at(f.s_domestic_carrier_code_formatting_rule(), "$CC"@, c))) + ext_text(p, &m, PhoneNumberFormat::National) } } })
{ let m = md_main(u, p.s_country_code());
  match first_fmt(m.number_format@, nsn(p), 0) { Some(f) => { ax_re_cc(f.s_domestic_carrier_code_formatting_rule(), c); if c.len() == 0 { assert(c =~= Seq::<char>::empty()); } }, None => {} } }
