// P21: out-of-country output keeping letters
pub proof fn p21_no_raw(u: &Util, p: &PhoneNumber, from: Str) requires p.s_raw_input().len() == 0 ensures keep_alpha(u, p, from) == oocc(u, p, from) {}
pub proof fn p21_unknown_code(u: &Util, p: &PhoneNumber, from: Str) requires p.s_raw_input().len() > 0, !cc_known(u, p.s_country_code()) ensures keep_alpha(u, p, from) == p.s_raw_input() {}
pub proof fn p21_nanpa(u: &Util, p: &PhoneNumber, from: Str) requires p.s_raw_input().len() > 0, cc_known(u, 1), p.s_country_code() == 1, listed(u, 1, from)
    ensures keep_alpha(u, p, from) == "1 "@ + kept_text(u, p)
{ reveal_strlit("1 "); reveal_strlit(" "); assert(int_digits(1) =~= seq!['1']); assert("1 "@ =~= int_digits(1) + " "@); }
pub open spec fn regrouped(s: Str) -> Str decreases s.len() { if s.len() == 0 { s } else { regrouped(s.drop_last()) + (match group_of(upc(s.last())) { Some(c) => seq![c], None => Seq::empty() }) } }
pub proof fn p21_grouping(u: &Util, s: Str) requires wf_re(u) ensures map_chars(grouping(u), true, s) == regrouped(s) decreases s.len()
{ reveal(maps_ok); if s.len() > 0 { p21_grouping(u, s.drop_last()); } }
pub proof fn p21_from_first_three(u: &Util, p: &PhoneNumber) requires wf_re(u), nsn(p).len() > 3
    ensures match str_find(regrouped(p.s_raw_input()), nsn(p).subrange(0, 3)) { Some(k) => kept_text(u, p) == regrouped(p.s_raw_input()).subrange(k, regrouped(p.s_raw_input()).len() as int) && is_pre(nsn(p).subrange(0, 3), kept_text(u, p)), None => kept_text(u, p) == regrouped(p.s_raw_input()) }
{ p21_grouping(u, p.s_raw_input()); let g = regrouped(p.s_raw_input()); let t = nsn(p).subrange(0, 3); str_find_is(g, t); match str_find(g, t) { Some(k) => { assert(g.subrange(k, g.len() as int).subrange(0, 3) =~= g.subrange(k, k + 3)); }, None => {} } }
pub proof fn p21_abroad(u: &Util, p: &PhoneNumber, from: Str) requires wf(u), p.s_raw_input().len() > 0, cc_known(u, p.s_country_code()), !rmap(u).dom().contains(from)
    ensures keep_alpha(u, p, from) == ext_split(u, "+"@ + int_digits(p.s_country_code() as int) + " "@ + kept_text(u, p)).0 + ext_text(p, &md_main(u, p.s_country_code()), PhoneNumberFormat::International)
{ if p.s_country_code() == 1 && listed(u, 1, from) { let i = choose|i: int| 0 <= i < regions(u, 1).len() && regions(u, 1)[i] == from; assert(md_has(u, 1, regions(u, 1)[i])); } }
