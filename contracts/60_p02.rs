// P02: a parsed number has 2..17 digits and a supported country code
pub proof fn p02_nsn(u: &Util, text: Str, region: Str, keep: bool, check: bool, p: &PhoneNumber) requires wf(u), parsed(u, text, region, keep, check, Ok(*p)), p.s_national_number() >= 0
    ensures nsn(p) == (parse_core(u, text, region, check)->Ok_0).nat, 2 <= nsn(p).len() <= 17
{ lem_core_dig(u, text, region, check); let c = parse_core(u, text, region, check)->Ok_0; lem_join(c.nat); lem_dig_len(c.nat); }
pub proof fn p02_code(u: &Util, text: Str, region: Str, keep: bool, p: &PhoneNumber) requires wf(u), parsed(u, text, region, keep, true, Ok(*p))
    ensures cc_known(u, p.s_country_code())
{
    let g = build_nat(u, text)->Ok_0; let s = ext_split(u, g).0; let hm = home(u, region); let h = oref(&hm); let x = country2(u, h, s)->Ok_0;
    broadcast use {gstr, gre};
    lem_plus(u, g); lem_plus(u, s);
    if country(u, h, s) is Ok { lem_country_dig(u, h, s); } else { lem_country_dig(u, h, after_match(plus_pat(u), s)); }
    match h { Some(m) => {
        assert(rmap(u).dom().contains(region)); assert(cc_known(u, m.s_country_code()));
    }, None => {
        assert(re_start(plus_pat(u), g));
        lem_split_plus(u, g);
        lem_nonzero(u, strip_idd(u, s, intl_prefix(h)).0);
    } }
}
// a viable remainder starts like the text it was cut from
pub proof fn lem_split_plus(u: &Util, g: Str) requires wf_re(u), re_start(plus_pat(u), g) ensures re_start(plus_pat(u), ext_split(u, g).0)
{ broadcast use {gstr, gre}; lem_plus(u, g); let s = ext_split(u, g).0; lem_plus(u, s);
  if s != g { assert(viable(u, s)); assert(s.len() > 0) by { if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } } assert(s[0] == g[0]); } }
pub proof fn lem_nonzero(u: &Util, n: Str) requires wf_tab(u) ensures match split_cc(u, n) { Some((r, c)) => cc_known(u, c), None => true }
{ lem_scan(u, n, 1); }
