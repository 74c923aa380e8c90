// P28: country codes are split off without losing digits
pub proof fn lem_shortest(u: &Util, s: Str, i: int) requires 1 <= i
    ensures match cc_scan(u, s, i) {
        Some((r, c)) => exists|k: int| i <= k <= 3 && k <= s.len() && r == #[trigger] s.subrange(k, s.len() as int) && c == parse_dec(s.subrange(0, k)) as i32 && cc_known(u, c) && forall|j: int| i <= j < k ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32),
        None => forall|j: int| i <= j <= 3 && j <= s.len() ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32) }
    decreases 4 - i
{ if i <= 3 && i <= s.len() { if cc_known(u, parse_dec(s.subrange(0, i)) as i32) { assert(s.subrange(i, s.len() as int) == (cc_scan(u, s, i)->0).0); } else { lem_shortest(u, s, i + 1);
    match cc_scan(u, s, i + 1) { Some((r, c)) => { let k = choose|k: int| i + 1 <= k <= 3 && k <= s.len() && r == #[trigger] s.subrange(k, s.len() as int) && c == parse_dec(s.subrange(0, k)) as i32 && cc_known(u, c) && forall|j: int| i + 1 <= j < k ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32);
        assert(r == s.subrange(k, s.len() as int)); }, None => {} } } } }
pub proof fn p28_shortest_group(u: &Util, s: Str) requires all_dig(s)
    ensures match split_cc(u, s) { Some((r, c)) => s[0] != '0' && exists|k: int| 1 <= k <= 3 && k <= s.len() && s.subrange(0, k) + r == s && r == #[trigger] s.subrange(k, s.len() as int) && c == parse_dec(s.subrange(0, k)) && cc_known(u, c) && forall|j: int| 1 <= j < k ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32),
        None => s.len() == 0 || s[0] == '0' || forall|j: int| 1 <= j <= 3 && j <= s.len() ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32) }
{ lem_shortest(u, s, 1);
  match split_cc(u, s) { Some((r, c)) => { let k = choose|k: int| 1 <= k <= 3 && k <= s.len() && r == #[trigger] s.subrange(k, s.len() as int) && c == parse_dec(s.subrange(0, k)) as i32 && cc_known(u, c) && forall|j: int| 1 <= j < k ==> !cc_known(u, parse_dec(#[trigger] s.subrange(0, j)) as i32);
        assert(s.subrange(0, k) + r =~= s); assert(r == s.subrange(k, s.len() as int)); lem_sub_dig(s, 0, k); lem_parse_dec(s.subrange(0, k)); lem_pow3(k as nat); }, None => {} } }
pub proof fn p28_prefix_kept_before_zero(p: Str, n: Str) ensures re_start(p, n) && first_dec(after_match(p, n)) == Some(0u32) ==> idd_rest(p, n) is None {}
pub proof fn p28_no_digits_lost(u: &Util, hm: Option<&PhoneMetadata>, s: Str) requires wf(u), country(u, hm, s) is Ok
    ensures ({ let x = country(u, hm, s)->Ok_0; let n = strip_idd(u, s, intl_prefix(hm)).0;
        &&& x.src == CountryCodeSource::FROM_DEFAULT_COUNTRY ==> x.cc == 0 && x.nat == n
        &&& x.src == CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN ==> hm is Some && x.cc == hm->0.s_country_code() && n == int_digits(x.cc as int) + x.nat && fits_better(hm->0, n, x.nat)
        &&& x.src == CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN || x.src == CountryCodeSource::FROM_NUMBER_WITH_IDD ==> n.len() > 2 && split_cc(u, n) == Some((x.nat, x.cc)) })
{ match hm { Some(m) => { let d = int_digits(m.s_country_code() as int); let n = strip_idd(u, s, intl_prefix(hm)).0; if is_pre(d, n) { assert(n =~= d + n.subrange(d.len() as int, n.len() as int)); } }, None => {} } }
