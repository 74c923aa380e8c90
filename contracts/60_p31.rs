// P31: the E.164 text of a number parses back to it
pub open spec fn e164_text(cc: i32, n: Str) -> Str { "+"@ + int_digits(cc as int) + n }
// facts about the library's own patterns on texts of a plus sign and 3..20 digits; decided by `driver META` on the automata of the patterns
pub open spec fn plain(u: &Util, d: Str) -> bool { let t = seq!['+'] + d;
    &&& re_whole(u.reg_exps.valid_start_char_pattern.pat(), seq!['+']) && !re_whole(u.reg_exps.unwanted_end_char_pattern.pat(), seq![d.last()])
    &&& grp(second_pat(u), t, 1) is None && re_find(ext_pat(u), t) is None && viable(u, t) }
pub open spec fn e164_plain(u: &Util) -> bool { forall|d: Str| all_dig(d) && 3 <= d.len() <= 20 ==> #[trigger] plain(u, d) }
pub proof fn lem_no_char(t: Str, p: Str, c: char) requires p.len() > 0, p[0] == c, !t.contains(c) ensures str_find(t, p) is None
{ str_find_is(t, p); match str_find(t, p) { Some(k) => { assert(t.subrange(k, k + p.len())[0] == t[k]); assert(t.contains(t[k])); }, None => {} } }
pub proof fn lem_plus_dig(d: Str, c: char) requires all_dig(d), !is_dig(c), c != '+' ensures !(seq!['+'] + d).contains(c)
{ let t = seq!['+'] + d; if t.contains(c) { let i = t.index_of(c); assert(t[i] == c); if i > 0 { assert(is_dig(d[i - 1])); } } }
pub proof fn lem_build_plain(u: &Util, d: Str) requires e164_plain(u), all_dig(d), 3 <= d.len() <= 20 ensures build_nat(u, seq!['+'] + d) == Ok::<Str, PErr>(seq!['+'] + d)
{ let t = seq!['+'] + d; assert(plain(u, d)); reveal_strlit(";phone-context="); reveal_strlit(";isub=");
  lem_plus_dig(d, ';'); lem_no_char(t, ctx_mark(), ';'); lem_no_char(t, ";isub="@, ';');
  assert(t.subrange(0, 1) =~= seq!['+']); assert(first_start(u, t, 0) == 0); assert(t.subrange(0, t.len() as int) =~= t); assert(t.last() == d.last()); assert(trim_end(u, t) == t); }
pub proof fn lem_norm_id(u: &Util, s: Str) requires wf_re(u), all_dig(s) ensures norm(u, s) == s { lem_keys_id(u, s); lem_digs_id(s); }
pub proof fn lem_drop_dig(s: Str) requires all_dig(s), s.len() > 0 ensures all_dig(s.drop_last()), is_dig(s.last())
{ assert forall|i: int| 0 <= i < s.drop_last().len() implies is_dig(#[trigger] s.drop_last()[i]) by { assert(is_dig(s[i])); } assert(is_dig(s[s.len() - 1])); }
pub proof fn lem_keys_id(u: &Util, s: Str) requires wf_re(u), all_dig(s) ensures map_chars(alpha_map(u), true, s) == s decreases s.len()
{ reveal(maps_ok); if s.len() > 0 { lem_drop_dig(s); lem_keys_id(u, s.drop_last()); assert(upc(s.last()) == s.last()); assert(s.drop_last() + seq![s.last()] =~= s); } }
pub proof fn lem_digs_id(s: Str) requires all_dig(s) ensures digits_only(s) == s decreases s.len()
{ broadcast use gstr; if s.len() > 0 { lem_drop_dig(s); lem_digs_id(s.drop_last()); lem_ascii_val(s.last()); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn lem_ascii_val(c: char) requires is_dig(c) ensures dec_val(c) is Some, dchar(dec_val(c)->0) == c { ax_dec(c); }
// decimal notation
pub proof fn lem_dec_val(n: nat) ensures all_dig(dec_digits(n)), parse_dec(dec_digits(n)) == n, dec_digits(n).len() >= 1, n > 0 ==> dec_digits(n)[0] != '0' decreases n
{ lem_dec_digits(n); reveal_with_fuel(parse_dec, 2); if n < 10 { let s = dec_digits(n); assert(s.drop_last() =~= Seq::<char>::empty()); assert(s.last() == dchar(n as u32)); }
  else { lem_dec_val(n / 10); let s = dec_digits(n); assert(s.drop_last() =~= dec_digits(n / 10)); assert(s.last() == dchar((n % 10) as u32)); assert(s[0] == dec_digits(n / 10)[0]); } }
pub proof fn lem_code_digits(cc: i32) requires 0 < cc < 1000
    ensures ({ let d = int_digits(cc as int); &&& all_dig(d) && 1 <= d.len() <= 3 && d[0] != '0' && parse_dec(d) == cc
        &&& forall|j: int| 1 <= j < d.len() ==> parse_dec(#[trigger] d.subrange(0, j)) == cc / 10 || parse_dec(d.subrange(0, j)) == cc / 100 })
{ let n = cc as nat; lem_dec_val(n); reveal_with_fuel(dec_digits, 4); let d = dec_digits(n); let a = n / 10; let b = n / 100; assert(a / 10 == b);
  assert forall|j: int| 1 <= j < d.len() implies parse_dec(#[trigger] d.subrange(0, j)) == cc / 10 || parse_dec(d.subrange(0, j)) == cc / 100 by {
    lem_dec_val(a); lem_dec_val(b);
    if n >= 100 { assert(dec_digits(n) =~= dec_digits(a).push(d.last())); assert(dec_digits(a) =~= dec_digits(b).push(d[1])); if j == 2 { assert(d.subrange(0, 2) =~= dec_digits(a)); } else { assert(d.subrange(0, 1) =~= dec_digits(b)); } }
    else { assert(d.subrange(0, 1) =~= dec_digits(a)); } } }
pub proof fn lem_scan_code(u: &Util, cc: i32, n: Str, i: int) requires wf_tab(u), cc_known(u, cc), 1 <= i <= int_digits(cc as int).len()
    ensures cc_scan(u, int_digits(cc as int) + n, i) == Some((n, cc)) decreases 4 - i
{ lem_code_digits(cc); let d = int_digits(cc as int); let s = d + n; reveal(prefix_free); assert(s.subrange(0, i) =~= d.subrange(0, i)); lem_sub_dig(d, 0, i); lem_parse_dec(d.subrange(0, i));
  if i == d.len() { assert(d.subrange(0, i) =~= d); assert(s.subrange(i, s.len() as int) =~= n); }
  else { let v = parse_dec(d.subrange(0, i)); assert(v == cc / 10 || v == cc / 100); assert(cc_known(u, cc)); assert(!cc_known(u, v as i32)); lem_scan_code(u, cc, n, i + 1); } }
pub open spec fn unchanged(u: &Util, cc: i32, n: Str, region: Str) -> bool { national(u, plan_for(u, region, cc), n).0 == n }
pub proof fn p31_core(u: &Util, cc: i32, n: Str, region: Str, check: bool)
    requires wf(u), e164_plain(u), cc_known(u, cc), all_dig(n), 2 <= n.len() <= 17, unchanged(u, cc, n, region)
    ensures parse_core(u, e164_text(cc, n), region, check) == Ok::<Core, PErr>(Core { nat: n, cc: cc, src: CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN, ext: None, carrier: national(u, plan_for(u, region, cc), n).1 })
{
    lem_code_digits(cc); let d = int_digits(cc as int); let s = d + n; let t = seq!['+'] + s; reveal_strlit("+"); assert(e164_text(cc, n) =~= t);
    assert forall|i: int| 0 <= i < s.len() implies is_dig(#[trigger] s[i]) by { if i < d.len() { assert(is_dig(d[i])); } else { assert(is_dig(n[i - d.len()])); } }
    lem_build_plain(u, s); assert(plain(u, s)); lem_plus(u, t); lem_one_plus(u, s); lem_norm_id(u, s);
    assert(t.subrange(1, t.len() as int) =~= s); assert(after_match(plus_pat(u), t) == s);
    lem_scan_code(u, cc, n, 1); assert(s[0] == d[0]);
    let hm = home(u, region); assert(country(u, oref(&hm), t) == Ok::<Split, PErr>(Split { nat: n, cc: cc, src: CountryCodeSource::FROM_NUMBER_WITH_PLUS_SIGN }));
}
pub proof fn lem_one_plus(u: &Util, s: Str) requires wf_re(u), all_dig(s), s.len() > 0 ensures re_find(plus_pat(u), seq!['+'] + s) == Some((0int, 1int))
{ let t = seq!['+'] + s; let cs = choose|cs: Str| #[trigger] class_of(cs, u.reg_exps.plus_chars_pattern.pat()) && cs.contains('+') && cs.contains('\u{FF0B}') && forall|c: char| #[trigger] cs.contains(c) ==> is_plus(c);
  ax_class_plus(cs, t); assert(is_dig(s[0])); assert(t[1] == s[0]); assert(!is_plus(s[0])); assert(!cs.contains(t[1])); }
// formatting as E.164, then parsing that text (with or without raw input), with any default region
pub proof fn p31_round_trip(u: &Util, q: &PhoneNumber, region: Str, keep: bool, check: bool, r: ParseResult<PhoneNumber>)
    requires wf(u), e164_plain(u), !raw_only(q), cc_known(u, q.s_country_code()), 2 <= nsn(q).len() <= 17, unchanged(u, q.s_country_code(), nsn(q), region),
        parsed(u, formatted(u, q, PhoneNumberFormat::E164), region, keep, check, r)
    ensures r is Ok && ({ let p = r->Ok_0; &&& p.s_country_code() == q.s_country_code() && nsn(&p) == nsn(q) && !has_ext(&p)
        &&& !raw_only(&p) ==> formatted(u, &p, PhoneNumberFormat::E164) == formatted(u, q, PhoneNumberFormat::E164) })
{
    let cc = q.s_country_code(); let n = nsn(q); lem_nsn_dig(q); reveal_strlit("+"); lem_code_digits(cc);
    let t = formatted(u, q, PhoneNumberFormat::E164); assert(t == e164_text(cc, n)); p31_core(u, cc, n, region, check);
    let c = parse_core(u, t, region, check)->Ok_0; lem_join(c.nat); lem_dig_len(c.nat);
}
