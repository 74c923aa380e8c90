// P07: an extension is appended unchanged, once, with the right marker; without one nothing is added
pub proof fn p07_extension(u: &Util, p: &PhoneNumber, f: PhoneNumberFormat) requires !raw_only(p), cc_known(u, p.s_country_code()), f != PhoneNumberFormat::E164
    ensures ({ let m = md_main(u, p.s_country_code());
        let mark = if f == PhoneNumberFormat::RFC3966 { ";ext="@ } else if m.h_preferred_extn_prefix() { m.s_preferred_extn_prefix() } else { " ext. "@ };
        &&& !has_ext(p) ==> formatted(u, p, f) == formatted(u, &no_ext(p), f)
        &&& has_ext(p) ==> formatted(u, p, f) == formatted(u, &no_ext(p), f) + mark + p.s_extension()
        &&& has_ext(p) ==> is_suf(p.s_extension(), formatted(u, p, f)) })
{ let q = no_ext(p); assert(nsn(&q) == nsn(p)); assert(!has_ext(&q)); assert(!raw_only(&q)); let m = md_main(u, p.s_country_code()); let n = nat_part(u, &m, nsn(p), f, Seq::empty());
  let cc = p.s_country_code();
  assert(formatted(u, &q, f) =~= with_code(cc, f, n)) by { assert(n + Seq::<char>::empty() =~= n); }
  if has_ext(p) { let x = ext_mark(&m, f); let e = p.s_extension();
    assert(with_code(cc, f, n + (x + e)) =~= with_code(cc, f, n) + x + e);
    let t = formatted(u, p, f); assert(t.subrange(t.len() - e.len(), t.len() as int) =~= e); }
  else { assert(n + ext_text(p, &m, f) =~= n); } }
