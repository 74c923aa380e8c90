// ===== P05-P08, P23: formatting =====
pub open spec fn fmt_applies(f: &NumberFormat, s: Str) -> bool {
    (f.leading_digits_pattern@.len() > 0 ==> re_start(f.leading_digits_pattern@[f.leading_digits_pattern@.len() - 1]@, s)) && re_full(f.s_pattern(), s) }
// the first rule of a list that applies
pub open spec fn first_fmt(fs: Seq<NumberFormat>, s: Str, i: int) -> Option<NumberFormat> decreases fs.len() - i {
    if i < 0 || i >= fs.len() { None } else if fmt_applies(&fs[i], s) { Some(fs[i]) } else { first_fmt(fs, s, i + 1) } }
pub open spec fn sep_pat(u: &Util) -> Str { u.reg_exps.separator_pattern.pat() }
pub open spec fn grp_pat(u: &Util) -> Str { u.reg_exps.first_group_capturing_pattern.pat() }
pub open spec fn cc_pat(u: &Util) -> Str { u.reg_exps.carrier_code_pattern.pat() }
// the layout of a rule: decorations are put around the first group reference, in the national form only
pub open spec fn layout(u: &Util, format: Str, np_rule: Str, cc_rule: Str, nf: PhoneNumberFormat, carrier: Str) -> Str {
    if nf == PhoneNumberFormat::National && carrier.len() > 0 && cc_rule.len() > 0 { re_replace(grp_pat(u), format, re_replace(cc_pat(u), cc_rule, carrier)) }
    else if nf == PhoneNumberFormat::National && np_rule.len() > 0 { re_replace(grp_pat(u), format, np_rule) }
    else { format } }
pub open spec fn drop_lead(u: &Util, t: Str) -> Str { if re_start(sep_pat(u), t) { t.subrange((re_find(sep_pat(u), t)->0).1, t.len() as int) } else { t } }
pub open spec fn hyphens(u: &Util, t: Str) -> Str { re_replace_all(sep_pat(u), drop_lead(u, t), "-"@) }
pub open spec fn laid_with(u: &Util, s: Str, pat: Str, format: Str, np_rule: Str, cc_rule: Str, nf: PhoneNumberFormat, carrier: Str) -> Str {
    let t = re_replace_all(pat, s, layout(u, format, np_rule, cc_rule, nf, carrier));
    if nf == PhoneNumberFormat::RFC3966 { hyphens(u, t) } else { t } }
pub open spec fn laid(u: &Util, s: Str, f: &NumberFormat, nf: PhoneNumberFormat, carrier: Str) -> Str {
    laid_with(u, s, f.s_pattern(), f.s_format(), f.s_national_prefix_formatting_rule(), f.s_domestic_carrier_code_formatting_rule(), nf, carrier) }
pub open spec fn rules(m: &PhoneMetadata, nf: PhoneNumberFormat) -> Seq<NumberFormat> { if m.intl_number_format@.len() == 0 || nf == PhoneNumberFormat::National { m.number_format@ } else { m.intl_number_format@ } }
pub open spec fn nat_part(u: &Util, m: &PhoneMetadata, s: Str, nf: PhoneNumberFormat, carrier: Str) -> Str {
    match first_fmt(rules(m, nf), s, 0) { Some(f) => laid(u, s, &f, nf, carrier), None => s } }
pub open spec fn ext_mark(m: &PhoneMetadata, nf: PhoneNumberFormat) -> Str {
    if nf == PhoneNumberFormat::RFC3966 { ";ext="@ } else if m.h_preferred_extn_prefix() { m.s_preferred_extn_prefix() } else { " ext. "@ } }
pub open spec fn has_ext(p: &PhoneNumber) -> bool { p.h_extension() && p.s_extension().len() > 0 }
pub open spec fn ext_text(p: &PhoneNumber, m: &PhoneMetadata, nf: PhoneNumberFormat) -> Str { if has_ext(p) { ext_mark(m, nf) + p.s_extension() } else { Seq::empty() } }
pub open spec fn md_main(u: &Util, cc: i32) -> PhoneMetadata { md_get(u, cc, main_region(u, cc)) }
pub open spec fn raw_only(p: &PhoneNumber) -> bool { p.s_national_number() == 0 && p.s_raw_input().len() > 0 }
pub open spec fn formatted(u: &Util, p: &PhoneNumber, nf: PhoneNumberFormat) -> Str {
    let cc = p.s_country_code();
    if raw_only(p) { p.s_raw_input() }
    else if nf == PhoneNumberFormat::E164 { with_code(cc, nf, nsn(p)) }
    else if cc_known(u, cc) { with_code(cc, nf, nat_part(u, &md_main(u, cc), nsn(p), nf, Seq::empty()) + ext_text(p, &md_main(u, cc), nf)) }
    else { nsn(p) } }
pub open spec fn carrier_form(u: &Util, p: &PhoneNumber, carrier: Str) -> Str {
    let cc = p.s_country_code();
    if cc_known(u, cc) { nat_part(u, &md_main(u, cc), nsn(p), PhoneNumberFormat::National, carrier) + ext_text(p, &md_main(u, cc), PhoneNumberFormat::National) } else { nsn(p) } }
// user supplied rules: $NP and $FG in the rule are expanded with the plan's national prefix
pub open spec fn user_np_rule(m: &PhoneMetadata, f: &NumberFormat) -> Str {
    let r = f.s_national_prefix_formatting_rule();
    if r.len() == 0 || m.s_national_prefix().len() == 0 { Seq::empty() } else { repl_all(repl_all(r, "$NP"@, m.s_national_prefix()), "$FG"@, "$1"@) } }
pub open spec fn by_pattern(u: &Util, p: &PhoneNumber, nf: PhoneNumberFormat, fs: Seq<NumberFormat>) -> Str {
    let cc = p.s_country_code(); let m = md_main(u, cc); let s = nsn(p);
    if !cc_known(u, cc) { s } else {
        with_code(cc, nf, (match first_fmt(fs, s, 0) { Some(f) => laid_with(u, s, f.s_pattern(), f.s_format(), user_np_rule(&m, &f), f.s_domestic_carrier_code_formatting_rule(), nf, Seq::empty()), None => s }) + ext_text(p, &m, PhoneNumberFormat::National)) } }
