// P08: the first applicable rule lays out the number; decorations only in the national form
pub proof fn p08_first_rule(fs: Seq<NumberFormat>, s: Str, i: int) requires 0 <= i
    ensures match first_fmt(fs, s, i) { Some(f) => exists|j: int| i <= j < fs.len() && #[trigger] fs[j] == f && fmt_applies(&f, s) && (forall|k: int| i <= k < j ==> !fmt_applies(&#[trigger] fs[k], s)),
        None => forall|k: int| i <= k < fs.len() ==> !fmt_applies(&#[trigger] fs[k], s) }
    decreases fs.len() - i
{ if i < fs.len() && !fmt_applies(&fs[i], s) { p08_first_rule(fs, s, i + 1); } }
pub proof fn p08_no_rule(u: &Util, m: &PhoneMetadata, s: Str, f: PhoneNumberFormat, c: Str) requires forall|k: int| 0 <= k < rules(m, f).len() ==> !fmt_applies(&#[trigger] rules(m, f)[k], s)
    ensures nat_part(u, m, s, f, c) == s { p08_first_rule(rules(m, f), s, 0); }
pub proof fn p08_rules(m: &PhoneMetadata) ensures m.intl_number_format@.len() > 0 ==> rules(m, PhoneNumberFormat::International) == m.intl_number_format@ && rules(m, PhoneNumberFormat::RFC3966) == m.intl_number_format@,
    rules(m, PhoneNumberFormat::National) == m.number_format@, m.intl_number_format@.len() == 0 ==> rules(m, PhoneNumberFormat::International) == m.number_format@ {}
pub proof fn p08_decorations(u: &Util, s: Str, f: &NumberFormat, c: Str)
    ensures laid(u, s, f, PhoneNumberFormat::International, c) == re_replace_all(f.s_pattern(), s, f.s_format()),
        laid(u, s, f, PhoneNumberFormat::RFC3966, c) == hyphens(u, re_replace_all(f.s_pattern(), s, f.s_format())),
        f.s_national_prefix_formatting_rule().len() == 0 ==> laid(u, s, f, PhoneNumberFormat::National, Seq::empty()) == re_replace_all(f.s_pattern(), s, f.s_format()),
        f.s_national_prefix_formatting_rule().len() > 0 ==> laid(u, s, f, PhoneNumberFormat::National, Seq::empty()) == re_replace_all(f.s_pattern(), s, re_replace(grp_pat(u), f.s_format(), f.s_national_prefix_formatting_rule())) {}
