// P29: stripping a national prefix never breaks a viable number
pub proof fn p29_never_breaks(m: &PhoneMetadata, s: Str) requires desc_match(s, &m.general_desc) ensures desc_match(strip_np(m, s).0, &m.general_desc) {}
pub proof fn p29_result(m: &PhoneMetadata, s: Str) requires md_ok(m)
    ensures strip_np(m, s).0 == s
        || (re_start(np_pat(m), s) && strip_np(m, s).0 == s.subrange((re_find(np_pat(m), s)->0).1, s.len() as int))
        || (re_start(np_pat(m), s) && m.s_national_prefix_transform_rule().len() > 0 && strip_np(m, s).0 == re_replace(np_pat(m), s, m.s_national_prefix_transform_rule())) {}
pub proof fn p29_carrier(m: &PhoneMetadata, s: Str) ensures match strip_np(m, s).1 { None => true, Some(c) => re_start(np_pat(m), s) && grp(np_pat(m), s, 1) == Some(c) && exists|x: int, y: int| 0 <= x <= y <= s.len() && c == #[trigger] s.subrange(x, y) }
{ broadcast use {gstr, gre}; match strip_np(m, s).1 { Some(c) => { let g = re_caps(np_pat(m), s)[1]->0; assert(c == s.subrange(g.0, g.1)); }, None => {} } }
