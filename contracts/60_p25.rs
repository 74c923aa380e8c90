// P25: geographic classification and area-code length
pub proof fn p25_geographic(u: &Util, t: PhoneNumberType, cc: i32) requires wf_re(u)
    ensures geo_type(u, t, cc) <==> t == PhoneNumberType::FixedLine || t == PhoneNumberType::FixedLineOrMobile || (t == PhoneNumberType::Mobile && (cc == 52 || cc == 54 || cc == 55 || cc == 62 || cc == 86))
{ reveal(maps_ok); }
pub proof fn p25_area(u: &Util, p: &PhoneNumber) requires wf_re(u)
    ensures ({ let cc = p.s_country_code(); let rc = region_for(u, p); let t = type_for(u, p); let mx = cc == 52;
        &&& !rmap(u).dom().contains(rc) ==> area_len(u, p) == 0
        &&& rmap(u).dom().contains(rc) && !rmap(u)[rc].h_national_prefix() && !p.s_italian_leading_zero() && !mx ==> area_len(u, p) == 0
        &&& t == PhoneNumberType::Mobile && cc == 86 ==> area_len(u, p) == 0
        &&& !geo_type(u, t, cc) ==> area_len(u, p) == 0
        &&& rmap(u).dom().contains(rc) && (rmap(u)[rc].h_national_prefix() || p.s_italian_leading_zero() || mx) && !(t == PhoneNumberType::Mobile && cc == 86) && geo_type(u, t, cc) ==> area_len(u, p) == ndc_len(u, p) })
{ reveal(maps_ok); }
pub proof fn p25_token(u: &Util, p: &PhoneNumber) requires wf_re(u), type_for(u, p) == PhoneNumberType::Mobile
    ensures ({ let s = formatted(u, &no_ext(p), PhoneNumberFormat::International); let g = re_caps_iter(u.reg_exps.capturing_ascii_digits_pattern.pat(), s);
        g.len() >= 3 && grp_len(s, g[0]) is Some && grp_len(s, g[1]) is Some && grp_len(s, g[2]) is Some ==> ndc_len(u, p) == (if p.s_country_code() == 54 { grp_len(s, g[2])->0 + 1 } else { grp_len(s, g[1])->0 }) })
{ reveal(maps_ok); broadcast use gstr; assert(clen('9') == 1) by { ax_clen('9'); } }
pub proof fn p25_extension_ignored(u: &Util, p: &PhoneNumber) ensures ndc_len(u, &no_ext(p)) == ndc_len(u, p)
{ assert(no_ext(&no_ext(p)) == no_ext(p)); assert(nsn(&no_ext(p)) == nsn(p)); }
