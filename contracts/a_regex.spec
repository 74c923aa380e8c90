@@fn RegexCache::get_regex
@spec
    ensures match r { Ok(re) => re_ok(pattern@) && re.pat() == pattern@, Err(_) => !re_ok(pattern@) },
@@fn Regex::full_match
@spec
    ensures r == re_whole(self.pat(), s@),
@start
    broadcast use {gstr, gre}; proof { cb_zero(s@); cb_end(s@); }
@@fn Regex::find_start
@spec
    ensures match r { Some(m) => re_start(self.pat(), s@) && m.mok(s@, re_find(self.pat(), s@)->0) && m.a == 0, None => !re_start(self.pat(), s@) },
@start
    broadcast use {gstr, gre}; proof { cb_zero(s@); }
@@fn Regex::matches_start
@spec
    ensures r == re_start(self.pat(), s@),
@start
    broadcast use {gstr, gre}; proof { cb_zero(s@); }
@@fn Regex::captures_start
@spec
    ensures match r { Some(c) => re_start(self.pat(), s@) && c.cs() == s@ && c.cv() == re_caps(self.pat(), s@), None => !re_start(self.pat(), s@) },
@start
    broadcast use {gstr, gre}; proof { cb_zero(s@); }
@@fn RegexBasedMatcher::match_number
@spec
    ensures r is Ok <==> re_ok(number_pattern@) || (!allow_prefix_match && re_ok(anch(number_pattern@))),
        r is Ok && re_ok(number_pattern@) ==> r->Ok_0 == (if allow_prefix_match { re_start(number_pattern@, phone_number@) } else { re_full(number_pattern@, phone_number@) }),
@start
    broadcast use {gstr, gre, ax_re_anch, ax_re_anch_ok};
    proof { assert(anch(number_pattern@) == "^(?:"@ + number_pattern@ + ")$"@); }
@@fn RegexBasedMatcher::match_national_number
@spec
    requires re_opt_ok(number_desc.s_national_number_pattern()),
    ensures r == (number_desc.s_national_number_pattern().len() > 0 && (if allow_prefix_match { re_start(number_desc.s_national_number_pattern(), number@) } else { re_full(number_desc.s_national_number_pattern(), number@) })),
@start
    broadcast use {gstr, gre};
@@fn is_match
@spec
    requires desc_ok(number_desc),
    ensures r == desc_match(number@, number_desc),
@@fn PhoneNumberUtilInternal::is_number_matching_desc
@spec
    requires desc_ok(number_desc),
    ensures r == num_matches(national_number@, number_desc),
@@fn PhoneNumberUtilInternal::get_number_type_helper
@spec
    requires md_ok(metadata),
    ensures r == type_in(national_number@, metadata),
