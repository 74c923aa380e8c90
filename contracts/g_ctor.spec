@@fn PhoneNumberRegExpsAndMappings::initialize_regexp_mappings
@spec
    requires old(self).mobile_token_mappings.dflt(), old(self).geo_mobile_countries_without_mobile_area_codes.dflt(), old(self).geo_mobile_countries.dflt(),
        old(self).countries_without_national_prefix_with_area_codes.dflt(),
    ensures maps_ok(final(self)), final(self).carrier_code_pattern == old(self).carrier_code_pattern, final(self).plus_chars_pattern == old(self).plus_chars_pattern,
@start
    reveal(maps_ok);
@loop 0
    invariant it0_all.len() == 10, it0.rem().len() <= 10, it0.rem() =~= it0_all.subrange(10 - it0.rem().len(), 10),
        forall|i: int| 0 <= i < 10 ==> (#[trigger] it0_all[i]) as u32 == 48 + i,
        forall|c: char| #[trigger] ascii_digit_mappings.m().dom().contains(c) <==> 48 <= c as u32 && (c as u32) < 58 - it0.rem().len(),
        forall|c: char| #[trigger] ascii_digit_mappings.m().dom().contains(c) ==> ascii_digit_mappings.m()[c] == c,
    decreases it0.rem().len(),
@loop 1
    invariant forall|c: char| #[trigger] self.alpha_mappings.m().dom().contains(c) <==> is_up(c),
        forall|i: int| 0 <= i < it1_all.len() ==> self.alpha_mappings.m().dom().contains((#[trigger] it1_all[i]).kv()),
        forall|c: char| #[trigger] self.alpha_mappings.m().dom().contains(c) ==> exists|i: int| 0 <= i < it1_all.len() && (#[trigger] it1_all[i]).kv() == c,
        it1.rem().len() <= it1_all.len(), it1.rem() =~= it1_all.subrange(it1_all.len() - it1.rem().len(), it1_all.len() as int),
        forall|c: char| #[trigger] all_plus_number_groupings.m().dom().contains(c) <==> self.alpha_mappings.m().dom().contains(upc(c)) && exists|i: int| 0 <= i < it1_all.len() - it1.rem().len() && upc(c) == (#[trigger] it1_all[i]).kv(),
        forall|c: char| #[trigger] all_plus_number_groupings.m().dom().contains(c) ==> all_plus_number_groupings.m()[c] == upc(c),
    decreases it1.rem().len(),
@@fn PhoneNumberRegExpsAndMappings::new
@spec
    ensures ctor_ok(&r),
@start
    proof { reveal_strlit("+\u{FF0B}"); let cs = PLUS_CHARS@; assert(cs.len() == 2 && cs[0] == '+' && cs[1] == '\u{FF0B}'); assert(class_of(cs, "["@ + cs + "]+"@)); }
@@fn RegexCache::with_capacity
@spec
    ensures true,
@@fn create_extn_pattern
@spec
    ensures true,
@@fn extn_digits
@spec
    ensures r@ =~= "(["@ + DIGITS@ + "]{1,"@ + int_digits(max_length as int) + "})"@,
@after max_length_str
    proof { lem_dec_len(max_length); lem_dec_digits(max_length as nat); assert(max_length_str@ == dec_digits(max_length as nat)); bl_dig(max_length_str@); }
