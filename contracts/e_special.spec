@@fn PhoneNumberUtilInternal::is_viable_phone_number
@spec
    ensures r == viable(self, phone_number@),
@@fn PhoneNumberUtilInternal::normalize_diallable_chars_only
@spec
    ensures r@ == diall(self, phone_number@),
@@fn PhoneNumberUtilInternal::normalize_digits_only
@spec
    ensures r@ == digits_only(phone_number@),
@@fn PhoneNumberUtilInternal::format_number_for_mobile_dialing
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0.sv() == mobile_dial(self, phone_number, calling_from@, with_formatting),
@start
    broadcast use gstr; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); reveal_with_fuel(map_chars, 2); }
@after number_no_extension
    proof { assert(regions(self, country_calling_code).contains(regions(self, country_calling_code)[0])); }
@@fn PhoneNumberUtilInternal::format_out_of_country_calling_number
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0.sv() == oocc(self, phone_number, calling_from@),
@start
    broadcast use gstr; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@fn PhoneNumberUtilInternal::maybe_strip_extension
@spec
    ensures r.0@ == ext_split(self, phone_number@).0, match r.1 { Some(e) => ext_split(self, phone_number@).1 == Some(e@), None => ext_split(self, phone_number@).1 is None },
@start
    broadcast use {gstr, gre, lem_caps_flat};
@loop 0
    invariant
        forall|j: int| 0 <= j < it0.rem().len() ==> (#[trigger] it0.rem()[j]).inv() && it0.rem()[j].h@ == phone_number@,
        first_nem(it0_all) == first_nem(it0.rem()), vr0 is None,
    ensures match vr0 { Some(m) => first_nem(it0_all) == Some(m) && m.inv(), None => first_nem(it0_all) is None },
    decreases it0.rem().len(),
@@fn PhoneNumberUtilInternal::format_out_of_country_keeping_alpha_chars
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0.sv() == keep_alpha(self, phone_number, calling_from@),
@start
    broadcast use {gstr, gre}; proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); lem_nsn_dig(phone_number);
        if nsn(phone_number).len() > 3 { dig_ascii(nsn(phone_number)); bo_ascii(nsn(phone_number), 3); } cb_zero(nsn(phone_number)); }
@@fn PhoneNumberUtilInternal::has_formatting_pattern_for_number
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == has_rule(self, phone_number),
@@fn PhoneNumberUtilInternal::get_ndd_prefix_for_region
@spec
    ensures match r { Some(s) => rmap(self).dom().contains(region_code@) && s@ == (if strip_non_digits { repl_all(rmap(self)[region_code@].s_national_prefix(), "~"@, ""@) } else { rmap(self)[region_code@].s_national_prefix() }), None => !rmap(self).dom().contains(region_code@) },
@@fn strip_cow_prefix
@spec
    ensures match r { Some(c) => is_pre(prefix@, cow.sv()) && c.sv() == cow.sv().subrange(prefix@.len() as int, cow.sv().len() as int), None => !is_pre(prefix@, cow.sv()) },
@start
    broadcast use gstr; proof { if is_pre(prefix@, cow.sv()) { cb_zero(cow.sv()); assert(bo(cow.sv(), prefix@.len() as int) == bl(prefix@)); } }
@@fn PhoneNumberUtilInternal::raw_input_contains_national_prefix
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == raw_np(self, raw_input@, national_prefix@, region_code@),
@after number_without_national_prefix
    proof { let d = digits_only(raw_input@); let t = d.subrange(national_prefix@.len() as int, d.len() as int); assert(reads_as(self, t, region_code@, &number_without_national_prefix));
        if raw_np(self, raw_input@, national_prefix@, region_code@) { let q = choose|q: PhoneNumber| #[trigger] reads_as(self, t, region_code@, &q) && valid(self, &q); lem_reads_one(self, t, region_code@, &q, &number_without_national_prefix); } }
@start
    broadcast use gstr; proof { let s = digits_only(raw_input@); if is_pre(national_prefix@, s) { assert(bo(s, national_prefix@.len() as int) == bl(national_prefix@)); } }
@@fn PhoneNumberUtilInternal::format_in_original_format
@spec
    requires wf(self),
    ensures r is Ok, original_ok(self, phone_number, region_calling_from@, r->Ok_0.sv()),
@start
    broadcast use {gstr, gre}; proof { reveal_strlit("+"); assert("+"@.len() == 1);
        assert forall|v: Seq<NumberFormat>| v.len() == 1 implies #[trigger] by_pattern(self, phone_number, PhoneNumberFormat::National, v) == by_pattern(self, phone_number, PhoneNumberFormat::National, seq![v[0]]) by { assert(v =~= seq![v[0]]); } }
@after formatted_number
    proof { match phone_number.s_country_code_source() { CountryCodeSource::FROM_DEFAULT_COUNTRY | CountryCodeSource::UNSPECIFIED => { assert(formatted_number.sv() == nat_choice(self, phone_number)); }, _ => {} } }
@@fn PhoneNumberUtilInternal::is_number_geographical_by_country_code_and_type
@spec
    ensures r == geo_type(self, phone_number_type, country_calling_code),
@@fn PhoneNumberUtilInternal::is_number_geographical
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == geo_type(self, type_for(self, phone_number), phone_number.s_country_code()),
@@fn PhoneNumberUtilInternal::get_country_mobile_token
@spec
    ensures match r { Some(c) => self.reg_exps.mobile_token_mappings.m().dom().contains(country_calling_code) && c == self.reg_exps.mobile_token_mappings.m()[country_calling_code], None => !self.reg_exps.mobile_token_mappings.m().dom().contains(country_calling_code) },
@@fn PhoneNumberUtilInternal::get_length_of_geographical_area_code
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == area_len(self, phone_number),
@@fn PhoneNumberUtilInternal::get_length_of_national_destination_code
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == ndc_len(self, phone_number),
@start
    broadcast use ci_uniq;
@loop 0
    invariant
        0 <= it0_all.len() - it0.rem().len(), it0_all.len() == 3, it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        forall|j: int| 0 <= j < it0_all.len() ==> #[trigger] it0_all[j] == j,
        formatted_number.sv() == formatted(self, &no_ext(phone_number), PhoneNumberFormat::International),
        ({ let k = it0_all.len() - it0.rem().len(); let s = formatted_number.sv(); let g = re_caps_iter(self.reg_exps.capturing_ascii_digits_pattern.pat(), s);
            &&& k <= g.len() && capture_iter.rem().len() == g.len() - k
            &&& forall|j: int| 0 <= j < capture_iter.rem().len() ==> (#[trigger] capture_iter.rem()[j]).cs() == s && capture_iter.rem()[j].cv() == g[k + j]
            &&& forall|j: int| 0 <= j < k ==> grp_len(s, #[trigger] g[j]) == Some(captured_groups[j] as int) && captured_groups[j] <= isize::MAX }),
    ensures it0.rem().len() == 0,
    decreases it0.rem().len(),
