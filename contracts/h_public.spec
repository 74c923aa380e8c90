@@fn ParseErrorInternal::into_public
@spec
    requires self is FailedToParse,
    ensures self == ParseErrorInternal::FailedToParse(r),
@@fn GetExampleNumberErrorInternal::into_public
@spec
    requires self is FailedToGetExampleNumber,
    ensures self == GetExampleNumberErrorInternal::FailedToGetExampleNumber(r),
@@fn PhoneNumberUtil::can_be_internationally_dialled
@spec
    requires wf(&self.util_internal),
    ensures r == can_dial(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::convert_alpha_characters_in_number
@spec
    ensures r@ == map_chars(alpha_map(&self.util_internal), false, number@),
@@fn PhoneNumberUtil::format
@spec
    requires wf(&self.util_internal),
    ensures r.sv() == formatted(&self.util_internal, phone_number, number_format),
@@fn PhoneNumberUtil::format_in_original_format
@spec
    requires wf(&self.util_internal),
    ensures original_ok(&self.util_internal, phone_number, region_calling_from@, r.sv()),
@@fn PhoneNumberUtil::format_national_number_with_carrier_code
@spec
    requires wf(&self.util_internal),
    ensures r@ == carrier_form(&self.util_internal, phone_number, carrier_code@),
@@fn PhoneNumberUtil::format_number_for_mobile_dialing
@spec
    requires wf(&self.util_internal),
    ensures r.sv() == mobile_dial(&self.util_internal, phone_number, region_calling_from@, with_formatting),
@@fn PhoneNumberUtil::format_out_of_country_calling_number
@spec
    requires wf(&self.util_internal),
    ensures r.sv() == oocc(&self.util_internal, phone_number, region_calling_from@),
@@fn PhoneNumberUtil::format_out_of_country_keeping_alpha_chars
@spec
    requires wf(&self.util_internal),
    ensures r.sv() == keep_alpha(&self.util_internal, phone_number, region_calling_from@),
@@fn PhoneNumberUtil::get_country_code_for_region
@spec
    ensures match r { Some(c) => rmap(&self.util_internal).dom().contains(region_code@) && c == rmap(&self.util_internal)[region_code@].s_country_code(), None => !rmap(&self.util_internal).dom().contains(region_code@) },
@@fn PhoneNumberUtil::get_length_of_geographical_area_code
@spec
    requires wf(&self.util_internal),
    ensures r == area_len(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::get_length_of_national_destination_code
@spec
    requires wf(&self.util_internal),
    ensures r == ndc_len(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::get_national_significant_number
@spec
    ensures r@ == nsn(phone_number),
@@fn PhoneNumberUtil::get_number_type
@spec
    requires wf(&self.util_internal),
    ensures r == type_for(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::get_region_code_for_country_code
@spec
    requires wf(&self.util_internal),
    ensures r@ == main_region(&self.util_internal, country_code),
@@fn PhoneNumberUtil::get_region_code_for_number
@spec
    requires wf(&self.util_internal),
    ensures r@ == region_for(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::get_region_codes_for_country_code
@spec
    requires wf(&self.util_internal),
    ensures match r { Some(it) => cc_known(&self.util_internal, country_code) && views(it.rem()) =~= regions(&self.util_internal, country_code), None => !cc_known(&self.util_internal, country_code) },
@@fn PhoneNumberUtil::get_supported_regions
@spec
    ensures forall|i: int| 0 <= i < r.rem().len() ==> rmap(&self.util_internal).dom().contains(#[trigger] r.rem()[i]@),
        forall|k: Str| #[trigger] rmap(&self.util_internal).dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && #[trigger] r.rem()[i]@ == k,
@@fn PhoneNumberUtilInternal::is_alpha_number
@spec
    ensures r == is_alpha(self, phone_number@),
@@fn PhoneNumberUtil::is_alpha_number
@spec
    ensures r == is_alpha(&self.util_internal, number@),
@@fn PhoneNumberUtil::is_nanpa_country
@spec
    requires wf(&self.util_internal),
    ensures r == listed(&self.util_internal, 1, region_code@),
@@fn PhoneNumberUtil::is_number_geographical
@spec
    requires wf(&self.util_internal),
    ensures r == geo_type(&self.util_internal, type_for(&self.util_internal, phone_number), phone_number.s_country_code()),
@@fn PhoneNumberUtil::is_number_match
@spec
    ensures r == match_of(first_number, second_number),
@@fn PhoneNumberUtil::is_possible_number
@spec
    requires wf(&self.util_internal),
    ensures r == (possible_class(&self.util_internal, phone_number, PhoneNumberType::Unknown) is Ok),
@@fn PhoneNumberUtil::is_possible_number_with_reason
@spec
    requires wf(&self.util_internal),
    ensures r == possible_class(&self.util_internal, phone_number, PhoneNumberType::Unknown),
@@fn PhoneNumberUtil::is_valid_number
@spec
    requires wf(&self.util_internal),
    ensures r == valid(&self.util_internal, phone_number),
@@fn PhoneNumberUtil::is_valid_number_for_region
@spec
    requires wf(&self.util_internal),
    ensures r == valid_in(&self.util_internal, phone_number, region@),
@@fn PhoneNumberUtil::parse_and_keep_raw_input
@spec
    requires wf(&self.util_internal),
    ensures parsed_pub(&self.util_internal, number_to_parse@, default_region@, true, r),
@start
    proof { lem_core_err(&self.util_internal, number_to_parse@, default_region@, true); }
@@fn PhoneNumberUtil::parse
@spec
    requires wf(&self.util_internal),
    ensures parsed_pub(&self.util_internal, number_to_parse@, default_region@, false, r),
@start
    proof { lem_core_err(&self.util_internal, number_to_parse@, default_region@, true); }
@@fn PhoneNumberUtil::truncate_too_long_number
@spec
    requires wf(&self.util_internal),
    ensures
        valid(&self.util_internal, &*old(phone_number)) ==> r && *final(phone_number) == *old(phone_number),
        !valid(&self.util_internal, &*old(phone_number)) ==> match trunc_from(&self.util_internal, &*old(phone_number), old(phone_number).s_national_number()) {
            Some(m) => r && *final(phone_number) == with_nat(&*old(phone_number), m),
            None => !r && *final(phone_number) == *old(phone_number) },
@@fn PhoneNumberUtilInternal::is_possible_number_for_string
@spec
    requires wf(self),
    ensures match parse_core(self, phone_number@, region_dialing_from@, true) { Err(_) => !r,
        Ok(c) => forall|p: PhoneNumber| #[trigger] num_of(c, phone_number@, false, &p) ==> r == (possible_class(self, &p, PhoneNumberType::Unknown) is Ok) },
@@fn PhoneNumberUtilInternal::is_number_match_with_one_string
@spec
    requires wf(self),
    ensures one_text(self, first_number, second_number@, r),
@start
    hide(parse_core); hide(num_of); hide(match_of); hide(main_region); hide(wf); broadcast use lem_num_match;
    proof { lem_wf_tab(self); lem_core_err(self, second_number@, zz(), true); lem_core_err(self, second_number@, zz(), false); lem_core_err(self, second_number@, main_region(self, first_number.s_country_code()), true); }
@@fn PhoneNumberUtilInternal::is_number_match_with_two_strings
@spec
    requires wf(self),
    ensures two_texts(self, first_number@, second_number@, r),
@start
    hide(parse_core); hide(num_of); hide(match_of); hide(main_region); hide(wf); broadcast use lem_num_match;
    proof { lem_wf_tab(self); lem_core_err(self, first_number@, zz(), true); lem_core_err(self, second_number@, zz(), true); lem_core_err(self, first_number@, zz(), false); lem_core_err(self, second_number@, zz(), false); }
@@fn PhoneNumberUtilInternal::get_example_number_for_type_and_region_code
@spec
    requires wf(self),
    ensures ex_for(self, region_code@, phone_number_type, r),
@start
    proof { lem_core_err(self, desc_of(&rmap(self)[region_code@], phone_number_type).s_example_number(), region_code@, true); }
@@fn PhoneNumberUtilInternal::get_example_number
@spec
    requires wf(self),
    ensures ex_for(self, region_code@, PhoneNumberType::FixedLine, r),
@@fn PhoneNumberUtilInternal::get_example_number_for_type
@spec
    requires wf(self),
    ensures ex_type(self, phone_number_type, r),
@loop 0
    invariant
        wf(self), 0 <= it0.rem().len() <= it0_all.len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int), vr0 is None,
        forall|i: int| 0 <= i < it0_all.len() ==> rmap(self).dom().contains(#[trigger] it0_all[i]@),
        forall|i: int| 0 <= i < it0_all.len() - it0.rem().len() ==> ex_fails(self, #[trigger] it0_all[i]@, phone_number_type),
    ensures match vr0 { Some(p) => exists|rc: Str| #[trigger] rmap(self).dom().contains(rc) && ex_for(self, rc, phone_number_type, Ok(p)),
        None => forall|i: int| 0 <= i < it0_all.len() ==> ex_fails(self, #[trigger] it0_all[i]@, phone_number_type) },
    decreases it0.rem().len(),
@body 0
    proof { let k = it0_all.len() - it0.rem().len(); if it0.rem().len() > 0 { assert(it0.rem()[0] == it0_all[k]); assert(it0.rem().subrange(1, it0.rem().len() as int) =~= it0_all.subrange(k + 1, it0_all.len() as int)); } }
@loop 1
    invariant
        wf(self), 0 <= it1.rem().len() <= it1_all.len(), it1.rem() == it1_all.subrange(it1_all.len() - it1.rem().len(), it1_all.len() as int), vr1 is None,
        forall|i: int| 0 <= i < it1_all.len() ==> ngmap(self).dom().contains(#[trigger] it1_all[i]),
        forall|i: int| 0 <= i < it1_all.len() - it1.rem().len() ==> !desc_of(&ngmap(self)[#[trigger] it1_all[i]], phone_number_type).h_example_number(),
    ensures match vr1 { Some(r) => exists|cc: i32| #[trigger] ngmap(self).dom().contains(cc) && ex_intl(self, cc, &desc_of(&ngmap(self)[cc], phone_number_type), r),
        None => forall|i: int| 0 <= i < it1_all.len() ==> !desc_of(&ngmap(self)[#[trigger] it1_all[i]], phone_number_type).h_example_number() },
    decreases it1.rem().len(),
@body 1
    proof { let k = it1_all.len() - it1.rem().len(); if it1.rem().len() > 0 { assert(it1.rem()[0] == it1_all[k]); assert(it1.rem().subrange(1, it1.rem().len() as int) =~= it1_all.subrange(k + 1, it1_all.len() as int));
        lem_core_err(self, "+"@ + int_digits(it1_all[k] as int) + desc_of(&ngmap(self)[it1_all[k]], phone_number_type).s_example_number(), zz(), true); } }
@@fn PhoneNumberUtilInternal::get_example_number_for_non_geo_entity
@spec
    requires wf(self),
    ensures ngmap(self).dom().contains(country_calling_code) ==> ex_ng(self, country_calling_code, ng_descs(&ngmap(self)[country_calling_code]), r),
        !ngmap(self).dom().contains(country_calling_code) ==> r == Err::<PhoneNumber, XErr>(x_err(GetExampleNumberError::InvalidRegionCode)),
@after types
    proof { assert(descs_at(types@) =~= ng_descs(metadata)); }
@loop 0
    invariant
        wf(self), ngmap(self).dom().contains(country_calling_code), *metadata == ngmap(self)[country_calling_code],
        0 <= it0.rem().len() <= 7, forall|i: int| 0 <= i < it0.rem().len() ==> desc_ok(#[trigger] it0.rem()[i]),
        forall|r: ExampleNumberResult| #![auto] ex_ng(self, country_calling_code, ng_descs(metadata), r) <==> ex_ng(self, country_calling_code, descs_at(it0.rem()), r),
    ensures it0.rem().len() == 0,
        forall|r: ExampleNumberResult| #![auto] ex_ng(self, country_calling_code, ng_descs(metadata), r) <==> no_ex(r),
    decreases it0.rem().len(),
@body 0
    proof { let d = descs_at(it0.rem()); if it0.rem().len() > 0 { assert(d[0] == *it0.rem()[0]);
        assert(descs_at(it0.rem().subrange(1, it0.rem().len() as int)) =~= d.subrange(1, d.len() as int));
        lem_core_err(self, "+"@ + int_digits(country_calling_code as int) + d[0].s_example_number(), zz(), true); } }
@@fn PhoneNumberUtilInternal::get_invalid_example_number
@spec
    requires wf(self),
    ensures invalid_ex(self, region_code@, r),
@start
    proof { if rmap(self).dom().contains(region_code@) { bl_ascii(desc_of(&rmap(self)[region_code@], PhoneNumberType::FixedLine).s_example_number()); } }
@loop 0
    invariant
        wf(self), rmap(self).dom().contains(region_code@), example_number@ == desc_of(&rmap(self)[region_code@], PhoneNumberType::FixedLine).s_example_number(), all_ascii(example_number@), bl(example_number@) == example_number@.len(),
        0 <= it0.rem().len() <= it0_all.len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        forall|i: int| 0 <= i < it0_all.len() ==> 0 <= #[trigger] it0_all[i] <= example_number@.len(),
    decreases it0.rem().len(),
@body 0
    proof { let k = it0_all.len() - it0.rem().len(); if it0.rem().len() > 0 { assert(it0.rem()[0] == it0_all[k]); assert(it0.rem().subrange(1, it0.rem().len() as int) =~= it0_all.subrange(k + 1, it0_all.len() as int));
        let n = it0_all[k] as int; let s = example_number@; assert(all_ascii(s.subrange(0, n))); bo_ascii(s, n); bo_ascii(s, 0); assert(ci(s, n) == n); assert(is_pre(s.subrange(0, n), s)); lem_core_err(self, s.subrange(0, n), region_code@, true); } }
@@fn PhoneNumberUtil::get_example_number
@spec
    requires wf(&self.util_internal),
    ensures match r { Ok(p) => ex_for(&self.util_internal, region_code@, PhoneNumberType::FixedLine, Ok(p)), Err(e) => ex_for(&self.util_internal, region_code@, PhoneNumberType::FixedLine, Err(x_err(e))) },
@@fn PhoneNumberUtil::get_example_number_for_type
@spec
    requires wf(&self.util_internal),
    ensures match r { Ok(p) => ex_type(&self.util_internal, number_type, Ok(p)), Err(e) => ex_type(&self.util_internal, number_type, Err(x_err(e))) },
@@fn PhoneNumberUtil::get_invalid_example_number
@spec
    requires wf(&self.util_internal),
    ensures match r { Ok(p) => invalid_ex(&self.util_internal, region_code@, Ok(p)), Err(e) => invalid_ex(&self.util_internal, region_code@, Err(x_err(e))) },
