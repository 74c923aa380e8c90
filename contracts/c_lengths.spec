@@fn get_number_desc_by_type
@spec
    ensures *r == desc_of(metadata, phone_number_type),
@@fn desc_has_possible_number_data
@spec
    ensures r == !nonexistent(desc),
@@fn test_number_length
@spec
    requires md_ok(phone_metadata),
    ensures r == len_class(ilen(phone_number@), phone_metadata, phone_number_type),
    decreases (if phone_number_type == PhoneNumberType::FixedLineOrMobile { 1int } else { 0int }),
@start
    broadcast use gvec;
    proof {
        let m = phone_metadata;
        if nonexistent(&m.fixed_line) {
            assert(forall|x: i32| #[trigger] declared(m, PhoneNumberType::FixedLineOrMobile, x) == declared(m, PhoneNumberType::Mobile, x));
            assert(forall|n: i32| below_all(m, PhoneNumberType::Mobile, n) ==> #[trigger] below_all(m, PhoneNumberType::FixedLineOrMobile, n));
            assert(forall|n: i32| above_all(m, PhoneNumberType::Mobile, n) ==> #[trigger] above_all(m, PhoneNumberType::FixedLineOrMobile, n));
            assert(forall|n: i32| #[trigger] below_all(m, PhoneNumberType::FixedLineOrMobile, n) ==> below_all(m, PhoneNumberType::Mobile, n)) by {
                assert(forall|x: i32| #[trigger] declared(m, PhoneNumberType::Mobile, x) == declared(m, PhoneNumberType::FixedLineOrMobile, x)); }
            assert(forall|n: i32| #[trigger] above_all(m, PhoneNumberType::FixedLineOrMobile, n) ==> above_all(m, PhoneNumberType::Mobile, n)) by {
                assert(forall|x: i32| #[trigger] declared(m, PhoneNumberType::Mobile, x) == declared(m, PhoneNumberType::FixedLineOrMobile, x)); }
            assert(len_class(ilen(phone_number@), m, PhoneNumberType::FixedLineOrMobile) == len_class(ilen(phone_number@), m, PhoneNumberType::Mobile));
        }
    }
@after actual_length
    proof {
        let t = phone_number_type; let m = phone_metadata;
        assert(forall|x: i32| #[trigger] possible_lengths@.contains(x) <==> declared(m, t, x));
        lem_len_class(possible_lengths@, actual_length, m, t);
        assert(forall|x: i32| #[trigger] local_lengths@.contains(x) <==> declared_local(m, t, x));
    }
@@fn test_number_length_with_unknown_type
@spec
    requires md_ok(phone_metadata),
    ensures r == len_class(ilen(phone_number@), phone_metadata, PhoneNumberType::Unknown),
@@fn PhoneNumberUtilInternal::is_possible_number_for_type_with_reason
@spec
    requires wf(self),
    ensures r == possible_class(self, phone_number, phone_number_type),
@@fn PhoneNumberUtilInternal::is_possible_number_with_reason
@spec
    requires wf(self),
    ensures r == possible_class(self, phone_number, PhoneNumberType::Unknown),
@@fn PhoneNumberUtilInternal::is_possible_number_for_type
@spec
    requires wf(self),
    ensures r == (possible_class(self, phone_number, phone_number_type) is Ok),
@@fn PhoneNumberUtilInternal::is_possible_number
@spec
    requires wf(self),
    ensures r == (possible_class(self, phone_number, PhoneNumberType::Unknown) is Ok),
@@fn PhoneNumberUtilInternal::truncate_too_long_number
@spec
    requires wf(self),
    ensures r is Ok,
        valid(self, &*old(phone_number)) ==> r->Ok_0 && *final(phone_number) == *old(phone_number),
        !valid(self, &*old(phone_number)) ==> match trunc_from(self, &*old(phone_number), old(phone_number).s_national_number()) {
            Some(m) => r->Ok_0 && *final(phone_number) == with_nat(&*old(phone_number), m),
            None => !r->Ok_0 && *final(phone_number) == *old(phone_number) },
@loop 0
    invariant_except_break
        number_copy == (PhoneNumber { national_number: number_copy.national_number, ..*old(phone_number) }),
        *phone_number == *old(phone_number),
        trunc_from(self, &*old(phone_number), old(phone_number).s_national_number()) == trunc_from(self, &*old(phone_number), national_number),
    invariant
        *phone_number == *old(phone_number),
    ensures trunc_from(self, &*old(phone_number), old(phone_number).s_national_number()) == Some(national_number),
    decreases national_number,
@@fn copy_core_fields_only
@spec
    ensures r.country_code == Some(from_number.s_country_code()), r.national_number == Some(from_number.s_national_number()),
        r.s_extension() == from_number.s_extension(), r.extension is Some <==> from_number.s_extension().len() > 0,
        from_number.s_italian_leading_zero() ==> r.italian_leading_zero == Some(true) && r.number_of_leading_zeros == Some(from_number.s_number_of_leading_zeros()),
        !from_number.s_italian_leading_zero() ==> r.italian_leading_zero is None && r.number_of_leading_zeros is None,
        r.raw_input is None, r.country_code_source is None, r.preferred_domestic_carrier_code is None,
@start
    broadcast use gstr;
@@fn is_national_number_suffix_of_the_other
@spec
    ensures r == (dec_suffix(first_number, second_number) || dec_suffix(second_number, first_number)),
@@fn PhoneNumberUtilInternal::is_number_match
@spec
    ensures r == match_of(first_number_in, second_number_in),
@@fn prefix_number_with_country_calling_code
@spec
    ensures final(formatted_number)@ == with_code(country_calling_code, number_format, old(formatted_number)@),
@@fn normalize_helper
@spec
    ensures r@ == map_chars(normalization_replacements.m(), remove_non_matches, phone_number@),
@start
    proof { reveal_with_fuel(map_chars, 2); }
@loop 0
    invariant
        it0.rem().len() <= it0_all.len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        normalized_number@ == map_chars(normalization_replacements.m(), remove_non_matches, it0_all.subrange(0, it0_all.len() - it0.rem().len())),
    ensures it0.rem().len() == 0,
    decreases it0.rem().len(),
@body 0
    let ghost k0 = it0_all.len() - it0.rem().len();
    proof { if it0.rem().len() > 0 { let t = it0_all.subrange(0, k0 + 1); assert(t.drop_last() =~= it0_all.subrange(0, k0)); assert(t.last() == it0.rem()[0]);
        assert(it0.rem().subrange(1, it0.rem().len() as int) =~= it0_all.subrange(k0 + 1, it0_all.len() as int));
        assert(map_chars(normalization_replacements.m(), remove_non_matches, it0_all.subrange(0, k0)) + Seq::empty() =~= map_chars(normalization_replacements.m(), remove_non_matches, it0_all.subrange(0, k0)));
        assert(forall|c: char| #![trigger normalized_number@.push(c)] normalized_number@ + seq![c] =~= normalized_number@.push(c)); }
      else { assert(it0_all.subrange(0, it0_all.len() as int) =~= it0_all); } }
