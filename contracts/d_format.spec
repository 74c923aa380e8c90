@@fn PhoneNumberUtilInternal::choose_formatting_pattern_for_number
@spec
    requires fmts_ok(available_formats@),
    ensures r is Ok, match r->Ok_0 { Some(f) => first_fmt(available_formats@, national_number@, 0) == Some(*f) && fmt_ok(f), None => first_fmt(available_formats@, national_number@, 0) is None },
@loop 0
    invariant
        it0_all.len() == available_formats@.len(), forall|i: int| 0 <= i < it0_all.len() ==> *(#[trigger] it0_all[i]) == available_formats@[i],
        0 <= it0_all.len() - it0.rem().len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        first_fmt(available_formats@, national_number@, 0) == first_fmt(available_formats@, national_number@, it0_all.len() - it0.rem().len()),
    ensures first_fmt(available_formats@, national_number@, 0) is None,
    decreases it0.rem().len(),
@start
    broadcast use gre;
@@fn PhoneNumberUtilInternal::format_nsn_using_pattern_with_carrier
@spec
    requires fmt_ok(formatting_pattern),
    ensures r is Ok, r->Ok_0.sv() == laid(self, national_number@, formatting_pattern, number_format, carrier_code@), r->Ok_0 is Borrowed ==> r->Ok_0.sv() == national_number@,
@start
    broadcast use {gstr, gre};
@@fn PhoneNumberUtilInternal::format_nsn_using_pattern
@spec
    requires fmt_ok(formatting_pattern),
    ensures r is Ok, r->Ok_0.sv() == laid(self, national_number@, formatting_pattern, number_format, Seq::empty()),
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@fn PhoneNumberUtilInternal::format_nsn_with_carrier
@spec
    requires md_ok(metadata),
    ensures r is Ok, r->Ok_0.sv() == nat_part(self, metadata, number@, number_format, carrier_code@), r->Ok_0 is Borrowed ==> r->Ok_0.sv() == number@,
@@fn PhoneNumberUtilInternal::format_nsn
@spec
    requires md_ok(metadata),
    ensures r is Ok, r->Ok_0.sv() == nat_part(self, metadata, phone_number@, number_format, Seq::empty()), r->Ok_0 is Borrowed ==> r->Ok_0.sv() == phone_number@,
@start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@@fn PhoneNumberUtilInternal::get_formatted_extension
@spec
    ensures match r { Some(t) => has_ext(phone_number) && t@ == ext_text(phone_number, metadata, number_format), None => !has_ext(phone_number) },
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::format
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0.sv() == formatted(self, phone_number, number_format),
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::format_by_pattern
@spec
    requires wf(self), fmts_ok(user_defined_formats@),
    ensures r is Ok, r->Ok_0@ == by_pattern(self, phone_number, number_format, user_defined_formats@),
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::format_national_number_with_carrier_code
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0@ == carrier_form(self, phone_number, carrier_code@),
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::format_national_number_with_preferred_carrier_code
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0@ == carrier_form(self, phone_number, if phone_number.s_preferred_domestic_carrier_code().len() > 0 { phone_number.s_preferred_domestic_carrier_code() } else { fallback_carrier_code@ }),
@start
    broadcast use gstr;
