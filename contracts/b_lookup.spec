@@fn RegionCode::get_unknown
@spec
    ensures r@ == zz(),
@@fn RegionCode::zz
@spec
    ensures r@ == zz(),
@@fn PhoneNumberUtilInternal::is_nanpa_country
@spec
    requires wf_tab(self),
    ensures r == listed(self, 1, region_code@),
@@fn PhoneNumberUtilInternal::get_country_code_for_region
@spec
    ensures match r { Some(c) => rmap(self).dom().contains(region_code@) && c == rmap(self)[region_code@].s_country_code(), None => !rmap(self).dom().contains(region_code@) },
@@fn PhoneNumberUtilInternal::get_metadata_for_region
@spec
    ensures match r { Some(m) => rmap(self).dom().contains(region_code@) && *m == rmap(self)[region_code@], None => !rmap(self).dom().contains(region_code@) },
@@fn PhoneNumberUtilInternal::get_metadata_for_region_or_calling_code
@spec
    ensures match r { Some(m) => md_has(self, country_calling_code, region_code@) && *m == md_get(self, country_calling_code, region_code@), None => !md_has(self, country_calling_code, region_code@) },
@@fn PhoneNumberUtilInternal::has_valid_country_calling_code
@spec
    requires wf_tab(self),
    ensures r == cc_known(self, country_calling_code),
@start
    proof { assert forall|i: int| 0 <= i < tab(self).len() && #[trigger] tab(self)[i].0 == country_calling_code implies cc_at(self, country_calling_code, i) by {} }
@@fn PhoneNumberUtilInternal::get_region_codes_for_country_calling_code
@spec
    requires wf_tab(self),
    ensures match r { Some(it) => cc_known(self, country_calling_code) && views(it.rem()) =~= regions(self, country_calling_code),
            None => !cc_known(self, country_calling_code) },
@start
    proof { assert forall|i: int| 0 <= i < tab(self).len() && #[trigger] tab(self)[i].0 == country_calling_code implies cc_at(self, country_calling_code, i) && cc_idx(self, country_calling_code) == i
        by { lem_cc_uniq(self, country_calling_code, i); } }
@@fn PhoneNumberUtilInternal::get_region_code_for_country_code
@spec
    requires wf_tab(self),
    ensures r@ == main_region(self, country_calling_code),
@@fn PhoneNumberUtilInternal::get_supported_regions
@spec
    ensures forall|i: int| 0 <= i < r.rem().len() ==> rmap(self).dom().contains(#[trigger] r.rem()[i]@),
        forall|k: Str| #[trigger] rmap(self).dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && #[trigger] r.rem()[i]@ == k,
@@fn PhoneNumberUtilInternal::get_supported_global_network_calling_codes
@spec
    ensures forall|i: int| 0 <= i < r.rem().len() ==> ngmap(self).dom().contains(#[trigger] r.rem()[i]),
        forall|k: i32| #[trigger] ngmap(self).dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && #[trigger] r.rem()[i] == k,
@@fn PhoneNumberUtilInternal::get_national_significant_number
@spec
    ensures r@ == nsn(phone_number),
@start
    broadcast use gstr; proof { reveal_strlit("0"); reveal_strlit(""); }
@exit
@@fn PhoneNumberUtilInternal::get_region_code_for_number_from_region_list
@spec
    requires wf(self), forall|i: int| 0 <= i < region_codes.rem().len() ==> rmap(self).dom().contains(#[trigger] views(region_codes.rem())[i]),
    ensures r is Ok, match r->Ok_0 { Some(s) => first_claim(self, nsn(phone_number), views(region_codes.rem()), 0) == Some(s@), None => first_claim(self, nsn(phone_number), views(region_codes.rem()), 0) is None },
@loop 0
    invariant
        0 <= it0_all.len() - it0.rem().len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        it0_all == region_codes.rem(),
        first_claim(self, national_number@, views(it0_all), 0) == first_claim(self, national_number@, views(it0_all), it0_all.len() - it0.rem().len()),
    ensures first_claim(self, national_number@, views(it0_all), 0) is None,
    decreases it0.rem().len(),
@@fn PhoneNumberUtilInternal::get_region_code_for_number
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0@ == region_for(self, phone_number),
@@fn PhoneNumberUtilInternal::get_number_type
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == type_for(self, phone_number),
@@fn PhoneNumberUtilInternal::is_valid_number_for_region
@spec
    requires wf(self),
    ensures r == valid_in(self, phone_number, region_code@),
@@fn PhoneNumberUtilInternal::is_valid_number
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == valid(self, phone_number),
@@fn PhoneNumberUtilInternal::can_be_internationally_dialled
@spec
    requires wf(self),
    ensures r is Ok, r->Ok_0 == can_dial(self, phone_number),
