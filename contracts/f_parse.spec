@@fn PhoneNumberUtilInternal::normalize
@spec
    ensures r@ == norm(self, phone_number@),
@@fn PhoneNumberUtilInternal::convert_alpha_characters_in_number
@spec
    ensures r@ == map_chars(alpha_map(self), false, phone_number@),
@@fn PhoneNumberUtilInternal::is_phone_context_valid
@spec
    ensures r == ctx_valid(self, phone_context@),
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::extract_phone_context
@spec
    requires str_find(number_to_extract_from@, ctx_mark()) is Some, index_of_phone_context == bo(number_to_extract_from@, str_find(number_to_extract_from@, ctx_mark())->0),
    ensures r@ == context_of(number_to_extract_from@, str_find(number_to_extract_from@, ctx_mark())->0),
@start
    broadcast use {gstr, lem_find_end};
    proof { let s = number_to_extract_from@; let k = str_find(s, ctx_mark())->0; let e = k + ctx_mark().len(); cb_end(s); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());
        bo_end(s); lem_bo_add(s, e, s.len() as int); bl_lower(s.subrange(e, s.len() as int));
        assert(str_find(Seq::<char>::empty(), seq![';']) is None);
        if str_find(s.subrange(e, s.len() as int), seq![';']) is Some { lem_cut_find(s, e, seq![';']); let j = str_find(s.subrange(e, s.len() as int), seq![';'])->0; assert(s.subrange(e, s.len() as int).subrange(0, j) =~= s.subrange(e, e + j)); } }
@@fn PhoneNumberUtilInternal::trim_unwanted_end_chars
@spec
    ensures r@ == trim_end(self, phone_number@),
@start
    hide(bl); broadcast use gstr; proof { cb_end(phone_number@); bo_end(phone_number@); assert(phone_number@.subrange(0, phone_number@.len() as int) =~= phone_number@); }
@loop 0
    invariant
        0 <= it0.rem().len() <= it0_all.len(), it0_all == phone_number@.reverse(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        bytes_to_trim as nat == bl(phone_number@.subrange(it0.rem().len() as int, phone_number@.len() as int)),
        bytes_to_trim + bo(phone_number@, it0.rem().len() as int) == bl(phone_number@), is_ci(phone_number@, bl(phone_number@) - bytes_to_trim, it0.rem().len() as int),
        trim_end(self, phone_number@) == trim_end(self, phone_number@.subrange(0, it0.rem().len() as int)),
    ensures trim_end(self, phone_number@) == phone_number@.subrange(0, it0.rem().len() as int),
        it0.rem().len() <= phone_number@.len(), is_ci(phone_number@, bl(phone_number@) - bytes_to_trim, it0.rem().len() as int), bytes_to_trim <= bl(phone_number@), bytes_to_trim == 0 ==> it0.rem().len() == phone_number@.len(),
    decreases it0.rem().len(),
@body 0
    proof { let n = it0.rem().len() as int; let s = phone_number@; if n > 0 { assert(it0.rem()[0] == s[n - 1]); lem_trim_step(s, n);
        assert(it0.rem().subrange(1, n) =~= it0_all.subrange(it0_all.len() - (n - 1), it0_all.len() as int)); }
      else { assert(s.subrange(0, 0) =~= Seq::<char>::empty()); } }
@@fn PhoneNumberUtilInternal::extract_possible_number
@spec
    ensures match r { Ok(x) => extract_possible(self, phone_number@) == Ok::<Str, ExtractNumberError>(x@), Err(e) => extract_possible(self, phone_number@) == Err::<Str, ExtractNumberError>(e) },
@start
    broadcast use {gstr, gre}; proof { cb_zero(phone_number@); cb_end(phone_number@); bo_end(phone_number@); }
@loop 0
    invariant
        0 <= it0.rem().len() <= it0_all.len(), it0_all == phone_number@, it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        is_ci(phone_number@, i as int, it0_all.len() - it0.rem().len()),
        first_start(self, phone_number@, 0) == first_start(self, phone_number@, it0_all.len() - it0.rem().len()),
    ensures is_ci(phone_number@, i as int, first_start(self, phone_number@, 0)),
    decreases it0.rem().len(),
@body 0
    proof { let s = phone_number@; let k = s.len() - it0.rem().len(); if k < s.len() { assert(it0.rem()[0] == s[k]);
        lem_bo_add(s, k, k + 1); assert(s.subrange(k, k + 1) =~= seq![s[k]]); assert(bl(seq![s[k]]) == clen(s[k])) by { reveal_with_fuel(bl, 2); assert(seq![s[k]].drop_last() =~= Seq::<char>::empty()); }
        lem_bo_add(s, k + 1, s.len() as int);
        assert(it0.rem().subrange(1, it0.rem().len() as int) =~= it0_all.subrange(k + 1, it0_all.len() as int)); } }
@@fn PhoneNumberUtilInternal::build_national_number_for_parsing
@spec
    ensures match r { Ok(x) => build_nat(self, number_to_parse@) == Ok::<Str, PErr>(x@), Err(e) => build_nat(self, number_to_parse@) == Err::<Str, PErr>(e) },
@start
    broadcast use {gstr, lem_find_end}; proof { cb_zero(number_to_parse@); reveal_strlit("tel:"); reveal_strlit("+");
        let t = number_to_parse@; match str_find(t, ctx_mark()) { Some(k) => { let h = t.subrange(0, k);
            assert(h.subrange(0, h.len() as int) =~= h);
            match str_find(h, "tel:"@) { Some(j) => { assert(bo(h, j + 4) == bo(t, j + 4)) by { assert(h.subrange(0, j + 4) =~= t.subrange(0, j + 4)); } lem_bo_add(t, j + 4, k); assert(h.subrange(j + 4, k) =~= t.subrange(j + 4, k)); }, None => {} } }, None => {} } }
@after index_of_isdn
    proof { let t = number_to_parse@; let nn = national_number@; match str_find(t, ctx_mark()) { Some(k) => { let c = context_of(t, k); let h = t.subrange(0, k);
            let body = match str_find(h, "tel:"@) { Some(j) => h.subrange(j + 4, k), None => h };
            assert(is_pre("+"@, c) ==> nn =~= c + body); assert(!is_pre("+"@, c) ==> nn =~= body); assert(!is_pre("+"@, c) ==> nn =~= Seq::empty() + body); }, None => { assert(extract_possible(self, t) == Ok::<Str, ExtractNumberError>(nn)); } }
        assert(build_nat(self, t) == Ok::<Str, PErr>(up_to(nn, ";isub="@)));
        match str_find(nn, ";isub="@) { Some(j) => { reveal_strlit(";isub="); bl_lower(";isub="@); assert(ci(nn, bo(nn, j) as int) == j); assert(bo(nn, j) < bl(nn)); }, None => {} } }
@@fn PhoneNumberUtilInternal::check_region_for_parsing
@spec
    ensures r == (rmap(self).dom().contains(default_region@) || number_to_parse@.len() == 0 || re_start(plus_pat(self), number_to_parse@)),
@start
    broadcast use gstr;
@@fn PhoneNumberUtilInternal::parse_prefix_as_idd
@spec
    ensures match r { Some(x) => idd_rest(idd_pattern.pat(), phone_number@) == Some(x@), None => idd_rest(idd_pattern.pat(), phone_number@) is None },
@start
    broadcast use {gstr, gre};
@loop 0
    invariant
        0 <= it0.rem().len() <= it0_all.len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        first_dec(it0_all) == first_dec(it0.rem()), vr0 is None,
    ensures match vr0 { Some(c) => first_dec(it0_all) == dec_val(c) && dec_val(c) is Some, None => first_dec(it0_all) is None },
    decreases it0.rem().len(),
@@fn PhoneNumberWithCountryCodeSource::new
@spec
    ensures r.phone_number == phone_number, r.country_code_source == country_code_source,
@@fn PhoneNumberUtilInternal::maybe_strip_international_prefix_and_normalize
@spec
    requires re_ok(possible_idd_prefix@),
    ensures r is Ok, r->Ok_0.phone_number.sv() == strip_idd(self, phone_number@, possible_idd_prefix@).0, r->Ok_0.country_code_source == strip_idd(self, phone_number@, possible_idd_prefix@).1,
@start
    broadcast use {gstr, gre};
@@fn PhoneNumberUtilInternal::extract_country_code
@spec
    requires wf_tab(self), all_dig(national_number.sv()), national_number.sv().len() == 0 || national_number.sv().len() >= 3,
    ensures match r { Some(x) => split_cc(self, national_number.sv()) == Some((x.0.sv(), x.1)), None => split_cc(self, national_number.sv()) is None },
@start
    broadcast use gstr; proof { lem_zz(); let s = national_number.sv(); reveal_strlit(""); assert(seq!['0'].len() == 1);
        if s.len() > 0 { assert(is_pre(seq!['0'], s) <==> s[0] == '0') by { if s[0] == '0' { assert(s.subrange(0, 1) =~= seq!['0']); } else { assert(s.subrange(0, 1)[0] == s[0]); } } }
        assert forall|i: int| 0 <= i <= 3 && i <= s.len() implies is_ci(s, i, i) && all_dig(#[trigger] s.subrange(0, i)) && 0 <= parse_dec(s.subrange(0, i)) < 1000 && is_cb(s, i) && ci(s, i) == i by { lem_sub_dig(s, 0, i); bo_ascii(s, i); lem_parse_dec(s.subrange(0, i)); lem_pow3(i as nat); } }
@loop 0
    invariant
        // the groups still to try are those of k..=3 digits, k = 4 - (number of them)
        it0.rem().len() <= 4, forall|j: int| 0 <= j < it0.rem().len() ==> #[trigger] it0.rem()[j] == 4 - it0.rem().len() + j,
        ({ let k = 4 - it0.rem().len(); cc_scan(self, national_number.sv(), 1) == cc_scan(self, national_number.sv(), if k == 0 { 1 } else { k }) }),
    ensures cc_scan(self, national_number.sv(), 1) is None,
    decreases it0.rem().len(),
@body 0
    proof { let s = national_number.sv(); let k = 4 - it0.rem().len(); if k < 4 { assert(it0.rem()[0] == k); assert(s.subrange(0, k).len() == k); assert(s.subrange(0, 0).len() == 0); assert(is_ci(s, k, k)); } }
@@fn PhoneNumberUtilInternal::maybe_strip_national_prefix_and_carrier_code
@spec
    requires md_ok(metadata),
    ensures r is Ok, r->Ok_0.0.sv() == strip_np(metadata, phone_number@).0, match r->Ok_0.1 { Some(c) => strip_np(metadata, phone_number@).1 == Some(c@), None => strip_np(metadata, phone_number@).1 is None },
@start
    broadcast use {gstr, gre};
@@fn PhoneNumberUtilInternal::get_italian_leading_zeros_for_phone_number
@spec
    requires all_dig(national_number@),
    ensures match r { Some(z) => z == zeros_of(national_number@) && z > 0, None => zeros_of(national_number@) == 0 },
@start
    broadcast use gstr; proof { lem_lead0(national_number@); }
@loop 0
    invariant
        0 <= it0.rem().len() <= it0_all.len(), it0_all == national_number@, it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        vr0 == it0_all.len() - it0.rem().len(), lead0(it0_all) == vr0 + lead0(it0.rem()),
    ensures vr0 == lead0(it0_all),
    decreases it0.rem().len(),
@@fn PhoneNumberUtilInternal::maybe_extract_country_code
@spec
    requires wf(self), match default_region_metadata { Some(m) => md_ok(m), None => true },
    ensures
        match r { Ok(c) => country(self, default_region_metadata, national_number@) is Ok && c.sv() == (country(self, default_region_metadata, national_number@)->Ok_0).nat
                && final(phone_number).country_code == Some((country(self, default_region_metadata, national_number@)->Ok_0).cc)
                && (keep_raw_input ==> final(phone_number).h_country_code_source() && final(phone_number).s_country_code_source() == (country(self, default_region_metadata, national_number@)->Ok_0).src),
            Err(e) => country(self, default_region_metadata, national_number@) == Err::<Split, PErr>(e) },
        *final(phone_number) == (PhoneNumber { country_code: final(phone_number).country_code, country_code_source: final(phone_number).country_code_source, ..*old(phone_number) }),
        !keep_raw_input ==> final(phone_number).country_code_source == old(phone_number).country_code_source,
@start
    broadcast use {gstr, gre}; proof { lem_strip_idd_dig(self, national_number@, intl_prefix(default_region_metadata)); }
@@fn PhoneNumberUtilInternal::parse_helper
@attr
    #[verifier::rlimit(60)]
@spec
    requires wf(self),
    ensures parsed(self, number_to_parse@, default_region@, keep_raw_input, check_region, r),
@start
    hide(country); hide(strip_np); hide(len_class); hide(ext_split); hide(build_nat); hide(viable); hide(zeros_of); hide(strip_idd); hide(all_dig); hide(parse_dec); hide(wf_tab); hide(all_ascii); hide(bl); hide(bo); hide(wf_md); hide(wf_re); hide(md_ok); hide(parse_core); hide(opt_text); hide(national); hide(after_match);
    proof { lem_pc_early(self, number_to_parse@, default_region@, check_region); }
@after national_number
    let ghost gb = national_number@; proof { assert(build_nat(self, number_to_parse@) == Ok::<Str, PErr>(gb)); assert(viable(self, gb) ==> gb.len() > 0) by { reveal(viable); reveal(bl); } }
@after country_metadata
    proof { lem_plan_ok(self, default_region@); lem_after_find(plus_pat(self), national_number@); reveal(wf_re); }
    let ghost gs = national_number@; let ghost ge = ext_split(self, gb).1; let ghost gh = home(self, default_region@); let ghost tn = temp_number;
    proof { assert(gs == ext_split(self, gb).0); assert(country_metadata == oref(&gh));
        assert(pc_at(self, number_to_parse@, default_region@, check_region, gb)); lem_pc_country(self, number_to_parse@, default_region@, check_region, gb, gh); }
@after plus_match
    proof { if plus_match is Some { ci_uniq(gs, (plus_match->0).b as int, (re_find(plus_pat(self), gs)->0).1); } }
@after normalized_national_number
    proof { assert(re_start(plus_pat(self), gs)); assert(normalized_national_number@ == after_match(plus_pat(self), gs)) by { reveal(after_match); } }
@after country_code
    let ghost gn = normalized_national_number.sv(); let ghost gx = country2(self, oref(&gh), gs)->Ok_0;
    proof { lem_plan_ok2(self, default_region@, gx.cc); let h = oref(&gh); if country(self, h, gs) is Ok { lem_country_dig(self, h, gs); } else { lem_country_dig(self, h, after_match(plus_pat(self), gs)); }
        assert(country2(self, h, gs) is Ok && gx.nat == gn && temp_number.country_code == Some(gx.cc)) by { reveal(country2); } assert(all_dig(gn)); lem_dig_len(gn);
        assert(opt_text(temp_number.extension, ge)) by { reveal(opt_text); } assert(opt_text(temp_number.raw_input, if keep_raw_input { Some(number_to_parse@) } else { None })) by { reveal(opt_text); }
        assert(temp_number.h_country_code_source() == keep_raw_input && (keep_raw_input ==> temp_number.s_country_code_source() == gx.src));
        assert(temp_number.italian_leading_zero is None && temp_number.number_of_leading_zeros is None && temp_number.preferred_domestic_carrier_code is None); }
@after normalized_national_number_length
    let ghost gp = plan_for(self, default_region@, gx.cc); let ghost gy = national(self, gp, gn);
    proof { assert(country_metadata == oref(&gp)) by { reveal(plan_for); }
        match gp { Some(m) => { lem_strip_np_dig(&m, gn); }, None => {} }
        let nn = normalized_national_number.sv(); assert(nn == gy.0) by { reveal(national); } assert(all_dig(nn)); lem_dig_len(nn);
        assert(opt_text(temp_number.preferred_domestic_carrier_code, if keep_raw_input { gy.1 } else { None })) by { reveal(opt_text); reveal(national); }
        assert(country_code == (if gx.cc != 0 { gx.cc } else { match gh { Some(m) => m.s_country_code(), None => 0 } }));
        lem_pc_end(self, number_to_parse@, default_region@, check_region, gb, gh, gx); }
@@fn PhoneNumberUtilInternal::parse
@spec
    requires wf(self),
    ensures parsed(self, number_to_parse@, default_region@, false, true, r),
@@fn PhoneNumberUtilInternal::parse_and_keep_raw_input
@spec
    requires wf(self),
    ensures parsed(self, number_to_parse@, default_region@, true, true, r),
