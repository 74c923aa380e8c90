// ===== the public wrapper layer, string matching, example numbers =====
pub open spec fn is_alpha(u: &Util, t: Str) -> bool { viable(u, t) && re_whole(u.reg_exps.valid_alpha_phone_pattern.pat(), ext_split(u, t).0) }
pub proof fn lem_core_err(u: &Util, text: Str, region: Str, check: bool) ensures match parse_core(u, text, region, check) { Err(e) => e is FailedToParse, Ok(_) => true } {}
pub open spec fn parsed_pub(u: &Util, text: Str, region: Str, keep: bool, r: Result<PhoneNumber, ParseError>) -> bool {
    match r { Ok(p) => parse_core(u, text, region, true) is Ok && num_of(parse_core(u, text, region, true)->Ok_0, text, keep, &p), Err(e) => parse_core(u, text, region, true) == Err::<Core, PErr>(PErr::FailedToParse(e)) } }
// P15: comparing texts
pub open spec fn match_res(r: MatchResult, p: &PhoneNumber, c: Result<Core, PErr>, t: Str, weak: bool) -> bool { match c {
    Ok(x) => r is Ok && forall|q: PhoneNumber| #[trigger] num_of(x, t, false, &q) ==> r->Ok_0 == (if weak && match_of(p, &q) == MatchType::ExactMatch { MatchType::NsnMatch } else { match_of(p, &q) }),
    Err(e) => r is Err && Some(r->Err_0) == inv_err(e) } }
pub open spec fn inv_err(e: PErr) -> Option<InvalidNumberErrorInternal> { match e { PErr::FailedToParse(x) => Some(InvalidNumberErrorInternal::InvalidNumber(InvalidNumberError(x))), _ => None } }
pub open spec fn one_text(u: &Util, p: &PhoneNumber, t: Str, r: MatchResult) -> bool {
    let a = parse_core(u, t, zz(), true); let home = main_region(u, p.s_country_code());
    if a is Ok || !bad_cc(a->Err_0) { match_res(r, p, a, t, false) }
    else if home != zz() { match_res(r, p, parse_core(u, t, home, true), t, true) }
    else { match_res(r, p, parse_core(u, t, zz(), false), t, false) } }
pub open spec fn two_texts(u: &Util, s: Str, t: Str, r: MatchResult) -> bool {
    let a = parse_core(u, s, zz(), true); let b = parse_core(u, t, zz(), true);
    match a { Ok(x) => exists|p: PhoneNumber| #[trigger] num_of(x, s, false, &p) && one_text(u, &p, t, r),
        Err(e) => if !bad_cc(e) { r is Err && Some(r->Err_0) == inv_err(e) } else { match b {
            Ok(y) => exists|q: PhoneNumber| #[trigger] num_of(y, t, false, &q) && one_text(u, &q, s, r),
            Err(f) => if !bad_cc(f) { r is Err && Some(r->Err_0) == inv_err(f) } else { match parse_core(u, s, zz(), false) {
                Err(g) => r is Err && Some(r->Err_0) == inv_err(g),
                Ok(x) => exists|p: PhoneNumber| #[trigger] num_of(x, s, false, &p) && match_res(r, &p, parse_core(u, t, zz(), false), t, false) } } } } } }
pub broadcast proof fn lem_num_match(c: Core, t: Str, n: &PhoneNumber, p: &PhoneNumber, q: &PhoneNumber) requires #[trigger] num_of(c, t, false, p), #[trigger] num_of(c, t, false, q) ensures #[trigger] match_of(n, p) == match_of(n, q) {}
pub proof fn lem_wf_tab(u: &Util) requires wf(u) ensures wf_tab(u) {}
// P26: example numbers
pub type XErr = GetExampleNumberErrorInternal;
pub open spec fn x_err(e: GetExampleNumberError) -> XErr { XErr::FailedToGetExampleNumber(e) }
pub open spec fn ex_res(u: &Util, t: Str, region: Str, r: ExampleNumberResult) -> bool { match (parse_core(u, t, region, true), r) {
    (Ok(c), Ok(p)) => num_of(c, t, false, &p), (Err(PErr::FailedToParse(e)), Err(x)) => x == x_err(GetExampleNumberError::FailedToParse(e)), _ => false } }
pub open spec fn ex_for(u: &Util, region: Str, ty: PhoneNumberType, r: ExampleNumberResult) -> bool {
    if !rmap(u).dom().contains(region) { r == Err::<PhoneNumber, XErr>(x_err(GetExampleNumberError::InvalidRegionCode)) }
    else if desc_of(&rmap(u)[region], ty).h_example_number() { ex_res(u, desc_of(&rmap(u)[region], ty).s_example_number(), region, r) }
    else { r == Err::<PhoneNumber, XErr>(x_err(GetExampleNumberError::CouldNotGetNumber)) } }
pub open spec fn ex_intl(u: &Util, cc: i32, d: &PhoneNumberDesc, r: ExampleNumberResult) -> bool { d.h_example_number() && ex_res(u, "+"@ + int_digits(cc as int) + d.s_example_number(), zz(), r) }
pub open spec fn no_ex(r: ExampleNumberResult) -> bool { r == Err::<PhoneNumber, XErr>(x_err(GetExampleNumberError::CouldNotGetNumber)) }
pub open spec fn ex_fails(u: &Util, region: Str, ty: PhoneNumberType) -> bool { exists|e: XErr| ex_for(u, region, ty, Err(e)) }
pub open spec fn ex_type(u: &Util, ty: PhoneNumberType, r: ExampleNumberResult) -> bool {
    (r is Ok && exists|rc: Str| #[trigger] rmap(u).dom().contains(rc) && ex_for(u, rc, ty, r))
    || ((forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) ==> ex_fails(u, rc, ty))
        && ((exists|cc: i32| #[trigger] ngmap(u).dom().contains(cc) && ex_intl(u, cc, &desc_of(&ngmap(u)[cc], ty), r))
            || (no_ex(r) && forall|cc: i32| #[trigger] ngmap(u).dom().contains(cc) ==> !desc_of(&ngmap(u)[cc], ty).h_example_number()))) }
// the descriptions of a non-geographical plan, in the order they are tried
pub open spec fn ng_descs(m: &PhoneMetadata) -> Seq<PhoneNumberDesc> { seq![m.mobile, m.toll_free, m.shared_cost, m.voip, m.voicemail, m.uan, m.premium_rate] }
pub open spec fn ex_ng(u: &Util, cc: i32, ds: Seq<PhoneNumberDesc>, r: ExampleNumberResult) -> bool decreases ds.len() {
    if ds.len() == 0 { no_ex(r) } else if ds[0].h_example_number() { ex_intl(u, cc, &ds[0], r) } else { ex_ng(u, cc, ds.subrange(1, ds.len() as int), r) } }
pub open spec fn invalid_ex(u: &Util, region: Str, r: ExampleNumberResult) -> bool {
    &&& !rmap(u).dom().contains(region) ==> r == Err::<PhoneNumber, XErr>(x_err(GetExampleNumberError::InvalidRegionCode))
    &&& match r { Ok(p) => !valid(u, &p) && exists|t: Str| #[trigger] is_pre(t, desc_of(&rmap(u)[region], PhoneNumberType::FixedLine).s_example_number()) && parse_core(u, t, region, true) is Ok && num_of(parse_core(u, t, region, true)->Ok_0, t, false, &p),
        Err(e) => e is FailedToGetExampleNumber } }
pub open spec fn descs_at(v: Seq<&PhoneNumberDesc>) -> Seq<PhoneNumberDesc> { Seq::new(v.len(), |i: int| *v[i]) }
