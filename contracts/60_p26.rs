// P26: invalid examples are invalid; examples come from a plan that has one
pub proof fn p26_invalid(u: &Util, region: Str, p: PhoneNumber) requires invalid_ex(u, region, Ok(p)) ensures !valid(u, &p), rmap(u).dom().contains(region),
    exists|t: Str| #[trigger] is_pre(t, rmap(u)[region].fixed_line.s_example_number()) && parse_core(u, t, region, true) is Ok && num_of(parse_core(u, t, region, true)->Ok_0, t, false, &p) {}
pub proof fn p26_unknown(u: &Util, region: Str, ty: PhoneNumberType, r: ExampleNumberResult, q: ExampleNumberResult) requires !rmap(u).dom().contains(region), invalid_ex(u, region, r), ex_for(u, region, ty, q) ensures r is Err, q is Err {}
pub proof fn p26_region(u: &Util, region: Str, ty: PhoneNumberType, p: PhoneNumber) requires ex_for(u, region, ty, Ok(p)) ensures desc_of(&rmap(u)[region], ty).h_example_number(),
    ({ let t = desc_of(&rmap(u)[region], ty).s_example_number(); parse_core(u, t, region, true) is Ok && num_of(parse_core(u, t, region, true)->Ok_0, t, false, &p) }) {}
pub proof fn p26_any(u: &Util, ty: PhoneNumberType, p: PhoneNumber) requires ex_type(u, ty, Ok(p))
    ensures (exists|rc: Str| #[trigger] rmap(u).dom().contains(rc) && desc_of(&rmap(u)[rc], ty).h_example_number()) || (exists|cc: i32| #[trigger] ngmap(u).dom().contains(cc) && desc_of(&ngmap(u)[cc], ty).h_example_number()) {}
pub proof fn p26_ng(u: &Util, cc: i32, ds: Seq<PhoneNumberDesc>, p: PhoneNumber) requires ex_ng(u, cc, ds, Ok(p)) ensures exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).h_example_number() decreases ds.len()
{ if ds.len() > 0 && !ds[0].h_example_number() { let e = ds.subrange(1, ds.len() as int); p26_ng(u, cc, e, p); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).h_example_number(); assert(ds[i + 1] == e[i]); } }
