// P32: a number valid for some region is a possible one
pub proof fn p32_valid_in_is_possible(u: &Util, p: &PhoneNumber, rc: Str) requires wf(u), valid_in(u, p, rc) ensures possible_class(u, p, PhoneNumberType::Unknown) is Ok
{
    let cc = p.s_country_code();
    if rc == nongeo() { assert(ngmap(u).dom().contains(cc)); assert(regions(u, cc)[0] == rc); } else { assert(rmap(u).dom().contains(rc)); assert(listed(u, cc, rc)); }
    assert(cc_known(u, cc)); assert(regions(u, cc).contains(rc)); let i = regions(u, cc).index_of(rc); assert(regions(u, cc)[i] == rc);
    let a = md_get(u, cc, rc); let b = md_get(u, cc, main_region(u, cc)); reveal(lens_main); assert(lens_in(&a, &b));
    assert(num_matches(nsn(p), &a.general_desc)); let n = ilen(nsn(p)); assert(md_ok(&a)); assert(a.general_desc.possible_length@.contains(n));
    assert(declared(&b, PhoneNumberType::Unknown, n) || declared_local(&b, PhoneNumberType::Unknown, n)); assert(!declared(&b, PhoneNumberType::Unknown, -1i32));
}
pub proof fn p32_valid_is_possible(u: &Util, p: &PhoneNumber) requires wf(u), valid(u, p) ensures possible_class(u, p, PhoneNumberType::Unknown) is Ok
{ p32_valid_in_is_possible(u, p, region_for(u, p)); }
