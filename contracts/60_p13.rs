// P13: the lookups agree (over the contracts of the accessors, given the table invariant)
pub proof fn p13_agree(u: &Util, cc: i32, rc: Str) requires wf(u)
    ensures cc_known(u, cc) ==> regions(u, cc).len() > 0 && main_region(u, cc) == regions(u, cc)[0],
        !cc_known(u, cc) ==> main_region(u, cc) == zz() && !listed(u, cc, rc),
        rmap(u).dom().contains(rc) ==> listed(u, rmap(u)[rc].s_country_code(), rc),
        rmap(u).dom().contains(rc) && listed(u, cc, rc) ==> cc == rmap(u)[rc].s_country_code(),
        rmap(u).dom().contains(rc) && rmap(u)[rc].s_main_country_for_code() ==> main_region(u, rmap(u)[rc].s_country_code()) == rc,
        u.nanpa_regions.st().contains(rc) <==> listed(u, 1, rc),
        rmap(u).dom().contains(rc) ==> (u.nanpa_regions.st().contains(rc) <==> rmap(u)[rc].s_country_code() == 1),
{
    if cc_known(u, cc) { assert(cc_at(u, cc, cc_idx(u, cc))); }
    if rmap(u).dom().contains(rc) && listed(u, cc, rc) { let i = regions(u, cc).index_of(rc); assert(regions(u, cc)[i] == rc); }
    if rmap(u).dom().contains(rc) && listed(u, 1, rc) { let i = regions(u, 1).index_of(rc); assert(regions(u, 1)[i] == rc); }
}
