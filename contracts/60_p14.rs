// P14: the region is the first listed one that claims the number
pub proof fn p14_first_claiming(u: &Util, p: &PhoneNumber) requires wf(u)
    ensures !cc_known(u, p.s_country_code()) ==> region_for(u, p) == zz(),
        cc_known(u, p.s_country_code()) && regions(u, p.s_country_code()).len() == 1 ==> region_for(u, p) == regions(u, p.s_country_code())[0],
        cc_known(u, p.s_country_code()) && regions(u, p.s_country_code()).len() > 1 ==> {
            let rs = regions(u, p.s_country_code());
            (exists|j: int| 0 <= j < rs.len() && region_for(u, p) == #[trigger] rs[j] && claims(u, nsn(p), rs[j]) && (forall|k: int| 0 <= k < j ==> !claims(u, nsn(p), #[trigger] rs[k])))
            || (region_for(u, p) == zz() && forall|k: int| 0 <= k < rs.len() ==> !claims(u, nsn(p), #[trigger] rs[k])) },
{
    if cc_known(u, p.s_country_code()) { lem_first_claim(u, nsn(p), regions(u, p.s_country_code()), 0); assert(cc_at(u, p.s_country_code(), cc_idx(u, p.s_country_code()))); }
}
