// canaries: these must NOT be provable (they show that the trusted axioms and well-formedness are not contradictory)
pub proof fn canary_axioms() ensures false { broadcast use {gstr, gvec, gre, ax_re_anch, ax_re_anch_ok}; }
pub proof fn canary_wf(u: &Util, p: &PhoneNumber, m: &PhoneMetadata, s: Str) requires wf(u), md_ok(m), cc_known(u, p.s_country_code()) ensures false { broadcast use {gstr, gvec, gre}; assert(valid(u, p) || !valid(u, p)); }
