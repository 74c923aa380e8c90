// P04: keeping the raw input changes nothing else
pub proof fn p04_same(u: &Util, text: Str, region: Str, check: bool, a: ParseResult<PhoneNumber>, b: ParseResult<PhoneNumber>)
    requires parsed(u, text, region, false, check, a), parsed(u, text, region, true, check, b)
    ensures a is Ok <==> b is Ok, a is Err ==> a->Err_0 == b->Err_0,
        match (a, b) { (Ok(p), Ok(q)) => { &&& p.country_code == q.country_code && p.s_national_number() == q.s_national_number() && zeros(&p) == zeros(&q) && nsn(&p) == nsn(&q)
                &&& p.h_extension() == q.h_extension() && p.s_extension() == q.s_extension()
                &&& !p.h_raw_input() && !p.h_country_code_source() && !p.h_preferred_domestic_carrier_code()
                &&& q.h_raw_input() && q.s_raw_input() == text && q.h_country_code_source() }, _ => true }
{}
