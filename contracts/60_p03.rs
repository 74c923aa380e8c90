// P03: leading zeros survive; joining what splitting produced gives the same digits
pub proof fn p03_parsed(u: &Util, text: Str, region: Str, keep: bool, check: bool, p: &PhoneNumber) requires wf(u), parsed(u, text, region, keep, check, Ok(*p))
    ensures nsn(p) == (parse_core(u, text, region, check)->Ok_0).nat
{ lem_core_dig(u, text, region, check); let c = parse_core(u, text, region, check)->Ok_0; lem_join(c.nat); lem_dig_len(c.nat); }
pub proof fn p03_round_trip(s: Str) requires all_dig(s), s.len() >= 2 ensures reps('0', zeros_of(s)) + dec_digits(parse_dec(s) as nat) == s { lem_join(s); }
pub proof fn p03_only_zeros(n: nat) requires n >= 2 ensures zeros_of(reps('0', n)) == n - 1, parse_dec(reps('0', n)) == 0
{ let s = reps('0', n); lem_lead0(s); lem_parse_zero(n); if lead0(s) < s.len() { assert(s[lead0(s) as int] == '0'); } }
