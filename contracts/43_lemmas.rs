// ===== lemmas shared by several properties =====
pub proof fn lem_first_claim(u: &Util, s: Str, rcs: Seq<Str>, i: int) requires 0 <= i
    ensures match first_claim(u, s, rcs, i) { Some(r) => exists|j: int| i <= j < rcs.len() && #[trigger] rcs[j] == r && claims(u, s, r) && (forall|k: int| i <= k < j ==> !claims(u, s, #[trigger] rcs[k])),
        None => forall|k: int| i <= k < rcs.len() ==> !claims(u, s, #[trigger] rcs[k]) }
    decreases rcs.len() - i
{ if i < rcs.len() && !claims(u, s, rcs[i]) { lem_first_claim(u, s, rcs, i + 1); } }
pub proof fn lem_zz() ensures zz() != nongeo(), zz().len() == 2, nongeo().len() == 3 { reveal_strlit("ZZ"); reveal_strlit("001"); assert(zz().len() == 2); assert(nongeo().len() == 3); }
pub proof fn lem_dec_len(n: u32) ensures dec_digits(n as nat).len() <= 10 { reveal_with_fuel(dec_digits, 11); }
pub proof fn lem_dec_digits(n: nat) ensures all_dig(dec_digits(n)), dec_digits(n).len() >= 1, n < 10 ==> dec_digits(n).len() == 1 decreases n
{ if n >= 10 { lem_dec_digits(n / 10); } let d = (n % 10) as u32; assert(d <= 9); lem_dchar(d); }
pub proof fn lem_dchar(d: u32) requires d <= 9 ensures is_dig(dchar(d)) {}
pub proof fn lem_nsn_dig(p: &PhoneNumber) ensures all_dig(nsn(p)), nsn(p).len() == zeros(p) + dec_digits(p.s_national_number() as nat).len()
{ lem_dec_digits(p.s_national_number() as nat); let z = reps('0', zeros(p)); let d = dec_digits(p.s_national_number() as nat);
  assert forall|i: int| 0 <= i < nsn(p).len() implies is_dig(#[trigger] nsn(p)[i]) by { if i < z.len() { assert(nsn(p)[i] == '0'); } else { assert(nsn(p)[i] == d[i - z.len()]); } } }
