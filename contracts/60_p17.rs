// P17: character normalization is a fixed per-character map
pub open spec fn keyed_char(c: char) -> char { if is_up(upc(c)) { keypad(upc(c)) } else { c } }
pub open spec fn letters_keyed(s: Str) -> Str { Seq::new(s.len(), |i: int| keyed_char(s[i])) }
pub open spec fn only_diall(s: Str) -> Str { s.filter(|c: char| is_diall(c)) }
pub proof fn p17_letters(u: &Util, s: Str) requires wf_re(u) ensures map_chars(alpha_map(u), false, s) == letters_keyed(s) decreases s.len()
{ reveal(maps_ok); if s.len() > 0 { p17_letters(u, s.drop_last()); assert(letters_keyed(s) =~= letters_keyed(s.drop_last()) + mapped(alpha_map(u), false, s.last())); } else { assert(letters_keyed(s) =~= s); } }
pub proof fn p17_diallable(u: &Util, s: Str) requires wf_re(u) ensures diall(u, s) == only_diall(s) decreases s.len()
{ reveal(maps_ok); reveal(Seq::filter); if s.len() > 0 { p17_diallable(u, s.drop_last()); let m = u.reg_exps.diallable_char_mappings.m(); assert(mapped(m, true, s.last()) =~= if is_diall(s.last()) { seq![s.last()] } else { Seq::empty() }); 
    assert(only_diall(s) =~= diall(u, s)); } else { assert(only_diall(s) =~= s); } }
pub proof fn p17_digits(s: Str, c: char) ensures digits_only(s.push(c)) == (match dec_val(c) { Some(d) => digits_only(s).push(dchar(d)), None => digits_only(s) }), all_dig(digits_only(s))
{ assert(s.push(c).drop_last() =~= s); lem_digits_only(s); }
pub proof fn p17_ascii_digits(s: Str) requires all_dig(s) ensures digits_only(s) == s decreases s.len()
{ broadcast use gstr; if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies is_dig(#[trigger] s.drop_last()[i]) by { assert(is_dig(s[i])); } p17_ascii_digits(s.drop_last()); assert(is_dig(s[s.len() - 1])); let d = dec_val(s.last())->0; assert(dchar(d) == s.last()); assert(digits_only(s) =~= s); } }
pub proof fn p17_keypad() ensures keyed_char('a') == '2', keyed_char('C') == '2', keyed_char('d') == '3', keyed_char('I') == '4', keyed_char('l') == '5', keyed_char('M') == '6', keyed_char('s') == '7', keyed_char('S') == '7', keyed_char('P') == '7', keyed_char('v') == '8', keyed_char('w') == '9', keyed_char('Z') == '9', keyed_char('5') == '5', keyed_char('-') == '-' {}
