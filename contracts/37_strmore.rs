// ===== further std string and character operations (trusted specifications) =====
pub open spec fn up_seq(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upc(c)) }
pub open spec fn low_seq(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lowc(c)) }
pub trait VStrCase { spec fn cs(&self) -> Seq<char>;
    fn v_to_ascii_uppercase(&self) -> (r: String) ensures r@ == up_seq(self.cs());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == low_seq(self.cs());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (low_seq(self.cs()) == low_seq(o@));
    fn v_is_ascii(&self) -> (r: bool) ensures r == all_ascii(self.cs()); }
impl VStrCase for str { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() } }
impl VStrCase for String { open spec fn cs(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii(&self) -> (r: bool) { unimplemented!() } }
// Unicode white space, letters, numbers: fixed for ASCII, otherwise uninterpreted
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn is_letter(c: char) -> bool;
pub uninterp spec fn is_numr(c: char) -> bool;
pub open spec fn is_aletter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub broadcast axiom fn ax_ws(c: char) ensures is_ascii_c(c) ==> (#[trigger] is_ws(c) == (c == ' ' || (9 <= c as u32 && c as u32 <= 13)));
pub broadcast axiom fn ax_letter(c: char) ensures is_ascii_c(c) ==> (#[trigger] is_letter(c) == is_aletter(c));
pub broadcast axiom fn ax_numr(c: char) ensures is_ascii_c(c) ==> (#[trigger] is_numr(c) == is_dig(c)), dec_val(c) is Some ==> is_numr(c);
pub trait VCharCls { spec fn cv(&self) -> char;
    fn v_is_whitespace(&self) -> (r: bool) ensures r == is_ws(self.cv());
    fn v_is_alphabetic(&self) -> (r: bool) ensures r == is_letter(self.cv());
    fn v_is_numeric(&self) -> (r: bool) ensures r == is_numr(self.cv());
    fn v_is_alphanumeric(&self) -> (r: bool) ensures r == (is_letter(self.cv()) || is_numr(self.cv()));
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_aletter(self.cv());
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_aletter(self.cv()) || is_dig(self.cv()));
    fn v_is_ascii_uppercase(&self) -> (r: bool) ensures r == ('A' <= self.cv() && self.cv() <= 'Z');
    fn v_is_ascii_lowercase(&self) -> (r: bool) ensures r == ('a' <= self.cv() && self.cv() <= 'z'); }
impl VCharCls for char { open spec fn cv(&self) -> char { *self }
    #[verifier::external_body] fn v_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_numeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() } }
pub open spec fn ws_front(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { ws_front(s.subrange(1, s.len() as int)) } else { s } }
pub open spec fn ws_back(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { ws_back(s.drop_last()) } else { s } }
#[verifier::external_body] pub fn v_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ws_back(ws_front(s@)) { unimplemented!() }
#[verifier::external_body] pub fn v_trim_start<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ws_front(s@) { unimplemented!() }
#[verifier::external_body] pub fn v_trim_end<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ws_back(s@) { unimplemented!() }
// the pieces of s between the occurrences of a (non-empty) pattern
pub open spec fn pieces(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    match str_find(s, p) { None => seq![s], Some(k) => if p.len() == 0 || k < 0 || k + p.len() > s.len() { seq![s] } else { seq![s.subrange(0, k)] + pieces(s.subrange(k + p.len(), s.len() as int), p) } } }
#[verifier::external_body] pub fn v_split<'a, P: VPat>(s: &'a str, p: P) -> (r: VIt<&'a str>)
    ensures p.pv().len() > 0 ==> r.rem().len() == pieces(s@, p.pv()).len() && forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i])@ == pieces(s@, p.pv())[i] { unimplemented!() }
#[verifier::external_body] pub fn v_split_once<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures match str_find(s@, p.pv()) { None => r is None, Some(k) => r matches Some(x) && x.0@ == s@.subrange(0, k) && x.1@ == s@.subrange(k + p.pv().len(), s@.len() as int) } { unimplemented!() }
#[verifier::external_body] pub fn v_rsplit_once<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures match rfind_to(s@, p.pv(), s@.len() as int) { None => r is None, Some(k) => r matches Some(x) && x.0@ == s@.subrange(0, k) && x.1@ == s@.subrange(k + p.pv().len(), s@.len() as int) } { unimplemented!() }
