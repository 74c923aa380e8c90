// ===== strings: characters, byte lengths, byte offsets =====
pub uninterp spec fn clen(c: char) -> nat;   // UTF-8 length of a character
pub broadcast axiom fn ax_clen(c: char)
    ensures 1 <= #[trigger] clen(c) <= 4, (c as u32) < 128 <==> clen(c) == 1;
pub open spec fn bl(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { bl(s.drop_last()) + clen(s.last()) }
}
pub open spec fn is_ascii_c(c: char) -> bool { (c as u32) < 128 }
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn all_dig(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ascii_c(#[trigger] s[i]) }
// byte offset of char index i
pub open spec fn bo(s: Seq<char>, i: int) -> nat { bl(s.subrange(0, i)) }
pub open spec fn is_ci(s: Seq<char>, b: int, i: int) -> bool { 0 <= i <= s.len() && bo(s, i) == b }
pub open spec fn is_cb(s: Seq<char>, b: int) -> bool { exists|i: int| #[trigger] is_ci(s, b, i) }
pub open spec fn ci(s: Seq<char>, b: int) -> int { choose|i: int| #[trigger] is_ci(s, b, i) }

pub proof fn bl_lower(s: Seq<char>) ensures bl(s) >= s.len() decreases s.len()
{ broadcast use ax_clen; if s.len() > 0 { bl_lower(s.drop_last()); } }
pub proof fn bl_app(s: Seq<char>, t: Seq<char>) ensures bl(s + t) == bl(s) + bl(t) decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else { bl_app(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s+t).last() == t.last()); }
}
pub proof fn bl_ascii(s: Seq<char>) requires all_ascii(s) ensures bl(s) == s.len() decreases s.len()
{ broadcast use ax_clen; if s.len() > 0 { assert(is_ascii_c(s[s.len()-1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_ascii_c(#[trigger] s.drop_last()[i]) by { assert(is_ascii_c(s[i])); } bl_ascii(s.drop_last()); } }
pub proof fn dig_ascii(s: Seq<char>) requires all_dig(s) ensures all_ascii(s)
{ assert forall|i: int| 0 <= i < s.len() implies is_ascii_c(#[trigger] s[i]) by { assert(is_dig(s[i])); } }
pub broadcast proof fn bl_dig(s: Seq<char>) requires all_dig(s) ensures #[trigger] bl(s) == s.len()
{ dig_ascii(s); bl_ascii(s); }
pub proof fn bo_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len()
    ensures bo(s, j) - bo(s, i) >= j - i, bo(s, j) == bo(s, i) + bl(s.subrange(i, j))
{
    assert(s.subrange(0, j) =~= s.subrange(0, i) + s.subrange(i, j));
    bl_app(s.subrange(0, i), s.subrange(i, j));
    bl_lower(s.subrange(i, j));
}
pub broadcast proof fn ci_uniq(s: Seq<char>, b: int, i: int) requires #[trigger] is_ci(s, b, i)
    ensures ci(s, b) == i, is_cb(s, b), 0 <= b <= bl(s)
{
    let j = ci(s, b);
    assert(is_ci(s, b, j));
    if i < j { bo_mono(s, i, j); } else if j < i { bo_mono(s, j, i); }
    bo_mono(s, i, s.len() as int); assert(s.subrange(0, s.len() as int) =~= s);
}
// used as triggers: bo terms always are boundaries
pub broadcast proof fn bo_ci(s: Seq<char>, i: int) requires 0 <= i <= s.len()
    ensures is_ci(s, #[trigger] bo(s, i) as int, i)
{ }
pub broadcast proof fn bo_end(s: Seq<char>) ensures #[trigger] bl(s) == bo(s, s.len() as int)
{ assert(s.subrange(0, s.len() as int) =~= s); }
pub broadcast proof fn bo_zero(s: Seq<char>) ensures #[trigger] bo(s, 0) == 0
{ assert(s.subrange(0, 0) =~= Seq::<char>::empty()); }
pub proof fn cb_zero(s: Seq<char>) ensures is_ci(s, 0, 0), is_cb(s, 0), ci(s, 0) == 0
{ bo_zero(s); ci_uniq(s, 0, 0); }
pub proof fn cb_end(s: Seq<char>) ensures is_ci(s, bl(s) as int, s.len() as int), is_cb(s, bl(s) as int), ci(s, bl(s) as int) == s.len()
{ bo_end(s); ci_uniq(s, bl(s) as int, s.len() as int); }
// ascii prefix: byte offset == char index
pub proof fn bo_ascii(s: Seq<char>, i: int) requires 0 <= i <= s.len(), all_ascii(s.subrange(0, i))
    ensures bo(s, i) == i, is_ci(s, i, i), is_cb(s, i), ci(s, i) == i
{ bl_ascii(s.subrange(0, i)); ci_uniq(s, i, i); }

// ---- search ----
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, i: int) -> bool {
    0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p
}
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, i: int) -> Option<int> decreases s.len() + 1 - i {
    if i < 0 || i > s.len() { None } else if occurs(s, p, i) { Some(i) } else { find_from(s, p, i + 1) }
}
pub open spec fn str_find(s: Seq<char>, p: Seq<char>) -> Option<int> { find_from(s, p, 0) }
pub proof fn find_from_is(s: Seq<char>, p: Seq<char>, i: int) requires 0 <= i
    ensures match find_from(s, p, i) {
        Some(k) => i <= k && occurs(s, p, k) && (forall|j: int| i <= j < k ==> !occurs(s, p, j)),
        None => forall|j: int| i <= j ==> !occurs(s, p, j) }
    decreases s.len() + 1 - i
{ if i <= s.len() && !occurs(s, p, i) { find_from_is(s, p, i + 1); } }
pub broadcast proof fn str_find_is(s: Seq<char>, p: Seq<char>)
    ensures match #[trigger] str_find(s, p) {
        Some(k) => 0 <= k && k + p.len() <= s.len() && occurs(s, p, k) && (forall|j: int| 0 <= j < k ==> !occurs(s, p, j)),
        None => forall|j: int| 0 <= j ==> !occurs(s, p, j) }
{ find_from_is(s, p, 0); }
pub open spec fn is_pre(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn is_suf(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn repl_all(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char> decreases s.len() {
    match str_find(s, a) {
        None => s,
        Some(k) => if a.len() == 0 || k < 0 || k + a.len() > s.len() { s } else {
            s.subrange(0, k) + b + repl_all(s.subrange(k + a.len(), s.len() as int), a, b) } }
}
pub open spec fn reps(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
// unicode decimal digit value (dec_from_char crate); ASCII digits are fixed, the table for others is trusted
pub uninterp spec fn dec_val(c: char) -> Option<u32>;
pub broadcast axiom fn ax_dec(c: char)
    ensures match #[trigger] dec_val(c) { Some(d) => d <= 9, None => true },
            is_dig(c) ==> dec_val(c) == Some((c as u32 - '0' as u32) as u32),
            is_ascii_c(c) && !is_dig(c) ==> dec_val(c) is None;
pub open spec fn dchar(d: u32) -> char { if d <= 9 { ((d + '0' as u32) as u8) as char } else { '0' } }
pub open spec fn digits_only(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { match dec_val(s.last()) {
        Some(d) => digits_only(s.drop_last()).push(dchar(d)),
        None => digits_only(s.drop_last()) } }
}
pub open spec fn lowc(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn upc(c: char) -> char { if 'a' <= c && c <= 'z' { ((c as u32 - 32) as u8) as char } else { c } }
pub open spec fn loc(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }

// ---- std string operations (trusted specifications) ----
pub trait VStr { spec fn sv(&self) -> Seq<char>; fn v_str(&self) -> (r: &str) ensures r@ == self.sv(); }
impl VStr for usize { open spec fn sv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VStr for i32 { open spec fn sv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VStr for u64 { open spec fn sv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VStr for u32 { open spec fn sv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VStr for char { open spec fn sv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn v_str(&self) -> (r: &str) { unimplemented!() } }
impl VStr for str { open spec fn sv(&self) -> Seq<char> { self@ } fn v_str(&self) -> (r: &str) { self } }
impl VStr for String { open spec fn sv(&self) -> Seq<char> { self@ } fn v_str(&self) -> (r: &str) { self.as_str() } }
impl<'a, T: VStr + ?Sized> VStr for &'a T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } fn v_str(&self) -> (r: &str) { (**self).v_str() } }
pub trait VPat { spec fn pv(&self) -> Seq<char>; }
impl VPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl VPat for str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl VPat for String { open spec fn pv(&self) -> Seq<char> { self@ } }
impl<'a, T: VPat + ?Sized> VPat for &'a T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } }

pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> VStr for Cow<'a> {
    open spec fn sv(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    fn v_str(&self) -> (r: &str) { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } }
}
impl<'a> core::ops::Deref for Cow<'a> { type Target = str; fn deref(&self) -> (r: &str) ensures r@ == self.sv() { match self { Cow::Borrowed(s) => s, Cow::Owned(s) => s.as_str() } } }
impl<'a> PartialEq for Cow<'a> { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl for Cow<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.sv() == o.sv() } }
impl<'a> Cow<'a> {
    pub fn into_owned(self) -> (r: String) ensures r@ == self.sv() { match self { Cow::Borrowed(s) => s.to_owned(), Cow::Owned(s) => s } }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self.sv() { unimplemented!() }
}

pub trait VLen { spec fn v_len_s(&self) -> nat; fn v_len(&self) -> (r: usize) ensures r as nat == self.v_len_s(), r <= isize::MAX;
  fn v_is_empty(&self) -> (r: bool) ensures r == (self.v_len_s() == 0); }
impl VLen for str { open spec fn v_len_s(&self) -> nat { bl(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl VLen for String { open spec fn v_len_s(&self) -> nat { bl(self@) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> VLen for [T] { open spec fn v_len_s(&self) -> nat { self@.len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> VLen for Vec<T> { open spec fn v_len_s(&self) -> nat { self@.len() } #[verifier::external_body] fn v_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { self.is_empty() } }
pub broadcast proof fn bl_zero(s: Seq<char>) ensures #[trigger] bl(s) == 0 <==> s.len() == 0 { bl_lower(s); }

pub trait VStrOps {
    spec fn ss(&self) -> Seq<char>;
    fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(b) => str_find(self.ss(), p.pv()) is Some && b == bo(self.ss(), str_find(self.ss(), p.pv())->0)
                                        && is_ci(self.ss(), b as int, str_find(self.ss(), p.pv())->0) && b <= bl(self.ss()) - bl(p.pv()) && bl(self.ss()) <= isize::MAX,
                          None => str_find(self.ss(), p.pv()) is None };
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_pre(p.pv(), self.ss());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_suf(p.pv(), self.ss());
    fn v_contains_str<P: VPat>(&self, p: P) -> (r: bool) ensures r == (str_find(self.ss(), p.pv()) is Some);
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => is_pre(p.pv(), self.ss()) && t@ == self.ss().subrange(p.pv().len() as int, self.ss().len() as int), None => !is_pre(p.pv(), self.ss()) };
    fn v_replace<P: VPat>(&self, p: P, w: &str) -> (r: String)
        ensures r@ == repl_all(self.ss(), p.pv(), w@), p.pv().len() > 0 ==> true;
    fn v_repeat(&self, n: usize) -> (r: String)
        ensures self.ss().len() == 1 ==> r@ == reps(self.ss()[0], n as nat), self.ss().len() == 0 ==> r@.len() == 0;
    fn v_to_string(&self) -> (r: String) ensures r@ == self.ss();
    fn v_chars(&self) -> (r: VIt<char>) ensures r.rem() == self.ss();
    fn v_slice(&self, a: usize, b: usize) -> (r: &str)
        requires is_cb(self.ss(), a as int), is_cb(self.ss(), b as int), a <= b
        ensures r@ == self.ss().subrange(ci(self.ss(), a as int), ci(self.ss(), b as int));
    fn v_slice_from(&self, a: usize) -> (r: &str)
        requires is_cb(self.ss(), a as int)
        ensures r@ == self.ss().subrange(ci(self.ss(), a as int), self.ss().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &str)
        requires is_cb(self.ss(), b as int)
        ensures r@ == self.ss().subrange(0, ci(self.ss(), b as int));
}
impl VStrOps for str {
    open spec fn ss(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains_str<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, w: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIt<char>) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
}
pub trait VStringMut {
    fn v_push_str(&mut self, s: &str) ensures final(self).msv() == old(self).msv() + s@;
    fn v_push(&mut self, c: char) ensures final(self).msv() == old(self).msv().push(c);
    fn v_clear(&mut self) ensures final(self).msv() == Seq::<char>::empty();
    fn v_truncate(&mut self, n: usize)
        requires n >= bl(old(self).msv()) || is_cb(old(self).msv(), n as int)
        ensures final(self).msv() == (if n >= bl(old(self).msv()) { old(self).msv() } else { old(self).msv().subrange(0, ci(old(self).msv(), n as int)) });
    fn v_drain(&mut self, a: usize, b: usize)
        requires a == 0, is_cb(old(self).msv(), b as int)
        ensures final(self).msv() == old(self).msv().subrange(ci(old(self).msv(), b as int), old(self).msv().len() as int);
    spec fn msv(&self) -> Seq<char>;
}
impl VStringMut for String {
    open spec fn msv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] fn v_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn v_clear(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_truncate(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn v_drain(&mut self, a: usize, b: usize) { unimplemented!() }
}
#[verifier::external_body] pub fn v_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
pub fn v_cat2(a: &str, b: &str) -> (r: String) ensures r@ == a@ + b@ { let mut s = v_string_new(); s.v_push_str(a); s.v_push_str(b); proof { assert(r_eq(s@, a@ + b@)); } s }
pub open spec fn r_eq(a: Seq<char>, b: Seq<char>) -> bool { a =~= b }
pub fn v_cat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { let mut s = v_cat2(a, b); s.v_push_str(c); s }
pub fn v_cat4(a: &str, b: &str, c: &str, d: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ { let mut s = v_cat3(a, b, c); s.v_push_str(d); s }
pub fn v_cat5(a: &str, b: &str, c: &str, d: &str, e: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ { let mut s = v_cat4(a, b, c, d); s.v_push_str(e); s }
pub fn v_cat6(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ { let mut s = v_cat5(a, b, c, d, e); s.v_push_str(f); s }
pub fn v_cat7(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str, g: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ + g@ { let mut s = v_cat6(a, b, c, d, e, f); s.v_push_str(g); s }
pub fn v_cat8(a: &str, b: &str, c: &str, d: &str, e: &str, f: &str, g: &str, h: &str) -> (r: String) ensures r@ == a@ + b@ + c@ + d@ + e@ + f@ + g@ + h@ { let mut s = v_cat7(a, b, c, d, e, f, g); s.v_push_str(h); s }
// characters
pub trait VChar { fn v_len_utf8(&self) -> (r: usize); fn v_to_ascii_uppercase(&self) -> char; fn v_to_ascii_lowercase(&self) -> char; fn v_is_decimal(&self) -> bool; fn v_to_decimal(&self) -> Option<u32>; fn v_char_string(&self) -> String; }
impl VChar for char {
    #[verifier::external_body] fn v_len_utf8(&self) -> (r: usize) ensures r == clen(*self), 1 <= r <= 4 { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_uppercase(&self) -> (r: char) ensures r == upc(*self) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: char) ensures r == lowc(*self) { unimplemented!() }
    #[verifier::external_body] fn v_is_decimal(&self) -> (r: bool) ensures r == (dec_val(*self) is Some) { unimplemented!() }
    #[verifier::external_body] fn v_to_decimal(&self) -> (r: Option<u32>) ensures r == dec_val(*self) { unimplemented!() }
    #[verifier::external_body] fn v_char_string(&self) -> (r: String) ensures r@ == seq![*self] { unimplemented!() }
}
// ---- iterators: the remaining items as a sequence ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIt<T> { p: core::marker::PhantomData<T> }
impl<T> VIt<T> {
    pub uninterp spec fn rem(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn v_next(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0] && final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int),
                          None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem() }
    { unimplemented!() }
    #[verifier::external_body] pub fn v_len(&self) -> (r: usize) ensures r == self.rem().len() { unimplemented!() }
    #[verifier::external_body] pub fn v_nth(&mut self, n: usize) -> (r: Option<T>)
        ensures if n < old(self).rem().len() { r == Some(old(self).rem()[n as int]) && final(self).rem() == old(self).rem().subrange(n + 1, old(self).rem().len() as int) } else { r is None && final(self).rem().len() == 0 } { unimplemented!() }
    #[verifier::external_body] pub fn v_take(self, n: usize) -> (r: VIt<T>) ensures r.rem() == (if n <= self.rem().len() { self.rem().subrange(0, n as int) } else { self.rem() }) { unimplemented!() }
    #[verifier::external_body] pub fn v_rev(self) -> (r: VIt<T>) ensures r.rem() == self.rem().reverse() { unimplemented!() }
    #[verifier::external_body] pub fn v_skip(self, n: usize) -> (r: VIt<T>) ensures r.rem() == (if n <= self.rem().len() { self.rem().subrange(n as int, self.rem().len() as int) } else { Seq::empty() }) { unimplemented!() }
}
pub broadcast axiom fn ax_str_max(s: &str) ensures #[trigger] bl(s@) <= isize::MAX;   // no allocation is larger
pub broadcast group gstr { ax_str_max, ax_clen, bl_dig, ci_uniq, bo_ci, bo_zero, bl_zero, str_find_is, ax_dec }
