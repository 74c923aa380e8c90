// ===== remaining std operations (trusted specifications) =====
#[verifier::external_body] pub fn v_empty_str() -> (r: &'static str) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn v_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn v_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub trait VUnwrap<T>: Sized { spec fn u_ok(self) -> bool; spec fn u_val(self) -> T; fn v_unwrap(self) -> (r: T) requires self.u_ok() ensures r == self.u_val(); }
impl<T> VUnwrap<T> for Option<T> { open spec fn u_ok(self) -> bool { self is Some } open spec fn u_val(self) -> T { self->0 } #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn u_ok(self) -> bool { self is Ok } open spec fn u_val(self) -> T { self->Ok_0 } #[verifier::external_body] fn v_unwrap(self) -> (r: T) { unimplemented!() } }
pub trait VStrContains { fn v_contains<P: VPat>(&self, p: P) -> (r: bool); }
impl VStrContains for str { #[verifier::external_body] fn v_contains<P: VPat>(&self, p: P) -> (r: bool) ensures r == (str_find(self@, p.pv()) is Some) { unimplemented!() } }
// iterators over ranges, slices, arrays
#[verifier::external_body] pub fn v_range(a: usize, b: usize) -> (r: VIt<usize>)
    ensures r.rem().len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r.rem().len() ==> #[trigger] r.rem()[i] == a + i { unimplemented!() }
pub trait VRangeTo: Sized { spec fn rg(a: Self, b: Self, r: Seq<Self>) -> bool; fn v_mk_range_incl(a: Self, b: Self) -> (r: VIt<Self>) ensures Self::rg(a, b, r.rem()); }
impl VRangeTo for usize { open spec fn rg(a: usize, b: usize, r: Seq<usize>) -> bool { r.len() == (if a <= b { b - a + 1 } else { 0 }) && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == a + i }
    #[verifier::external_body] fn v_mk_range_incl(a: usize, b: usize) -> (r: VIt<usize>) { unimplemented!() } }
impl VRangeTo for char { open spec fn rg(a: char, b: char, r: Seq<char>) -> bool { a as u32 <= b as u32 && (b as u32) < 128 ==> r.len() == b as u32 - a as u32 + 1 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) as u32 == a as u32 + i }
    #[verifier::external_body] fn v_mk_range_incl(a: char, b: char) -> (r: VIt<char>) { unimplemented!() } }
pub fn v_range_incl<T: VRangeTo>(a: T, b: T) -> (r: VIt<T>) ensures T::rg(a, b, r.rem()) { T::v_mk_range_incl(a, b) }
pub trait VIntoIter: Sized { type It; spec fn ii(self, r: VIt<Self::It>) -> bool; fn v_into_iter(self) -> (r: VIt<Self::It>) ensures self.ii(r); }
impl<T> VIntoIter for VIt<T> { type It = T; open spec fn ii(self, r: VIt<T>) -> bool { r == self } fn v_into_iter(self) -> (r: VIt<T>) { self } }
impl<'a, T> VIntoIter for &'a [T] { type It = &'a T; open spec fn ii(self, r: VIt<&'a T>) -> bool { r.rem().len() == self@.len() && forall|i: int| 0 <= i < r.rem().len() ==> *(#[trigger] r.rem()[i]) == self@[i] } #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() } }
impl<'a, T> VIntoIter for &'a Vec<T> { type It = &'a T; open spec fn ii(self, r: VIt<&'a T>) -> bool { r.rem().len() == self@.len() && forall|i: int| 0 <= i < r.rem().len() ==> *(#[trigger] r.rem()[i]) == self@[i] } #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<&'a T>) { unimplemented!() } }
impl<T, const N: usize> VIntoIter for [T; N] { type It = T; open spec fn ii(self, r: VIt<T>) -> bool { r.rem() == self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() } }
pub open spec fn flat<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s[0] { Some(x) => seq![x] + flat(s.subrange(1, s.len() as int)), None => flat(s.subrange(1, s.len() as int)) } } }
impl<T> VIt<Option<T>> { #[verifier::external_body] pub fn v_flatten(self) -> (r: VIt<T>) ensures r.rem() == flat(self.rem()) { unimplemented!() } }
impl<'a> VIt<&'a String> { #[verifier::external_body] pub fn v_map_as_str(self) -> (r: VIt<&'a str>) ensures r.rem().len() == self.rem().len(), forall|i: int| #![trigger r.rem()[i]] #![trigger self.rem()[i]] 0 <= i < r.rem().len() ==> r.rem()[i]@ == self.rem()[i]@ { unimplemented!() } }
impl<'a> VIt<&'a i32> { #[verifier::external_body] pub fn v_map_copied(self) -> (r: VIt<i32>) ensures r.rem().len() == self.rem().len(), forall|i: int| #![trigger r.rem()[i]] #![trigger self.rem()[i]] 0 <= i < r.rem().len() ==> r.rem()[i] == *self.rem()[i] { unimplemented!() } }
pub open spec fn sorted0<T>(s: Seq<(i32, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
#[verifier::external_body]
pub fn v_bsearch_key0<T>(v: &Vec<(i32, T)>, k: &i32) -> (r: Result<usize, usize>)
    requires sorted0(v@)
    ensures match r { Ok(i) => i < v@.len() && v@[i as int].0 == *k, Err(_) => forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 != *k }
{ unimplemented!() }
impl<'a> VStrOps for Cow<'a> {
    open spec fn ss(&self) -> Seq<char> { self.sv() }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains_str<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, w: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIt<char>) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
}
impl VStrOps for String {
    open spec fn ss(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_contains_str<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_replace<P: VPat>(&self, p: P, w: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: VIt<char>) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
}
impl<'a> VLen for Cow<'a> { open spec fn v_len_s(&self) -> nat { bl(self.sv()) } #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() } }
pub trait VToStr { spec fn tsv(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.tsv(); }
impl VToStr for char { open spec fn tsv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl<'a, T> VClone for &'a T { fn v_clone(&self) -> (r: &'a T) { *self } }
pub trait VSat { fn v_saturating_sub(self, o: usize) -> (r: usize); }
impl VSat for usize { fn v_saturating_sub(self, o: usize) -> (r: usize) ensures r == (if self >= o { self - o } else { 0 }) { if self >= o { self - o } else { 0 } } }
pub assume_specification [<str as core::convert::AsRef<str>>::as_ref] (s: &str) -> (r: &str) ensures r == s;

impl VToStr for i32 { open spec fn tsv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToStr for u32 { open spec fn tsv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToStr for u64 { open spec fn tsv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToStr for usize { open spec fn tsv(&self) -> Seq<char> { int_digits(*self as int) } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VMinMax: Sized { fn v_min(self, o: Self) -> (r: Self); fn v_max(self, o: Self) -> (r: Self); }
impl VMinMax for usize { fn v_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } fn v_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } } }
impl VMinMax for i32 { fn v_min(self, o: i32) -> (r: i32) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } fn v_max(self, o: i32) -> (r: i32) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } } }
impl VMinMax for u64 { fn v_min(self, o: u64) -> (r: u64) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } } fn v_max(self, o: u64) -> (r: u64) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } } }
pub open spec fn trim_front(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && is_pre(p, s) { trim_front(s.subrange(p.len() as int, s.len() as int), p) } else { s } }
pub open spec fn trim_back(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() { if p.len() > 0 && is_suf(p, s) { trim_back(s.subrange(0, s.len() - p.len()), p) } else { s } }
pub open spec fn rfind_to(s: Seq<char>, p: Seq<char>, i: int) -> Option<int> decreases i + 1 { if i < 0 { None } else if occurs(s, p, i) { Some(i) } else { rfind_to(s, p, i - 1) } }
#[verifier::external_body] pub fn v_trim_start_matches<'a, P: VPat>(s: &'a str, p: P) -> (r: &'a str) ensures r@ == trim_front(s@, p.pv()) { unimplemented!() }
#[verifier::external_body] pub fn v_trim_end_matches<'a, P: VPat>(s: &'a str, p: P) -> (r: &'a str) ensures r@ == trim_back(s@, p.pv()) { unimplemented!() }
#[verifier::external_body] pub fn v_strip_suffix<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures match r { Some(t) => is_suf(p.pv(), s@) && t@ == s@.subrange(0, s@.len() - p.pv().len()), None => !is_suf(p.pv(), s@) } { unimplemented!() }
#[verifier::external_body] pub fn v_rfind<'a, P: VPat>(s: &'a str, p: P) -> (r: Option<usize>)
    ensures match r { Some(b) => exists|k: int| rfind_to(s@, p.pv(), s@.len() as int) == Some(k) && b == bo(s@, k) && is_ci(s@, b as int, k) && occurs(s@, p.pv(), k), None => rfind_to(s@, p.pv(), s@.len() as int) is None } { unimplemented!() }
#[verifier::external_body] pub fn v_char_indices<'a>(s: &'a str) -> (r: VIt<(usize, char)>)
    ensures r.rem().len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r.rem()[i]).0 == bo(s@, i) && r.rem()[i].1 == s@[i] { unimplemented!() }
