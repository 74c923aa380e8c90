// ===== vectors, slices, maps, sets (trusted std specifications) =====
pub trait HKey { type KV; spec fn kv(&self) -> Self::KV; }
impl HKey for str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl HKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl HKey for i32 { type KV = i32; open spec fn kv(&self) -> i32 { *self } }
impl HKey for char { type KV = char; open spec fn kv(&self) -> char { *self } }
impl<'a, T: HKey + ?Sized> HKey for &'a T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
impl<K: HKey, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::KV, V>;
    #[verifier::external_body]
    pub fn v_get<Q: HKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self.m().dom().contains(k.kv()) && *v == self.m()[k.kv()], None => !self.m().dom().contains(k.kv()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains_key<Q: HKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().dom().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_keys<'a>(&'a self) -> (r: VIt<&'a K>)
        ensures forall|i: int| 0 <= i < r.rem().len() ==> self.m().dom().contains((#[trigger] r.rem()[i]).kv()),
                forall|k: K::KV| #[trigger] self.m().dom().contains(k) ==> exists|i: int| 0 <= i < r.rem().len() && #[trigger] r.rem()[i].kv() == k
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { p: core::marker::PhantomData<K> }
impl<K: HKey> HashSet<K> {
    pub uninterp spec fn st(&self) -> Set<K::KV>;
    #[verifier::external_body]
    pub fn v_contains<Q: HKey<KV = K::KV> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.st().contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K) -> (r: bool) ensures final(self).st() == old(self).st().insert(k.kv()), r == !old(self).st().contains(k.kv()) { unimplemented!() }
}
// `contains` on slices / Vec<i32>
pub open spec fn i32_le(a: i32, b: i32) -> bool { a <= b }
pub open spec fn sorted_i32(s: Seq<i32>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
pub trait VSliceI32 { spec fn si(&self) -> Seq<i32>; fn v_contains(&self, x: &i32) -> (r: bool) ensures r == self.si().contains(*x); }
impl VSliceI32 for [i32] { open spec fn si(&self) -> Seq<i32> { self@ } #[verifier::external_body] fn v_contains(&self, x: &i32) -> (r: bool) { unimplemented!() } }
pub trait VVecMutI32 { spec fn vi(&self) -> Seq<i32>;
   fn v_sort(&mut self) ensures final(self).vi().to_multiset() == old(self).vi().to_multiset(), sorted_i32(final(self).vi()), final(self).vi().len() == old(self).vi().len(),
        forall|x: i32| #[trigger] final(self).vi().contains(x) <==> old(self).vi().contains(x);
   fn v_extend_from_slice(&mut self, o: &[i32]) ensures final(self).vi() == old(self).vi() + o@; }
impl VVecMutI32 for Vec<i32> { open spec fn vi(&self) -> Seq<i32> { self@ } #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() } #[verifier::external_body] fn v_extend_from_slice(&mut self, o: &[i32]) { unimplemented!() } }
pub trait VSliceOps<T> {
    spec fn sq(&self) -> Seq<T>;
    fn v_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sq().len() > 0 && *x == self.sq()[0], None => self.sq().len() == 0 };
    fn v_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sq().len() > 0 && *x == self.sq().last(), None => self.sq().len() == 0 };
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.sq().len() && *x == self.sq()[i as int], None => i >= self.sq().len() };
    fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>) ensures r.rem().len() == self.sq().len(), forall|i: int| 0 <= i < r.rem().len() ==> *(#[trigger] r.rem()[i]) == self.sq()[i];
    fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.sq().len() ensures r@ == self.sq().subrange(a as int, b as int);
    fn v_slice_from(&self, a: usize) -> (r: &[T]) requires a <= self.sq().len() ensures r@ == self.sq().subrange(a as int, self.sq().len() as int);
    fn v_slice_to(&self, b: usize) -> (r: &[T]) requires b <= self.sq().len() ensures r@ == self.sq().subrange(0, b as int);
}
impl<T> VSliceOps<T> for [T] {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_iter<'a>(&'a self) -> (r: VIt<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
}
// clone of generated/std value types: structural (derive(Clone))
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for String { #[verifier::external_body] fn v_clone(&self) -> (r: String) { unimplemented!() } }
impl<T> VClone for Vec<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VClone for Arc<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Arc<T>) { unimplemented!() } }
impl<T> VClone for Option<T> { #[verifier::external_body] fn v_clone(&self) -> (r: Option<T>) { unimplemented!() } }
impl<'a> VClone for Cow<'a> { #[verifier::external_body] fn v_clone(&self) -> (r: Cow<'a>) { unimplemented!() } }
// conversions (`.into()` and `?`)
pub trait VInto<T>: Sized { spec fn into_s(self) -> T; fn v_into(self) -> (r: T) ensures r == self.into_s(); }
impl<'a> VInto<Cow<'a>> for &'a str { open spec fn into_s(self) -> Cow<'a> { Cow::Borrowed(self) } fn v_into(self) -> (r: Cow<'a>) { Cow::Borrowed(self) } }
impl<'a> VInto<Cow<'a>> for String { open spec fn into_s(self) -> Cow<'a> { Cow::Owned(self) } fn v_into(self) -> (r: Cow<'a>) { Cow::Owned(self) } }
impl<T> VInto<T> for T { open spec fn into_s(self) -> T { self } fn v_into(self) -> (r: T) { self } }
// numbers
pub open spec fn dec_digits(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dchar(n as u32)] } else { dec_digits(n / 10).push(dchar((n % 10) as u32)) } }
pub open spec fn int_digits(n: int) -> Seq<char> { if n >= 0 { dec_digits(n as nat) } else { seq!['-'] + dec_digits((-n) as nat) } }
#[verifier::external_body] pub struct ItoaBuffer { p: u8 }
pub trait ItoaInt { spec fn iv(&self) -> int; }
impl ItoaInt for i32 { open spec fn iv(&self) -> int { *self as int } }
impl ItoaInt for u32 { open spec fn iv(&self) -> int { *self as int } }
impl ItoaInt for u64 { open spec fn iv(&self) -> int { *self as int } }
impl ItoaInt for usize { open spec fn iv(&self) -> int { *self as int } }
impl ItoaBuffer {
    #[verifier::external_body] pub fn new() -> ItoaBuffer { unimplemented!() }
    #[verifier::external_body] pub fn format<I: ItoaInt>(&mut self, i: I) -> (r: &str) ensures r@ == int_digits(i.iv()) { unimplemented!() }
}
pub open spec fn dig_val(c: char) -> int { c as int - '0' as int }
pub open spec fn parse_dec(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { parse_dec(s.drop_last()) * 10 + dig_val(s.last()) } }
#[verifier::external_body] pub struct ParseIntError { p: u8 }
#[verifier::external_body] pub fn v_u64_from_str_radix(s: &str, radix: u32) -> (r: Result<u64, ParseIntError>)
    requires radix == 10
    ensures all_dig(s@) && s@.len() > 0 ==> match r { Ok(v) => v == parse_dec(s@), Err(_) => parse_dec(s@) > u64::MAX },
            s@.len() == 0 ==> r is Err
{ unimplemented!() }
#[verifier::external_body] pub fn v_i32_from_str_radix(s: &str, radix: u32) -> (r: Result<i32, ParseIntError>)
    requires radix == 10
    ensures all_dig(s@) && s@.len() > 0 ==> match r { Ok(v) => v == parse_dec(s@), Err(_) => parse_dec(s@) > i32::MAX },
            s@.len() == 0 ==> r is Err
{ unimplemented!() }
#[verifier::external_body] pub struct TryFromIntError { p: u8 }
#[verifier::external_body] pub fn v_usize_try_from(n: i32) -> (r: Result<usize, TryFromIntError>) ensures match r { Ok(v) => n >= 0 && v == n, Err(_) => n < 0 } { unimplemented!() }
// dec_from_char crate
#[verifier::external_body] pub fn v_normalize_decimals_filtering(s: &str) -> (r: String) ensures r@ == digits_only(s@) { unimplemented!() }
pub broadcast proof fn vec_cat(a: Seq<i32>, b: Seq<i32>, x: i32) ensures #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{ if a.contains(x) { let i = a.index_of(x); assert((a + b)[i] == x); } if b.contains(x) { let i = b.index_of(x); assert((a + b)[a.len() + i] == x); }
  if (a + b).contains(x) { let i = (a + b).index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } } }
pub broadcast proof fn vec_c0(s: Seq<i32>) requires s.len() > 0 ensures s.contains(#[trigger] s[0]) {}
pub broadcast proof fn vec_cn(s: Seq<i32>) requires s.len() > 0 ensures s.contains(#[trigger] s[s.len() - 1]) {}
pub broadcast proof fn vec_tail(s: Seq<i32>, x: i32) requires s.len() > 0 ensures (#[trigger] s.subrange(1, s.len() as int).contains(x)) || s[0] == x <==> s.contains(x)
{ let t = s.subrange(1, s.len() as int); if t.contains(x) { let i = t.index_of(x); assert(s[i + 1] == x); } if s.contains(x) { let i = s.index_of(x); if i > 0 { assert(t[i - 1] == x); } } }
pub broadcast group gvec { vec_cat, vec_c0, vec_cn, vec_tail }
