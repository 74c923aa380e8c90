// ===== constructors: default values, map building (trusted std specifications) =====
pub trait VDefault: Sized { spec fn dflt(&self) -> bool; fn v_default() -> (r: Self) ensures r.dflt(); }
impl<K: HKey, V> VDefault for HashMap<K, V> { open spec fn dflt(&self) -> bool { self.m() == Map::<K::KV, V>::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<K: HKey> VDefault for HashSet<K> { open spec fn dflt(&self) -> bool { self.st() == Set::<K::KV>::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for Vec<T> { open spec fn dflt(&self) -> bool { self@ == Seq::<T>::empty() } #[verifier::external_body] fn v_default() -> (r: Self) { unimplemented!() } }
impl<K: HKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.m() == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VMapIt<'a, K, V>) ensures r.mm() == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn v_extend<S: VMapSrc<K, V>>(&mut self, s: S) ensures final(self).m() == old(self).m().union_prefer_right(s.msrc()) { unimplemented!() }
}
impl<K: HKey> HashSet<K> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.st() == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_extend(&mut self, s: &HashSet<K>) ensures final(self).st() == old(self).st().union(s.st()) { unimplemented!() }
}
pub trait VMapSrc<K: HKey, V> { spec fn msrc(&self) -> Map<K::KV, V>; }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct VMapIt<'a, K, V> { p: core::marker::PhantomData<&'a (K, V)> }
impl<'a, K: HKey, V> VMapIt<'a, K, V> { pub uninterp spec fn mm(&self) -> Map<K::KV, V>; }
impl<'a, K: HKey, V> VMapSrc<K, V> for VMapIt<'a, K, V> { open spec fn msrc(&self) -> Map<K::KV, V> { self.mm() } }
impl<'a, K: HKey, V> VMapSrc<K, V> for &'a HashMap<K, V> { open spec fn msrc(&self) -> Map<K::KV, V> { self.m() } }
// a constant pattern of the library: that it compiles is not proved (the constructor is run by every test and by the driver)
#[verifier::external_body] pub fn v_static_regex(p: &str) -> (r: Regex) ensures r.pat() == p@, re_ok(p@) { unimplemented!() }
// ---- the collections new_for_metadata works with ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { p: core::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn dq(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.dq() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_push_front(&mut self, x: T) ensures final(self).dq() == seq![x] + old(self).dq() { unimplemented!() }
    #[verifier::external_body] pub fn v_push_back(&mut self, x: T) ensures final(self).dq() == old(self).dq().push(x) { unimplemented!() }
}
#[verifier::external_body] pub fn v_vec_from<T>(d: VecDeque<T>) -> (r: Vec<T>) ensures r@ == d.dq() { unimplemented!() }
pub trait VVecPush<T> { spec fn vp(&self) -> Seq<T>; fn v_push(&mut self, x: T) ensures final(self).vp() == old(self).vp().push(x); }
impl<T> VVecPush<T> for Vec<T> { open spec fn vp(&self) -> Seq<T> { self@ } fn v_push(&mut self, x: T) { self.push(x) } }
pub fn v_box_new<T>(x: T) -> (r: T) ensures r == x { x }
impl<K: HKey, V> HashMap<K, V> {
    #[verifier::external_body] pub fn v_get_mut<Q: HKey<KV = K::KV> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self).m().dom().contains(k.kv()) && *v == old(self).m()[k.kv()] && final(self).m() == old(self).m().insert(k.kv(), *final(v)), None => !old(self).m().dom().contains(k.kv()) && *final(self) == *old(self) }
    { unimplemented!() }
}
pub open spec fn entries_of<K: HKey, V>(m: Map<K::KV, V>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
    &&& forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k }
impl<K: HKey, V> VIntoIter for HashMap<K, V> { type It = (K, V);
    open spec fn ii(self, r: VIt<(K, V)>) -> bool { entries_of::<K, V>(self.m(), r.rem()) }
    #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<(K, V)>) { unimplemented!() } }
impl<T> VIntoIter for Vec<T> { type It = T; open spec fn ii(self, r: VIt<T>) -> bool { r.rem() == self@ } #[verifier::external_body] fn v_into_iter(self) -> (r: VIt<T>) { unimplemented!() } }
pub open spec fn has_key0<T>(t: Seq<(i32, T)>, k: i32) -> bool { exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k }
#[verifier::external_body] pub fn v_sort_key0<T>(v: &mut Vec<(i32, T)>)
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset(),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0,
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|k: i32| #[trigger] has_key0(final(v)@, k) <==> has_key0(old(v)@, k),
        (forall|i: int, j: int| 0 <= i < j < old(v)@.len() ==> (#[trigger] old(v)@[i]).0 != (#[trigger] old(v)@[j]).0) ==> sorted0(final(v)@)
{ unimplemented!() }
// comparing str with String compares the text
pub axiom fn ax_eq_obeys() ensures <&str as vstd::std_specs::cmp::PartialEqSpec<&String>>::obeys_eq_spec(), <&String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(),
    <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), <&str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_1(a: &str, b: &String) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq_2(a: &String, b: &str) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq_3(a: &str, b: String) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq_4(a: String, b: &str) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_eq_5(a: &str, b: String) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_eq_6(a: String, b: &str) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub broadcast group geq { ax_eq_1, ax_eq_2, ax_eq_3, ax_eq_4, ax_eq_5, ax_eq_6 }
