// ===== regular expressions: uninterpreted functions of the pattern text (trusted regex crate) =====
pub uninterp spec fn re_ok(p: Seq<char>) -> bool;
pub uninterp spec fn re_find(p: Seq<char>, s: Seq<char>) -> Option<(int, int)>;            // leftmost match, char indices
pub uninterp spec fn re_caps(p: Seq<char>, s: Seq<char>) -> Seq<Option<(int, int)>>;     // groups of that match
pub uninterp spec fn re_full(p: Seq<char>, s: Seq<char>) -> bool;                        // some match of p covers all of s
pub uninterp spec fn re_replace(p: Seq<char>, s: Seq<char>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_replace_all(p: Seq<char>, s: Seq<char>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn re_caps_iter(p: Seq<char>, s: Seq<char>) -> Seq<Seq<Option<(int, int)>>>;
pub broadcast axiom fn ax_re_find(p: Seq<char>, s: Seq<char>)
    ensures match #[trigger] re_find(p, s) { Some((a, b)) => 0 <= a <= b <= s.len(), None => true };
pub broadcast axiom fn ax_re_caps(p: Seq<char>, s: Seq<char>)
    ensures re_find(p, s) is Some ==> (#[trigger] re_caps(p, s)).len() >= 1 && re_caps(p, s)[0] == re_find(p, s);
pub broadcast axiom fn ax_re_cap(p: Seq<char>, s: Seq<char>, i: int)
    requires 0 <= i < re_caps(p, s).len()
    ensures match #[trigger] re_caps(p, s)[i] { Some((a, b)) => 0 <= a <= b <= s.len(), None => true };
pub broadcast axiom fn ax_re_none(p: Seq<char>, s: Seq<char>, t: Seq<char>)
    ensures re_find(p, s) is None ==> #[trigger] re_replace(p, s, t) == s;
pub broadcast axiom fn ax_re_none_all(p: Seq<char>, s: Seq<char>, t: Seq<char>)
    ensures re_find(p, s) is None ==> #[trigger] re_replace_all(p, s, t) == s;
pub open spec fn anch(p: Seq<char>) -> Seq<char> { "^(?:"@ + p + ")$"@ }
pub broadcast axiom fn ax_re_anch(p: Seq<char>, s: Seq<char>)
    ensures re_ok(p) ==> (#[trigger] re_find(anch(p), s) is Some <==> re_full(p, s));
pub broadcast axiom fn ax_re_anch_ok(p: Seq<char>) ensures re_ok(p) ==> #[trigger] re_ok(anch(p));
// the match starts at the beginning / covers everything
pub open spec fn re_start(p: Seq<char>, s: Seq<char>) -> bool { re_find(p, s) is Some && (re_find(p, s)->0).0 == 0 }
// a pattern that is a literal: replace puts the text (free of '$') at its first occurrence
pub axiom fn ax_re_cc(s: Seq<char>, t: Seq<char>) requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '$'
    ensures re_replace("\\$CC"@, s, t) == (match str_find(s, "$CC"@) { Some(k) => s.subrange(0, k) + t + s.subrange(k + "$CC"@.len(), s.len() as int), None => s });
pub broadcast axiom fn ax_re_whole(p: Seq<char>, s: Seq<char>) ensures #[trigger] re_whole(p, s) ==> re_full(p, s);
pub open spec fn re_whole(p: Seq<char>, s: Seq<char>) -> bool { re_find(p, s) == Some((0int, s.len() as int)) }

#[verifier::external_body] pub struct Regex { p: u8 }
#[verifier::external_body] pub struct RegexError { p: u8 }
#[derive(Clone, Copy)]
pub struct Match<'a> { pub h: &'a str, pub a: usize, pub b: usize }
impl<'a> Match<'a> {
    pub open spec fn mok(&self, s: Seq<char>, r: (int, int)) -> bool {
        self.h@ == s && is_ci(s, self.a as int, r.0) && is_ci(s, self.b as int, r.1) && 0 <= r.0 <= r.1 <= s.len() && self.a <= self.b <= isize::MAX && bl(s) <= isize::MAX }
    pub open spec fn sa(&self) -> int { ci(self.h@, self.a as int) }
    pub open spec fn sb(&self) -> int { ci(self.h@, self.b as int) }
    pub open spec fn inv(&self) -> bool { self.mok(self.h@, (self.sa(), self.sb())) }
    pub fn start(&self) -> (r: usize) ensures r == self.a { self.a }
    pub fn end(&self) -> (r: usize) ensures r == self.b { self.b }
    pub fn as_str(&self) -> (r: &'a str) requires self.inv() ensures r@ == self.h@.subrange(self.sa(), self.sb()) { self.h.v_slice(self.a, self.b) }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) requires self.inv() ensures r == (self.sa() == self.sb()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) requires self.inv() ensures r == self.b - self.a, r == bl(self.h@.subrange(self.sa(), self.sb())) { unimplemented!() }
}
#[verifier::external_body]
pub struct Captures<'a> { p: &'a str }
impl<'a> Captures<'a> {
    pub uninterp spec fn cs(&self) -> Seq<char>;
    pub uninterp spec fn cv(&self) -> Seq<Option<(int, int)>>;
    #[verifier::external_body]
    pub fn v_get(&self, i: usize) -> (r: Option<Match<'a>>)
        ensures match r { Some(m) => i < self.cv().len() && self.cv()[i as int] is Some && m.mok(self.cs(), self.cv()[i as int]->0),
                          None => i >= self.cv().len() || self.cv()[i as int] is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: VIt<Option<Match<'a>>>)
        ensures caps_of(self.cs(), self.cv(), r.rem())
    { unimplemented!() }
}
// the matches of the groups, in order
pub open spec fn caps_of(s: Seq<char>, cv: Seq<Option<(int, int)>>, ms: Seq<Option<Match>>) -> bool {
    ms.len() == cv.len() && forall|i: int| 0 <= i < ms.len() ==> match #[trigger] ms[i] { Some(m) => cv[i] is Some && m.mok(s, cv[i]->0), None => cv[i] is None } }
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>) ensures match r { Ok(re) => re_ok(p@) && re.pat() == p@, Err(_) => !re_ok(p@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == (re_find(self.pat(), s@) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_find<'a>(&self, s: &'a str) -> (r: Option<Match<'a>>)
        ensures match r { Some(m) => re_find(self.pat(), s@) is Some && m.mok(s@, re_find(self.pat(), s@)->0), None => re_find(self.pat(), s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn captures<'a>(&self, s: &'a str) -> (r: Option<Captures<'a>>)
        ensures match r { Some(c) => re_find(self.pat(), s@) is Some && c.cs() == s@ && c.cv() == re_caps(self.pat(), s@), None => re_find(self.pat(), s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn captures_iter<'a>(&self, s: &'a str) -> (r: VIt<Captures<'a>>)
        ensures r.rem().len() == re_caps_iter(self.pat(), s@).len(), forall|i: int| 0 <= i < r.rem().len() ==> (#[trigger] r.rem()[i]).cs() == s@ && r.rem()[i].cv() == re_caps_iter(self.pat(), s@)[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_replace<'a, T: VStr>(&self, s: &'a str, t: T) -> (r: Cow<'a>)
        ensures r.sv() == re_replace(self.pat(), s@, t.sv()), r is Borrowed ==> r.sv() == s@ && re_find(self.pat(), s@) is None, r is Owned ==> re_find(self.pat(), s@) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn replace_all<'a, T: VStr>(&self, s: &'a str, t: T) -> (r: Cow<'a>)
        ensures r.sv() == re_replace_all(self.pat(), s@, t.sv()), r is Borrowed ==> r.sv() == s@ && re_find(self.pat(), s@) is None, r is Owned ==> re_find(self.pat(), s@) is Some { unimplemented!() }
}
pub broadcast group gre { ax_re_whole, ax_re_find, ax_re_caps, ax_re_cap, ax_re_none, ax_re_none_all }
// ---- DashMap: every entry satisfies the map invariant; inserting requires it (holds for any interleaving) ----
pub trait DashInv: Sized { spec fn dinv(k: Seq<char>, v: Self) -> bool; }
impl DashInv for Arc<Regex> { open spec fn dinv(k: Seq<char>, v: Arc<Regex>) -> bool { re_ok(k) && v.pat() == k } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
pub struct DashRef<'a, V> { pub v: &'a V, pub k: Ghost<Seq<char>> }
impl<'a, V> DashRef<'a, V> { pub fn value(&self) -> (r: &V) ensures *r == *self.v { self.v } }
pub struct DashEntry<'a, V> { pub cur: Option<&'a V>, pub k: Ghost<Seq<char>> }
impl<V: DashInv> DashMap<String, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get(&self, k: &str) -> (r: Option<DashRef<'_, V>>) ensures match r { Some(e) => e.k@ == k@ && V::dinv(k@, *e.v), None => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&self, k: String) -> (r: DashEntry<'_, V>) ensures r.k@ == k@, match r.cur { Some(e) => V::dinv(k@, *e), None => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&self, k: String, v: V) -> (r: Option<V>) requires V::dinv(k@, v) ensures match r { Some(e) => V::dinv(k@, e), None => true } { unimplemented!() }
}
impl<'a, V: DashInv> DashEntry<'a, V> {
    #[verifier::external_body]
    pub fn v_put(self, v: V) -> (r: DashRef<'a, V>) requires V::dinv(self.k@, v) ensures r.k@ == self.k@, *r.v == v { unimplemented!() }
    pub fn v_cur(self) -> (r: Result<DashRef<'a, V>, DashEntry<'a, V>>)
        ensures match r { Ok(x) => self.cur is Some && x.k@ == self.k@ && x.v == self.cur->0, Err(e) => self.cur is None && e == self }
    { match self.cur { Some(v) => Ok(DashRef { v, k: self.k }), None => Err(self) } }
}
