// ===== the tables new_for_metadata builds from the metadata =====
pub type Mds = Seq<PhoneMetadata>;
pub open spec fn skipped(m: &PhoneMetadata) -> bool { m.s_id() == zz() }
// the regions of a code: later entries go behind, main ones in front
pub open spec fn group(ms: Mds, k: int, cc: i32) -> Seq<Str> decreases k {
    if k <= 0 || k > ms.len() { Seq::empty() } else { let m = ms[k - 1]; let g = group(ms, k - 1, cc);
        if skipped(&m) || m.s_country_code() != cc { g } else if m.s_main_country_for_code() { seq![m.s_id()] + g } else { g.push(m.s_id()) } } }
pub open spec fn by_region(ms: Mds, k: int) -> Map<Str, PhoneMetadata> decreases k {
    if k <= 0 || k > ms.len() { Map::empty() } else { let m = ms[k - 1]; let r = by_region(ms, k - 1); if skipped(&m) || m.s_id() == nongeo() { r } else { r.insert(m.s_id(), m) } } }
pub open spec fn by_code(ms: Mds, k: int) -> Map<i32, PhoneMetadata> decreases k {
    if k <= 0 || k > ms.len() { Map::empty() } else { let m = ms[k - 1]; let r = by_code(ms, k - 1); if m.s_id() == nongeo() { r.insert(m.s_country_code(), m) } else { r } } }
pub open spec fn nanpa_set(ms: Mds, k: int) -> Set<Str> decreases k {
    if k <= 0 || k > ms.len() { Set::empty() } else { let m = ms[k - 1]; let r = nanpa_set(ms, k - 1); if !skipped(&m) && m.s_country_code() == 1 { r.insert(m.s_id()) } else { r } } }
pub open spec fn tab_built(t: Seq<(i32, Vec<String>)>, ms: Mds) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> strs((#[trigger] t[i]).1@) == group(ms, ms.len() as int, t[i].0) && t[i].1@.len() > 0
    &&& forall|cc: i32| group(ms, ms.len() as int, cc).len() > 0 ==> #[trigger] has_key0(t, cc) }
pub open spec fn built(u: &Util, ms: Mds) -> bool {
    &&& rmap(u) == by_region(ms, ms.len() as int) && ngmap(u) == by_code(ms, ms.len() as int) && u.nanpa_regions.st() == nanpa_set(ms, ms.len() as int)
    &&& sorted0(tab(u))
    &&& tab_built(tab(u), ms)
}
// what the metadata has to satisfy
pub open spec fn live(ms: Mds, i: int) -> bool { 0 <= i < ms.len() && !skipped(&ms[i]) }
pub open spec fn coll_ok(ms: Mds) -> bool {
    &&& forall|i: int| #[trigger] live(ms, i) ==> md_ok(&ms[i]) && 0 < ms[i].s_country_code() < 1000
    &&& forall|i: int, j: int| #[trigger] live(ms, i) && #[trigger] live(ms, j) && i != j ==> (ms[i].s_id() == ms[j].s_id() ==> ms[i].s_id() == nongeo())
    &&& forall|i: int, j: int| #[trigger] live(ms, i) && #[trigger] live(ms, j) && i != j && ms[i].s_country_code() == ms[j].s_country_code() ==>
            ms[i].s_id() != nongeo() && !(ms[i].s_main_country_for_code() && ms[j].s_main_country_for_code())
    &&& exists|i: int| #[trigger] live(ms, i) && ms[i].s_country_code() == 1 && ms[i].s_id() != nongeo()
    &&& codes_free(ms) && lens_all(ms)
}
#[verifier::opaque]
pub open spec fn lens_all(ms: Mds) -> bool { forall|i: int, j: int| #[trigger] live(ms, i) && #[trigger] live(ms, j) && ms[i].s_country_code() == ms[j].s_country_code() && ms[j].s_id() == group(ms, ms.len() as int, ms[j].s_country_code())[0] ==> lens_in(&ms[i], &ms[j]) }
#[verifier::opaque]
pub open spec fn codes_free(ms: Mds) -> bool { forall|i: int, j: int| #[trigger] live(ms, i) && #[trigger] live(ms, j) ==> ms[i].s_country_code() != ms[j].s_country_code() / 10 && ms[i].s_country_code() != ms[j].s_country_code() / 100 }
pub open spec fn in_group(ms: Mds, k: int, cc: i32, i: int) -> bool { 0 <= i < k && live(ms, i) && ms[i].s_country_code() == cc }
pub proof fn lem_group(ms: Mds, k: int, cc: i32) requires 0 <= k <= ms.len()
    ensures forall|x: Str| #[trigger] group(ms, k, cc).contains(x) <==> exists|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_id() == x,
    decreases k
{ if k > 0 { lem_group(ms, k - 1, cc); let m = ms[k - 1]; let g = group(ms, k - 1, cc); let h = group(ms, k, cc); let add = !skipped(&m) && m.s_country_code() == cc;
    assert forall|x: Str| #[trigger] h.contains(x) <==> exists|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_id() == x by {
        if h.contains(x) { if add && x == m.s_id() { assert(in_group(ms, k, cc, k - 1)); } else { let n = h.index_of(x); if add && m.s_main_country_for_code() { assert(g[n - 1] == x); } else { assert(g[n] == x); } assert(g.contains(x)); let i = choose|i: int| #[trigger] in_group(ms, k - 1, cc, i) && ms[i].s_id() == x; assert(in_group(ms, k, cc, i)); } }
        if exists|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_id() == x { let i = choose|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_id() == x;
            if i == k - 1 { if m.s_main_country_for_code() { assert(h[0] == x); } else { assert(h[h.len() - 1] == x); } }
            else { assert(in_group(ms, k - 1, cc, i)); assert(g.contains(x)); let n = g.index_of(x); if add && m.s_main_country_for_code() { assert(h[n + 1] == x); } else { assert(h[n] == x); } } } } } }
pub proof fn lem_group_uniq(ms: Mds, k: int, cc: i32) requires 0 <= k <= ms.len(), coll_ok(ms)
    ensures forall|a: int, b: int| 0 <= a < b < group(ms, k, cc).len() ==> #[trigger] group(ms, k, cc)[a] != #[trigger] group(ms, k, cc)[b],
        group(ms, k, cc).len() > 1 ==> !group(ms, k, cc).contains(nongeo()),
        forall|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_main_country_for_code() ==> group(ms, k, cc).len() > 0 && group(ms, k, cc)[0] == ms[i].s_id(),
    decreases k
{ if k > 0 { lem_group_uniq(ms, k - 1, cc); lem_group(ms, k - 1, cc); lem_group(ms, k, cc); let m = ms[k - 1]; let g = group(ms, k - 1, cc); let h = group(ms, k, cc); let add = !skipped(&m) && m.s_country_code() == cc;
    if add { assert(live(ms, k - 1));
        if g.contains(m.s_id()) { let i = choose|i: int| #[trigger] in_group(ms, k - 1, cc, i) && ms[i].s_id() == m.s_id(); assert(live(ms, i)); assert(false); }
        if h.len() > 1 { assert(g.contains(g[0])); let i = choose|i: int| #[trigger] in_group(ms, k - 1, cc, i) && ms[i].s_id() == g[0]; assert(live(ms, i)); assert(m.s_id() != nongeo());
            if h.contains(nongeo()) { let q = choose|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_id() == nongeo(); assert(live(ms, q)); if q != k - 1 { assert(false); } } }
        assert forall|a: int, b: int| 0 <= a < b < h.len() implies #[trigger] h[a] != #[trigger] h[b] by {
            if m.s_main_country_for_code() { assert(h[b] == g[b - 1]); if a > 0 { assert(h[a] == g[a - 1]); } else { assert(g.contains(g[b - 1])); } } else { assert(h[a] == g[a]); assert(g.contains(g[a])); } }
    }
    assert forall|i: int| #[trigger] in_group(ms, k, cc, i) && ms[i].s_main_country_for_code() implies h.len() > 0 && h[0] == ms[i].s_id() by {
        if i == k - 1 { assert(h[0] == m.s_id()); } else { assert(in_group(ms, k - 1, cc, i)); assert(live(ms, i)); if add { assert(live(ms, k - 1)); assert(!m.s_main_country_for_code()); assert(h[0] == g[0]); } } } } }
pub proof fn lem_regions_built(ms: Mds, k: int) requires 0 <= k <= ms.len(), coll_ok(ms)
    ensures forall|i: int| 0 <= i < k && #[trigger] live(ms, i) && ms[i].s_id() != nongeo() ==> by_region(ms, k).dom().contains(ms[i].s_id()) && by_region(ms, k)[ms[i].s_id()] == ms[i],
        forall|i: int| 0 <= i < k && #[trigger] live(ms, i) && ms[i].s_id() == nongeo() ==> by_code(ms, k).dom().contains(ms[i].s_country_code()) && by_code(ms, k)[ms[i].s_country_code()] == ms[i],
        forall|x: Str| #[trigger] by_region(ms, k).dom().contains(x) ==> exists|i: int| #[trigger] live(ms, i) && i < k && ms[i].s_id() == x && x != nongeo() && x != zz(),
        forall|c: i32| #[trigger] by_code(ms, k).dom().contains(c) ==> exists|i: int| #[trigger] live(ms, i) && i < k && ms[i].s_id() == nongeo() && ms[i].s_country_code() == c,
    decreases k
{ reveal_strlit("ZZ"); reveal_strlit("001"); assert(zz()[0] != nongeo()[0]); if k > 0 { lem_regions_built(ms, k - 1); let m = ms[k - 1];
    if !skipped(&m) { assert(live(ms, k - 1)); }
    assert forall|x: Str| #[trigger] by_region(ms, k).dom().contains(x) implies exists|i: int| #[trigger] live(ms, i) && i < k && ms[i].s_id() == x && x != nongeo() && x != zz() by {
        if by_region(ms, k - 1).dom().contains(x) { let i = choose|i: int| #[trigger] live(ms, i) && i < k - 1 && ms[i].s_id() == x && x != nongeo() && x != zz(); assert(live(ms, i)); } else { assert(live(ms, k - 1)); } }
    assert forall|c: i32| #[trigger] by_code(ms, k).dom().contains(c) implies exists|i: int| #[trigger] live(ms, i) && i < k && ms[i].s_id() == nongeo() && ms[i].s_country_code() == c by {
        if by_code(ms, k - 1).dom().contains(c) && !(m.s_id() == nongeo() && m.s_country_code() == c) { let i = choose|i: int| #[trigger] live(ms, i) && i < k - 1 && ms[i].s_id() == nongeo() && ms[i].s_country_code() == c; assert(live(ms, i)); } else { assert(live(ms, k - 1)); } }
} }
pub proof fn lem_nanpa_built(ms: Mds, k: int) requires 0 <= k <= ms.len()
    ensures forall|x: Str| #[trigger] nanpa_set(ms, k).contains(x) <==> exists|i: int| #[trigger] in_group(ms, k, 1, i) && ms[i].s_id() == x,
    decreases k
{ if k > 0 { lem_nanpa_built(ms, k - 1); let m = ms[k - 1];
    assert forall|x: Str| #[trigger] nanpa_set(ms, k).contains(x) <==> exists|i: int| #[trigger] in_group(ms, k, 1, i) && ms[i].s_id() == x by {
        if nanpa_set(ms, k).contains(x) { if nanpa_set(ms, k - 1).contains(x) { assert(exists|i: int| #[trigger] in_group(ms, k - 1, 1, i) && ms[i].s_id() == x); let i = choose|i: int| #[trigger] in_group(ms, k - 1, 1, i) && ms[i].s_id() == x; assert(in_group(ms, k, 1, i)); } else { assert(in_group(ms, k, 1, k - 1)); } }
        if exists|i: int| #[trigger] in_group(ms, k, 1, i) && ms[i].s_id() == x { let i = choose|i: int| #[trigger] in_group(ms, k, 1, i) && ms[i].s_id() == x; if i < k - 1 { assert(in_group(ms, k - 1, 1, i)); assert(nanpa_set(ms, k - 1).contains(x)); } else { assert(x == m.s_id()); assert(!skipped(&m)); assert(nanpa_set(ms, k).contains(x)); } } }
} }
// the built tables are well formed
pub proof fn lem_built_wf(u: &Util, ms: Mds) requires built(u, ms), coll_ok(ms) ensures wf_tab(u), wf_md(u)
{
    let n = ms.len() as int; lem_regions_built(ms, n); lem_nanpa_built(ms, n);
    assert forall|cc: i32| #[trigger] cc_known(u, cc) implies regions(u, cc) == group(ms, n, cc) && regions(u, cc).len() > 0 by { let i = cc_idx(u, cc); assert(cc_at(u, cc, i)); }
    assert forall|cc: i32, i: int| #[trigger] in_group(ms, n, cc, i) implies cc_known(u, cc) && regions(u, cc).contains(ms[i].s_id()) by { lem_group(ms, n, cc); assert(group(ms, n, cc).contains(ms[i].s_id())); assert(has_key0(tab(u), cc)); let j = choose|j: int| 0 <= j < tab(u).len() && (#[trigger] tab(u)[j]).0 == cc; assert(cc_at(u, cc, j)); }
    assert forall|cc: i32, x: Str| cc_known(u, cc) && #[trigger] regions(u, cc).contains(x) implies exists|i: int| #[trigger] in_group(ms, n, cc, i) && ms[i].s_id() == x by { lem_group(ms, n, cc); }
    assert forall|cc: i32, i: int| cc_known(u, cc) && 0 <= i < regions(u, cc).len() implies md_has(u, cc, #[trigger] regions(u, cc)[i]) && md_get(u, cc, regions(u, cc)[i]).s_country_code() == cc by {
        let x = regions(u, cc)[i]; assert(regions(u, cc).contains(x)); let j = choose|j: int| #[trigger] in_group(ms, n, cc, j) && ms[j].s_id() == x; assert(live(ms, j)); }
    assert forall|cc: i32| #[trigger] cc_known(u, cc) implies 0 < cc < 1000 by { let x = regions(u, cc)[0]; assert(regions(u, cc).contains(x)); let j = choose|j: int| #[trigger] in_group(ms, n, cc, j) && ms[j].s_id() == x; assert(live(ms, j)); }
    assert forall|cc: i32, i: int, j: int| cc_known(u, cc) && 0 <= i < j < regions(u, cc).len() implies #[trigger] regions(u, cc)[i] != #[trigger] regions(u, cc)[j] by { lem_group_uniq(ms, n, cc); }
    assert forall|cc: i32| cc_known(u, cc) && (#[trigger] regions(u, cc)).len() > 1 implies !regions(u, cc).contains(nongeo()) by { lem_group_uniq(ms, n, cc); }
    assert forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) implies rc != zz() && rc != nongeo() && listed(u, rmap(u)[rc].s_country_code(), rc) by { let i = choose|i: int| #[trigger] live(ms, i) && i < n && ms[i].s_id() == rc && rc != nongeo() && rc != zz(); assert(in_group(ms, n, ms[i].s_country_code(), i)); }
    assert forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) && rmap(u)[rc].s_main_country_for_code() implies regions(u, rmap(u)[rc].s_country_code())[0] == rc by { let i = choose|i: int| #[trigger] live(ms, i) && i < n && ms[i].s_id() == rc && rc != nongeo() && rc != zz(); let cc = ms[i].s_country_code(); assert(in_group(ms, n, cc, i)); lem_group_uniq(ms, n, cc); }
    assert forall|cc: i32| #[trigger] ngmap(u).dom().contains(cc) implies cc_known(u, cc) && regions(u, cc) == seq![nongeo()] && ngmap(u)[cc].s_country_code() == cc by { let i = choose|i: int| #[trigger] live(ms, i) && i < n && ms[i].s_id() == nongeo() && ms[i].s_country_code() == cc; assert(in_group(ms, n, cc, i)); lem_group_uniq(ms, n, cc); let g = regions(u, cc); assert(g.contains(nongeo())); assert(g =~= seq![nongeo()]); }
    assert forall|rc: Str| #[trigger] u.nanpa_regions.st().contains(rc) <==> listed(u, 1, rc) by { if listed(u, 1, rc) { let i = choose|i: int| #[trigger] in_group(ms, n, 1, i) && ms[i].s_id() == rc; } if u.nanpa_regions.st().contains(rc) { let i = choose|i: int| #[trigger] in_group(ms, n, 1, i) && ms[i].s_id() == rc; assert(in_group(ms, n, 1, i)); } }
    let w = choose|i: int| #[trigger] live(ms, i) && ms[i].s_country_code() == 1 && ms[i].s_id() != nongeo(); assert(in_group(ms, n, 1, w)); lem_group_uniq(ms, n, 1);
    if regions(u, 1).contains(nongeo()) { let j = choose|j: int| #[trigger] in_group(ms, n, 1, j) && ms[j].s_id() == nongeo(); assert(live(ms, j)); assert(live(ms, w)); }
    assert(prefix_free(u)) by { reveal(prefix_free); reveal(codes_free);
        assert forall|a: i32, b: i32| #[trigger] cc_known(u, a) && #[trigger] cc_known(u, b) implies a != b / 10 && a != b / 100 by {
            let x = regions(u, a)[0]; assert(regions(u, a).contains(x)); let i = choose|i: int| #[trigger] in_group(ms, n, a, i) && ms[i].s_id() == x;
            let y = regions(u, b)[0]; assert(regions(u, b).contains(y)); let j = choose|j: int| #[trigger] in_group(ms, n, b, j) && ms[j].s_id() == y; assert(live(ms, i) && live(ms, j)); } }
    assert(lens_main(u)) by { reveal(lens_main); reveal(lens_all);
        assert forall|cc: i32, k: int| cc_known(u, cc) && 0 <= k < regions(u, cc).len() implies lens_in(&md_get(u, cc, #[trigger] regions(u, cc)[k]), &md_get(u, cc, main_region(u, cc))) by {
            let x = regions(u, cc)[k]; assert(regions(u, cc).contains(x)); let i = choose|i: int| #[trigger] in_group(ms, n, cc, i) && ms[i].s_id() == x;
            let y = regions(u, cc)[0]; assert(regions(u, cc).contains(y)); let j = choose|j: int| #[trigger] in_group(ms, n, cc, j) && ms[j].s_id() == y; assert(live(ms, i) && live(ms, j));
            assert(main_region(u, cc) == y); assert(md_get(u, cc, x) == ms[i]); assert(md_get(u, cc, y) == ms[j]); } }
    assert(wf_tab(u));
    assert forall|rc: Str| #[trigger] rmap(u).dom().contains(rc) implies md_ok(&rmap(u)[rc]) by { let i = choose|i: int| #[trigger] live(ms, i) && i < n && ms[i].s_id() == rc && rc != nongeo() && rc != zz(); assert(live(ms, i)); }
    assert forall|cc: i32| #[trigger] ngmap(u).dom().contains(cc) implies md_ok(&ngmap(u)[cc]) by { let i = choose|i: int| #[trigger] live(ms, i) && i < n && ms[i].s_id() == nongeo() && ms[i].s_country_code() == cc; assert(live(ms, i)); }
}
pub open spec fn grouped(mp: Map<i32, VecDeque<String>>, ms: Mds, k: int) -> bool {
    &&& forall|cc: i32| #[trigger] mp.dom().contains(cc) <==> group(ms, k, cc).len() > 0
    &&& forall|cc: i32| #[trigger] mp.dom().contains(cc) ==> strs(mp[cc].dq()) == group(ms, k, cc) }
pub proof fn lem_build_step(ms: Mds, k: int, mp: Map<i32, VecDeque<String>>) requires 0 < k <= ms.len(), grouped(mp, ms, k - 1)
    ensures by_region(ms, k) == (if skipped(&ms[k - 1]) || ms[k - 1].s_id() == nongeo() { by_region(ms, k - 1) } else { by_region(ms, k - 1).insert(ms[k - 1].s_id(), ms[k - 1]) }),
        by_code(ms, k) == (if ms[k - 1].s_id() == nongeo() { by_code(ms, k - 1).insert(ms[k - 1].s_country_code(), ms[k - 1]) } else { by_code(ms, k - 1) }),
        nanpa_set(ms, k) == (if !skipped(&ms[k - 1]) && ms[k - 1].s_country_code() == 1 { nanpa_set(ms, k - 1).insert(ms[k - 1].s_id()) } else { nanpa_set(ms, k - 1) }),
        skipped(&ms[k - 1]) ==> grouped(mp, ms, k),
        forall|d: VecDeque<String>| !skipped(&ms[k - 1]) && strs(d.dq()) == group(ms, k, ms[k - 1].s_country_code()) && d.dq().len() > 0 ==> grouped(#[trigger] mp.insert(ms[k - 1].s_country_code(), d), ms, k),
        group(ms, k - 1, ms[k - 1].s_country_code()).len() == 0 && !skipped(&ms[k - 1]) ==> group(ms, k, ms[k - 1].s_country_code()) == Seq::<Str>::empty().push(ms[k - 1].s_id()),
        strs(Seq::<String>::empty()) == Seq::<Str>::empty(),
        forall|d: VecDeque<String>, x: String| #[trigger] strs(d.dq().push(x)) == strs(d.dq()).push(x@), forall|d: VecDeque<String>, x: String| #[trigger] strs(seq![x] + d.dq()) == seq![x@] + strs(d.dq()),
{
    assert forall|d: VecDeque<String>, x: String| #[trigger] strs(d.dq().push(x)) == strs(d.dq()).push(x@) by { assert(strs(d.dq().push(x)) =~= strs(d.dq()).push(x@)); }
    assert forall|d: VecDeque<String>, x: String| #[trigger] strs(seq![x] + d.dq()) == seq![x@] + strs(d.dq()) by { assert(strs(seq![x] + d.dq()) =~= seq![x@] + strs(d.dq())); }
    let m = ms[k - 1]; let c = m.s_country_code(); assert(strs(Seq::<String>::empty()) =~= Seq::<Str>::empty());
    if group(ms, k - 1, c).len() == 0 && !skipped(&m) { assert(group(ms, k, c) =~= Seq::<Str>::empty().push(m.s_id())); }
    assert forall|cc: i32| cc != c || skipped(&m) implies #[trigger] group(ms, k, cc) == group(ms, k - 1, cc) by {}
    assert forall|d: VecDeque<String>| !skipped(&m) && strs(d.dq()) == group(ms, k, c) && d.dq().len() > 0 implies grouped(#[trigger] mp.insert(c, d), ms, k) by {
        let mq = mp.insert(c, d);
        assert forall|cc: i32| #[trigger] mq.dom().contains(cc) <==> group(ms, k, cc).len() > 0 by { if cc != c { assert(mq.dom().contains(cc) <==> mp.dom().contains(cc)); } }
    }
}
pub proof fn lem_tab_built(mp: Map<i32, VecDeque<String>>, ms: Mds, e: Seq<(i32, VecDeque<String>)>, t: Seq<(i32, Vec<String>)>)
    requires grouped(mp, ms, ms.len() as int), entries_of::<i32, VecDeque<String>>(mp, e), t.len() == e.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 == e[i].0 && t[i].1@ == e[i].1.dq(),
    ensures tab_built(t, ms), forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0,
{
    let n = ms.len() as int;
    assert forall|i: int| 0 <= i < t.len() implies strs((#[trigger] t[i]).1@) == group(ms, n, t[i].0) && t[i].1@.len() > 0 by { assert(mp.dom().contains(e[i].0.kv())); assert(e[i].0.kv() == e[i].0); assert(mp.dom().contains(e[i].0)); assert(strs(mp[e[i].0].dq()).len() == mp[e[i].0].dq().len()); }
    assert forall|cc: i32| group(ms, n, cc).len() > 0 implies #[trigger] has_key0(t, cc) by { assert(mp.dom().contains(cc)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == cc; assert(t[i].0 == cc); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(e[i].0.kv() != e[j].0.kv()); }
}
// ---- trusted: the bundled metadata decodes and satisfies coll_ok (the driver checks every entry of it) ----
#[derive(Debug)] pub struct Error;
pub struct VBundled;
pub const METADATA: VBundled = VBundled;
impl PhoneMetadataCollection { #[verifier::external_body] pub fn parse_from_bytes(b: &VBundled) -> (r: Result<PhoneMetadataCollection, Error>) ensures r is Ok, coll_ok(r->Ok_0.metadata@) { unimplemented!() } }
// the two patterns the library hands to the regex cache itself compile; "(\\d+)(.*)" has no alternative its leftmost-first match could prefer to the whole text
pub axiom fn ax_lib_regexes() ensures re_ok("NonMatch"@), re_ok("(\\d+)(.*)"@), forall|s: Str| #[trigger] re_full("(\\d+)(.*)"@, s) ==> re_whole("(\\d+)(.*)"@, s);
pub broadcast proof fn lem_new_wf(u: &Util, ms: Mds) requires #[trigger] built(u, ms), coll_ok(ms), ctor_ok(&u.reg_exps) ensures wf(u) { lem_built_wf(u, ms); ax_lib_regexes(); }
pub broadcast group wfg { lem_new_wf }
