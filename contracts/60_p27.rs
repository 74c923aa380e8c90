// P27: extensions are split off only from viable numbers
pub proof fn p27_parts(u: &Util, t: Str)
    ensures match ext_split(u, t).1 { None => ext_split(u, t).0 == t,
        Some(e) => exists|a: int, x: int, y: int| 0 <= a <= t.len() && re_find(ext_pat(u), t) is Some && (re_find(ext_pat(u), t)->0).0 == a && ext_split(u, t).0 == #[trigger] t.subrange(0, a) && viable(u, t.subrange(0, a))
            && 0 <= x < y <= t.len() && e == #[trigger] t.subrange(x, y) && e.len() >= 1 }
{ broadcast use {gstr, gre};
  match re_find(ext_pat(u), t) { Some((a, b)) => { lem_first_ne(re_caps(ext_pat(u), t), 1); match first_ne(re_caps(ext_pat(u), t), 1) { Some((x, y)) => { if viable(u, t.subrange(0, a)) { lem_cap_range(u, t, x, y); assert(ext_split(u, t).0 == t.subrange(0, a)); assert(ext_split(u, t).1 == Some(t.subrange(x, y))); } }, None => {} } }, None => {} } }
pub proof fn lem_first_ne(cv: Seq<Option<(int, int)>>, i: int) ensures match first_ne(cv, i) { Some((x, y)) => x < y && exists|j: int| 0 <= j < cv.len() && #[trigger] cv[j] == Some((x, y)), None => forall|j: int| i <= j < cv.len() && 0 <= i && cv[j] is Some ==> ((#[trigger] cv[j])->0).0 >= (cv[j]->0).1 } decreases cv.len() - i
{ if 0 <= i < cv.len() && !(cv[i] is Some && (cv[i]->0).0 < (cv[i]->0).1) { lem_first_ne(cv, i + 1); } }
pub proof fn lem_cap_range(u: &Util, t: Str, x: int, y: int) requires re_find(ext_pat(u), t) is Some, first_ne(re_caps(ext_pat(u), t), 1) == Some((x, y)) ensures 0 <= x <= y <= t.len()
{ broadcast use {gstr, gre}; lem_first_ne(re_caps(ext_pat(u), t), 1); }
pub proof fn p27_exactly(u: &Util, t: Str) ensures ext_split(u, t).1 is Some <==> (re_find(ext_pat(u), t) is Some && first_ne(re_caps(ext_pat(u), t), 1) is Some && viable(u, t.subrange(0, (re_find(ext_pat(u), t)->0).0))) {}
