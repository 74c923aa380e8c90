@@fn RegexBasedMatcher::new
@spec
    ensures true,
@@fn PhoneNumberUtilInternal::new_for_metadata
@spec
    ensures built(&r, metadata_collection.metadata@), ctor_ok(&r.reg_exps),
@start
    broadcast use geq;
    let ghost ms = metadata_collection.metadata@;
    proof { ax_eq_obeys(); reveal_strlit("ZZ"); reveal_strlit("001"); assert(zz()[0] != nongeo()[0]); }
@loop 0
    invariant
        it0_all == ms, 0 <= it0.rem().len() <= it0_all.len(), it0.rem() == it0_all.subrange(it0_all.len() - it0.rem().len(), it0_all.len() as int),
        zz() != nongeo(), zz() == "ZZ"@, nongeo() == "001"@,
        ctor_ok(&instance.reg_exps), instance.country_calling_code_to_region_code_map@.len() == 0,
        rmap(&instance) == by_region(it0_all, it0_all.len() - it0.rem().len()), ngmap(&instance) == by_code(it0_all, it0_all.len() - it0.rem().len()),
        instance.nanpa_regions.st() == nanpa_set(it0_all, it0_all.len() - it0.rem().len()),
        grouped(country_calling_code_to_region_map.m(), it0_all, it0_all.len() - it0.rem().len()),
    ensures
        ctor_ok(&instance.reg_exps), instance.country_calling_code_to_region_code_map@.len() == 0,
        rmap(&instance) == by_region(it0_all, it0_all.len() as int), ngmap(&instance) == by_code(it0_all, it0_all.len() as int),
        instance.nanpa_regions.st() == nanpa_set(it0_all, it0_all.len() as int),
        grouped(country_calling_code_to_region_map.m(), it0_all, it0_all.len() as int),
    decreases it0.rem().len(),
@body 0
    broadcast use geq;
    proof { ax_eq_obeys(); let k = it0_all.len() - it0.rem().len(); if it0.rem().len() > 0 { assert(it0.rem()[0] == it0_all[k]); assert(it0.rem().subrange(1, it0.rem().len() as int) =~= it0_all.subrange(k + 1, it0_all.len() as int));
        lem_build_step(it0_all, k + 1, country_calling_code_to_region_map.m()); } }
@loop 1
    invariant
        grouped(country_calling_code_to_region_map.m(), ms, ms.len() as int), entries_of::<i32, VecDeque<String>>(country_calling_code_to_region_map.m(), it1_all),
        0 <= it1.rem().len() <= it1_all.len(), it1.rem() == it1_all.subrange(it1_all.len() - it1.rem().len(), it1_all.len() as int),
        instance.country_calling_code_to_region_code_map@.len() == it1_all.len() - it1.rem().len(),
        forall|i: int| 0 <= i < it1_all.len() - it1.rem().len() ==> (#[trigger] instance.country_calling_code_to_region_code_map@[i]).0 == it1_all[i].0 && instance.country_calling_code_to_region_code_map@[i].1@ == it1_all[i].1.dq(),
        ctor_ok(&instance.reg_exps), rmap(&instance) == by_region(ms, ms.len() as int), ngmap(&instance) == by_code(ms, ms.len() as int), instance.nanpa_regions.st() == nanpa_set(ms, ms.len() as int),
    ensures
        tab_built(instance.country_calling_code_to_region_code_map@, ms),
        forall|i: int, j: int| 0 <= i < j < instance.country_calling_code_to_region_code_map@.len() ==> (#[trigger] instance.country_calling_code_to_region_code_map@[i]).0 != (#[trigger] instance.country_calling_code_to_region_code_map@[j]).0,
    decreases it1.rem().len(),
@body 1
    proof { let k = it1_all.len() - it1.rem().len(); if it1.rem().len() > 0 { assert(it1.rem()[0] == it1_all[k]); assert(it1.rem().subrange(1, it1.rem().len() as int) =~= it1_all.subrange(k + 1, it1_all.len() as int)); }
        else { lem_tab_built(country_calling_code_to_region_map.m(), ms, it1_all, instance.country_calling_code_to_region_code_map@); } }
@@fn PhoneNumberUtilInternal::new
@spec
    ensures match r { Ok(u) => wf(&u), Err(_) => false },
@start
    broadcast use wfg;
@@fn PhoneNumberUtil::new
@spec
    ensures wf(&r.util_internal),
