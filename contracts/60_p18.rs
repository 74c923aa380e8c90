// P18: RFC3966 text is taken apart by its parameters
pub open spec fn isub() -> Str { ";isub="@ }
pub open spec fn before_ctx(t: Str, k: int) -> Str { let h = t.subrange(0, k); match str_find(h, "tel:"@) { Some(j) => h.subrange(j + 4, k), None => h } }
pub proof fn p18_context(u: &Util, t: Str) requires str_find(t, ctx_mark()) is Some
    ensures ({ let k = str_find(t, ctx_mark())->0; let c = context_of(t, k);
        &&& build_nat(u, t) is Ok <==> c.len() > 0 && (re_whole(u.reg_exps.rfc3966_global_number_digits_pattern.pat(), c) || re_whole(u.reg_exps.rfc3966_domainname_pattern.pat(), c))
        &&& build_nat(u, t) is Ok && is_pre("+"@, c) ==> build_nat(u, t)->Ok_0 == up_to(c + before_ctx(t, k), isub())
        &&& build_nat(u, t) is Ok && !is_pre("+"@, c) ==> build_nat(u, t)->Ok_0 == up_to(before_ctx(t, k), isub()) })
{ let k = str_find(t, ctx_mark())->0; assert(Seq::<char>::empty() + before_ctx(t, k) =~= before_ctx(t, k)); }
pub proof fn p18_no_isub(t: Str) ensures is_pre(up_to(t, isub()), t), str_find(t, isub()) is Some ==> ({ let k = str_find(t, isub())->0; up_to(t, isub()) == t.subrange(0, k) && t.subrange(k, k + isub().len()) == isub() })
{ broadcast use gstr; str_find_is(t, isub()); assert(t.subrange(0, t.len() as int) =~= t); match str_find(t, isub()) { Some(k) => { assert(t.subrange(0, k).len() == k); }, None => {} } }
pub proof fn p18_failure_is_reported(u: &Util, t: Str, region: Str, check: bool) requires str_find(t, ctx_mark()) is Some, !ctx_valid(u, context_of(t, str_find(t, ctx_mark())->0))
    ensures parse_core(u, t, region, check) == Err::<Core, PErr>(PErr::FailedToParse(ParseError::NotANumber(NotANumberError::InvalidPhoneContext))) {}
