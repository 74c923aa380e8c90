// P16: trunc_from finds the longest valid proper prefix reachable without passing a too-short one or zero
pub open spec fn cut(n: u64, k: nat) -> u64 decreases k { if k == 0 { n } else { cut((n / 10) as u64, (k - 1) as nat) } }
pub open spec fn reach(u: &Util, p: &PhoneNumber, n: u64, k: nat) -> bool { forall|j: nat| 1 <= j <= k ==> !trunc_stop(u, p, #[trigger] cut(n, j)) }
pub proof fn p16_longest(u: &Util, p: &PhoneNumber, n: u64)
    ensures match trunc_from(u, p, n) {
        Some(m) => exists|k: nat| k >= 1 && #[trigger] cut(n, k) == m && reach(u, p, n, k) && valid(u, &with_nat(p, m)) && (forall|j: nat| 1 <= j < k ==> !valid(u, &with_nat(p, #[trigger] cut(n, j)))),
        None => forall|k: nat| k >= 1 && reach(u, p, n, k) ==> !valid(u, &with_nat(p, #[trigger] cut(n, k))) }
    decreases n
{
    let m = (n / 10) as u64;
    assert forall|j: nat| j >= 1 implies #[trigger] cut(n, j) == cut(m, (j - 1) as nat) by {}
    assert(cut(n, 1) == m) by { reveal_with_fuel(cut, 2); }
    if n == 0 || trunc_stop(u, p, m) {
        assert forall|k: nat| k >= 1 && reach(u, p, n, k) implies !valid(u, &with_nat(p, #[trigger] cut(n, k))) by { assert(trunc_stop(u, p, cut(n, 1))); }
    } else if valid(u, &with_nat(p, m)) {
        assert(reach(u, p, n, 1));
    } else {
        p16_longest(u, p, m);
        match trunc_from(u, p, m) {
            Some(x) => {
                let k = choose|k: nat| k >= 1 && #[trigger] cut(m, k) == x && reach(u, p, m, k) && valid(u, &with_nat(p, x)) && (forall|j: nat| 1 <= j < k ==> !valid(u, &with_nat(p, #[trigger] cut(m, j))));
                assert(cut(n, k + 1) == x);
                assert forall|j: nat| 1 <= j <= k + 1 implies !trunc_stop(u, p, #[trigger] cut(n, j)) by { if j > 1 { assert(!trunc_stop(u, p, cut(m, (j - 1) as nat))); } }
                assert forall|j: nat| 1 <= j < k + 1 implies !valid(u, &with_nat(p, #[trigger] cut(n, j))) by { if j > 1 { assert(!valid(u, &with_nat(p, cut(m, (j - 1) as nat)))); } }
                assert(reach(u, p, n, k + 1));
            }
            None => {
                assert forall|k: nat| k >= 1 && reach(u, p, n, k) implies !valid(u, &with_nat(p, #[trigger] cut(n, k))) by {
                    if k > 1 {
                        let k1 = (k - 1) as nat;
                        assert forall|j: nat| 1 <= j <= k1 implies !trunc_stop(u, p, #[trigger] cut(m, j)) by { assert(cut(n, j + 1) == cut(m, j)); }
                        assert(reach(u, p, m, k1)); assert(cut(n, k) == cut(m, k1));
                    } } } } }
}
