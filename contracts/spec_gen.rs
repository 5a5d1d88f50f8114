// Specification vocabulary shared by the contracts: what a message list does, index pages.
pub type Str = Seq<char>;

pub open spec fn sent(a: Response, b: Response, to: Str, cs: Seq<Coin>) -> bool {
    &&& forall|x: Str, d: Str| #[trigger] paid(b.messages@, x, d) == paid(a.messages@, x, d) + (if x == to { coins_amt(cs, d) } else { 0 })
    &&& forall|d: Str| #[trigger] paid_all(b.messages@, d) == paid_all(a.messages@, d) + coins_amt(cs, d)
    &&& nfts(b.messages@) == nfts(a.messages@)
    &&& all_atomic(b.messages@) == all_atomic(a.messages@)
    &&& no_zero_sends(b.messages@) == (no_zero_sends(a.messages@) && no_zero_coins(cs))
}
// messages were added that move neither funds nor assets and cannot fail apart from the transaction
pub open spec fn no_value(a: Response, b: Response) -> bool {
    &&& forall|x: Str, d: Str| #[trigger] paid(b.messages@, x, d) == paid(a.messages@, x, d)
    &&& forall|d: Str| #[trigger] paid_all(b.messages@, d) == paid_all(a.messages@, d)
    &&& nfts(b.messages@) == nfts(a.messages@)
    &&& all_atomic(b.messages@) == all_atomic(a.messages@)
    &&& no_zero_sends(b.messages@) == no_zero_sends(a.messages@)
}
pub open spec fn nft_sent(a: Response, b: Response, c: Str, t: Str, to: Str) -> bool {
    &&& forall|x: Str, d: Str| #[trigger] paid(b.messages@, x, d) == paid(a.messages@, x, d)
    &&& forall|d: Str| #[trigger] paid_all(b.messages@, d) == paid_all(a.messages@, d)
    &&& nfts(b.messages@) == nfts(a.messages@).push(NftMove { collection: c, token: t, to })
    &&& all_atomic(b.messages@) == all_atomic(a.messages@)
    &&& no_zero_sends(b.messages@) == no_zero_sends(a.messages@)
}
pub broadcast proof fn mul_ceil_facts(v: int, a: int)
    requires v >= 0, a >= 0
    ensures #[trigger] mul_ceil_sp(v, a) >= 0, a == 0 ==> mul_ceil_sp(v, a) == 0, v > 0 && a > 0 ==> mul_ceil_sp(v, a) > 0
{
    assert(v * a >= 0) by (nonlinear_arith) requires v >= 0, a >= 0;
    if a == 0 { assert(v * a == 0) by (nonlinear_arith) requires a == 0; }
    if v > 0 && a > 0 { assert(v * a >= 1) by (nonlinear_arith) requires v > 0, a > 0; }
}
// a page of an index: the records of m that satisfy keep, in key order within the bounds, cut at limit
pub open spec fn page<SK: KeyOrd, K, V>(m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, out: Seq<V>) -> bool {
    exists|ks: Seq<K>| #[trigger] page_keys(m, keep, key, min, max, order, limit, ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == m[ks[i]]
}
pub open spec fn in_page<SK: KeyOrd, K, V>(m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, k: K) -> bool {
    m.dom().contains(k) && keep(m[k]) && in_min(key(k, m[k]), min) && in_max(key(k, m[k]), max)
}
pub open spec fn page_keys<SK: KeyOrd, K, V>(m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, ks: Seq<K>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> in_page(m, keep, key, min, max, #[trigger] ks[i])
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> before(order, key(#[trigger] ks[i], m[ks[i]]), key(#[trigger] ks[j], m[ks[j]]))
    &&& ks.len() <= limit
    &&& forall|k: K| #[trigger] m.dom().contains(k) && in_page(m, keep, key, min, max, k) ==> ks.contains(k) || (ks.len() == limit && forall|i: int| 0 <= i < ks.len() ==> before(order, key(#[trigger] ks[i], m[ks[i]]), key(k, m[k])))
}
pub broadcast proof fn page_from<SK: KeyOrd, K, V>(r: RangeIter<SK, K, V>, m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, out: Seq<V>)
    requires #[trigger] r.values_ok(out), r.m@ == m, r.min@ == min, r.max@ == max, r.order == order, r.limit@ == Some(limit),
        forall|v: V| #[trigger] (r.keep@)(v) == keep(v), forall|k: K, v: V| #[trigger] (r.key@)(k, v) == key(k, v),
    ensures #[trigger] page(m, keep, key, min, max, order, limit, out)
{
    let ks = choose|ks: Seq<K>| #[trigger] r.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == r.m@[ks[i]];
    assert forall|i: int| 0 <= i < ks.len() implies in_page(m, keep, key, min, max, #[trigger] ks[i]) by { assert(r.in_range(ks[i])); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies before(order, key(#[trigger] ks[i], m[ks[i]]), key(#[trigger] ks[j], m[ks[j]])) by { assert((r.key@)(ks[i], m[ks[i]]) == key(ks[i], m[ks[i]])); assert((r.key@)(ks[j], m[ks[j]]) == key(ks[j], m[ks[j]])); }
    assert forall|k: K| #[trigger] m.dom().contains(k) && in_page(m, keep, key, min, max, k) implies ks.contains(k) || (ks.len() == limit && forall|i: int| 0 <= i < ks.len() ==> before(order, key(#[trigger] ks[i], m[ks[i]]), key(k, m[k]))) by {
        assert((r.keep@)(m[k])); assert((r.key@)(k, m[k]) == key(k, m[k])); assert(r.in_range(k));
        if !ks.contains(k) { assert forall|i: int| 0 <= i < ks.len() implies before(order, key(#[trigger] ks[i], m[ks[i]]), key(k, m[k])) by { assert((r.key@)(ks[i], m[ks[i]]) == key(ks[i], m[ks[i]])); } }
    }
    assert(page_keys(m, keep, key, min, max, order, limit, ks));
}
pub broadcast proof fn pairs_from<SK: KeyOrd, K, V>(r: RangeIter<SK, K, V>, m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, out: Seq<(K, V)>)
    requires #[trigger] r.pairs_ok(out), r.m@ == m, r.min@ == min, r.max@ == max, r.order == order, r.limit@ == Some(limit),
        forall|v: V| #[trigger] (r.keep@)(v) == keep(v), forall|k: K, v: V| #[trigger] (r.key@)(k, v) == key(k, v),
    ensures #[trigger] page2(m, keep, key, min, max, order, limit, out)
{
    let ks = choose|ks: Seq<K>| #[trigger] r.listing(ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == (ks[i], r.m@[ks[i]]);
    let vs = ks.map_values(|k: K| m[k]);
    assert(r.values_ok(vs));
    assert forall|i: int| 0 <= i < ks.len() implies in_page(m, keep, key, min, max, #[trigger] ks[i]) by { assert(r.in_range(ks[i])); }
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies before(order, key(#[trigger] ks[i], m[ks[i]]), key(#[trigger] ks[j], m[ks[j]])) by { assert((r.key@)(ks[i], m[ks[i]]) == key(ks[i], m[ks[i]])); assert((r.key@)(ks[j], m[ks[j]]) == key(ks[j], m[ks[j]])); }
    assert forall|k: K| #[trigger] m.dom().contains(k) && in_page(m, keep, key, min, max, k) implies ks.contains(k) || (ks.len() == limit && forall|i: int| 0 <= i < ks.len() ==> before(order, key(#[trigger] ks[i], m[ks[i]]), key(k, m[k]))) by {
        assert((r.keep@)(m[k])); assert((r.key@)(k, m[k]) == key(k, m[k])); assert(r.in_range(k));
        if !ks.contains(k) { assert forall|i: int| 0 <= i < ks.len() implies before(order, key(#[trigger] ks[i], m[ks[i]]), key(k, m[k])) by { assert((r.key@)(ks[i], m[ks[i]]) == key(ks[i], m[ks[i]])); } }
    }
    assert(page_keys(m, keep, key, min, max, order, limit, ks));
}
// a page with the keys
pub open spec fn page2<SK: KeyOrd, K, V>(m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, out: Seq<(K, V)>) -> bool {
    exists|ks: Seq<K>| #[trigger] page_keys(m, keep, key, min, max, order, limit, ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == (ks[i], m[ks[i]])
}
// limit 1: the first record in order, or nothing in range
pub broadcast proof fn page_top<SK: KeyOrd, K, V>(m: Map<K, V>, keep: spec_fn(V) -> bool, key: spec_fn(K, V) -> SK, min: Option<SBound<SK>>, max: Option<SBound<SK>>, order: crate::shim::Order, limit: nat, out: Seq<V>)
    requires #[trigger] page(m, keep, key, min, max, order, limit, out), limit == 1
    ensures
        out.len() <= 1,
        out.len() == 0 ==> forall|k: K| #[trigger] m.dom().contains(k) ==> !in_page(m, keep, key, min, max, k),
        out.len() == 1 ==> exists|k0: K| #[trigger] m.dom().contains(k0) && m[k0] == out[0] && in_page(m, keep, key, min, max, k0)
            && forall|k: K| #[trigger] m.dom().contains(k) && in_page(m, keep, key, min, max, k) ==> k == k0 || before(order, key(k0, m[k0]), key(k, m[k])),
{
    let ks = choose|ks: Seq<K>| #[trigger] page_keys(m, keep, key, min, max, order, 1, ks) && ks.len() == out.len() && forall|i: int| 0 <= i < ks.len() ==> #[trigger] out[i] == m[ks[i]];
    if out.len() == 1 {
        let k0 = ks[0];
        assert(out[0] == m[k0]);
        assert(in_page(m, keep, key, min, max, k0));
        assert forall|k: K| #[trigger] m.dom().contains(k) && in_page(m, keep, key, min, max, k) implies k == k0 || before(order, key(k0, m[k0]), key(k, m[k])) by {
            if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(i == 0); } else { assert(before(order, key(ks[0], m[ks[0]]), key(k, m[k]))); }
        }
        assert(m.dom().contains(k0));
    } else {
        assert forall|k: K| #[trigger] m.dom().contains(k) implies !in_page(m, keep, key, min, max, k) by { if in_page(m, keep, key, min, max, k) { assert(ks.contains(k)); } }
    }
}
pub open spec fn clean(ms: Seq<SubMsg>) -> bool { all_atomic(ms) && no_zero_sends(ms) }
