// Sums over a stored map (the escrow owed to its records), and the effect of writes on them.
pub trait Priced: Sized { spec fn owed(self, d: Seq<char>) -> int; }
pub open spec fn dsum<K, V: Priced>(dom: Set<K>, m: Map<K, V>, d: Seq<char>) -> int decreases dom.len() {
    if dom.len() == 0 { 0 } else { let k = dom.choose(); m[k].owed(d) + dsum(dom.remove(k), m, d) }
}
pub closed spec fn psum<K, V: Priced>(m: Map<K, V>, d: Seq<char>) -> int { dsum(m.dom(), m, d) }
pub proof fn dsum_remove<K, V: Priced>(dom: Set<K>, m: Map<K, V>, d: Seq<char>, k: K)
    requires dom.contains(k)
    ensures dsum(dom, m, d) == m[k].owed(d) + dsum(dom.remove(k), m, d)
    decreases dom.len()
{
    let c = dom.choose();
    assert(dom.contains(c));
    if c != k {
        dsum_remove(dom.remove(c), m, d, k);
        dsum_remove(dom.remove(k), m, d, c);
        assert(dom.remove(c).remove(k) =~= dom.remove(k).remove(c));
    }
}
pub proof fn dsum_eq<K, V: Priced>(dom: Set<K>, m: Map<K, V>, n: Map<K, V>, d: Seq<char>)
    requires forall|k: K| dom.contains(k) ==> m[k] == n[k]
    ensures dsum(dom, m, d) == dsum(dom, n, d)
    decreases dom.len()
{
    if dom.len() != 0 { let c = dom.choose(); assert(dom.contains(c)); dsum_eq(dom.remove(c), m, n, d); }
}
pub broadcast proof fn psum_remove<K, V: Priced>(m: Map<K, V>, k: K, d: Seq<char>)
    ensures #[trigger] psum(m.remove(k), d) == psum(m, d) - (if m.dom().contains(k) { m[k].owed(d) } else { 0 })
{
    let n = m.remove(k);
    dsum_eq(n.dom(), m, n, d);
    if m.dom().contains(k) { dsum_remove(m.dom(), m, d, k); assert(n.dom() =~= m.dom().remove(k)); }
    else { assert(n.dom() =~= m.dom()); assert(m.dom().remove(k) =~= m.dom()); }
}
pub broadcast proof fn psum_insert<K, V: Priced>(m: Map<K, V>, k: K, v: V, d: Seq<char>)
    ensures #[trigger] psum(m.insert(k, v), d) == psum(m, d) + v.owed(d) - (if m.dom().contains(k) { m[k].owed(d) } else { 0 })
{
    let n = m.insert(k, v);
    dsum_remove(n.dom(), n, d, k);
    let r = n.dom().remove(k);
    dsum_eq(r, n, m, d);
    if m.dom().contains(k) { dsum_remove(m.dom(), m, d, k); assert(r =~= m.dom().remove(k)); }
    else { assert(r =~= m.dom()); }
}
// a sum is at least each of its terms, when no term is negative
pub proof fn psum_ge<K, V: Priced>(m: Map<K, V>, d: Seq<char>)
    requires forall|k: K| #[trigger] m.dom().contains(k) ==> m[k].owed(d) >= 0
    ensures psum(m, d) >= 0, forall|k: K| #[trigger] m.dom().contains(k) ==> psum(m, d) >= m[k].owed(d)
{
    dsum_nonneg(m.dom(), m, d);
    assert forall|k: K| #[trigger] m.dom().contains(k) implies psum(m, d) >= m[k].owed(d) by { dsum_remove(m.dom(), m, d, k); dsum_nonneg(m.dom().remove(k), m, d); }
}
pub proof fn dsum_nonneg<K, V: Priced>(dom: Set<K>, m: Map<K, V>, d: Seq<char>)
    requires forall|k: K| dom.contains(k) ==> m[k].owed(d) >= 0
    ensures dsum(dom, m, d) >= 0
    decreases dom.len()
{ if dom.len() != 0 { let c = dom.choose(); assert(dom.contains(c)); dsum_nonneg(dom.remove(c), m, d); } }
pub proof fn psum_none<K, V: Priced>(d: Seq<char>) ensures psum(Map::<K, V>::empty(), d) == 0 {}
pub broadcast proof fn map_remove_absent<K, V>(m: Map<K, V>, k: K)
    ensures !m.dom().contains(k) ==> #[trigger] m.remove(k) == m
{ if !m.dom().contains(k) { assert(m.remove(k) =~= m); } }
pub broadcast group group_sums { psum_remove, psum_insert, map_remove_absent }
