// ---- what a Hall set is, to those who ask it ----
pub ghost struct HallView {
    /// the number of letters
    pub n: nat,
    /// the parents of every key that is present; key 0 stands for no key
    pub set: Seq<(u32, u32)>,
    /// the number of degrees, from 0 on, whose cumulative sizes are tabulated
    pub degs: nat,
}
/// the degree of a key: the first whose cumulative size reaches it
pub open spec fn s_is_deg(n: nat, key: nat, d: nat) -> bool {
    key <= s_hall_size(n, d) && forall|e: nat| e < d ==> #[trigger] s_hall_size(n, e) < key
}
pub open spec fn s_hall_inv(v: HallView) -> bool {
    &&& 1 <= v.n <= 0xffff_ffff
    &&& 1 <= v.degs <= 0xffff_ffff
    &&& s_witt_fits(v.n, (v.degs - 1) as nat)
    &&& v.set.len() >= 1
    &&& v.set.len() - 1 <= s_hall_size(v.n, (v.degs - 1) as nat)
    &&& forall|i: int| 0 <= i < v.set.len() ==> (#[trigger] v.set[i]).0 < v.set.len() && v.set[i].1 < v.set.len()
}
/// (key, left parent, right parent, degree) of a key that is present
pub open spec fn s_details(v: HallView, key: nat, r: (u64, u64, u64, u32)) -> bool {
    key < v.set.len() && r.0 == key && r.1 == v.set[key as int].0 && r.2 == v.set[key as int].1 && s_is_deg(v.n, key, r.3 as nat)
}
/// what a query answers when the key is present, and when it is not
pub open spec fn s_answer(v: HallView, key: nat, of: nat, r: Result<(u64, u64, u64, u32), HallSetError>) -> bool {
    if key < v.set.len() { r is Ok && s_details(v, of, r->Ok_0) } else { r is Err && r->Err_0 is HallSetTooSmall }
}
/// how many degrees a new Hall set knows
pub open spec fn s_degs0(n: nat) -> nat {
    if n == 2 { 30 } else if 3 <= n <= 5 { 20 } else if 6 <= n <= 10 { 8 } else if 11 <= n <= 20 { 3 } else { 2 }
}
pub proof fn lemma_ipow_base(a: nat, b: nat, n: nat)
    requires a <= b
    ensures ipow(a, n) <= ipow(b, n)
    decreases n
{
    if n > 0 {
        lemma_ipow_base(a, b, (n - 1) as nat);
        let (x, y) = (ipow(a, (n - 1) as nat), ipow(b, (n - 1) as nat));
        assert(a * x <= b * y) by (nonlinear_arith) requires a <= b, x <= y;
    }
}
pub proof fn lemma_degs0(n: nat)
    requires 1 <= n <= 0xffff_ffff
    ensures s_witt_fits(n, (s_degs0(n) - 1) as nat), 2 <= s_degs0(n) <= 30,
        s_hall_size(n, 0) == 0,
{
    reveal_with_fuel(ipow, 3);
    assert(ipow(2, 29) <= 0x7fff_ffff_ffff_ffff) by (compute);
    assert(ipow(5, 19) <= 0x7fff_ffff_ffff_ffff) by (compute);
    assert(ipow(10, 7) <= 0x7fff_ffff_ffff_ffff) by (compute);
    assert(ipow(20, 2) <= 0x7fff_ffff_ffff_ffff) by (compute);
    if n == 2 {}
    else if n <= 5 { lemma_ipow_base(n, 5, 19); }
    else if n <= 10 { lemma_ipow_base(n, 10, 7); }
    else if n <= 20 { lemma_ipow_base(n, 20, 2); }
    else { assert(ipow(n, 1) == n) by { reveal_with_fuel(ipow, 3); assert(n * 1 == n); } }
}
