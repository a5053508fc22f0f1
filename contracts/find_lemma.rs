/// the cumulative sizes grow
pub proof fn lemma_find(w: nat, s: Seq<usize>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == s_hall_size(w, i as nat)
    ensures forall|i: int, j: int| 0 <= i <= j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j],
        forall|d: nat| d < s.len() ==> #[trigger] s_hall_size(w, d) == s[d as int],
{
    assert forall|i: int, j: int| 0 <= i <= j < s.len() implies #[trigger] s[i] <= #[trigger] s[j] by { lemma_size_mono(w, i as nat, j as nat); }
}
