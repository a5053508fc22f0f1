pub open spec fn s_cmp(a: usize, b: usize) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// sort_by of the standard library: sorted by the comparison, and stable
pub trait VpSort<S> {
    spec fn s_pairs(&self) -> Seq<(usize, S)>;
    fn vp_sort_by<F: Fn(&(usize, S), &(usize, S)) -> Ordering>(&mut self, f: F)
        requires forall|a: (usize, S), b: (usize, S)| #[trigger] f.requires((&a, &b)),
            forall|a: (usize, S), b: (usize, S), o: Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == s_cmp(a.0, b.0),
        ensures final(self).s_pairs().len() == old(self).s_pairs().len(),
            final(self).s_pairs().to_multiset() == old(self).s_pairs().to_multiset(),
            forall|j: int| 0 <= j < final(self).s_pairs().len() ==> old(self).s_pairs().contains(#[trigger] final(self).s_pairs()[j]),
            forall|i: int, j: int| 0 <= i <= j < final(self).s_pairs().len() ==> (#[trigger] final(self).s_pairs()[i]).0 <= (#[trigger] final(self).s_pairs()[j]).0,
            forall|i: usize| old(self).s_pairs().filter(#[trigger] s_same::<S>(i)) == final(self).s_pairs().filter(s_same::<S>(i));
}
impl<S> VpSort<S> for Vec<(usize, S)> {
    open spec fn s_pairs(&self) -> Seq<(usize, S)> { self@ }
    #[verifier::external_body]
    fn vp_sort_by<F: Fn(&(usize, S), &(usize, S)) -> Ordering>(&mut self, f: F) { self.sort_by(f) }
}
