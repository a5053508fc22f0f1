/// the standard library's trait, so that its method can carry a contract: an iterator yields a fixed sequence
pub trait Iterator: Sized {
    type Item;
    /// what it yields after i more items
    spec fn s_rest(&self, i: nat) -> Option<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        ensures r == old(self).s_rest(0), r is Some ==> forall|i: nat| #[trigger] final(self).s_rest(i) == old(self).s_rest(i + 1);
}
