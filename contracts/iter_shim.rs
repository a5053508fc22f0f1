/// the standard library's trait, so that its method can carry a contract
pub trait IntoIterator {
    type Item;
    type IntoIter;
    fn into_iter(self) -> (r: Self::IntoIter);
}
pub type HashMapIter<'a, K, S> = VpEntries<'a, K, S>;
impl<K: Hash, S> HashMap<K, S> {
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: VpEntries<'a, K, S>) ensures r.s_map() == self@, s_enum(self@, r.s_ks()) { unimplemented!() }
}
