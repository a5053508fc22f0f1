/// Keys of hash maps. The premise on them is that of the standard library, with Rust's equality as the equality of keys:
/// equal keys have equal hashes, and a copy of a key equals the key.
pub trait Hash: Clone {
    proof fn law_key(a: Self, b: Self)
        requires cloned(a, b)
        ensures a == b;
}
pub broadcast proof fn lemma_key_clone<K: Hash>(a: K, b: K)
    requires #[trigger] call_ensures(K::clone, (&a,), b)
    ensures a == b
{ K::law_key(a, b); }

/// std::collections::HashMap, as a map from keys to values (the standard library's contracts, assumed)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(S)]
pub struct HashMap<K, S> { k: PhantomData<K>, s: PhantomData<S> }
impl<K: Hash, S> HashMap<K, S> {
    pub uninterp spec fn view(&self) -> Map<K, S>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, S>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, S>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&S>)
        ensures match r { Some(x) => self@.contains_key(*k) && *x == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut S>)
        ensures match r {
            Some(x) => old(self)@.contains_key(*k) && *x == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(x)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: S) -> (r: Option<S>)
        ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<S>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, S>::empty() { unimplemented!() }
}
/// keys in the order of an iteration: each key of the map once
pub open spec fn s_enum<K, S>(m: Map<K, S>, ks: Seq<K>) -> bool {
    &&& ks.len() == m.len() && ks.no_duplicates()
    &&& forall|k: K| #[trigger] m.contains_key(k) <==> ks.contains(k)
}
/// HashMap::iter: the entries in some order
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(S)]
pub struct VpEntries<'a, K, S> { v: Vec<(&'a K, &'a S)> }
impl<'a, K, S> VpEntries<'a, K, S> {
    pub uninterp spec fn s_map(&self) -> Map<K, S>;
    pub uninterp spec fn s_ks(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s_ks().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_entries<'a, K: Hash, S>(m: &'a HashMap<K, S>) -> (r: VpEntries<'a, K, S>)
    ensures r.s_map() == m@, s_enum(m@, r.s_ks()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_entry<'a, K, S>(e: &VpEntries<'a, K, S>, i: usize) -> (r: (&'a K, &'a S))
    requires i < e.s_ks().len()
    ensures *r.0 == e.s_ks()[i as int], *r.1 == e.s_map()[*r.0] { unimplemented!() }
/// HashMap::iter_mut: the keys in some order, and the value of one at a time
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VpKeys<K> { v: Vec<K> }
impl<K> VpKeys<K> {
    pub uninterp spec fn s_ks(&self) -> Seq<K>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s_ks().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_keys<K: Hash, S>(m: &HashMap<K, S>) -> (r: VpKeys<K>)
    ensures s_enum(m@, r.s_ks()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_key<'a, K>(e: &'a VpKeys<K>, i: usize) -> (r: &'a K)
    requires i < e.s_ks().len()
    ensures *r == e.s_ks()[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vp_value_mut<'a, K: Hash, S>(m: &'a mut HashMap<K, S>, e: &VpKeys<K>, i: usize) -> (r: &'a mut S)
    requires i < e.s_ks().len(), old(m)@.contains_key(e.s_ks()[i as int])
    ensures *r == old(m)@[e.s_ks()[i as int]], final(m)@ == old(m)@.insert(e.s_ks()[i as int], *final(r)) { unimplemented!() }
impl<K: Hash, S: PartialEq> PartialEqSpecImpl for HashMap<K, S> {
    open spec fn obeys_eq_spec() -> bool { S::obeys_eq_spec() }
    open spec fn eq_spec(&self, other: &Self) -> bool {
        &&& forall|k: K| #[trigger] self@.contains_key(k) <==> other@.contains_key(k)
        &&& forall|k: K| #[trigger] self@.contains_key(k) ==> self@[k].eq_spec(&other@[k])
    }
}
impl<K: Hash, S: PartialEq> PartialEq for HashMap<K, S> {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
