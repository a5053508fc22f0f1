// ---- the cache of Hall sets and the lock around it ----
/// The Hall set that the cache holds for n letters, once it holds one. Entries are only ever added (insert requires the
/// key to be absent), so a history of the cache has one such value for every n.
pub uninterp spec fn s_bound(n: u32) -> HallSetObject;
/// What the cache holds for n is a Hall set for n letters
pub open spec fn s_entry(n: u32, h: HallSetObject) -> bool { h.s_ok() && h.s_hv().n == n }
pub open spec fn s_cache_inv(m: Map<u32, HallSetObject>) -> bool {
    forall|n: u32| #[trigger] m.dom().contains(n) ==> m[n] == s_bound(n) && s_entry(n, m[n])
}
/// The cache as this thread knows it, and whether the thread holds the lock
#[verifier::external_body]
pub struct VpCache { _x: () }
/// A thread that enters a function does not hold the lock: guards never leave the module's functions.
#[verifier::external_body]
pub fn vp_cache_lock() -> (r: VpCache)
    ensures !r.s_held(), r.s_map() == Map::<u32, HallSetObject>::empty()
{ unimplemented!() }
impl VpCache {
    pub uninterp spec fn s_held(&self) -> bool;
    /// the entries that are known to be in the cache: all, while the lock is held
    pub uninterp spec fn s_map(&self) -> Map<u32, HallSetObject>;
    pub open spec fn s_grown(&self, old: &Self) -> bool {
        forall|n: u32| #[trigger] old.s_map().dom().contains(n) ==> self.s_map().dom().contains(n) && self.s_map()[n] == old.s_map()[n]
    }
    /// A thread that holds the lock must not ask for it again: it would wait for itself.
    /// Of what the cache holds only its invariant is known, and that nothing goes: other threads may have come first.
    #[verifier::external_body]
    pub fn vp_read(&mut self)
        requires !old(self).s_held()
        ensures final(self).s_held(), s_cache_inv(final(self).s_map()), final(self).s_grown(old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_write(&mut self)
        requires !old(self).s_held()
        ensures final(self).s_held(), s_cache_inv(final(self).s_map()), final(self).s_grown(old(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_release(&mut self)
        ensures !final(self).s_held(), final(self).s_map() == old(self).s_map()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u32) -> (r: Option<&'static HallSetObject>)
        requires self.s_held()
        ensures r is Some == self.s_map().dom().contains(*k), r is Some ==> *r->Some_0 == self.s_map()[*k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u32) -> (r: bool)
        requires self.s_held()
        ensures r == self.s_map().dom().contains(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize requires self.s_held() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        requires self.s_held()
        ensures r ==> forall|n: u32| !#[trigger] self.s_map().dom().contains(n)
    { unimplemented!() }
    /// the entry of a key that is there
    #[verifier::external_body]
    pub fn vp_at(&self, k: &u32) -> (r: &'static HallSetObject)
        requires self.s_held(), self.s_map().dom().contains(*k)
        ensures *r == self.s_map()[*k]
    { unimplemented!() }
    /// what is in the cache is never replaced; what is added stands for its key from then on
    #[verifier::external_body]
    pub fn insert(&mut self, k: u32, v: HallSetObject) -> (r: Option<HallSetObject>)
        requires old(self).s_held(), !old(self).s_map().dom().contains(k), s_entry(k, v), s_cache_inv(old(self).s_map())
        ensures r is None, final(self).s_held(), final(self).s_map() == old(self).s_map().insert(k, v), s_bound(k) == v, s_cache_inv(final(self).s_map())
    { unimplemented!() }
    /// entry(k).or_insert(v)
    pub fn vp_or_insert(&mut self, k: u32, v: HallSetObject) -> (r: &'static HallSetObject)
        requires old(self).s_held(), s_entry(k, v), s_cache_inv(old(self).s_map())
        ensures final(self).s_held(), s_cache_inv(final(self).s_map()), final(self).s_grown(old(self)), final(self).s_map().dom().contains(k), *r == final(self).s_map()[k]
    {
        if !self.contains_key(&k) { self.insert(k, v); }
        self.vp_at(&k)
    }
}
/// Option::cloned
pub trait VpCloned { spec fn s_cl(self) -> Option<HallSetObject>; fn vp_cloned(self) -> (r: Option<HallSetObject>) ensures r == self.s_cl(); }
impl<'a> VpCloned for Option<&'a HallSetObject> {
    open spec fn s_cl(self) -> Option<HallSetObject> { match self { Some(x) => Some(*x), None => None } }
    fn vp_cloned(self) -> (r: Option<HallSetObject>) { match self { Some(x) => Some(x.clone()), None => None } }
}
