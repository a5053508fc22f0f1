// Stand-ins for traits of the standard library, so that their methods can carry contracts.
pub trait From<T>: Sized {
    spec fn s_from(t: T) -> Self;
    fn from(t: T) -> (r: Self) ensures r == Self::s_from(t);
}
impl<T> From<T> for T {
    open spec fn s_from(t: T) -> T { t }
    fn from(t: T) -> (r: T) { t }
}
pub trait Into<T>: Sized {
    spec fn s_into(self) -> T;
    fn vp_into(self) -> (r: T) ensures r == self.s_into();
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn s_into(self) -> U { U::s_from(self) }
    fn vp_into(self) -> (r: U) { U::from(self) }
}
pub trait Deref {
    type Target;
    spec fn s_deref(&self) -> Self::Target;
    fn deref(&self) -> (r: &Self::Target) ensures *r == self.s_deref();
}
pub trait DerefMut : Deref {
    fn deref_mut(&mut self) -> (r: &mut Self::Target)
        ensures *r == (*old(self)).s_deref(), (*final(self)).s_deref() == *final(r);
}
/// the premise of the property: a wrapper made from a vector dereferences to that vector
pub broadcast axiom fn law_wrap<V: Deref + From<<V as Deref>::Target>>(t: V::Target)
    ensures (#[trigger] <V as From<V::Target>>::s_from(t)).s_deref() == t;
