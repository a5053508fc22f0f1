// Stand-ins for traits of the standard library, so that their methods can carry contracts.
pub trait Into<T>: Sized {
    spec fn s_into(self) -> T;
    fn into(self) -> (r: T) ensures r == self.s_into();
}
impl<T> Into<T> for T {
    open spec fn s_into(self) -> T { self }
    fn into(self) -> (r: T) { self }
}
pub trait AsRef<T> {
    fn as_ref(&self) -> (r: &T);
}
pub trait Iterator {
    type Item;
    spec fn s_inv(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).s_inv()
        ensures final(self).s_inv();
}
