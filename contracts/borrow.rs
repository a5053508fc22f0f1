pub trait Borrow<T> {
    spec fn s_borrow(&self) -> T;
    fn borrow(&self) -> (r: &T) ensures *r == self.s_borrow();
}
impl<T> Borrow<T> for T {
    open spec fn s_borrow(&self) -> T { *self }
    fn borrow(&self) -> (r: &T) { self }
}
impl<T> Borrow<T> for &T {
    open spec fn s_borrow(&self) -> T { **self }
    fn borrow(&self) -> (r: &T) { *self }
}
pub trait BorrowMut<T> : Borrow<T> {
    fn borrow_mut(&mut self) -> (r: &mut T)
        ensures *r == <Self as Borrow<T>>::s_borrow(&*old(self)), <Self as Borrow<T>>::s_borrow(&*final(self)) == *final(r);
}
impl<T> BorrowMut<T> for T {
    fn borrow_mut(&mut self) -> (r: &mut T) { self }
}
impl<T> Borrow<T> for &mut T {
    open spec fn s_borrow(&self) -> T { **self }
    fn borrow(&self) -> (r: &T) { *self }
}
impl<T> BorrowMut<T> for &mut T {
    fn borrow_mut(&mut self) -> (r: &mut T) { *self }
}
