pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
   where T: Clone
   ensures s_copy(s@, r@);
pub assume_specification<T> [<[T]>::fill] (s: &mut [T], x: T)
   where T: Clone
   ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(x, #[trigger] final(s)@[i]);

/// wrappers that state the standard library's contract for scalars in one equation; verified against vstd
pub trait VpVec<S> {
    fn vp_extend_from_slice(&mut self, s: &[S]);
}
impl<S: CoefficientField> VpVec<S> for Vec<S> {
    fn vp_extend_from_slice(&mut self, s: &[S])
        ensures final(self)@ == old(self)@ + s@
    {
        broadcast use group_clone;
        let ghost o = self@;
        self.extend_from_slice(s);
        proof {
            assert forall|i: int| 0 <= i < s@.len() implies self@[o.len() + i] == s@[i] by { assert(cloned(s@[i], self@[o.len() + i])); }
            assert(self@ =~= o + s@);
        }
    }
}
/// unchecked accesses: the index, or the range of indices, must be within the slice
pub trait VpGet<I> {
    type Out: ?Sized;
    spec fn s_in(&self, i: I) -> bool;
    spec fn s_read(&self, i: I, r: &Self::Out) -> bool;
    spec fn s_written(&self, i: I, n: &Self, r: &Self::Out) -> bool;
    fn vp_get_unchecked(&self, i: I) -> (r: &Self::Out)
        requires self.s_in(i)
        ensures self.s_read(i, r);
    fn vp_get_unchecked_mut(&mut self, i: I) -> (r: &mut Self::Out)
        requires old(self).s_in(i)
        ensures old(self).s_read(i, r), old(self).s_written(i, final(self), final(r));
}
impl<T> VpGet<usize> for [T] {
    type Out = T;
    open spec fn s_in(&self, i: usize) -> bool { i < self@.len() }
    open spec fn s_read(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    open spec fn s_written(&self, i: usize, n: &Self, r: &T) -> bool { n@ == self@.update(i as int, *r) }
    fn vp_get_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
    fn vp_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
impl<T> VpGet<Range<usize>> for [T] {
    type Out = [T];
    open spec fn s_in(&self, i: Range<usize>) -> bool { i.start <= i.end <= self@.len() }
    open spec fn s_read(&self, i: Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    open spec fn s_written(&self, i: Range<usize>, n: &Self, r: &[T]) -> bool {
        r@.len() == i.end - i.start && n@.subrange(i.start as int, i.end as int) == r@ && n@ == self@.take(i.start as int) + r@ + self@.skip(i.end as int)
    }
    #[verifier::external_body]
    fn vp_get_unchecked(&self, i: Range<usize>) -> (r: &[T]) { &self[i] }
    #[verifier::external_body]
    fn vp_get_unchecked_mut(&mut self, i: Range<usize>) -> (r: &mut [T]) { &mut self[i] }
}
/// a raw pointer into a slice: it may move up to one past the end, and be read and written below the end
pub struct VpCursor<'a, S> { s: &'a mut [S], pos: usize }
impl<'a, S> VpCursor<'a, S> {
    pub closed spec fn s_slice(&self) -> Seq<S> { self.s@ }
    #[verifier::prophetic]
    pub closed spec fn s_fin(&self) -> Seq<S> { final(self.s)@ }
    pub closed spec fn s_pos(&self) -> nat { self.pos as nat }
    pub fn vp_add(self, n: usize) -> (r: Self)
        requires self.s_pos() + n <= self.s_slice().len()
        ensures r.s_slice() == self.s_slice(), r.s_pos() == self.s_pos() + n, r.s_fin() == self.s_fin()
    { let l = self.s.len(); VpCursor { s: self.s, pos: self.pos + n } }
    pub fn vp_mut(&mut self) -> (r: &mut S)
        requires old(self).s_pos() < old(self).s_slice().len()
        ensures *r == old(self).s_slice()[old(self).s_pos() as int],
            final(self).s_slice() == old(self).s_slice().update(old(self).s_pos() as int, *final(r)),
            final(self).s_pos() == old(self).s_pos(), final(self).s_fin() == old(self).s_fin()
    { &mut self.s[self.pos] }
    pub fn vp_mut_at(&mut self, n: usize) -> (r: &mut S)
        requires old(self).s_pos() + n < old(self).s_slice().len()
        ensures *r == old(self).s_slice()[(old(self).s_pos() + n) as int],
            final(self).s_slice() == old(self).s_slice().update((old(self).s_pos() + n) as int, *final(r)),
            final(self).s_pos() == old(self).s_pos(), final(self).s_fin() == old(self).s_fin()
    { let l = self.s.len(); &mut self.s[self.pos + n] }
}
pub fn vp_cursor<'a, S>(s: &'a mut [S]) -> (r: VpCursor<'a, S>)
    ensures r.s_slice() == old(s)@, r.s_pos() == 0, r.s_fin() == final(s)@
{ VpCursor { s, pos: 0 } }
/// Vec::from(&[T]) copies the slice
pub fn vp_vec_from<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures s_copy(s@, r@) { s.to_vec() }

pub assume_specification<Idx: Clone>[ <Range<Idx> as Clone>::clone ](r: &Range<Idx>) -> (c: Range<Idx>)
    ensures call_ensures(Idx::clone, (&r.start,), c.start), call_ensures(Idx::clone, (&r.end,), c.end);
