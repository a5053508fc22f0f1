/// slice::partition_point: the number of elements before the first on which the predicate is false, if none after it is true
/// (the standard library's contract, assumed)
pub trait VpPartition<T> {
    spec fn s_part(&self) -> Seq<T>;
    fn vp_partition_point<P: FnMut(&T) -> bool>(&self, pred: P) -> (r: usize)
        requires forall|x: &T| #[trigger] call_requires(pred, (x,)),
            forall|i: int, j: int| 0 <= i <= j < self.s_part().len() && call_ensures(pred, (&#[trigger] self.s_part()[i],), false)
                ==> !call_ensures(pred, (&#[trigger] self.s_part()[j],), true)
        ensures r <= self.s_part().len(),
            forall|i: int| 0 <= i < r ==> call_ensures(pred, (&#[trigger] self.s_part()[i],), true),
            forall|i: int| r <= i < self.s_part().len() ==> call_ensures(pred, (&#[trigger] self.s_part()[i],), false);
}
impl<T> VpPartition<T> for Vec<T> {
    open spec fn s_part(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vp_partition_point<P: FnMut(&T) -> bool>(&self, pred: P) -> (r: usize) { self.partition_point(pred) }
}
