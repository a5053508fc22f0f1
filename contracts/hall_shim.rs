/// stands for Box<dyn Error>: what another error was
#[verifier::external_body]
pub struct VpBoxError { _x: () }
/// stands for the error of a lock whose holder panicked
#[verifier::external_body]
pub struct VpPoison { _x: () }
/// stands for Arc<RwLock<dyn HallSet>>: the queries of a Hall set behind a lock are those of the set that was put there
#[verifier::external_body]
pub struct VpHallLock { _x: () }
#[verifier::external_body]
pub struct VpHallGuard<'a> { _x: &'a () }
/// stands for RwLock<impl HallSet>, on its way into an Arc
#[verifier::external_body]
#[verifier::reject_recursive_types(H)]
pub struct VpRw<H> { _x: H }
impl<H> VpRw<H> { pub uninterp spec fn s_in(&self) -> H; }
#[verifier::external_body]
pub fn vp_rw_new<H>(h: H) -> (r: VpRw<H>)
    ensures r.s_in() == h
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_arc_new<H: HallSet>(h: VpRw<H>) -> (r: VpHallLock)
    ensures r.s_hv() == h.s_in().s_hv(), r.s_ok() == h.s_in().s_ok(), r.s_avail()
{ unimplemented!() }
impl VpHallLock {
    pub uninterp spec fn s_hv(&self) -> HallView;
    pub uninterp spec fn s_ok(&self) -> bool;
    /// no holder of the lock has panicked
    pub uninterp spec fn s_avail(&self) -> bool;
    #[verifier::external_body]
    pub fn read(&self) -> (r: Result<VpHallGuard<'_>, VpPoison>)
        ensures r is Ok == self.s_avail(), r is Ok ==> r->Ok_0.s_of() == *self
    { unimplemented!() }
}
impl<'a> VpHallGuard<'a> {
    pub uninterp spec fn s_of(&self) -> VpHallLock;
}
/// a clone of an Arc is the same object
impl Clone for VpHallLock {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
