// f32 and f64 as types with contracts: every operation of the machine is the IEEE operation named in the
// contract, a function of its operands. Values are taken up to the payload of a NaN.


/// Int: an integer literal below 2^24 in absolute value, which is exact; Bits: any other literal; Num: other values
#[derive(Clone, Copy)]
pub enum F32 { Int(i64), Bits(u64), Num(u64) }
impl F32 {
    /// the number nearest to an integer
    pub uninterp spec fn s_int(i: int) -> F32;
    pub uninterp spec fn i_add(a: F32, b: F32) -> F32;
    pub uninterp spec fn i_mul(a: F32, b: F32) -> F32;
    pub uninterp spec fn i_div(a: F32, b: F32) -> F32;
    pub uninterp spec fn i_rem(a: F32, b: F32) -> F32;
    pub uninterp spec fn i_fma(a: F32, b: F32, c: F32) -> F32;
    pub uninterp spec fn i_neg(a: F32) -> F32;
    pub uninterp spec fn i_abs(a: F32) -> F32;
    pub uninterp spec fn i_eq(a: F32, b: F32) -> bool;
    pub open spec fn i_sub(a: F32, b: F32) -> F32 { Self::i_add(a, Self::i_neg(b)) }
    #[verifier::external_body]
    pub fn vp_cast<N: VpNum>(n: N) -> (r: F32) ensures r == n.s_f32() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<N: VpNum>(n: N) -> (r: F32) ensures r == n.s_f32() { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: F32) ensures r == Self::i_div(Self::s_int(1), self) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_add(self, a: F32, b: F32) -> (r: F32) ensures r == Self::i_fma(self, a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F32) ensures r == Self::i_abs(self) { unimplemented!() }
    #[verifier::external_body]
    pub broadcast proof fn ax_int(i: int) requires -16777216 < i < 16777216 ensures #[trigger] Self::s_int(i) == F32::Int(i as i64) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_add(a: F32, b: F32) ensures #[trigger] Self::i_add(a, b) == Self::i_add(b, a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_mul(a: F32, b: F32) ensures #[trigger] Self::i_mul(a, b) == Self::i_mul(b, a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_neg(a: F32) ensures Self::i_neg(#[trigger] Self::i_neg(a)) == a {}
    #[verifier::external_body]
    pub broadcast proof fn ax_neg_int(i: int) requires i != 0 ensures #[trigger] Self::i_neg(Self::s_int(i)) == Self::s_int(-i) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_mone(a: F32, m: F32) requires m == Self::s_int(-1) ensures #[trigger] Self::i_mul(a, m) == Self::i_neg(a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_dmone(a: F32, m: F32) requires m == Self::s_int(-1) ensures #[trigger] Self::i_div(a, m) == Self::i_neg(a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_one(a: F32, m: F32) requires m == Self::s_int(1) ensures #[trigger] Self::i_mul(a, m) == a {}
    #[verifier::external_body]
    pub broadcast proof fn ax_eq(a: F32, b: F32) ensures #[trigger] Self::i_eq(a, b) == Self::i_eq(b, a) {}
}
impl PartialEqSpecImpl for F32 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F32) -> bool { F32::i_eq(*self, *o) }
}
impl PartialEq for F32 {
    #[verifier::external_body]
    fn eq(&self, o: &F32) -> bool { unimplemented!() }
}
impl AddSpecImpl<F32> for F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F32) -> bool { true }
    open spec fn add_spec(self, o: F32) -> F32 { F32::i_add(self, o) }
}
impl core::ops::Add<F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn add(self, o: F32) -> F32 { unimplemented!() } }
impl<'b> AddSpecImpl<&'b F32> for F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &'b F32) -> bool { true }
    open spec fn add_spec(self, o: &'b F32) -> F32 { F32::i_add(self, *o) }
}
impl<'b> core::ops::Add<&'b F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn add(self, o: &'b F32) -> F32 { unimplemented!() } }
impl<'a> AddSpecImpl<F32> for &'a F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F32) -> bool { true }
    open spec fn add_spec(self, o: F32) -> F32 { F32::i_add(*self, o) }
}
impl<'a> core::ops::Add<F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn add(self, o: F32) -> F32 { unimplemented!() } }
impl<'a, 'b> AddSpecImpl<&'b F32> for &'a F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &'b F32) -> bool { true }
    open spec fn add_spec(self, o: &'b F32) -> F32 { F32::i_add(*self, *o) }
}
impl<'a, 'b> core::ops::Add<&'b F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn add(self, o: &'b F32) -> F32 { unimplemented!() } }
impl AddAssignSpecImpl<F32> for F32 {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: F32) -> bool { true }
    open spec fn add_assign_spec(&self, o: F32) -> &F32 { &F32::i_add(*self, o) }
}
impl core::ops::AddAssign<F32> for F32 {
    #[verifier::external_body]
    fn add_assign(&mut self, o: F32) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b F32> for F32 {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: &'b F32) -> bool { true }
    open spec fn add_assign_spec(&self, o: &'b F32) -> &F32 { &F32::i_add(*self, *o) }
}
impl<'b> core::ops::AddAssign<&'b F32> for F32 {
    #[verifier::external_body]
    fn add_assign(&mut self, o: &'b F32) { unimplemented!() } }
impl SubSpecImpl<F32> for F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F32) -> bool { true }
    open spec fn sub_spec(self, o: F32) -> F32 { F32::i_sub(self, o) }
}
impl core::ops::Sub<F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn sub(self, o: F32) -> F32 { unimplemented!() } }
impl<'b> SubSpecImpl<&'b F32> for F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'b F32) -> bool { true }
    open spec fn sub_spec(self, o: &'b F32) -> F32 { F32::i_sub(self, *o) }
}
impl<'b> core::ops::Sub<&'b F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn sub(self, o: &'b F32) -> F32 { unimplemented!() } }
impl<'a> SubSpecImpl<F32> for &'a F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F32) -> bool { true }
    open spec fn sub_spec(self, o: F32) -> F32 { F32::i_sub(*self, o) }
}
impl<'a> core::ops::Sub<F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn sub(self, o: F32) -> F32 { unimplemented!() } }
impl<'a, 'b> SubSpecImpl<&'b F32> for &'a F32 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'b F32) -> bool { true }
    open spec fn sub_spec(self, o: &'b F32) -> F32 { F32::i_sub(*self, *o) }
}
impl<'a, 'b> core::ops::Sub<&'b F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn sub(self, o: &'b F32) -> F32 { unimplemented!() } }
impl SubAssignSpecImpl<F32> for F32 {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: F32) -> bool { true }
    open spec fn sub_assign_spec(&self, o: F32) -> &F32 { &F32::i_sub(*self, o) }
}
impl core::ops::SubAssign<F32> for F32 {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: F32) { unimplemented!() } }
impl<'b> SubAssignSpecImpl<&'b F32> for F32 {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: &'b F32) -> bool { true }
    open spec fn sub_assign_spec(&self, o: &'b F32) -> &F32 { &F32::i_sub(*self, *o) }
}
impl<'b> core::ops::SubAssign<&'b F32> for F32 {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: &'b F32) { unimplemented!() } }
impl MulSpecImpl<F32> for F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> F32 { F32::i_mul(self, o) }
}
impl core::ops::Mul<F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn mul(self, o: F32) -> F32 { unimplemented!() } }
impl<'b> MulSpecImpl<&'b F32> for F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'b F32) -> bool { true }
    open spec fn mul_spec(self, o: &'b F32) -> F32 { F32::i_mul(self, *o) }
}
impl<'b> core::ops::Mul<&'b F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn mul(self, o: &'b F32) -> F32 { unimplemented!() } }
impl<'a> MulSpecImpl<F32> for &'a F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> F32 { F32::i_mul(*self, o) }
}
impl<'a> core::ops::Mul<F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn mul(self, o: F32) -> F32 { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'b F32> for &'a F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'b F32) -> bool { true }
    open spec fn mul_spec(self, o: &'b F32) -> F32 { F32::i_mul(*self, *o) }
}
impl<'a, 'b> core::ops::Mul<&'b F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn mul(self, o: &'b F32) -> F32 { unimplemented!() } }
impl MulAssignSpecImpl<F32> for F32 {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: F32) -> bool { true }
    open spec fn mul_assign_spec(&self, o: F32) -> &F32 { &F32::i_mul(*self, o) }
}
impl core::ops::MulAssign<F32> for F32 {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: F32) { unimplemented!() } }
impl<'b> MulAssignSpecImpl<&'b F32> for F32 {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: &'b F32) -> bool { true }
    open spec fn mul_assign_spec(&self, o: &'b F32) -> &F32 { &F32::i_mul(*self, *o) }
}
impl<'b> core::ops::MulAssign<&'b F32> for F32 {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: &'b F32) { unimplemented!() } }
impl DivSpecImpl<F32> for F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { true }
    open spec fn div_spec(self, o: F32) -> F32 { F32::i_div(self, o) }
}
impl core::ops::Div<F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn div(self, o: F32) -> F32 { unimplemented!() } }
impl<'b> DivSpecImpl<&'b F32> for F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &'b F32) -> bool { true }
    open spec fn div_spec(self, o: &'b F32) -> F32 { F32::i_div(self, *o) }
}
impl<'b> core::ops::Div<&'b F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn div(self, o: &'b F32) -> F32 { unimplemented!() } }
impl<'a> DivSpecImpl<F32> for &'a F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F32) -> bool { true }
    open spec fn div_spec(self, o: F32) -> F32 { F32::i_div(*self, o) }
}
impl<'a> core::ops::Div<F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn div(self, o: F32) -> F32 { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'b F32> for &'a F32 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &'b F32) -> bool { true }
    open spec fn div_spec(self, o: &'b F32) -> F32 { F32::i_div(*self, *o) }
}
impl<'a, 'b> core::ops::Div<&'b F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn div(self, o: &'b F32) -> F32 { unimplemented!() } }
impl DivAssignSpecImpl<F32> for F32 {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: F32) -> bool { true }
    open spec fn div_assign_spec(&self, o: F32) -> &F32 { &F32::i_div(*self, o) }
}
impl core::ops::DivAssign<F32> for F32 {
    #[verifier::external_body]
    fn div_assign(&mut self, o: F32) { unimplemented!() } }
impl<'b> DivAssignSpecImpl<&'b F32> for F32 {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: &'b F32) -> bool { true }
    open spec fn div_assign_spec(&self, o: &'b F32) -> &F32 { &F32::i_div(*self, *o) }
}
impl<'b> core::ops::DivAssign<&'b F32> for F32 {
    #[verifier::external_body]
    fn div_assign(&mut self, o: &'b F32) { unimplemented!() } }
impl RemSpecImpl<F32> for F32 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: F32) -> bool { true }
    open spec fn rem_spec(self, o: F32) -> F32 { F32::i_rem(self, o) }
}
impl core::ops::Rem<F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn rem(self, o: F32) -> F32 { unimplemented!() } }
impl<'b> RemSpecImpl<&'b F32> for F32 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: &'b F32) -> bool { true }
    open spec fn rem_spec(self, o: &'b F32) -> F32 { F32::i_rem(self, *o) }
}
impl<'b> core::ops::Rem<&'b F32> for F32 { type Output = F32;
    #[verifier::external_body]
    fn rem(self, o: &'b F32) -> F32 { unimplemented!() } }
impl<'a> RemSpecImpl<F32> for &'a F32 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: F32) -> bool { true }
    open spec fn rem_spec(self, o: F32) -> F32 { F32::i_rem(*self, o) }
}
impl<'a> core::ops::Rem<F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn rem(self, o: F32) -> F32 { unimplemented!() } }
impl<'a, 'b> RemSpecImpl<&'b F32> for &'a F32 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: &'b F32) -> bool { true }
    open spec fn rem_spec(self, o: &'b F32) -> F32 { F32::i_rem(*self, *o) }
}
impl<'a, 'b> core::ops::Rem<&'b F32> for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn rem(self, o: &'b F32) -> F32 { unimplemented!() } }
impl RemAssignSpecImpl<F32> for F32 {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, o: F32) -> bool { true }
    open spec fn rem_assign_spec(&self, o: F32) -> &F32 { &F32::i_rem(*self, o) }
}
impl core::ops::RemAssign<F32> for F32 {
    #[verifier::external_body]
    fn rem_assign(&mut self, o: F32) { unimplemented!() } }
impl<'b> RemAssignSpecImpl<&'b F32> for F32 {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, o: &'b F32) -> bool { true }
    open spec fn rem_assign_spec(&self, o: &'b F32) -> &F32 { &F32::i_rem(*self, *o) }
}
impl<'b> core::ops::RemAssign<&'b F32> for F32 {
    #[verifier::external_body]
    fn rem_assign(&mut self, o: &'b F32) { unimplemented!() } }
impl NegSpecImpl for F32 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F32 { F32::i_neg(self) }
}
impl core::ops::Neg for F32 { type Output = F32;
    #[verifier::external_body]
    fn neg(self) -> F32 { unimplemented!() } }
impl<'a> NegSpecImpl for &'a F32 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F32 { F32::i_neg(*self) }
}
impl<'a> core::ops::Neg for &'a F32 { type Output = F32;
    #[verifier::external_body]
    fn neg(self) -> F32 { unimplemented!() } }

/// Int: an integer literal below 2^24 in absolute value, which is exact; Bits: any other literal; Num: other values
#[derive(Clone, Copy)]
pub enum F64 { Int(i64), Bits(u64), Num(u64) }
impl F64 {
    /// the number nearest to an integer
    pub uninterp spec fn s_int(i: int) -> F64;
    pub uninterp spec fn i_add(a: F64, b: F64) -> F64;
    pub uninterp spec fn i_mul(a: F64, b: F64) -> F64;
    pub uninterp spec fn i_div(a: F64, b: F64) -> F64;
    pub uninterp spec fn i_rem(a: F64, b: F64) -> F64;
    pub uninterp spec fn i_fma(a: F64, b: F64, c: F64) -> F64;
    pub uninterp spec fn i_neg(a: F64) -> F64;
    pub uninterp spec fn i_abs(a: F64) -> F64;
    pub uninterp spec fn i_eq(a: F64, b: F64) -> bool;
    pub open spec fn i_sub(a: F64, b: F64) -> F64 { Self::i_add(a, Self::i_neg(b)) }
    #[verifier::external_body]
    pub fn vp_cast<N: VpNum>(n: N) -> (r: F64) ensures r == n.s_f64() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<N: VpNum>(n: N) -> (r: F64) ensures r == n.s_f64() { unimplemented!() }
    #[verifier::external_body]
    pub fn recip(self) -> (r: F64) ensures r == Self::i_div(Self::s_int(1), self) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r == Self::i_fma(self, a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(self) -> (r: F64) ensures r == Self::i_abs(self) { unimplemented!() }
    #[verifier::external_body]
    pub broadcast proof fn ax_int(i: int) requires -16777216 < i < 16777216 ensures #[trigger] Self::s_int(i) == F64::Int(i as i64) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_add(a: F64, b: F64) ensures #[trigger] Self::i_add(a, b) == Self::i_add(b, a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_mul(a: F64, b: F64) ensures #[trigger] Self::i_mul(a, b) == Self::i_mul(b, a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_neg(a: F64) ensures Self::i_neg(#[trigger] Self::i_neg(a)) == a {}
    #[verifier::external_body]
    pub broadcast proof fn ax_neg_int(i: int) requires i != 0 ensures #[trigger] Self::i_neg(Self::s_int(i)) == Self::s_int(-i) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_mone(a: F64, m: F64) requires m == Self::s_int(-1) ensures #[trigger] Self::i_mul(a, m) == Self::i_neg(a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_dmone(a: F64, m: F64) requires m == Self::s_int(-1) ensures #[trigger] Self::i_div(a, m) == Self::i_neg(a) {}
    #[verifier::external_body]
    pub broadcast proof fn ax_one(a: F64, m: F64) requires m == Self::s_int(1) ensures #[trigger] Self::i_mul(a, m) == a {}
    #[verifier::external_body]
    pub broadcast proof fn ax_eq(a: F64, b: F64) ensures #[trigger] Self::i_eq(a, b) == Self::i_eq(b, a) {}
}
impl PartialEqSpecImpl for F64 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &F64) -> bool { F64::i_eq(*self, *o) }
}
impl PartialEq for F64 {
    #[verifier::external_body]
    fn eq(&self, o: &F64) -> bool { unimplemented!() }
}
impl AddSpecImpl<F64> for F64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F64) -> bool { true }
    open spec fn add_spec(self, o: F64) -> F64 { F64::i_add(self, o) }
}
impl core::ops::Add<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn add(self, o: F64) -> F64 { unimplemented!() } }
impl<'b> AddSpecImpl<&'b F64> for F64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &'b F64) -> bool { true }
    open spec fn add_spec(self, o: &'b F64) -> F64 { F64::i_add(self, *o) }
}
impl<'b> core::ops::Add<&'b F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn add(self, o: &'b F64) -> F64 { unimplemented!() } }
impl<'a> AddSpecImpl<F64> for &'a F64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F64) -> bool { true }
    open spec fn add_spec(self, o: F64) -> F64 { F64::i_add(*self, o) }
}
impl<'a> core::ops::Add<F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn add(self, o: F64) -> F64 { unimplemented!() } }
impl<'a, 'b> AddSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &'b F64) -> bool { true }
    open spec fn add_spec(self, o: &'b F64) -> F64 { F64::i_add(*self, *o) }
}
impl<'a, 'b> core::ops::Add<&'b F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn add(self, o: &'b F64) -> F64 { unimplemented!() } }
impl AddAssignSpecImpl<F64> for F64 {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: F64) -> bool { true }
    open spec fn add_assign_spec(&self, o: F64) -> &F64 { &F64::i_add(*self, o) }
}
impl core::ops::AddAssign<F64> for F64 {
    #[verifier::external_body]
    fn add_assign(&mut self, o: F64) { unimplemented!() } }
impl<'b> AddAssignSpecImpl<&'b F64> for F64 {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: &'b F64) -> bool { true }
    open spec fn add_assign_spec(&self, o: &'b F64) -> &F64 { &F64::i_add(*self, *o) }
}
impl<'b> core::ops::AddAssign<&'b F64> for F64 {
    #[verifier::external_body]
    fn add_assign(&mut self, o: &'b F64) { unimplemented!() } }
impl SubSpecImpl<F64> for F64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F64) -> bool { true }
    open spec fn sub_spec(self, o: F64) -> F64 { F64::i_sub(self, o) }
}
impl core::ops::Sub<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn sub(self, o: F64) -> F64 { unimplemented!() } }
impl<'b> SubSpecImpl<&'b F64> for F64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'b F64) -> bool { true }
    open spec fn sub_spec(self, o: &'b F64) -> F64 { F64::i_sub(self, *o) }
}
impl<'b> core::ops::Sub<&'b F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn sub(self, o: &'b F64) -> F64 { unimplemented!() } }
impl<'a> SubSpecImpl<F64> for &'a F64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: F64) -> bool { true }
    open spec fn sub_spec(self, o: F64) -> F64 { F64::i_sub(*self, o) }
}
impl<'a> core::ops::Sub<F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn sub(self, o: F64) -> F64 { unimplemented!() } }
impl<'a, 'b> SubSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &'b F64) -> bool { true }
    open spec fn sub_spec(self, o: &'b F64) -> F64 { F64::i_sub(*self, *o) }
}
impl<'a, 'b> core::ops::Sub<&'b F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn sub(self, o: &'b F64) -> F64 { unimplemented!() } }
impl SubAssignSpecImpl<F64> for F64 {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: F64) -> bool { true }
    open spec fn sub_assign_spec(&self, o: F64) -> &F64 { &F64::i_sub(*self, o) }
}
impl core::ops::SubAssign<F64> for F64 {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: F64) { unimplemented!() } }
impl<'b> SubAssignSpecImpl<&'b F64> for F64 {
    open spec fn obeys_sub_assign_spec() -> bool { true }
    open spec fn sub_assign_req(&self, o: &'b F64) -> bool { true }
    open spec fn sub_assign_spec(&self, o: &'b F64) -> &F64 { &F64::i_sub(*self, *o) }
}
impl<'b> core::ops::SubAssign<&'b F64> for F64 {
    #[verifier::external_body]
    fn sub_assign(&mut self, o: &'b F64) { unimplemented!() } }
impl MulSpecImpl<F64> for F64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F64) -> bool { true }
    open spec fn mul_spec(self, o: F64) -> F64 { F64::i_mul(self, o) }
}
impl core::ops::Mul<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn mul(self, o: F64) -> F64 { unimplemented!() } }
impl<'b> MulSpecImpl<&'b F64> for F64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'b F64) -> bool { true }
    open spec fn mul_spec(self, o: &'b F64) -> F64 { F64::i_mul(self, *o) }
}
impl<'b> core::ops::Mul<&'b F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn mul(self, o: &'b F64) -> F64 { unimplemented!() } }
impl<'a> MulSpecImpl<F64> for &'a F64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F64) -> bool { true }
    open spec fn mul_spec(self, o: F64) -> F64 { F64::i_mul(*self, o) }
}
impl<'a> core::ops::Mul<F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn mul(self, o: F64) -> F64 { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &'b F64) -> bool { true }
    open spec fn mul_spec(self, o: &'b F64) -> F64 { F64::i_mul(*self, *o) }
}
impl<'a, 'b> core::ops::Mul<&'b F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn mul(self, o: &'b F64) -> F64 { unimplemented!() } }
impl MulAssignSpecImpl<F64> for F64 {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: F64) -> bool { true }
    open spec fn mul_assign_spec(&self, o: F64) -> &F64 { &F64::i_mul(*self, o) }
}
impl core::ops::MulAssign<F64> for F64 {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: F64) { unimplemented!() } }
impl<'b> MulAssignSpecImpl<&'b F64> for F64 {
    open spec fn obeys_mul_assign_spec() -> bool { true }
    open spec fn mul_assign_req(&self, o: &'b F64) -> bool { true }
    open spec fn mul_assign_spec(&self, o: &'b F64) -> &F64 { &F64::i_mul(*self, *o) }
}
impl<'b> core::ops::MulAssign<&'b F64> for F64 {
    #[verifier::external_body]
    fn mul_assign(&mut self, o: &'b F64) { unimplemented!() } }
impl DivSpecImpl<F64> for F64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F64) -> bool { true }
    open spec fn div_spec(self, o: F64) -> F64 { F64::i_div(self, o) }
}
impl core::ops::Div<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn div(self, o: F64) -> F64 { unimplemented!() } }
impl<'b> DivSpecImpl<&'b F64> for F64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &'b F64) -> bool { true }
    open spec fn div_spec(self, o: &'b F64) -> F64 { F64::i_div(self, *o) }
}
impl<'b> core::ops::Div<&'b F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn div(self, o: &'b F64) -> F64 { unimplemented!() } }
impl<'a> DivSpecImpl<F64> for &'a F64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: F64) -> bool { true }
    open spec fn div_spec(self, o: F64) -> F64 { F64::i_div(*self, o) }
}
impl<'a> core::ops::Div<F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn div(self, o: F64) -> F64 { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &'b F64) -> bool { true }
    open spec fn div_spec(self, o: &'b F64) -> F64 { F64::i_div(*self, *o) }
}
impl<'a, 'b> core::ops::Div<&'b F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn div(self, o: &'b F64) -> F64 { unimplemented!() } }
impl DivAssignSpecImpl<F64> for F64 {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: F64) -> bool { true }
    open spec fn div_assign_spec(&self, o: F64) -> &F64 { &F64::i_div(*self, o) }
}
impl core::ops::DivAssign<F64> for F64 {
    #[verifier::external_body]
    fn div_assign(&mut self, o: F64) { unimplemented!() } }
impl<'b> DivAssignSpecImpl<&'b F64> for F64 {
    open spec fn obeys_div_assign_spec() -> bool { true }
    open spec fn div_assign_req(&self, o: &'b F64) -> bool { true }
    open spec fn div_assign_spec(&self, o: &'b F64) -> &F64 { &F64::i_div(*self, *o) }
}
impl<'b> core::ops::DivAssign<&'b F64> for F64 {
    #[verifier::external_body]
    fn div_assign(&mut self, o: &'b F64) { unimplemented!() } }
impl RemSpecImpl<F64> for F64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: F64) -> bool { true }
    open spec fn rem_spec(self, o: F64) -> F64 { F64::i_rem(self, o) }
}
impl core::ops::Rem<F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn rem(self, o: F64) -> F64 { unimplemented!() } }
impl<'b> RemSpecImpl<&'b F64> for F64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: &'b F64) -> bool { true }
    open spec fn rem_spec(self, o: &'b F64) -> F64 { F64::i_rem(self, *o) }
}
impl<'b> core::ops::Rem<&'b F64> for F64 { type Output = F64;
    #[verifier::external_body]
    fn rem(self, o: &'b F64) -> F64 { unimplemented!() } }
impl<'a> RemSpecImpl<F64> for &'a F64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: F64) -> bool { true }
    open spec fn rem_spec(self, o: F64) -> F64 { F64::i_rem(*self, o) }
}
impl<'a> core::ops::Rem<F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn rem(self, o: F64) -> F64 { unimplemented!() } }
impl<'a, 'b> RemSpecImpl<&'b F64> for &'a F64 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: &'b F64) -> bool { true }
    open spec fn rem_spec(self, o: &'b F64) -> F64 { F64::i_rem(*self, *o) }
}
impl<'a, 'b> core::ops::Rem<&'b F64> for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn rem(self, o: &'b F64) -> F64 { unimplemented!() } }
impl RemAssignSpecImpl<F64> for F64 {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, o: F64) -> bool { true }
    open spec fn rem_assign_spec(&self, o: F64) -> &F64 { &F64::i_rem(*self, o) }
}
impl core::ops::RemAssign<F64> for F64 {
    #[verifier::external_body]
    fn rem_assign(&mut self, o: F64) { unimplemented!() } }
impl<'b> RemAssignSpecImpl<&'b F64> for F64 {
    open spec fn obeys_rem_assign_spec() -> bool { true }
    open spec fn rem_assign_req(&self, o: &'b F64) -> bool { true }
    open spec fn rem_assign_spec(&self, o: &'b F64) -> &F64 { &F64::i_rem(*self, *o) }
}
impl<'b> core::ops::RemAssign<&'b F64> for F64 {
    #[verifier::external_body]
    fn rem_assign(&mut self, o: &'b F64) { unimplemented!() } }
impl NegSpecImpl for F64 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F64 { F64::i_neg(self) }
}
impl core::ops::Neg for F64 { type Output = F64;
    #[verifier::external_body]
    fn neg(self) -> F64 { unimplemented!() } }
impl<'a> NegSpecImpl for &'a F64 {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> F64 { F64::i_neg(*self) }
}
impl<'a> core::ops::Neg for &'a F64 { type Output = F64;
    #[verifier::external_body]
    fn neg(self) -> F64 { unimplemented!() } }

/// what a cast to a floating point type starts from
pub trait VpNum: Sized {
    spec fn s_f32(self) -> F32;
    spec fn s_f64(self) -> F64;
}
impl VpNum for u8 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for u16 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for u32 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for u64 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for usize { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for i8 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for i16 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for i32 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for i64 { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
impl VpNum for isize { open spec fn s_f32(self) -> F32 { F32::s_int(self as int) } open spec fn s_f64(self) -> F64 { F64::s_int(self as int) } }
pub uninterp spec fn s_widen(x: F32) -> F64;
pub uninterp spec fn s_narrow(x: F64) -> F32;
impl VpNum for F32 { open spec fn s_f32(self) -> F32 { self } open spec fn s_f64(self) -> F64 { s_widen(self) } }
impl VpNum for F64 { open spec fn s_f32(self) -> F32 { s_narrow(self) } open spec fn s_f64(self) -> F64 { self } }
/// integers below 2^53 are exact in double precision, so that rounding them once more is rounding them once
#[verifier::external_body]
pub broadcast proof fn ax_narrow_int(i: int) requires -0x20000000000000 <= i <= 0x20000000000000 ensures #[trigger] s_narrow(F64::s_int(i)) == F32::s_int(i) {}
#[verifier::external_body]
pub broadcast proof fn ax_widen(x: F32) ensures s_narrow(#[trigger] s_widen(x)) == x {}
pub broadcast group ax_float {
    F32::ax_int, F32::ax_add, F32::ax_mul, F32::ax_neg, F32::ax_neg_int, F32::ax_mone, F32::ax_dmone, F32::ax_one, F32::ax_eq,
    F64::ax_int, F64::ax_add, F64::ax_mul, F64::ax_neg, F64::ax_neg_int, F64::ax_mone, F64::ax_dmone, F64::ax_one, F64::ax_eq,
    ax_narrow_int, ax_widen,
}
