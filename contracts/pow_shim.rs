/// isize::pow is the power, when it fits (assumed of the standard library)
pub trait VpPow: Sized {
    spec fn s_pow_ok(self, n: u32) -> bool;
    spec fn s_pow(self, n: u32) -> int;
    spec fn s_int(self) -> int;
    fn vp_pow(self, n: u32) -> (r: Self)
        requires self.s_pow_ok(n)
        ensures r.s_int() == self.s_pow(n);
}
impl VpPow for isize {
    open spec fn s_pow_ok(self, n: u32) -> bool { self >= 0 && ipow(self as nat, n as nat) <= 0x7fff_ffff_ffff_ffff }
    open spec fn s_pow(self, n: u32) -> int { ipow(self as nat, n as nat) as int }
    open spec fn s_int(self) -> int { self as int }
    #[verifier::external_body]
    fn vp_pow(self, n: u32) -> (r: isize) { self.pow(n) }
}
impl VpPow for usize {
    open spec fn s_pow_ok(self, n: u32) -> bool { ipow(self as nat, n as nat) <= 0xffff_ffff_ffff_ffff }
    open spec fn s_pow(self, n: u32) -> int { ipow(self as nat, n as nat) as int }
    open spec fn s_int(self) -> int { self as int }
    #[verifier::external_body]
    fn vp_pow(self, n: u32) -> (r: usize) { self.pow(n) }
}
