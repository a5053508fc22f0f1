#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, non_upper_case_globals, unused_parens, unused_braces, unused_assignments, private_interfaces, unused_must_use)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::bits::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::ops::Range;
use std::marker::PhantomData;
use std::cmp;
use std::mem;
use std::slice::SliceIndex;
use vstd::slice::SliceIndexSpec;
verus! {
global size_of usize == 8;

// A panic must be unreachable: calling this needs a proof of false.
#[verifier::external_body]
pub fn vp_panic() -> ! requires false { panic!() }
// assert!, debug_assert! and their relatives must hold.
pub fn vp_check(b: bool) requires b { }
/// whether this is a build with debug assertions: it may be either
pub uninterp spec fn s_debug() -> bool;
#[verifier::external_body]
pub fn vp_debug() -> (r: bool) ensures r == s_debug() { unimplemented!() }
