/// f describes what the function does
pub open spec fn s_fun<S, F: FnMut(&S) -> S>(func: F, f: spec_fn(S) -> S) -> bool {
    forall|x: S, r: S| #[trigger] call_ensures(func, (&x,), r) ==> r == f(x)
}
pub open spec fn s_total<S, F: FnMut(&S) -> S>(func: F) -> bool { forall|x: &S| #[trigger] call_requires(func, (x,)) }
pub open spec fn s_id<S>() -> spec_fn(S) -> S { |x: S| x }

pub open spec fn s_minus<S: CoefficientField>() -> spec_fn(S) -> S { |x: S| x.s_neg() }
pub open spec fn s_scale_l<S: CoefficientField>(s: S) -> spec_fn(S) -> S { |x: S| s.s_mul(x) }
pub open spec fn s_scale_r<S: CoefficientField>(s: S) -> spec_fn(S) -> S { |x: S| x.s_mul(s) }
pub open spec fn s_quot<S: CoefficientField>(q: S::RationalType) -> spec_fn(S) -> S { |x: S| x.s_div(q) }
pub open spec fn r_mul<S: CoefficientField>(a: &S, b: &S) -> S { a.s_mul(*b) }
pub open spec fn r_div<S: CoefficientField>(a: &S, q: &S::RationalType) -> S { a.s_div(*q) }
pub open spec fn r_id<S>(a: &S) -> S { *a }
pub open spec fn r_neg<S: CoefficientField>(a: &S) -> S { a.s_neg() }
