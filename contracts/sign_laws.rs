// Signs: these hold for every field, and exactly so for IEEE numbers.
pub broadcast axiom fn law_mone_div<S: CoefficientField>(q: S::RationalType)
    ensures #[trigger] S::MONE.s_div(q) == S::ONE.s_div(q).s_neg();
pub broadcast axiom fn law_sub<S: CoefficientField>(x: S, y: S)
    ensures #[trigger] x.s_sub(y) == x.s_add(y.s_neg());
pub broadcast axiom fn law_neg_neg<S: CoefficientField>(x: S)
    ensures #[trigger] x.s_neg().s_neg() == x;
pub broadcast group group_sign { law_mone_div, law_sub, law_neg_neg }
