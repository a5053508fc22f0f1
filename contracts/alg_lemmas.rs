pub broadcast proof fn lemma_clone<S: CoefficientField>(a: S, b: S)
    requires #[trigger] call_ensures(S::clone, (&a,), b)
    ensures a == b
{ S::law_clone(a, b); }
