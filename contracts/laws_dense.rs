/// what a dense vector type must satisfy for the product: its degree is that of its last coefficient,
/// and resizing cuts or fills with zeros
pub open spec fn s_laws<'vec, V: ResizeableDenseVector<'vec, BasisType = TensorBasis<NLETTERS>, ScalarType = S> + VectorWithDegree<'vec>, S: CoefficientField, const NLETTERS: DegreeType>() -> bool {
    &&& forall|v: V::SV| #[trigger] V::s_is_new(v) ==> V::s_slice(v).len() == 0
    &&& forall|v: V::SV| s_fits::<V, S, NLETTERS>(v) ==> #[trigger] V::s_degree_ok(v)
    &&& forall|v: V::SV| s_fits::<V, S, NLETTERS>(v) ==> #[trigger] V::s_degree_v(v) == s_len_degree(NLETTERS, V::s_slice(v).len())
    &&& forall|v: V::SV, w: V::SV, n: nat| #[trigger] V::s_is_resized(v, w, n) ==> V::s_slice(w) == Seq::new(n, |i: int| s_at(V::s_slice(v), i))
}
pub open spec fn s_fits<'vec, V: ResizeableDenseVector<'vec, BasisType = TensorBasis<NLETTERS>, ScalarType = S> + VectorWithDegree<'vec>, S: CoefficientField, const NLETTERS: DegreeType>(v: V::SV) -> bool {
    V::s_slice(v).len() <= s_start(NLETTERS, s_depth(NLETTERS) + 1)
}
