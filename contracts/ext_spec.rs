/// w is v with s added to the coefficient of k
pub open spec fn s_is_added<'vec, V: Vector<'vec>>(v: V::SV, w: V::SV, k: V::KeyType, s: V::ScalarType) -> bool {
    match V::s_get(v, k) { Some(x) => V::s_is_set(v, w, k, x.s_add(s)), None => V::s_is_set(v, w, k, s) }
}
pub open spec fn s_is_subbed<'vec, V: Vector<'vec>>(v: V::SV, w: V::SV, k: V::KeyType, s: V::ScalarType) -> bool {
    match V::s_get(v, k) { Some(x) => V::s_is_set(v, w, k, x.s_sub(s)), None => V::s_is_set(v, w, k, s.s_neg()) }
}
