/// the element an owning iterator yields at its i-th step
#[verifier::external_body]
pub fn vp_take<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len()
    ensures r == v@[i as int]
{ unsafe { std::ptr::read(&v[i]) } }
