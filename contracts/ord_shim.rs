pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering)
    ensures r == (if a == Ordering::Equal { b } else { a });
pub assume_specification<F: FnOnce() -> Ordering> [Ordering::then_with] (a: Ordering, f: F) -> (r: Ordering)
    requires f.requires(())
    ensures a != Ordering::Equal ==> r == a, a == Ordering::Equal ==> f.ensures((), r);
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering)
    ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
pub assume_specification [Ordering::is_eq] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
