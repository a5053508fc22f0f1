/// the degree of a dense tensor that stores m coefficients
pub open spec fn s_len_degree(n: u32, m: nat) -> nat { if m == 0 { 0 } else { s_degree_of_index(n, (m - 1) as nat) } }
/// the coefficient of a word
pub open spec fn s_coef<S: CoefficientField>(n: u32, t: Seq<S>, w: Seq<u32>) -> S { s_at(t, s_idx(n, w) as int) }
/// a, plus the terms for the splits of w after hi, hi - 1, .., lo letters
pub open spec fn s_mac<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S, hi: int, lo: int) -> S
    decreases hi + 1 - lo
{
    if lo > hi { a }
    else { s_mac(n, l, r, f, w, a, hi, lo + 1).s_add(f(s_coef(n, l, w.take(lo)).s_mul(s_coef(n, r, w.skip(lo))))) }
}
/// the splits of a word of length d into words of degrees that are stored
pub open spec fn s_hi(d: int, ld: int) -> int { if d <= ld { d } else { ld } }
pub open spec fn s_lo(d: int, rd: int) -> int { if d > rd { d - rd } else { 0 } }
/// the coefficient of w after adding the product of l and r
pub open spec fn s_mac_coef<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S) -> S {
    s_mac(n, l, r, f, w, a, s_hi(w.len() as int, s_len_degree(n, l.len()) as int), s_lo(w.len() as int, s_len_degree(n, r.len()) as int))
}
/// t, after adding the product of l and r up to degree d, is u
pub open spec fn s_mac_seq<S: CoefficientField>(n: u32, t: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, d: nat, u: Seq<S>) -> bool {
    forall|w: Seq<u32>| letters_ok(n, w) ==> #[trigger] s_coef(n, u, w) == if w.len() <= d { s_mac_coef(n, l, r, f, w, s_coef(n, t, w)) } else { s_coef(n, t, w) }
}
/// filled with zeros to the end of the last degree
pub open spec fn s_pad<S: CoefficientField>(n: u32, t: Seq<S>) -> Seq<S> { Seq::new(s_start(n, s_len_degree(n, t.len()) + 1), |i: int| s_at(t, i)) }

pub proof fn lemma_pad<S: CoefficientField>(n: u32, t: Seq<S>)
    requires n >= 1, t.len() <= s_start(n, s_depth(n) + 1)
    ensures
        s_len_degree(n, t.len()) <= s_depth(n),
        t.len() <= s_start(n, s_len_degree(n, t.len()) + 1) <= s_start(n, s_depth(n) + 1) <= usize::MAX,
        t.len() == s_start(n, s_len_degree(n, t.len()) + 1) ==> s_pad(n, t) == t,
        s_pad(n, t).len() == s_start(n, s_len_degree(n, t.len()) + 1),
        s_pad(n, t).len() > 0,
        s_len_degree(n, s_pad(n, t).len()) == s_len_degree(n, t.len()),
        forall|w: Seq<u32>| #[trigger] s_coef(n, s_pad(n, t), w) == s_coef(n, t, w),
{
    let d = s_len_degree(n, t.len());
    lemma_layout(n);
    lemma_start_step(n, 0);
    if t.len() > 0 { lemma_degree_of_index(n, (t.len() - 1) as nat, s_depth(n)); }
    lemma_start_mono(n, d + 1, s_depth(n) + 1);
    lemma_start_bound(n, s_depth(n) + 1);
    if t.len() == s_start(n, d + 1) { assert(s_pad(n, t) =~= t); }
    lemma_start_mono(n, d, d + 1);
    lemma_degree_unique(n, (s_start(n, d + 1) - 1) as nat, d);
}

/// the terms do not depend on zeros at the end
pub proof fn lemma_mac_pad<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S, hi: int, lo: int)
    requires n >= 1, l.len() <= s_start(n, s_depth(n) + 1), r.len() <= s_start(n, s_depth(n) + 1)
    ensures s_mac(n, s_pad(n, l), s_pad(n, r), f, w, a, hi, lo) == s_mac(n, l, r, f, w, a, hi, lo)
    decreases hi + 1 - lo
{
    if lo <= hi {
        lemma_mac_pad(n, l, r, f, w, a, hi, lo + 1);
        lemma_pad(n, l);
        lemma_pad(n, r);
        assert(s_coef(n, s_pad(n, l), w.take(lo)) == s_coef(n, l, w.take(lo)));
        assert(s_coef(n, s_pad(n, r), w.skip(lo)) == s_coef(n, r, w.skip(lo)));
    }
}

/// position a in rows of length m, then b
pub open spec fn s_cell(m: int, a: int, b: int) -> int { a * m + b }
/// what one block of the product does: every product of an entry of l and one of r, in order
pub open spec fn s_block<S: CoefficientField>(out: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, new: Seq<S>) -> bool {
    &&& new.len() == out.len()
    &&& forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < r.len() ==>
        #[trigger] new[s_cell(r.len() as int, a, b)] == out[s_cell(r.len() as int, a, b)].s_add(f(l[a].s_mul(r[b])))
}

pub proof fn lemma_cell(m: int, a: int, b: int, c: int)
    requires 0 <= a < c, 0 <= b < m
    ensures 0 <= s_cell(m, a, b) < c * m, s_cell(m, a, 0) == a * m, s_cell(m, a + 1, 0) == a * m + m, s_cell(m, a, b) == a * m + b
{
    assert(a * m + m <= c * m) by (nonlinear_arith) requires a + 1 <= c, m > 0;
    assert((a + 1) * m == a * m + m) by (nonlinear_arith);
    assert(a * m >= 0) by (nonlinear_arith) requires a >= 0, m > 0;
}
/// different positions are different cells
pub proof fn lemma_cell_order(m: int, a: int, b: int, x: int, y: int)
    requires 0 <= b < m, 0 <= y < m, 0 <= a, 0 <= x
    ensures s_cell(m, x, y) < s_cell(m, a, b) <==> (x < a || (x == a && y < b)),
        s_cell(m, x, y) == s_cell(m, a, b) ==> x == a && y == b
{
    if x < a { assert(a * m >= x * m + m) by (nonlinear_arith) requires a >= x + 1, m > 0; }
    if a < x { assert(x * m >= a * m + m) by (nonlinear_arith) requires x >= a + 1, m > 0; }
}

/// where the two parts of a word are found within their degrees
pub proof fn lemma_split(n: u32, w: Seq<u32>, k: int)
    requires n >= 1, letters_ok(n, w), 0 <= k <= w.len()
    ensures ({
        let (u, v) = (w.take(k), w.skip(k));
        let (a, b) = (s_idx(n, u) - s_start(n, k as nat), s_idx(n, v) - s_start(n, (w.len() - k) as nat));
        let m = ipow(n as nat, (w.len() - k) as nat) as int;
        &&& 0 <= a < ipow(n as nat, k as nat)
        &&& 0 <= b < m
        &&& letters_ok(n, u) && letters_ok(n, v) && u.len() == k && v.len() == w.len() - k
        &&& s_idx(n, w) - s_start(n, w.len()) == s_cell(m, a, b)
    })
{
    let (u, v) = (w.take(k), w.skip(k));
    let m = ipow(n as nat, v.len());
    assert forall|i: int| 0 <= i < u.len() implies 1 <= #[trigger] u[i] <= n by { assert(u[i] == w[i]); }
    assert forall|i: int| 0 <= i < v.len() implies 1 <= #[trigger] v[i] <= n by { assert(v[i] == w[k + i]); }
    assert(w =~= u + v);
    lemma_idx_concat(n, u, v);
    lemma_idx_range(n, u);
    lemma_idx_range(n, v);
    lemma_start_step(n, u.len());
    lemma_start_step(n, v.len());
    lemma_start_split(n, u.len(), v.len());
    let (a, b) = (s_idx(n, u) - s_start(n, u.len()), s_idx(n, v) - s_start(n, v.len()));
    assert(s_idx(n, u) * m == s_start(n, u.len()) * m + a * m) by (nonlinear_arith) requires s_idx(n, u) == s_start(n, u.len()) + a;
}
pub proof fn lemma_start_split(n: u32, a: nat, b: nat)
    ensures s_start(n, a + b) == s_start(n, a) * ipow(n as nat, b) + s_start(n, b)
    decreases b
{
    if b == 0 { assert(s_start(n, a) * 1 == s_start(n, a)); }
    else {
        let c = (b - 1) as nat;
        lemma_start_split(n, a, c);
        lemma_start_step(n, c);
        lemma_start_step(n, a + c);
        let (s, p, t) = (s_start(n, a), ipow(n as nat, c), s_start(n, c));
        assert((s * p + t) * (n as nat) + 1 == s * ((n as nat) * p) + (t * (n as nat) + 1)) by (nonlinear_arith);
    }
}

// ---- the state of the loops: words of length above d done, words of length d done for the splits down to k ----
pub open spec fn s_state<S: CoefficientField>(n: u32, t: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, ld: int, rd: int, d: int, k: int, m: int, u: Seq<S>) -> bool {
    forall|w: Seq<u32>| letters_ok(n, w) ==> #[trigger] s_coef(n, u, w) ==
        if d < w.len() <= m { s_mac(n, l, r, f, w, s_coef(n, t, w), s_hi(w.len() as int, ld), s_lo(w.len() as int, rd)) }
        else if w.len() == d { s_mac(n, l, r, f, w, s_coef(n, t, w), s_hi(d, ld), k) }
        else { s_coef(n, t, w) }
}
pub open spec fn s_done<S: CoefficientField>(n: u32, t: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, ld: int, rd: int, d: int, m: int, u: Seq<S>) -> bool {
    forall|w: Seq<u32>| letters_ok(n, w) ==> #[trigger] s_coef(n, u, w) ==
        if d <= w.len() <= m { s_mac(n, l, r, f, w, s_coef(n, t, w), s_hi(w.len() as int, ld), s_lo(w.len() as int, rd)) } else { s_coef(n, t, w) }
}
pub open spec fn s_deg_seq<S>(n: u32, t: Seq<S>, d: int) -> Seq<S> { t.subrange(s_start(n, d as nat) as int, s_start(n, d as nat + 1) as int) }

pub proof fn lemma_block_lens<S>(n: u32, l: Seq<S>, r: Seq<S>, u: Seq<S>, ld: int, rd: int, d: int, k: int)
    requires n >= 1, 0 <= k <= ld, 0 <= d - k <= rd, 0 <= d, l.len() == s_start(n, ld as nat + 1), r.len() == s_start(n, rd as nat + 1), s_start(n, d as nat + 1) <= u.len()
    ensures
        s_start(n, k as nat) <= s_start(n, k as nat + 1) <= l.len(),
        s_start(n, (d - k) as nat) <= s_start(n, (d - k) as nat + 1) <= r.len(),
        s_start(n, d as nat) <= s_start(n, d as nat + 1),
        s_deg_seq(n, l, k).len() == ipow(n as nat, k as nat), s_deg_seq(n, r, d - k).len() == ipow(n as nat, (d - k) as nat), s_deg_seq(n, u, d).len() == ipow(n as nat, d as nat),
        s_deg_seq(n, u, d).len() == s_deg_seq(n, l, k).len() * s_deg_seq(n, r, d - k).len(),
{
    lemma_start_step(n, k as nat);
    lemma_start_step(n, (d - k) as nat);
    lemma_start_step(n, d as nat);
    lemma_start_mono(n, k as nat, k as nat + 1);
    lemma_start_mono(n, (d - k) as nat, (d - k) as nat + 1);
    lemma_start_mono(n, d as nat, d as nat + 1);
    lemma_start_mono(n, k as nat + 1, ld as nat + 1);
    lemma_start_mono(n, (d - k) as nat + 1, rd as nat + 1);
    lemma_ipow_add(n as nat, k as nat, (d - k) as nat);
}

pub proof fn lemma_block_step<S: CoefficientField>(n: u32, t: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, ld: int, rd: int, d: int, k: int, m: int, u: Seq<S>, o: Seq<S>, v: Seq<S>)
    requires n >= 1, 0 <= k <= ld, 0 <= d - k <= rd, 0 <= d <= m, l.len() == s_start(n, ld as nat + 1), r.len() == s_start(n, rd as nat + 1), s_start(n, d as nat + 1) <= u.len(),
        s_state(n, t, l, r, f, ld, rd, d, k + 1, m, u),
        s_block(s_deg_seq(n, u, d), s_deg_seq(n, l, k), s_deg_seq(n, r, d - k), f, o),
        v == u.take(s_start(n, d as nat) as int) + o + u.skip(s_start(n, d as nat + 1) as int),
    ensures s_state(n, t, l, r, f, ld, rd, d, k, m, v), v.len() == u.len()
{
    lemma_block_lens(n, l, r, u, ld, rd, d, k);
    let (s0, s1) = (s_start(n, d as nat) as int, s_start(n, d as nat + 1) as int);
    assert(v.len() == u.len());
    assert(forall|i: int| 0 <= i < s0 ==> v[i] == u[i]);
    assert(forall|i: int| s1 <= i < v.len() ==> v[i] == u[i]);
    assert(forall|i: int| s0 <= i < s1 ==> v[i] == o[i - s0]);
    assert forall|w: Seq<u32>| letters_ok(n, w) implies #[trigger] s_coef(n, v, w) ==
        if d < w.len() <= m { s_mac(n, l, r, f, w, s_coef(n, t, w), s_hi(w.len() as int, ld), s_lo(w.len() as int, rd)) }
        else if w.len() == d { s_mac(n, l, r, f, w, s_coef(n, t, w), s_hi(d, ld), k) }
        else { s_coef(n, t, w) } by {
        lemma_idx_range(n, w);
        let i = s_idx(n, w) as int;
        assert(s_coef(n, u, w) == s_at(u, i));
        if w.len() == d {
            lemma_split(n, w, k);
            lemma_idx_range(n, w.take(k));
            lemma_idx_range(n, w.skip(k));
            let (a, b) = (s_idx(n, w.take(k)) - s_start(n, k as nat), s_idx(n, w.skip(k)) - s_start(n, (d - k) as nat));
            let c = s_cell(s_deg_seq(n, r, d - k).len() as int, a, b);
            assert(o[c] == s_deg_seq(n, u, d)[c].s_add(f(s_deg_seq(n, l, k)[a].s_mul(s_deg_seq(n, r, d - k)[b]))));
            assert(i - s0 == c);
            assert(k <= s_hi(d, ld));
        } else if w.len() < d {
            lemma_start_mono(n, w.len() + 1, d as nat);
        } else {
            lemma_start_mono(n, d as nat + 1, w.len());
        }
    }
}

pub proof fn lemma_done<S: CoefficientField>(n: u32, t: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, v: Seq<S>, d: nat, m: int, u: Seq<S>)
    requires n >= 1, l.len() <= s_start(n, s_depth(n) + 1), r.len() <= s_start(n, s_depth(n) + 1),
        ({ let (ld, rd) = (s_len_degree(n, l.len()) as int, s_len_degree(n, r.len()) as int);
           m == (if d <= ld + rd { d as int } else { ld + rd }) && s_done(n, t, s_pad(n, l), s_pad(n, r), f, ld, rd, 0, m, u) }),
        forall|w: Seq<u32>| letters_ok(n, w) ==> #[trigger] s_coef(n, t, w) == s_coef(n, v, w),
    ensures s_mac_seq(n, v, l, r, f, d, u)
{
    assert forall|w: Seq<u32>| letters_ok(n, w) implies #[trigger] s_coef(n, u, w) == if w.len() <= d { s_mac_coef(n, l, r, f, w, s_coef(n, v, w)) } else { s_coef(n, v, w) } by {
        assert(s_coef(n, t, w) == s_coef(n, v, w));
        let (ld, rd) = (s_len_degree(n, l.len()) as int, s_len_degree(n, r.len()) as int);
        lemma_mac_pad(n, l, r, f, w, s_coef(n, v, w), s_hi(w.len() as int, ld), s_lo(w.len() as int, rd));
    }
}

/// a block done up to row x, column y
pub open spec fn s_block_part<S: CoefficientField>(o: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, x: int, y: int, u: Seq<S>) -> bool {
    &&& u.len() == o.len()
    &&& forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < r.len() ==>
        #[trigger] u[s_cell(r.len() as int, a, b)] == if a < x || (a == x && b < y) { o[s_cell(r.len() as int, a, b)].s_add(f(l[a].s_mul(r[b]))) } else { o[s_cell(r.len() as int, a, b)] }
}
pub proof fn lemma_part_step<S: CoefficientField>(o: Seq<S>, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, x: int, y: int, u: Seq<S>, v: Seq<S>)
    requires 0 <= x < l.len(), 0 <= y < r.len(), o.len() == l.len() * r.len(), s_block_part(o, l, r, f, x, y, u),
        ({ let c = s_cell(r.len() as int, x, y); v == u.update(c, u[c].s_add(f(l[x].s_mul(r[y])))) }),
    ensures s_block_part(o, l, r, f, x, y + 1, v)
{
    let m = r.len() as int;
    assert forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < r.len() implies
        #[trigger] v[s_cell(m, a, b)] == if a < x || (a == x && b < y + 1) { o[s_cell(m, a, b)].s_add(f(l[a].s_mul(r[b]))) } else { o[s_cell(m, a, b)] } by {
        lemma_cell(m, a, b, l.len() as int);
        lemma_cell(m, x, y, l.len() as int);
        lemma_cell_order(m, a, b, x, y);
        assert(u[s_cell(m, a, b)] == if a < x || (a == x && b < y) { o[s_cell(m, a, b)].s_add(f(l[a].s_mul(r[b]))) } else { o[s_cell(m, a, b)] });
    }
}

// ---- the sum over all splits ----
/// what is used of the scalars: zero is neutral and absorbing, for f as well
pub open spec fn s_zero_laws<S: CoefficientField>(f: spec_fn(S) -> S) -> bool {
    &&& forall|x: S| #[trigger] x.s_add(S::ZERO) == x
    &&& forall|x: S| #[trigger] x.s_mul(S::ZERO) == S::ZERO
    &&& forall|x: S| #[trigger] S::ZERO.s_mul(x) == S::ZERO
    &&& f(S::ZERO) == S::ZERO
}
/// the coefficient of w after adding the product of l and r: the sum over every split of w
pub proof fn lemma_all_splits<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S)
    requires n >= 1, letters_ok(n, w), l.len() <= s_start(n, s_depth(n) + 1), r.len() <= s_start(n, s_depth(n) + 1), s_zero_laws(f)
    ensures s_mac_coef(n, l, r, f, w, a) == s_mac(n, l, r, f, w, a, w.len() as int, 0)
{
    let d = w.len() as int;
    let (ld, rd) = (s_len_degree(n, l.len()) as int, s_len_degree(n, r.len()) as int);
    lemma_pad(n, l);
    lemma_pad(n, r);
    lemma_mac_hi(n, l, r, f, w, a, s_hi(d, ld), d, s_lo(d, rd));
    lemma_mac_lo(n, l, r, f, w, a, d, s_lo(d, rd), 0);
}
/// splits whose left part is longer than anything stored add nothing
pub proof fn lemma_mac_hi<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S, h: int, hi: int, lo: int)
    requires n >= 1, letters_ok(n, w), l.len() <= s_start(n, s_depth(n) + 1), s_zero_laws(f), 0 <= lo, h == s_hi(hi, s_len_degree(n, l.len()) as int), hi == w.len()
    ensures s_mac(n, l, r, f, w, a, h, lo) == s_mac(n, l, r, f, w, a, hi, lo)
    decreases hi + 1 - lo
{
    if lo <= hi {
        lemma_mac_hi(n, l, r, f, w, a, h, hi, lo + 1);
        if lo > h {
            lemma_pad(n, l);
            lemma_split(n, w, lo);
            lemma_idx_range(n, w.take(lo));
            lemma_start_mono(n, s_len_degree(n, l.len()) + 1, lo as nat);
            assert(s_coef(n, l, w.take(lo)) == S::ZERO);
        }
    }
}
pub proof fn lemma_mac_lo<S: CoefficientField>(n: u32, l: Seq<S>, r: Seq<S>, f: spec_fn(S) -> S, w: Seq<u32>, a: S, hi: int, h: int, lo: int)
    requires n >= 1, letters_ok(n, w), r.len() <= s_start(n, s_depth(n) + 1), s_zero_laws(f), 0 <= lo <= h, h == s_lo(hi, s_len_degree(n, r.len()) as int), hi == w.len()
    ensures s_mac(n, l, r, f, w, a, hi, h) == s_mac(n, l, r, f, w, a, hi, lo)
    decreases h - lo
{
    if lo < h {
        lemma_mac_lo(n, l, r, f, w, a, hi, h, lo + 1);
        lemma_pad(n, r);
        lemma_split(n, w, lo);
        lemma_idx_range(n, w.skip(lo));
        lemma_start_mono(n, s_len_degree(n, r.len()) + 1, (hi - lo) as nat);
        assert(s_coef(n, r, w.skip(lo)) == S::ZERO);
    }
}
