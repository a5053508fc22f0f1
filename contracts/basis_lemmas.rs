pub open spec fn s_order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }

/// the degree of an index: the d with start(d) <= i < start(d + 1)
pub open spec fn s_degree_of_index(n: u32, i: nat) -> nat { choose|d: nat| s_start(n, d) <= i < #[trigger] s_start(n, d + 1) }

pub proof fn lemma_degree_unique(n: u32, i: nat, d: nat)
    requires n >= 1
    ensures s_start(n, d) <= i < s_start(n, d + 1) ==> s_degree_of_index(n, i) == d
{
    if s_start(n, d) <= i < s_start(n, d + 1) {
        let e = s_degree_of_index(n, i);
        assert(s_start(n, e) <= i < s_start(n, e + 1));
        if e < d { lemma_start_mono(n, e + 1, d); }
        if d < e { lemma_start_mono(n, d + 1, e); }
    }
}

pub proof fn lemma_idx_degree(n: u32, w: Seq<u32>)
    requires letters_ok(n, w), n >= 1
    ensures s_degree_of_index(n, s_idx(n, w)) == w.len(), s_start(n, w.len()) <= s_idx(n, w) < s_start(n, w.len() + 1)
{
    lemma_idx_range(n, w);
    lemma_degree_unique(n, s_idx(n, w), w.len());
}

/// every index below the start of degree m + 1 has a degree, which is at most m
pub proof fn lemma_degree_of_index(n: u32, i: nat, m: nat)
    requires n >= 1, i < s_start(n, m + 1)
    ensures s_degree_of_index(n, i) <= m, s_start(n, s_degree_of_index(n, i)) <= i < s_start(n, s_degree_of_index(n, i) + 1)
    decreases m
{
    if s_start(n, m) <= i { lemma_degree_unique(n, i, m); } else { lemma_degree_of_index(n, i, (m - 1) as nat); }
}

pub proof fn lemma_degree_small(n: u32, i: nat)
    requires n >= 1
    ensures s_start(n, 0) == 0, s_start(n, 1) == 1, s_start(n, 2) == n + 1, s_start(n, 3) >= n + 2,
        i == 0 ==> s_degree_of_index(n, i) == 0,
        1 <= i <= n ==> s_degree_of_index(n, i) == 1,
        s_start(n, 2) <= i < s_start(n, 3) ==> s_degree_of_index(n, i) == 2,
        s_depth(n) == 2 ==> s_start(n, s_depth(n) + 1) == s_start(n, 3),
{
    reveal_with_fuel(s_start, 4);
    reveal_with_fuel(ipow, 4);
    assert(n as nat * 1 == n as nat);
    lemma_start_mono(n, 2, 3);
    lemma_degree_unique(n, i, 0);
    lemma_degree_unique(n, i, 1);
    lemma_degree_unique(n, i, 2);
}

/// one more letter
pub proof fn lemma_idx_step(n: u32, w: Seq<u32>, j: int)
    requires n >= 1, word_ok(n, w), 0 <= j < w.len()
    ensures
        s_idx(n, w.take(j + 1)) == s_idx(n, w.take(j)) * (n as nat) + w[j],
        s_idx(n, w.take(j + 1)) <= usize::MAX,
        0 <= s_idx(n, w.take(j)) * (n as nat),
        1 <= w[j] <= n,
{
    let v = w.take(j + 1);
    assert(v.drop_last() =~= w.take(j));
    assert forall|i: int| 0 <= i < v.len() implies 1 <= #[trigger] v[i] <= n by { assert(v[i] == w[i]); }
    lemma_idx_range(n, v);
    lemma_start_bound(n, v.len() + 1);
}

pub proof fn lemma_index_to_key_start(n: u32, i: nat)
    requires n >= 1
    ensures
        i == 0 ==> s_idx(n, Seq::<u32>::empty()) == 0,
        1 <= i <= n ==> s_idx(n, seq![i as u32]) == i,
        i * ipow(n as nat, 0) + s_idx(n, Seq::<u32>::empty()) == i,
        i == 0 ==> s_degree_of_index(n, i) == 0,
        1 <= i <= n ==> s_degree_of_index(n, i) == 1,
{
    assert(ipow(n as nat, 0) == 1);
    assert(i * 1 == i);
    lemma_degree_small(n, i);
    if 1 <= i <= n {
        let w = seq![i as u32];
        assert(w.drop_last() =~= Seq::<u32>::empty());
        assert(w.last() == i as u32);
        assert(s_idx(n, Seq::<u32>::empty()) == 0);
        assert(0 * (n as nat) == 0) by (nonlinear_arith);
    }
}

/// one step of reading off the letters of an index, last letter first
pub proof fn lemma_index_to_key_step<const N: u32>(key: TensorKey<N>, index: nat, pos: nat)
    requires key.wf(), pos >= 1, index < s_start(N, s_depth(N) + 1),
        index == pos * ipow(N as nat, key.word().len()) + s_idx(N, key.word()),
    ensures
        key.size < s_depth(N),
        ({ let q = (pos - 1) as nat / (N as nat); let r = (pos - 1) as nat % (N as nat);
           r < N && q < pos && index == q * ipow(N as nat, key.word().len() + 1) + s_idx(N, seq![(r + 1) as u32] + key.word()) }),
{
    key.lemma_wf();
    let m = key.word().len();
    let p = ipow(N as nat, m);
    let n = N as nat;
    lemma_ipow_pos(n, m);
    lemma_idx_range(N, key.word());
    lemma_start_step(N, m);
    assert(pos * p >= p) by (nonlinear_arith) requires pos >= 1, p >= 0;
    // index is at least the start of degree m + 1
    if m >= s_depth(N) { assert(s_depth(N) == m); assert(false); }
    let q = (pos - 1) as nat / n;
    let r = (pos - 1) as nat % n;
    lemma_fundamental_div_mod((pos - 1) as int, n as int);
    lemma_mod_bound((pos - 1) as int, n as int);
    assert(q <= pos - 1) by { lemma_div_decreases_or_equal((pos - 1) as nat, n); }
    let l = seq![(r + 1) as u32];
    assert(l.drop_last() =~= Seq::<u32>::empty());
    assert(s_idx(N, Seq::<u32>::empty()) == 0);
    assert(0 * n == 0) by (nonlinear_arith);
    assert(s_idx(N, l) == r + 1);
    lemma_idx_concat(N, l, key.word());
    assert(pos * p == q * (n * p) + (r + 1) * p) by (nonlinear_arith) requires pos - 1 == n * q + r;
}

pub proof fn lemma_div_decreases_or_equal(x: nat, n: nat)
    requires n >= 1
    ensures x / n <= x
{
    lemma_fundamental_div_mod(x as int, n as int);
    lemma_mod_bound(x as int, n as int);
    let q = x / n;
    assert(q >= 0);
    assert(n * q >= q) by (nonlinear_arith) requires n >= 1, q >= 0;
}

/// words of the same length are ordered as their packed numbers
pub proof fn lemma_pack_order(n: u32, bb: nat, a: Seq<u32>, b: Seq<u32>)
    requires n >= 1, bb >= n, a.len() == b.len(), letters_ok(n, a), letters_ok(n, b)
    ensures s_order(pack(bb, a) as int, pack(bb, b) as int) == s_order(s_idx(n, a) as int, s_idx(n, b) as int)
    decreases a.len()
{
    if a.len() > 0 {
        let (al, bl) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < al.len() implies 1 <= #[trigger] al[i] <= n by { assert(al[i] == a[i]); }
        assert forall|i: int| 0 <= i < bl.len() implies 1 <= #[trigger] bl[i] <= n by { assert(bl[i] == b[i]); }
        lemma_pack_order(n, bb, al, bl);
        assert(1 <= a[a.len() - 1] <= n && 1 <= b[b.len() - 1] <= n);
        lemma_order_step(pack(bb, al) as int, pack(bb, bl) as int, bb as int, a.last() - 1, b.last() - 1);
        lemma_order_step(s_idx(n, al) as int, s_idx(n, bl) as int, n as int, a.last() - 1, b.last() - 1);
    }
}

pub proof fn lemma_key_order<const N: u32>(a: &TensorKey<N>, b: &TensorKey<N>)
    requires a.wf(), b.wf()
    ensures
        a.size == b.size ==> s_order(a.data as int, b.data as int) == s_order(s_idx(N, a.word()) as int, s_idx(N, b.word()) as int),
        a.size < b.size ==> s_idx(N, a.word()) < s_idx(N, b.word()),
        a.size > b.size ==> s_idx(N, a.word()) > s_idx(N, b.word()),
{
    a.lemma_wf();
    b.lemma_wf();
    lemma_layout(N);
    lemma_idx_range(N, a.word());
    lemma_idx_range(N, b.word());
    if a.size == b.size { lemma_pack_order(N, s_base(N), a.word(), b.word()); }
    if a.size < b.size { lemma_start_mono(N, a.word().len() + 1, b.word().len()); }
    if a.size > b.size { lemma_start_mono(N, b.word().len() + 1, a.word().len()); }
}

// ---- successors ----

/// w with its last i letters turned into 1
pub open spec fn s_carry(n: u32, w: Seq<u32>, i: int) -> Seq<u32> { w.take(w.len() - i) + Seq::new(i as nat, |j: int| 1u32) }
/// the last i letters are the last letter of the alphabet
pub open spec fn s_all_last(n: u32, w: Seq<u32>, i: int) -> bool { forall|j: int| w.len() - i <= j < w.len() ==> #[trigger] w[j] == n }

pub proof fn lemma_idx_ones(n: u32, w: Seq<u32>)
    requires n >= 1, forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == 1
    ensures s_idx(n, w) == s_start(n, w.len())
    decreases w.len()
{
    if w.len() > 0 {
        let v = w.drop_last();
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] == 1 by { assert(v[j] == w[j]); }
        lemma_idx_ones(n, v);
        lemma_start_step(n, v.len());
    }
}

pub proof fn lemma_idx_lasts(n: u32, w: Seq<u32>)
    requires n >= 1, forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == n
    ensures s_idx(n, w) + 1 == s_start(n, w.len() + 1)
    decreases w.len()
{
    lemma_start_step(n, w.len());
    if w.len() > 0 {
        let v = w.drop_last();
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] == n by { assert(v[j] == w[j]); }
        lemma_idx_lasts(n, v);
        assert((s_idx(n, v) + 1) * (n as nat) == s_idx(n, v) * (n as nat) + n as nat) by (nonlinear_arith);
    }
}

/// incrementing the letter before i last letters gives the next word
pub proof fn lemma_succ(n: u32, w: Seq<u32>, i: int)
    requires n >= 1, 0 <= i < w.len(), s_all_last(n, w, i), w[w.len() - 1 - i] < n
    ensures s_idx(n, s_carry(n, w, i).update(w.len() - 1 - i, (w[w.len() - 1 - i] + 1) as u32)) == s_idx(n, w) + 1
{
    let k = w.len() - 1 - i;
    let l = w[k];
    let p = w.take(k);
    let a = seq![l];
    let b = seq![(l + 1) as u32];
    let lasts = w.skip(k + 1);
    let ones = Seq::new(i as nat, |j: int| 1u32);
    assert(w =~= (p + a) + lasts);
    assert(s_carry(n, w, i).update(k, (l + 1) as u32) =~= (p + b) + ones);
    lemma_idx_concat(n, p + a, lasts);
    lemma_idx_concat(n, p + b, ones);
    assert forall|j: int| 0 <= j < lasts.len() implies #[trigger] lasts[j] == n by { assert(lasts[j] == w[k + 1 + j]); }
    lemma_idx_lasts(n, lasts);
    lemma_idx_ones(n, ones);
    lemma_start_step(n, i as nat);
    assert((p + a).drop_last() =~= p && (p + b).drop_last() =~= p);
    assert((p + a).last() == l && (p + b).last() == l + 1);
    let x = s_idx(n, p + a);
    assert(s_idx(n, p + b) == x + 1);
    let q = ipow(n as nat, i as nat);
    assert((x + 1) * q == x * q + q) by (nonlinear_arith);
}

/// carrying one place further
pub proof fn lemma_carry(n: u32, w: Seq<u32>, i: int)
    requires n >= 1, 0 <= i < w.len(), s_all_last(n, w, i)
    ensures
        s_carry(n, w, i).len() == w.len(),
        s_carry(n, w, i)[w.len() - 1 - i] == w[w.len() - 1 - i],
        w[w.len() - 1 - i] == n ==> s_carry(n, w, i).update(w.len() - 1 - i, 1) == s_carry(n, w, i + 1) && s_all_last(n, w, i + 1),
{
    if w[w.len() - 1 - i] == n {
        assert(s_carry(n, w, i).update(w.len() - 1 - i, 1) =~= s_carry(n, w, i + 1));
    }
}

/// the word after the last of its length is the first of the next length
pub proof fn lemma_succ_len(n: u32, w: Seq<u32>)
    requires n >= 1, s_all_last(n, w, w.len() as int)
    ensures s_idx(n, w) + 1 == s_start(n, w.len() + 1), s_idx(n, seq![1u32] + s_carry(n, w, w.len() as int)) == s_idx(n, w) + 1
{
    lemma_idx_lasts(n, w);
    let v = seq![1u32] + s_carry(n, w, w.len() as int);
    assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] == 1 by { }
    lemma_idx_ones(n, v);
}
