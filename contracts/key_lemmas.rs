impl<const N: u32> TensorKey<N> {
    /// the word a key stands for
    pub open spec fn word(&self) -> Seq<u32> { unpack(s_base(N), self.data as nat, self.size as nat) }
    /// keys of representable words
    pub open spec fn wf(&self) -> bool {
        N >= 1 && self.size <= s_depth(N) && (self.data as nat) < ipow(s_base(N), self.size as nat) && letters_ok(N, self.word())
    }

    pub proof fn lemma_wf(&self)
        requires self.wf()
        ensures self.word().len() == self.size, word_ok(N, self.word()), self.size <= 59, self.data == pack(s_base(N), self.word())
    {
        lemma_layout(N);
        lemma_unpack_len(s_base(N), self.data as nat, self.size as nat);
        lemma_pack_unpack(s_base(N), self.data as nat, self.size as nat);
    }

    /// keys are equal exactly when their words are
    pub proof fn lemma_eq(&self, other: &Self)
        requires self.wf(), other.wf()
        ensures (self.size == other.size && self.data == other.data) <==> self.word() == other.word(),
            self == other <==> self.word() == other.word(),
    {
        self.lemma_wf();
        other.lemma_wf();
    }

    /// facts about the bits of letter i
    pub proof fn lemma_get(&self, i: u32)
        requires self.wf(), i < self.size
        ensures
            1 <= s_bits(N) <= 32,
            i * s_bits(N) + s_bits(N) <= 64, s_bits(N) * i == i * s_bits(N),
            ({ let b = s_bits(N) as u32; let s = (i * s_bits(N)) as u32;
               let d = (self.data & s_mask(b, s)) >> s;
               d < N && s_letter(d as nat) == self.word()[self.size - 1 - i] && d + 1 == self.word()[self.size - 1 - i]
               && self.data & s_mask(b, s) == d * ipow(s_base(N), i as nat) && d == (self.data as nat / ipow(s_base(N), i as nat)) % s_base(N)
               && (self.data >> s) & s_mask(b, 0) == d && s_mask(b, 0) & (self.data >> s) == d && (self.data >> s) & (((1u64 << b) - 1) as u64) == d
               && (self.data >> s) % (1u64 << b) == d && s_mask(b, s) & self.data == self.data & s_mask(b, s) && 1u64 << b == s_base(N)
               && s_mask(b, 0) << s == s_mask(b, s) }),
    {
        lemma_layout(N);
        self.lemma_wf();
        let b = s_bits(N) as u32;
        assert(i * s_bits(N) + s_bits(N) <= s_depth(N) * s_bits(N)) by (nonlinear_arith) requires i + 1 <= s_depth(N);
        let s = (i * s_bits(N)) as u32;
        lemma_mask_read(self.data, b, s);
        lemma_digit(self.data, b, s);
        lemma_mask_shift0(b);
        let (x, y, z, w) = (self.data >> s, s_mask(b, 0), self.data, s_mask(b, s));
        assert(x & y == y & x && z & w == w & z) by (bit_vector);
        lemma_u64_shl_is_mul(1u64, b as u64);
        lemma_ipow_pow2(s_bits(N), i as nat);
        assert(s_bits(N) * i == i * s_bits(N)) by (nonlinear_arith);
        lemma_unpack_digit(s_base(N), self.data as nat, self.size as nat, i as nat);
        let d = (self.data & s_mask(b, s)) >> s;
        assert(1 <= self.word()[self.size - 1 - i] <= N);
        let p = ipow(s_base(N), i as nat);
        let q = self.data as nat / p;
        assert(d == q % s_base(N));
        // d * p is part of the data, hence fits
        lemma_ipow_pos(s_base(N), i as nat);
        lemma_fundamental_div_mod(self.data as int, p as int);
        lemma_mod_decreases(q, s_base(N));
        assert(d * p <= p * q) by (nonlinear_arith) requires d <= q;
        assert(d * p <= self.data);
        lemma_shl(d, s);
    }

    pub proof fn lemma_set(&self, i: u32, v: u32)
        requires self.wf(), i < self.size, 1 <= v <= N
        ensures
            1 <= s_bits(N) <= 32,
            i * s_bits(N) + s_bits(N) <= 64, s_bits(N) * i == i * s_bits(N),
            ({ let b = s_bits(N) as u32; let s = (i * s_bits(N)) as u32;
               let t = ((v - 1) as u64) << s; let m = self.data & !s_mask(b, s);
               m | t == m + t && t | m == m + t && m ^ t == m + t && t ^ m == m + t
               && s_mask(b, 0) << s == s_mask(b, s) && !s_mask(b, s) & self.data == m && self.data ^ (self.data & s_mask(b, s)) == m
               && m + t <= 0xffff_ffff_ffff_ffff && ({ let k = TensorKey::<N> { size: self.size, data: (m + t) as u64 };
                 k.wf() && k.word() == self.word().update(self.size - 1 - i, v) }) }),
    {
        self.lemma_get(i);
        self.lemma_wf();
        lemma_layout(N);
        let b = s_bits(N) as u32;
        let s = (i * s_bits(N)) as u32;
        lemma_mask_read(self.data, b, s);
        lemma_or_field(self.data, b, s, (v - 1) as u64);
        let (x, y) = (self.data, s_mask(b, s));
        assert(!y & x == x & !y && x ^ (x & y) == x & !y) by (bit_vector);
        let bb = s_base(N);
        let p = ipow(bb, i as nat);
        lemma_ipow_pow2(s_bits(N), i as nat);
        assert(s_bits(N) * i == i * s_bits(N)) by (nonlinear_arith);
        lemma_unpack_update(bb, self.data as nat, self.size as nat, i as nat, (v - 1) as nat);
        let dg = (self.data as nat / p) % bb;
        let nd = (self.data - dg * p + (v - 1) * p) as nat;
        lemma_data_fits::<N>(nd, self.size as nat);
        assert(dg * p <= self.data);
        assert((v - 1) * p <= nd);
        lemma_shl((v - 1) as u64, s);
        let k = TensorKey::<N> { size: self.size, data: nd as u64 };
        assert(k.word() == self.word().update(self.size - 1 - i, v));
        assert forall|j: int| 0 <= j < k.word().len() implies 1 <= #[trigger] k.word()[j] <= N by {
            if j != self.size - 1 - i { assert(k.word()[j] == self.word()[j]); }
        }
    }

    pub proof fn lemma_push(&self, l: u32)
        requires self.wf(), self.size < s_depth(N), l < N
        ensures
            1 <= s_bits(N) <= 32, self.size < 59,
            self.size * s_bits(N) + s_bits(N) <= 64, s_bits(N) * self.size == self.size * s_bits(N),
            ({ let s = (self.size * s_bits(N)) as u32;
               let m = (l as u64) & s_mask(s_bits(N) as u32, 0);
               let t = m << s;
               m == l && self.data | t == self.data + t && t | self.data == self.data + t && self.data ^ t == self.data + t
               && self.data + t <= 0xffff_ffff_ffff_ffff && ({ let k = TensorKey::<N> { size: (self.size + 1) as u32, data: (self.data + t) as u64 };
                 k.wf() && k.word() == seq![(l + 1) as u32] + self.word() }) }),
    {
        lemma_layout(N);
        self.lemma_wf();
        let n = self.size as nat;
        assert(n * s_bits(N) + s_bits(N) <= s_depth(N) * s_bits(N)) by (nonlinear_arith) requires n + 1 <= s_depth(N);
        let s = (n * s_bits(N)) as u32;
        lemma_mask_small(l as u64, s_bits(N) as u32);
        let bb = s_base(N);
        lemma_ipow_pow2(s_bits(N), n);
        assert(s_bits(N) * n == n * s_bits(N)) by (nonlinear_arith);
        lemma_unpack_push_front(bb, self.data as nat, n, l as nat);
        let nd = (l as nat) * ipow(bb, n) + self.data as nat;
        lemma_data_fits::<N>(nd, n + 1);
        lemma_shl(l as u64, s);
        lemma_or_low(l as u64, s, self.data);
        let k = TensorKey::<N> { size: (self.size + 1) as u32, data: nd as u64 };
        assert forall|j: int| 0 <= j < k.word().len() implies 1 <= #[trigger] k.word()[j] <= N by {
            if j > 0 { assert(k.word()[j] == self.word()[j - 1]); }
        }
    }

    pub proof fn lemma_concat(&self, other: &Self)
        requires self.wf(), other.wf(), self.size + other.size <= s_depth(N)
        ensures
            1 <= s_bits(N) <= 32, self.size + other.size <= 59,
            other.size * s_bits(N) <= 64, s_bits(N) * other.size == other.size * s_bits(N),
            self.size > 0 ==> other.size * s_bits(N) < 64,
            self.size == 0 ==> self.word() + other.word() == other.word(),
            other.size == 0 ==> self.word() + other.word() == self.word(),
            other.size * s_bits(N) < 64 ==> ({ let s = (other.size * s_bits(N)) as u32;
               let t = self.data << s;
               t | other.data == t + other.data && other.data | t == t + other.data && t ^ other.data == t + other.data
               && t + other.data <= 0xffff_ffff_ffff_ffff && ({ let k = TensorKey::<N> { size: (self.size + other.size) as u32, data: (t + other.data) as u64 };
                 k.wf() && k.word() == self.word() + other.word() }) }),
    {
        lemma_layout(N);
        self.lemma_wf();
        other.lemma_wf();
        let n = other.size as nat;
        let m = self.size as nat;
        let b = s_bits(N);
        assert((m + n) * b <= s_depth(N) * b) by (nonlinear_arith) requires m + n <= s_depth(N);
        assert(n * b + m * b == (m + n) * b) by (nonlinear_arith);
        assert(m > 0 ==> m * b >= b) by (nonlinear_arith);
        assert(self.word().len() == 0 ==> self.word() + other.word() =~= other.word());
        assert(other.word().len() == 0 ==> self.word() + other.word() =~= self.word());
        if n * b < 64 {
            let bb = s_base(N);
            let s = (n * b) as u32;
            lemma_ipow_pow2(b, n);
            assert(b * n == n * b) by (nonlinear_arith);
            lemma_unpack_concat(bb, self.data as nat, m, other.data as nat, n);
            let p = ipow(bb, n);
            let nd = (self.data as nat) * p + other.data as nat;
            lemma_ipow_add(bb, m, n);
            assert(nd < ipow(bb, m) * p) by (nonlinear_arith)
                requires nd == (self.data as nat) * p + other.data as nat, (self.data as nat) + 1 <= ipow(bb, m), (other.data as nat) < p;
            lemma_data_fits::<N>(nd, m + n);
            lemma_shl(self.data, s);
            lemma_or_low(self.data, s, other.data);
            let k = TensorKey::<N> { size: (self.size + other.size) as u32, data: nd as u64 };
            assert forall|j: int| 0 <= j < k.word().len() implies 1 <= #[trigger] k.word()[j] <= N by {
                if j < m { assert(k.word()[j] == self.word()[j]); } else { assert(k.word()[j] == other.word()[j - m]); }
            }
        }
    }
}

pub proof fn lemma_data_fits<const N: u32>(d: nat, n: nat)
    requires N >= 1, d < ipow(s_base(N), n), n <= s_depth(N)
    ensures d <= 0xffff_ffff_ffff_ffff
{
    lemma_layout(N);
    lemma_ipow_pow2(s_bits(N), s_depth(N));
    assert(s_bits(N) * s_depth(N) == s_depth(N) * s_bits(N)) by (nonlinear_arith);
    lemma_ipow_mono(s_base(N), n, s_depth(N));
}

pub proof fn lemma_pack1(bb: nat, l: u32)
    requires l >= 1
    ensures pack(bb, seq![l]) == l - 1
{
    let w = seq![l];
    assert(w.drop_last() =~= Seq::<u32>::empty());
    assert(w.last() == l);
    assert(pack(bb, Seq::<u32>::empty()) == 0);
    assert(0 * bb == 0) by (nonlinear_arith);
}

/// one step of packing a word letter by letter
pub proof fn lemma_key_from_step<const N: u32>(w: Seq<u32>, i: int, acc: u64)
    requires N >= 1, word_ok(N, w), 0 <= i < w.len(), acc == pack(s_base(N), w.take(i))
    ensures
        1 <= s_bits(N) <= 32, 1 <= w[i] <= N,
        (acc << (s_bits(N) as u32)) + (w[i] - 1) <= 0xffff_ffff_ffff_ffff,
        (acc << (s_bits(N) as u32)) + (w[i] - 1) == pack(s_base(N), w.take(i + 1)),
        (acc << (s_bits(N) as u32)) | ((w[i] - 1) as u64) == pack(s_base(N), w.take(i + 1)),
        ((w[i] - 1) as u64) | (acc << (s_bits(N) as u32)) == pack(s_base(N), w.take(i + 1)),
{
    lemma_layout(N);
    let bb = s_base(N);
    let v = w.take(i + 1);
    assert(v.drop_last() =~= w.take(i));
    assert(v.last() == w[i]);
    assert forall|j: int| 0 <= j < v.len() implies 1 <= #[trigger] v[j] <= bb by { assert(v[j] == w[j]); }
    lemma_unpack_pack(bb, v);
    lemma_data_fits::<N>(pack(bb, v), v.len());
    lemma_shl(acc, s_bits(N) as u32);
    lemma_or_low(acc, s_bits(N) as u32, (w[i] - 1) as u64);
}

/// replacing one digit replaces one letter
pub proof fn lemma_unpack_update(bb: nat, d: nat, n: nat, i: nat, v: nat)
    requires bb >= 1, i < n, v < bb, d < ipow(bb, n)
    ensures
        ((d / ipow(bb, i)) % bb) * ipow(bb, i) <= d,
        ({ let nd = (d - ((d / ipow(bb, i)) % bb) * ipow(bb, i) + v * ipow(bb, i)) as nat;
           nd < ipow(bb, n) && unpack(bb, nd, n) == unpack(bb, d, n).update(n - 1 - i, s_letter(v)) }),
    decreases n
{
    lemma_unpack_len(bb, d, n);
    let q = d / bb;
    let r = d % bb;
    lemma_fundamental_div_mod(d as int, bb as int);
    lemma_mod_bound(d as int, bb as int);
    lemma_div_lt(bb, d, n);
    let pn = ipow(bb, (n - 1) as nat);
    lemma_unpack_len(bb, q, (n - 1) as nat);
    if i == 0 {
        assert(ipow(bb, 0) == 1);
        assert(d / 1 == d);
        assert((d % bb) * 1 == r && v * 1 == v);
        let nd = (d - r + v) as nat;
        assert(nd == bb * q + v);
        assert(bb * q == q * bb) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(nd as int, bb as int, q as int, v as int);
        assert(nd < bb * pn) by (nonlinear_arith) requires nd == bb * q + v, v < bb, q + 1 <= pn;
        assert(unpack(bb, nd, n) =~= unpack(bb, d, n).update(n - 1, s_letter(v)));
    } else {
        let p = ipow(bb, (i - 1) as nat);
        lemma_unpack_update(bb, q, (n - 1) as nat, (i - 1) as nat, v);
        lemma_ipow_pos(bb, (i - 1) as nat);
        lemma_div_denominator(d as int, bb as int, p as int);
        let g = (q / p) % bb;
        let nq = (q - g * p + v * p) as nat;
        let nd = bb * nq + r;
        assert(ipow(bb, i) == bb * p);
        assert(nd == d - g * (bb * p) + v * (bb * p)) by (nonlinear_arith)
            requires nd == bb * nq + r, nq == q - g * p + v * p, d == bb * q + r;
        assert(g * (bb * p) <= d) by (nonlinear_arith) requires g * p <= q, d == bb * q + r, r >= 0;
        assert(bb * nq == nq * bb) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(nd as int, bb as int, nq as int, r as int);
        assert(nd < bb * pn) by (nonlinear_arith) requires nd == bb * nq + r, r < bb, nq + 1 <= pn;
        assert(unpack(bb, nd, n) =~= unpack(bb, d, n).update(n - 1 - i, s_letter(v)));
    }
}
