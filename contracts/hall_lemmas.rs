// ---- the four fields of a Hall key: 18, 18, 18 and 10 bits ----
pub open spec fn s_hk(d: u64) -> nat { (d as nat) % 0x40000 }
pub open spec fn s_hl(d: u64) -> nat { (d as nat / 0x40000) % 0x40000 }
pub open spec fn s_hr(d: u64) -> nat { (d as nat / 0x10_0000_0000) % 0x40000 }
pub open spec fn s_hs(d: u64) -> nat { (d as nat / 0x40_0000_0000_0000) % 0x400 }

pub proof fn lemma_hpow()
    ensures pow2(0) == 1, pow2(18) == 0x40000, pow2(10) == 0x400, pow2(36) == 0x10_0000_0000, pow2(54) == 0x40_0000_0000_0000
{
    lemma2_to64(); lemma2_to64_rest();
}
pub proof fn lemma_hall_read(d: u64, b: u32, s: u32)
    requires 1 <= b <= 32, s + b <= 64
    ensures ((d & s_mask(b, s)) >> s) == (d as nat / pow2(s as nat)) % pow2(b as nat),
        (d >> s) & s_mask(b, 0) == (d as nat / pow2(s as nat)) % pow2(b as nat),
        s == 0 ==> d & s_mask(b, s) == (d as nat) % pow2(b as nat),
        s + b == 64 ==> d >> s == (d as nat / pow2(s as nat)) % pow2(b as nat),
{
    lemma_mask_shift0(b);
    if s + b == 64 {
        let x = d >> s;
        let one: u64 = 1;
        assert(x & sub(one << b, 1) == x) by (bit_vector) requires x == d >> s, s + b == 64, 1 <= b <= 32, one == 1u64;
        assert(one << b >= 1u64) by (bit_vector) requires b <= 32, one == 1u64;
    }
    lemma_mask_read(d, b, s);
    lemma_digit(d, b, s);
    if s == 0 {
        lemma2_to64();
        let m = d & s_mask(b, 0);
        assert(m >> 0u32 == m) by (bit_vector);
    }
}
pub proof fn lemma_hall_pack(k: u64, l: u64, r: u64, s: u64)
    requires k < 0x40000, l < 0x40000, r < 0x40000, s < 0x400
    ensures l << 18u32 == l * 0x40000, r << 36u32 == r * 0x10_0000_0000, s << 54u32 == s * 0x40_0000_0000_0000,
        k + (l << 18u32) + (r << 36u32) + (s << 54u32) <= 0xffff_ffff_ffff_ffff,
        ({ let d = (k + (l << 18u32) + (r << 36u32) + (s << 54u32)) as u64;
           d == k | (l << 18u32) | (r << 36u32) | (s << 54u32) && s_hk(d) == k && s_hl(d) == l && s_hr(d) == r && s_hs(d) == s }),
        // `|` in any order and grouping
        forall|a: u64, b: u64| #[trigger] (a | b) == b | a,
        forall|a: u64, b: u64, c: u64| #[trigger] ((a | b) | c) == a | (b | c),
{
    lemma_hpow();
    assert(add(add(add(k, l << 18u32), r << 36u32), s << 54u32) == k | (l << 18u32) | (r << 36u32) | (s << 54u32)) by (bit_vector)
        requires k < 0x40000, l < 0x40000, r < 0x40000, s < 0x400;
    lemma_shl(l, 18); lemma_shl(r, 36); lemma_shl(s, 54);
    assert forall|a: u64, b: u64| #[trigger] (a | b) == b | a by { assert(a | b == b | a) by (bit_vector); }
    assert forall|a: u64, b: u64, c: u64| #[trigger] ((a | b) | c) == a | (b | c) by { assert((a | b) | c == a | (b | c)) by (bit_vector); }
}
