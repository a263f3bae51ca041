/// The 7-bits-per-byte, least-significant-group-first encoding of an unsigned integer.
pub open spec fn enc(x: nat) -> Seq<u8>
    decreases x
{
    if x < 0x80 { seq![x as u8] } else { seq![(0x80 + x % 0x80) as u8] + enc(x / 0x80) }
}
pub open spec fn p128(n: nat) -> nat
    decreases n
{
    if n == 0 { 1 } else { 0x80 * p128((n - 1) as nat) }
}
pub proof fn lemma_enc_len(x: nat)
    ensures
        enc(x).len() >= 1,
        x < 0x80 <==> enc(x).len() == 1,
        x <= u32::MAX ==> enc(x).len() <= 5,
        x >= 0x80 ==> enc(x) == seq![(0x80 + x % 0x80) as u8] + enc(x / 0x80),
        x >= 0x80 ==> enc(x).len() == 1 + enc(x / 0x80).len(),
{
    reveal_with_fuel(enc, 6);
    assert(enc(x).len() >= 1) by { lemma_enc_pos(x); }
    if x >= 0x80 { lemma_enc_pos(x / 0x80); }
}
pub proof fn lemma_enc_pos(x: nat)
    ensures enc(x).len() >= 1
    decreases x
{ if x >= 0x80 { lemma_enc_pos(x / 0x80); } }

/// The bit tricks of one 7-bit group, in every spelling the code may use.
pub proof fn lemma_group(t: u32)
    ensures
        (0x80u32 | (t & 0x7fu32)) as u8 == 0x80 + t % 0x80,
        ((t & 0x7fu32) | 0x80u32) as u8 == 0x80 + t % 0x80,
        (0x80u32 + (t & 0x7fu32)) as u8 == 0x80 + t % 0x80,
        (0x80u8 | (t & 0x7fu32) as u8) == 0x80 + t % 0x80,
        ((t & 0x7fu32) as u8 | 0x80u8) == 0x80 + t % 0x80,
        (t & 0x7fu32) == t % 0x80,
        ((t & !0x7fu32) >> 7) == t / 0x80,
        (t & !0x7fu32) <= t,
        (t >> 7) == t / 0x80,
{
    assert((0x80u32 | (t & 0x7fu32)) as u8 == 0x80 + t % 0x80) by (bit_vector);
    assert(((t & 0x7fu32) | 0x80u32) as u8 == 0x80 + t % 0x80) by (bit_vector);
    assert((0x80u32 + (t & 0x7fu32)) as u8 == 0x80 + t % 0x80) by (bit_vector);
    assert((0x80u8 | (t & 0x7fu32) as u8) == 0x80 + t % 0x80) by (bit_vector);
    assert(((t & 0x7fu32) as u8 | 0x80u8) == 0x80 + t % 0x80) by (bit_vector);
    assert((t & 0x7fu32) == t % 0x80) by (bit_vector);
    assert(((t & !0x7fu32) >> 7) == t / 0x80) by (bit_vector);
    assert((t & !0x7fu32) <= t) by (bit_vector);
    assert((t >> 7) == t / 0x80) by (bit_vector);
}

/// Value and length of the encoded integer at the front of a byte sequence.
pub open spec fn dec(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] < 0x80 { s[0] as nat } else { (s[0] - 0x80 + 0x80 * dec(s.skip(1))) as nat }
}
pub open spec fn declen(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] < 0x80 { 1 } else { 1 + declen(s.skip(1)) }
}
pub open spec fn wf(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() > 0 && (s[0] < 0x80 || wf(s.skip(1)))
}
pub proof fn lemma_dec_enc(x: nat, tail: Seq<u8>)
    ensures
        dec(enc(x) + tail) == x,
        declen(enc(x) + tail) == enc(x).len(),
        wf(enc(x) + tail),
        (enc(x) + tail).skip(enc(x).len() as int) == tail,
    decreases x
{
    lemma_enc_pos(x);
    assert((enc(x) + tail).skip(enc(x).len() as int) =~= tail);
    if x >= 0x80 {
        lemma_enc_pos(x / 0x80);
        lemma_dec_enc(x / 0x80, tail);
        assert((enc(x) + tail).skip(1) =~= enc(x / 0x80) + tail);
    }
}
pub open spec fn isenc(s: Seq<u8>) -> bool {
    exists|x: u32, tail: Seq<u8>| s == #[trigger] (enc(x as nat) + tail)
}
pub proof fn lemma_isenc(s: Seq<u8>)
    requires isenc(s)
    ensures dec(s) <= u32::MAX, wf(s), 1 <= declen(s) <= 5, declen(s) <= s.len(),
        forall|x: u32, tail: Seq<u8>| s == #[trigger] (enc(x as nat) + tail) ==> dec(s) == x && s.skip(declen(s) as int) == tail,
{
    assert forall|x: u32, tail: Seq<u8>| s == #[trigger] (enc(x as nat) + tail) implies dec(s) == x && s.skip(declen(s) as int) == tail
         && wf(s) && 1 <= declen(s) <= 5 && declen(s) <= s.len() by {
        lemma_enc_len(x as nat);
        lemma_dec_enc(x as nat, tail);
    }
}
/// One group more: what the reader has accumulated after n groups plus what is still encoded in
/// the remaining bytes, shifted by 7n bits, is the encoded value.
pub proof fn lemma_step(n: nat, result: u32, b: u32, rest: nat)
    requires n <= 4, b < 0x100, result < p128(n),
        result + p128(n) * (if b < 0x80 { b as nat } else { (b - 0x80 + 0x80 * rest) as nat }) <= u32::MAX,
    ensures
        n * 7 < 32,
        (result | ((b & 0x7fu32) << ((n * 7) as usize))) < p128(n + 1),
        b < 0x80 ==> (result | ((b & 0x7fu32) << ((n * 7) as usize))) == result + p128(n) * (b as nat),
        b >= 0x80 ==> (result | ((b & 0x7fu32) << ((n * 7) as usize))) == result + p128(n) * ((b - 0x80) as nat),
        p128(n + 1) == 0x80 * p128(n),
{
    assert(p128(0) == 1 && p128(1) == 0x80 && p128(2) == 0x4000 && p128(3) == 0x20_0000 && p128(4) == 0x1000_0000
        && p128(5) == 0x8_0000_0000) by { reveal_with_fuel(p128, 6); }
    let m = (b & 0x7fu32);
    let r = (result | ((b & 0x7fu32) << ((n * 7) as usize)));
    assert(b < 0x100 ==> (b & 0x7fu32) < 0x80 && (b < 0x80 ==> b & 0x7fu32 == b) && (b >= 0x80 ==> b & 0x7fu32 == b - 0x80)) by (bit_vector);
    let q: nat = if b < 0x80 { b as nat } else { (b - 0x80 + 0x80 * rest) as nat };
    assert(m <= q) by (nonlinear_arith) requires m == (if b < 0x80 { b as int } else { b - 0x80 }), q == (if b < 0x80 { b as int } else { b - 0x80 + 0x80 * rest }), rest >= 0;
    assert(p128(n) * m <= p128(n) * q) by (nonlinear_arith) requires m <= q;
    if n == 4 { assert(m < 0x10) by (nonlinear_arith) requires p128(n) == 0x1000_0000, p128(n) * m <= u32::MAX; }
    assert(r == result + p128(n) * (m as nat) && r < p128(n + 1)) by {
    if n == 0 {
        assert(m < 0x80);
        assert(result < 1 && m < 0x80 ==> (result | (m << 0usize)) == result + 1 * m && (result | (m << 0usize)) < 0x80) by (bit_vector);
        assert(p128(n) * (m as nat) == 1 * m) by (nonlinear_arith) requires p128(n) == 1;
        assert(r == (result | (m << 0usize)));
    }
    else if n == 1 {
        assert(m < 0x80);
        assert(result < 0x80 && m < 0x80 ==> (result | (m << 7usize)) == result + 0x80 * m && (result | (m << 7usize)) < 0x4000) by (bit_vector);
        assert(p128(n) * (m as nat) == 0x80 * m) by (nonlinear_arith) requires p128(n) == 0x80;
        assert(r == (result | (m << 7usize)));
    }
    else if n == 2 {
        assert(m < 0x80);
        assert(result < 0x4000 && m < 0x80 ==> (result | (m << 14usize)) == result + 0x4000 * m && (result | (m << 14usize)) < 0x20_0000) by (bit_vector);
        assert(p128(n) * (m as nat) == 0x4000 * m) by (nonlinear_arith) requires p128(n) == 0x4000;
        assert(r == (result | (m << 14usize)));
    }
    else if n == 3 {
        assert(m < 0x80);
        assert(result < 0x20_0000 && m < 0x80 ==> (result | (m << 21usize)) == result + 0x20_0000 * m && (result | (m << 21usize)) < 0x1000_0000) by (bit_vector);
        assert(p128(n) * (m as nat) == 0x20_0000 * m) by (nonlinear_arith) requires p128(n) == 0x20_0000;
        assert(r == (result | (m << 21usize)));
    }
    else {
        assert(m < 0x10);
        assert(result < 0x1000_0000 && m < 0x10 ==> (result | (m << 28usize)) == result + 0x1000_0000 * m && (result | (m << 28usize)) < 0x1_0000_0000) by (bit_vector);
        assert(p128(n) * (m as nat) == 0x1000_0000 * m) by (nonlinear_arith) requires p128(n) == 0x1000_0000;
        assert(r == (result | (m << 28usize)));
    }
    }
}
pub proof fn lemma_decsum(n: nat, result: nat, b: nat, rest: nat, total: nat)
    requires total == result + p128(n) * ((b - 0x80 + 0x80 * rest) as nat), b >= 0x80, p128(n + 1) == 0x80 * p128(n)
    ensures total == (result + p128(n) * ((b - 0x80) as nat)) + p128(n + 1) * rest
{
    assert(p128(n) * ((b - 0x80 + 0x80 * rest) as nat) == p128(n) * ((b - 0x80) as nat) + (0x80 * p128(n)) * rest) by (nonlinear_arith) requires b >= 0x80;
}
