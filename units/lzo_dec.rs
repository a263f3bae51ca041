#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, unused_assignments, unused_labels)]
use vstd::prelude::*;
verus! {
//@include inc/lzospec.rs

pub assume_specification [usize::wrapping_div] (a: usize, b: usize) -> (r: usize)
    requires b != 0
    ensures r == a / b;

// Memory: `in_` is the input buffer, `out` the output buffer, pointers are positions in them.
// Every access below has its bounds as a precondition.
fn rd(in_: &[u8], ip: &mut usize) -> (r: u8)
    requires *old(ip) < in_@.len(), in_@.len() <= isize::MAX
    ensures *final(ip) == *old(ip) + 1, r == in_@[*old(ip) as int]
{ let b = in_[*ip]; *ip = *ip + 1; b }
fn ld(out: &Vec<u8>, p: isize) -> (r: u8)
    requires 0 <= p < out@.len()
    ensures r == out@[p as int]
{ out[p as usize] }
fn rdm(out: &Vec<u8>, p: &mut isize) -> (r: u8)
    requires 0 <= *old(p) < out@.len(), out@.len() <= isize::MAX
    ensures *final(p) == *old(p) + 1, r == out@[*old(p) as int]
{ let b = out[*p as usize]; *p = *p + 1; b }
fn st(out: &mut Vec<u8>, p: usize, v: u8)
    requires p < old(out)@.len()
    ensures final(out)@ == old(out)@.update(p as int, v), final(out)@.take(p + 1) == old(out)@.take(p as int).push(v), final(out)@.len() == old(out)@.len()
{ out.set(p, v); proof { assert(out@.take(p + 1) =~= old(out)@.take(p as int).push(v)); } }
fn wr(out: &mut Vec<u8>, op: &mut usize, v: u8)
    requires *old(op) < old(out)@.len(), old(out)@.len() <= isize::MAX
    ensures *final(op) == *old(op) + 1, final(out)@ == old(out)@.update(*old(op) as int, v),
        final(out)@.take(*old(op) + 1) == old(out)@.take(*old(op) as int).push(v), final(out)@.len() == old(out)@.len()
{ out.set(*op, v); proof { assert(out@.take(*op + 1) =~= old(out)@.take(*op as int).push(v)); } *op = *op + 1; }
/// distance between two pointers into the same buffer, the first not before the second
fn pdiff(a: usize, b: usize) -> (r: usize)
    requires a >= b
    ensures r == a - b
{ a - b }

//@extract libs/lzo/src/decompress.rs | fn get_unaligned_le16
//@sub \s+ ==> \_
//@sub unsafe extern "C" fn get_unaligned_le16\(p: \*const ::std::os::raw::c_void\) ==> fn get_unaligned_le16(p: usize, in_: &[u8])
//@sub let input: \*const u8 = p\.cast::<u8>\(\); ==>
//@sub \*input\.offset\((\d+)isize\) ==> in_[p + \1usize]
//@spec
    requires p + 2 <= in_@.len() <= isize::MAX
    ensures r == le(in_@, p as int)
//@entry
    proof {
        let (a, b) = (in_@[p as int], in_@[p + 1]);
        assert(((a as i32 | (b as i32) << 8i32) as u16) == a as int + 256 * b as int) by {
            assert(((a as i32 | (b as i32) << 8i32) as u16) as u32 == add(a as u32, mul(256u32, b as u32))) by (bit_vector);
        }
    }
//@end

proof fn lemma_bits(t: usize)
    requires t < 256
    ensures t & 3usize == t % 4, t >> 2usize == t / 4, (t >> 2usize) & 7usize == (t / 4) % 8,
        t >> 5usize == t / 32, t & 31usize == t % 32, t & 7usize == t % 8, (t & 8usize) << 11usize == (t / 8 % 2) * 0x4000
{
    assert(t & 3usize == t % 4) by (bit_vector);
    assert(t >> 2usize == t / 4) by (bit_vector);
    assert((t >> 2usize) & 7usize == (t / 4) % 8) by (bit_vector);
    assert(t >> 5usize == t / 32) by (bit_vector);
    assert(t & 31usize == t % 32) by (bit_vector);
    assert(t & 7usize == t % 8) by (bit_vector);
    assert((t & 8usize) << 11usize == (t / 8 % 2) * 0x4000) by (bit_vector) requires t < 256;
}
proof fn lemma_next(n: usize)
    requires n < 65536
    ensures n & 3usize == n % 4, n >> 2usize == n / 4
{
    assert(n & 3usize == n % 4) by (bit_vector);
    assert(n >> 2usize == n / 4) by (bit_vector);
}
proof fn lemma_shl(b: i32)
    requires 0 <= b < 256
    ensures b << 2i32 == 4 * b, b << 3i32 == 8 * b
{
    assert(b << 2i32 == mul(4i32, b)) by (bit_vector) requires 0 <= b < 256;
    assert(b << 3i32 == mul(8i32, b)) by (bit_vector) requires 0 <= b < 256;
}
proof fn lemma_off(z: usize)
    requires z <= zmax()
    ensures z << 8usize == if z < 0x100_0000_0000_0000 { 256 * z } else { 256 * z - 0x1_0000_0000_0000_0000 }
{
    if z < 0x100_0000_0000_0000 {
        assert(z << 8usize == mul(256usize, z)) by (bit_vector);
    } else {
        assert(z << 8usize == mul(256usize, sub(z, 0x100_0000_0000_0000usize))) by (bit_vector);
    }
}
proof fn lemma_zeros(inp: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= inp.len(), forall|i: int| p <= i < q ==> inp[i] == 0
    ensures zeros(inp, p) == q - p + zeros(inp, q), zeros(inp, q) >= 0, q < inp.len() && inp[q] != 0 ==> zeros(inp, q) == 0, q == inp.len() ==> zeros(inp, q) == 0
    decreases q - p, inp.len() - p
{
    if p < q { lemma_zeros(inp, p + 1, q); } else { lemma_zpos(inp, q); }
}
proof fn lemma_zpos(inp: Seq<u8>, p: int)
    ensures zeros(inp, p) >= 0
    decreases inp.len() - p
{
    if 0 <= p < inp.len() && inp[p] == 0 { lemma_zpos(inp, p + 1); }
}
proof fn lemma_app(o: Seq<u8>, inp: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= inp.len()
    ensures o + inp.subrange(a, a) == o, b < inp.len() ==> (o + inp.subrange(a, b)).push(inp[b]) == o + inp.subrange(a, b + 1)
{
    assert(o + inp.subrange(a, a) =~= o);
    if b < inp.len() { assert((o + inp.subrange(a, b)).push(inp[b]) =~= o + inp.subrange(a, b + 1)); }
}
proof fn lemma_copyk_len(o: Seq<u8>, d: int, n: int)
    requires n >= 0
    ensures copyk(o, d, n).len() == o.len() + n
    decreases n
{ if n > 0 { lemma_copyk_len(o, d, n - 1); } }

proof fn lemma_long(inp: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= inp.len(), forall|i: int| p <= i < q ==> inp[i] == 0
    ensures
        q < inp.len() && inp[q] != 0 && q - p <= zmax() ==> longlen(inp, p) == Some((255 * (q - p) + inp[q], q + 1)),
        q == inp.len() ==> longlen(inp, p) is None,
        q - p > zmax() ==> longlen(inp, p) is None,
{ lemma_zeros(inp, p, q); }
proof fn s_lit(inp: Seq<u8>, ip: int, o: Seq<u8>, cap: int)
    requires 0 <= ip, ip + 3 <= inp.len(), inp[ip] < 16
    ensures
        inp[ip] != 0 ==> step(inp, ip, o, 0, cap) == do_lit(inp, ip + 1, o, inp[ip] + 3, 4, cap),
        inp[ip] == 0 && longlen(inp, ip + 1) is None ==> step(inp, ip, o, 0, cap) is Fail,
        inp[ip] == 0 && longlen(inp, ip + 1) is Some ==> step(inp, ip, o, 0, cap) == do_lit(inp, (longlen(inp, ip + 1)->0).1, o, (longlen(inp, ip + 1)->0).0 + 18, 4, cap)
{}
proof fn s_m1(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int)
    requires 0 <= ip, ip + 3 <= inp.len(), inp[ip] < 16, st != 0
    ensures
        st != 4 ==> step(inp, ip, o, st, cap) == do_match(inp, ip + 2, o, 1 + inp[ip] as int / 4 + 4 * inp[ip + 1], 2, inp[ip] as int % 4, cap),
        st == 4 ==> step(inp, ip, o, st, cap) == do_match(inp, ip + 2, o, 0x801 + inp[ip] as int / 4 + 4 * inp[ip + 1], 3, inp[ip] as int % 4, cap),
{}
proof fn s_m2(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int)
    requires 0 <= ip, ip + 3 <= inp.len(), inp[ip] >= 64
    ensures step(inp, ip, o, st, cap) == do_match(inp, ip + 2, o, 1 + (inp[ip] as int / 4) % 8 + 8 * inp[ip + 1], inp[ip] as int / 32 + 1, inp[ip] as int % 4, cap)
{}
spec fn len3(inp: Seq<u8>, ip: int) -> Option<(int, int)> { if inp[ip] as int % 32 == 0 { longlen(inp, ip + 1) } else { Some((inp[ip] as int % 32 - 31, ip + 1)) } }
spec fn len4(inp: Seq<u8>, ip: int) -> Option<(int, int)> { if inp[ip] as int % 8 == 0 { longlen(inp, ip + 1) } else { Some((inp[ip] as int % 8 - 7, ip + 1)) } }
proof fn s_m3(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int)
    requires 0 <= ip, ip + 3 <= inp.len(), 32 <= inp[ip] < 64
    ensures
        len3(inp, ip) is None || (len3(inp, ip)->0).1 + 2 > inp.len() ==> step(inp, ip, o, st, cap) is Fail,
        len3(inp, ip) is Some && (len3(inp, ip)->0).1 + 2 <= inp.len() ==> ({
            let (l, p) = len3(inp, ip)->0;
            step(inp, ip, o, st, cap) == do_match(inp, p + 2, o, 1 + le(inp, p) / 4, l + 33, le(inp, p) % 4, cap) }),
{}
proof fn s_m4(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int)
    requires 0 <= ip, ip + 3 <= inp.len(), 16 <= inp[ip] < 32
    ensures
        len4(inp, ip) is None || (len4(inp, ip)->0).1 + 2 > inp.len() ==> step(inp, ip, o, st, cap) is Fail,
        len4(inp, ip) is Some && (len4(inp, ip)->0).1 + 2 <= inp.len() ==> ({
            let (l, p) = len4(inp, ip)->0;
            let d = (inp[ip] as int / 8 % 2) * 0x4000 + le(inp, p) / 4;
            step(inp, ip, o, st, cap) == if d == 0 { if l + 9 == 3 && p + 2 == inp.len() { St::Done(o) } else { St::Fail } }
                else { do_match(inp, p + 2, o, d + 0x4000, l + 9, le(inp, p) % 4, cap) } }),
{}
proof fn s_run(inp: Seq<u8>, ip: int, o: Seq<u8>, st: int, cap: int)
    ensures
        step(inp, ip, o, st, cap) is Fail ==> run(inp, ip, o, st, cap) is None,
        step(inp, ip, o, st, cap) is Done ==> run(inp, ip, o, st, cap) == Some(step(inp, ip, o, st, cap)->Done_0),
        step(inp, ip, o, st, cap) matches St::Go { ip: ip2, o: o2, st: st2 } ==> ip < ip2 <= inp.len() ==> run(inp, ip, o, st, cap) == run(inp, ip2, o2, st2, cap),
{}
proof fn s_match(inp: Seq<u8>, ip: int, o: Seq<u8>, d: int, n: int, next: int, cap: int)
    ensures
        d > o.len() || o.len() + n > cap ==> do_match(inp, ip, o, d, n, next, cap) is Fail,
        d <= o.len() && o.len() + n <= cap ==> do_match(inp, ip, o, d, n, next, cap) == do_lit(inp, ip, copyk(o, d, n), next, next, cap),
{}
proof fn s_dolit(inp: Seq<u8>, ip: int, o: Seq<u8>, n: int, st: int, cap: int)
    ensures
        ip + n + 3 > inp.len() || o.len() + n > cap ==> do_lit(inp, ip, o, n, st, cap) is Fail,
        ip + n + 3 <= inp.len() && o.len() + n <= cap ==> do_lit(inp, ip, o, n, st, cap) == (St::Go { ip: ip + n, o: o + inp.subrange(ip, ip + n), st: st }),
{}
proof fn s_decode(inp: Seq<u8>, cap: int)
    ensures
        inp.len() < 3 ==> decode(inp, cap) is None,
        inp.len() >= 3 && inp[0] <= 17 ==> decode(inp, cap) == run(inp, 0, Seq::empty(), 0, cap),
        inp.len() >= 3 && inp[0] > 17 && (inp[0] - 17 + 4 > inp.len() || inp[0] - 17 > cap) ==> decode(inp, cap) is None,
        inp.len() >= 3 && inp[0] > 17 && inp[0] - 17 + 4 <= inp.len() && inp[0] - 17 <= cap ==>
            decode(inp, cap) == run(inp, inp[0] - 16, Seq::empty() + inp.subrange(1, inp[0] - 16), if inp[0] < 21 { inp[0] - 17 } else { 4 }, cap),
{}
proof fn s_copy(o: Seq<u8>, d: int, n: int)
    requires n >= 0
    ensures copyk(o, d, 0) == o, copyk(o, d, n + 1) == copyk(o, d, n).push(copyk(o, d, n)[copyk(o, d, n).len() - d]), copyk(o, d, n).len() == o.len() + n
{ lemma_copyk_len(o, d, n); }

#[verifier::rlimit(400)]
#[verifier::spinoff_prover]
//@extract libs/lzo/src/decompress.rs | fn lzo1x_decompress_safe
//@sub \s+ ==> \_
//@sub unsafe extern "C" fn lzo1x_decompress_safe\( in_: \*const u8, in_len: usize, out: \*mut u8, out_len: \*mut usize, \) ==> fn lzo1x_decompress_safe(in_: &[u8], in_len: usize, out: &mut Vec<u8>, out_len: &mut usize)
//@sub let mut current_block; ==> let mut current_block: i32 = 0;
//@sub let mut op: \*mut u8; ==> let mut op: usize;
//@sub let mut ip: \*const u8; ==> let mut ip: usize;
//@sub let mut m_pos: \*const u8; ==> let mut m_pos: isize;
//@sub let ip_end: \*const u8 = in_\.add\(in_len\); ==> let ip_end: usize = in_len;
//@sub let op_end: \*mut u8 = out\.add\(\*out_len\); ==> let op_end: usize = *out_len;
//@sub \bop = out; ==> op = 0;
//@sub \bip = in_; ==> ip = 0;
//@sub let ip_last: \*const u8 = ip; ==> let ip_last: usize = ip;
//@sub let oe: \*mut u8 = op\.add\(t\); ==> let oe: usize = op.wrapping_add(t);
//@sub \*\{ let old = ip; ip = ip\.offset\(1isize\); old \} ==> rd(in_, &mut ip)
//@sub \*\{ let old = m_pos; m_pos = m_pos\.offset\(1isize\); old \} ==> rdm(out, &mut m_pos)
//@sub \*\{ let old = op; op = op\.offset\(1isize\); old \} = ([^;]*); ==> { let v = \1; wr(out, &mut op, v); }
//@sub i32::from\(\*ip\) ==> (in_[ip] as i32)
//@sub i32::from\(rd\(in_, &mut ip\)\) ==> (rd(in_, &mut ip) as i32)
//@sub \(\((\w+) as isize\)\.wrapping_sub\(out as isize\) / ::std::mem::size_of::<u8>\(\) as isize\) as usize ==> pdiff(\1, 0)
//@sub \(\((\w+) as isize\)\.wrapping_sub\((\w+) as isize\) / ::std::mem::size_of::<u8>\(\) as isize\) as usize ==> pdiff(\1, \2)
//@sub \*op\.offset\((\d)isize\) = \*m_pos\.offset\((\d)isize\); ==> { let v = ld(out, m_pos + \2isize); st(out, op + \1usize, v); }
//@sub op = op\.offset\((\d)isize\) ==> op = op + \1usize
//@sub ip = ip\.offset\((\d)isize\) ==> ip = ip + \1usize
//@sub m_pos = op\.offset\(([^;]*)\)\.cast_const\(\); ==> m_pos = (op as isize) + (\1);
//@sub m_pos = m_pos\.offset\(([^;]*?),? ?\); ==> m_pos = m_pos + (\1);
//@sub op\.cast_const\(\) ==> (op as isize)
//@sub out\.cast_const\(\) ==> 0isize
//@sub ip\.cast::<::std::os::raw::c_void>\(\) ==> ip, in_
//@sub (t|next) >> (\d)i32 ==> \1 >> \2usize
//@sub offset << 8i32 ==> offset << 8usize
//@sub \(t & 8usize\) << 11i32 ==> (t & 8usize) << 11usize
//@sub \(!0i32 as usize\) ==> usize::MAX
//@sub LzoError::OutputOverrun as i32 ==> -5i32
//@spec
    requires in_@.len() == in_len, old(out)@.len() == *old(out_len), in_len <= isize::MAX, old(out)@.len() <= isize::MAX
    ensures final(out)@.len() == old(out)@.len(), *final(out_len) <= *old(out_len),
        r == 0 <==> decode(in_@, *old(out_len) as int) is Some,
        r == 0 ==> Some(final(out)@.take(*final(out_len) as int)) == decode(in_@, *old(out_len) as int),
        -8 <= r <= 0
//@entry
    hide(step);
    hide(run);
    hide(copyk);
    hide(longlen);
    hide(zeros);
    hide(do_match);
    hide(do_lit);
    hide(le);
    hide(decode);
    let ghost inp = in_@;
    let ghost cap = *out_len as int;
    let ghost res = decode(inp, cap);
    proof {
        s_decode(inp, cap);
        assert(out@.take(0) =~= Seq::empty());
        
    }
//@nloops 9
//@loop 0 loop
    invariant out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, ip_end == in_len, inp == in_@,
        ip + t + 3 <= ip_end, op + t <= op_end, 1 <= ip, op == ip - 1, ip - 1 + t == state, state < 4,
        out@.take(op as int) == Seq::<u8>::empty() + inp.subrange(1, ip as int)
    ensures t == 0
    decreases t
//@loopinit 0
    proof { lemma_app(Seq::empty(), inp, 1, 1); assert(out@.take(0) =~= Seq::empty()); }
//@loopstart 0
    proof { lemma_app(Seq::empty(), inp, 1, ip as int); }
//@loop 1 loop
    invariant_except_break t > 0,
    invariant out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, ip_end == in_len, inp == in_@,
        ip + t + 3 <= ip_end, op + t <= op_end, 1 <= ip, op == ip - 1, ip - 1 + t == inp[0] - 17,
        out@.take(op as int) == Seq::<u8>::empty() + inp.subrange(1, ip as int)
    ensures t == 0
    decreases t
//@loopinit 1
    proof { lemma_app(Seq::empty(), inp, 1, 1); assert(out@.take(0) =~= Seq::empty()); }
//@loopstart 1
    proof { lemma_app(Seq::empty(), inp, 1, ip as int); }
//@loop 2 loop
    invariant_except_break
        (current_block == 11 && ip + 3 <= ip_end && state <= 4 && res == run(inp, ip as int, out@.take(op as int), state as int, cap))
            || (current_block == 63 && res is None),
    invariant
        out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, ip_end == in_len, inp == in_@, ip <= ip_end, op <= op_end, *out_len == cap, *old(out_len) == cap, old(out)@.len() == cap, res == decode(inp, cap),
    ensures
        current_block != 11, current_block != 36,
        current_block == 21 ==> (t == 3 && ip == ip_end) == (res is Some),
        current_block == 21 && res is Some ==> res == Some(out@.take(op as int)),
        current_block != 21 ==> res is None,
    decreases ip_end - ip, (if current_block == 11 { 1int } else { 0 })
//@loopstart 2
    let ghost ip0 = ip as int;
    let ghost op0 = op as int;
    let ghost o0 = out@.take(op as int);
    let ghost st0 = state as int;
    let ghost stp = step(inp, ip0, o0, st0, cap);
    let ghost t0 = inp[ip0] as int;
    proof {
        if current_block == 11 {
            lemma_bits(inp[ip0] as usize);
            lemma_shl(inp[ip0 + 1] as i32);
            s_run(inp, ip0, o0, st0, cap);
            if t0 < 16 {
                if st0 == 0 { s_lit(inp, ip0, o0, cap); } else { s_m1(inp, ip0, o0, st0, cap); }
            } else if t0 >= 64 { s_m2(inp, ip0, o0, st0, cap); }
            else if t0 >= 32 { s_m3(inp, ip0, o0, st0, cap); }
            else { s_m4(inp, ip0, o0, st0, cap); }
        }
    }
//@loop 3 loop
    invariant ip_last == ip0 + 1, ip0 >= 0, ip_last <= ip < ip_end, ip_end == in_len, inp == in_@, forall|i: int| ip_last <= i < ip ==> inp[i] == 0
    ensures inp[ip as int] != 0
    decreases ip_end - ip
//@loopinit 3
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@loopstart 3
    proof { if ip + 1 == ip_end && inp[ip as int] == 0 { lemma_long(inp, ip0 + 1, ip + 1); } }
//@loop 4 loop
    invariant_except_break t > 0,
    invariant ip_end == in_len, inp == in_@, out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, ip1 >= 0,
        ip + t + 3 <= ip_end, op + t <= op_end, ip >= ip1, op - op0 == ip - ip1, ip + t == ip1 + n1, op0 >= 0,
        out@.take(op as int) == o0 + inp.subrange(ip1, ip as int)
    ensures t == 0
    decreases t
//@loopinit 4
    proof { lemma_app(o0, inp, ip1, ip1); }
//@loopstart 4
    proof { lemma_app(o0, inp, ip1, ip as int); }
//@loop 5 loop
    invariant ip_last == ip0 + 1, ip0 >= 0, ip_last <= ip < ip_end, ip_end == in_len, inp == in_@, forall|i: int| ip_last <= i < ip ==> inp[i] == 0
    ensures inp[ip as int] != 0
    decreases ip_end - ip
//@loopinit 5
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@loopstart 5
    proof { if ip + 1 == ip_end && inp[ip as int] == 0 { lemma_long(inp, ip0 + 1, ip + 1); } }
//@loop 6 loop
    invariant ip_last == ip0 + 1, ip0 >= 0, ip_last <= ip < ip_end, ip_end == in_len, inp == in_@, forall|i: int| ip_last <= i < ip ==> inp[i] == 0
    ensures inp[ip as int] != 0
    decreases ip_end - ip
//@loopinit 6
    #[verifier::loop_isolation(false)]
    #[verifier::allow_complex_invariants]
//@loopstart 6
    proof { if ip + 1 == ip_end && inp[ip as int] == 0 { lemma_long(inp, ip0 + 1, ip + 1); } }
//@loop 7 loop
    invariant_except_break op < oe,
    invariant out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, oe == op0 + t, oe <= op_end, op <= oe, m_pos == op - d1, 0 < d1 <= op0, op >= op0,
        out@.take(op as int) == copyk(o0, d1, op - op0)
    ensures op == oe
    decreases oe - op
//@loopinit 7
//@loopstart 7
    proof { s_copy(o0, d1, op - op0); }
//@loop 8 loop
    invariant_except_break current_block == 36 || current_block == 44,
    invariant ip_end == in_len, inp == in_@, out@.len() == cap, cap == op_end, cap <= isize::MAX, in_len <= isize::MAX, in_@.len() == in_len, ip2 >= 0,
        ip + t + 3 <= ip_end, op + t <= op_end, ip >= ip2, op - op2 == ip - ip2, ip + t == ip2 + next, op2 >= 0,
        out@.take(op as int) == o2 + inp.subrange(ip2, ip as int)
    ensures t == 0, current_block == 11
    decreases t
//@loopinit 8
    proof { lemma_app(o2, inp, ip2, ip2); }
//@loopstart 8
    proof { lemma_app(o2, inp, ip2, ip as int); }
//@before if offset > usize::MAX\.wrapping_div\(255usize\)\.wrapping_sub\(2usize\) \{ current_block = 60
    proof { lemma_long(inp, ip0 + 1, ip as int); }
//@before if offset > usize::MAX\.wrapping_div\(255usize\)\.wrapping_sub\(2usize\) \{ current_block = 30
    proof { lemma_long(inp, ip0 + 1, ip as int); }
//@before if offset > usize::MAX\.wrapping_div\(255usize\)\.wrapping_sub\(2usize\) \{ current_block = 22
    proof { lemma_long(inp, ip0 + 1, ip as int); }
//@before offset = \(offset << 8usize\)\.wrapping_sub\(offset\); t = t\.wrapping_add\(offset\.wrapping_add\(15usize\)
    proof { lemma_long(inp, ip0 + 1, ip as int); lemma_off(offset); }
//@before offset = \(offset << 8usize\)\.wrapping_sub\(offset\); t = t\.wrapping_add\(offset\.wrapping_add\(31usize\)
    proof { lemma_long(inp, ip0 + 1, ip as int); lemma_off(offset); }
//@before offset = \(offset << 8usize\)\.wrapping_sub\(offset\); t = t\.wrapping_add\(offset\.wrapping_add\(7usize\)
    proof { lemma_long(inp, ip0 + 1, ip as int); lemma_off(offset); }
//@before t = t\.wrapping_add\(offset\.wrapping_add\(15
    proof { assert(offset == 255 * (ip - ip0 - 1)); }
//@before t = t\.wrapping_add\(offset\.wrapping_add\(31
    proof { assert(offset == 255 * (ip - ip0 - 1)); }
//@before t = t\.wrapping_add\(offset\.wrapping_add\(7
    proof { assert(offset == 255 * (ip - ip0 - 1)); }
//@after t = t\.wrapping_add\(3usize\);
    let ghost ip1 = ip as int;
    let ghost n1 = t as int;
    proof { assert(stp == do_lit(inp, ip1, o0, n1, 4, cap)); s_dolit(inp, ip1, o0, n1, 4, cap); }
//@before if m_pos < 0isize \{ current_block = 48; break; \} if \(pdiff\(op_end, op\)\) < 2usize
    proof { assert(stp == do_match(inp, ip as int, o0, op - m_pos, 2, next as int, cap)); s_match(inp, ip as int, o0, op - m_pos, 2, next as int, cap); s_copy(o0, op - m_pos, 0); s_copy(o0, op - m_pos, 1); }
    let ghost d2 = op - m_pos;
//@after next = get_unaligned_le16\(ip, in_\) as usize; ip = ip \+ 2usize; (?=m_pos = m_pos \+ \(-\(\(next >> 2usize\) as isize\)\); next &= 3usize; \} else)
    proof { lemma_next(next); }
//@after next = get_unaligned_le16\(ip, in_\) as usize; ip = ip \+ 2usize; (?=m_pos = m_pos \+ \(-\(\(next >> 2usize\) as isize\)\); next &= 3usize; if)
    proof { lemma_next(next); }
//@before if current_block == 64 \{ \} else \{ 'loop11
    proof {
        if current_block == 11 {
            assert(out@.take(op as int) =~= if inp[0] > 17 { Seq::empty() + inp.subrange(1, op + 1) } else { Seq::empty() });
        }
    }
//@after t = 3usize;
    proof { assert(stp == do_match(inp, ip as int, o0, op - m_pos, t as int, next as int, cap) && t >= 3 && next < 4); }
//@after \(t >> 5usize\) \.wrapping_sub\(1usize\) \.wrapping_add\(\(3i32 - 1i32\) as usize\);
    proof { assert(stp == do_match(inp, ip as int, o0, op - m_pos, t as int, next as int, cap) && t >= 3 && next < 4); }
//@after next &= 3usize;(?= \} else)
    proof { assert(stp == do_match(inp, ip as int, o0, op - m_pos, t as int, next as int, cap) && t >= 3 && next < 4); }
//@after m_pos = m_pos \+ \(-0x4000isize\);
    proof { assert(stp == do_match(inp, ip as int, o0, op - m_pos, t as int, next as int, cap) && t >= 3 && next < 4); }
//@before op = op \+ 2usize; current_block = 44;
    proof { assert(out@.take(op + 1) == copyk(o0, d2, 1)); assert(out@.take(op + 2) == copyk(o0, d2, 2)); }
//@before op = op \+ 2usize; m_pos = m_pos
    proof { assert(out@.take(op + 1) == copyk(o0, d1, 1)); assert(out@.take(op + 2) == copyk(o0, d1, 2)); }
//@before if current_block == 36 \{
    proof {
        assert(current_block == 36 ==> stp == do_match(inp, ip as int, o0, op - m_pos, t as int, next as int, cap) && t >= 3 && next < 4);
    }
    let ghost d1 = op - m_pos;
    let ghost ta = t as int;
    proof { if current_block == 36 { s_match(inp, ip as int, o0, d1, ta, next as int, cap); s_copy(o0, d1, 0); s_copy(o0, d1, 1); } }
//@before (?<=\} )state = next; t = next; if
    proof { assert(stp == do_lit(inp, ip as int, out@.take(op as int), next as int, next as int, cap)); s_dolit(inp, ip as int, out@.take(op as int), next as int, next as int, cap); }
    let ghost ip2 = ip as int;
    let ghost op2 = op as int;
    let ghost o2 = out@.take(op as int);
//@end

//@extract libs/lzo/src/lib.rs | enum LzoError
//@pub
//@end
/// transmute of an i32 to the #[repr(i32)] enum: only values that are discriminants are allowed
#[verifier::external_body]
fn lzo_error(err: i32) -> (r: LzoError)
    requires -10 <= err <= 0
    ensures (r is Ok) == (err == 0)
{ unimplemented!() }
/// from_raw_parts_mut(buffer start, n): the first n bytes of the buffer, represented by their number
fn prefix(out: &mut Vec<u8>, n: usize) -> (r: usize)
    requires n <= old(out)@.len()
    ensures r == n, *final(out) == *old(out)
{ n }

//@extract libs/lzo/src/lib.rs | fn decompress_to_slice
//@sub out: &'a mut \[u8\] ==> out: &mut Vec<u8>
//@sub Result<&'a mut \[u8\], LzoError> ==> Result<usize, LzoError>
//@sub decompress_to_slice<'a> ==> decompress_to_slice
//@sub unsafe \{ ==> {
//@sub decompress::lzo1x_decompress_safe\(\s*in_\.as_ptr\(\),\s*in_\.len\(\),\s*out\.as_mut_ptr\(\), ==> lzo1x_decompress_safe(in_, in_.len(), out,
//@sub mem::transmute::<i32, LzoError>\(err\) ==> lzo_error(err)
//@sub res == LzoError::Ok ==> matches!(res, LzoError::Ok)
//@sub slice::from_raw_parts_mut\(out\.as_mut_ptr\(\), out_len\) ==> prefix(out, out_len)
//@spec
    requires in_@.len() <= isize::MAX, old(out)@.len() <= isize::MAX
    ensures final(out)@.len() == old(out)@.len(),
        r is Ok <==> decode(in_@, old(out)@.len() as int) is Some,
        r is Ok ==> r->Ok_0 <= old(out)@.len() && Some(final(out)@.take(r->Ok_0 as int)) == decode(in_@, old(out)@.len() as int),
//@end
}
fn main(){}
