#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include inc/stdio.rs
//@include inc/enc.rs
//@include inc/cstr.rs
//@include inc/ioext.rs

impl<T: Write> WriteExt for T {
//@extract libs/common/src/io.rs | impl WriteExt for T @ fn write_compressed_int
//@entry
    proof { lemma_enc_len(x as nat); }
//@loop 0 while
    invariant
        old(self).written() + enc(x as nat) == self.written() + enc(temp as nat),
        len + enc(temp as nat).len() == enc(x as nat).len(),
        enc(x as nat).len() <= 5,
    decreases temp
//@loopstart 0
    proof { lemma_group(temp); lemma_enc_len(temp as nat); }
    let ghost w0 = self.written();
    let ghost t0 = temp;
//@loopend 0
    proof {
        assert(self.written() =~= w0.push((0x80 + t0 as nat % 0x80) as u8));
        assert(enc(t0 as nat) =~= seq![(0x80 + t0 as nat % 0x80) as u8] + enc(t0 as nat / 0x80));
        assert(self.written() + enc(temp as nat) =~= w0 + enc(t0 as nat));
    }
//@end

//@extract libs/common/src/io.rs | impl WriteExt for T @ fn write_cstring
//@end
}

//@extract libs/common/src/io.rs | fn compressed_int_len
//@spec
    ensures r == enc(x as nat).len()
//@entry
    proof { lemma_enc_len(x as nat); }
//@loop 0 while
    invariant
        len + enc(temp as nat).len() == enc(x as nat).len(),
        enc(x as nat).len() <= 5,
    decreases temp
//@loopstart 0
    proof { lemma_group(temp); lemma_enc_len(temp as nat); }
//@end

impl<T: Read> ReadExt for T {
//@extract libs/common/src/io.rs | impl ReadExt for T @ fn read_compressed_int
//@desugar 0
//@entry
    proof { if isenc(old(self).rest()) { lemma_isenc(old(self).rest()); } }
//@loopinit 0
    let ghost g = *final(it0.inner.inner);
    let ghost r0 = it0.inner.inner.rest();
    proof { assert(r0.skip(0) =~= r0); reveal_with_fuel(p128, 2); }
//@loop 0 for
    invariant_except_break
        0 <= it0.n <= 5,
        it0.n <= r0.len(),
        it0.inner.inner.rest() == r0.skip(it0.n as int),
        isenc(r0) ==> {
            &&& dec(r0) <= u32::MAX && declen(r0) <= 5 && declen(r0) <= r0.len()
            &&& wf(r0.skip(it0.n as int))
            &&& it0.n < declen(r0)
            &&& declen(r0.skip(it0.n as int)) + it0.n == declen(r0)
            &&& result < p128(it0.n as nat)
            &&& result + p128(it0.n as nat) * dec(r0.skip(it0.n as int)) == dec(r0)
        },
    invariant
        *final(it0.inner.inner) == g,
        r0 == old(self).rest(),
    ensures
        isenc(r0) ==> result == dec(r0) && it0.inner.inner.rest() == r0.skip(declen(r0) as int),
    decreases r0.len() - it0.n
//@loopstart 0
    let ghost n0 = i as int;
    let ghost res0 = result;
    proof {
        if byte is Ok { assert(r0.skip(n0).skip(1) =~= r0.skip(n0 + 1)); }
        if isenc(r0) && byte is Ok {
            lemma_step(n0 as nat, result, r0[n0] as u32, dec(r0.skip(n0 + 1)));
            if r0[n0] >= 0x80 {
                lemma_decsum(n0 as nat, result as nat, r0[n0] as nat, dec(r0.skip(n0 + 1)), dec(r0));
            }
        }
    }
//@loopend 0
    proof {
        if isenc(r0) {
            assert(b == r0[n0]);
            assert(result < p128(it0.n as nat));
            assert(declen(r0.skip(it0.n as int)) + it0.n == declen(r0));
            assert(wf(r0.skip(it0.n as int)));
            assert(declen(r0.skip(it0.n as int)) >= 1);
            assert(result == res0 + p128(n0 as nat) * ((b - 0x80) as nat));
            assert(dec(r0) == result + p128(it0.n as nat) * dec(r0.skip(it0.n as int)));
            assert(dec(r0) == res0 + p128(n0 as nat) * ((b - 0x80 + 0x80 * dec(r0.skip(n0 + 1))) as nat));
        }
    }
//@end

//@extract libs/common/src/io.rs | impl ReadExt for T @ fn read_cstring
//@sub String::from_utf8\(bytes\)\.map_or_else\(\s*\|_\|\s*(\{(?:.|\n)*?\}),\s*Ok,?\s*\) ==> match String::from_utf8(bytes) { Err(_) => \1, Ok(v) => Ok(v) }
//@desugar 0
//@loopinit 0
    let ghost g = *final(it0.inner);
    let ghost r0 = it0.inner.rest();
    proof { assert(r0.skip(0) =~= r0); }
//@loop 0 for
    invariant_except_break
        bytes@.len() <= r0.len(),
        bytes@ == r0.take(bytes@.len() as int),
        it0.inner.rest() == r0.skip(bytes@.len() as int),
        forall|j: int| 0 <= j < bytes@.len() ==> r0[j] != 0,
    invariant
        *final(it0.inner) == g,
        r0 == old(self).rest(),
    ensures
        *final(it0.inner) == g,
        r0.contains(0u8) ==> bytes@ == cstr(r0) && it0.inner.rest() == r0.skip(cstr_len(r0) + 1),
        !r0.contains(0u8) ==> bytes@ == r0 && it0.inner.rest() == Seq::<u8>::empty(),
    decreases it0.inner.rest().len()
//@loopstart 0
    proof {
        let k = bytes@.len() as int;
        if r0.len() > k {
            if r0[k] == 0 { lemma_cstr_at(r0, k); }
            assert(r0.take(k + 1) =~= r0.take(k).push(r0[k]));
            assert(r0.skip(k).skip(1) =~= r0.skip(k + 1));
        }
        if r0.len() == k { assert(r0.take(k) =~= r0); assert(r0.skip(k) =~= Seq::<u8>::empty()); }
    }
//@end
}
}
fn main(){}
