// Sequence facts used when several fields are read one after the other.
pub broadcast proof fn skip_skip<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len()
    ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j)
{ assert(s.skip(i).skip(j) =~= s.skip(i + j)); }
pub broadcast proof fn skip_take<T>(s: Seq<T>, i: int, n: int)
    requires 0 <= i, 0 <= n, i + n <= s.len()
    ensures #[trigger] s.skip(i).take(n) == s.subrange(i, i + n)
{ assert(s.skip(i).take(n) =~= s.subrange(i, i + n)); }
/// `b` starts with `p`
pub open spec fn starts(b: Seq<u8>, p: Seq<u8>) -> bool { b.len() >= p.len() && b.take(p.len() as int) == p }
/// a piece of the prefix is that piece of the input
pub proof fn lemma_piece(b: Seq<u8>, p: Seq<u8>, x: Seq<u8>, y: Seq<u8>, z: Seq<u8>)
    requires starts(b, p), p == x + y + z
    ensures b.len() >= x.len() + y.len(), b.subrange(x.len() as int, (x.len() + y.len()) as int) == y
{
    assert(b.subrange(x.len() as int, (x.len() + y.len()) as int) =~= y) by {
        assert forall|i: int| 0 <= i < y.len() implies b[x.len() + i] == y[i] by { assert(b.take(p.len() as int)[x.len() + i] == p[x.len() + i]); }
    }
}
/// taking the front piece off a concatenation
pub broadcast proof fn front<T>(x: Seq<T>, y: Seq<T>, n: int)
    requires n == x.len()
    ensures #[trigger] (x + y).take(n) == x
{ assert((x + y).take(n) =~= x); }
pub broadcast proof fn back<T>(x: Seq<T>, y: Seq<T>, n: int)
    requires n == x.len()
    ensures #[trigger] (x + y).skip(n) == y
{ assert((x + y).skip(n) =~= y); }
