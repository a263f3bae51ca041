#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include inc/stdio.rs
//@include inc/bytes.rs
//@include inc/seek.rs
//@include inc/names.rs
//@include inc/pboheader.rs
//@include inc/pbolayout.rs

pub struct Checksum(pub [u8; 20]);
pub struct IndexMap { pub g: Ghost<int> }
//@include inc/pboreadable.rs
/// Any sequence of reads delivers the entry in order: what one read returns is the front of what was left,
/// so the concatenation of all of them is a prefix of the entry, and all of it once a read of a non-empty
/// buffer returns 0.
pub proof fn theorem_reads(entry: Seq<u8>, delivered: Seq<u8>, left: Seq<u8>, chunk: Seq<u8>)
    requires entry == delivered + left, chunk.len() <= left.len(), chunk == left.take(chunk.len() as int)
    ensures
        entry == (delivered + chunk) + left.skip(chunk.len() as int),
        left.len() == 0 ==> entry == delivered,
{
    assert(entry =~= (delivered + chunk) + left.skip(chunk.len() as int));
    if left.len() == 0 { assert(entry =~= delivered); }
}
}
fn main(){}
