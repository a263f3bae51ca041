// The layout WritablePbo::write produces.
pub type Table<I> = Map<Seq<char>, (I, Header)>;
/// the contents in archive order
pub open spec fn contents<I: Seek>(s: Seq<HV>, m: Table<I>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { contents(s, m, n - 1) + m[slash(s[n - 1].name)].0.data() } }
/// everything the checksum is taken over
pub open spec fn signed_part<I: Seek>(e: Props, with_props: bool, s: Seq<HV>, m: Table<I>) -> Seq<u8> {
    (if with_props { vers_hv().bytes() + propsec(e) + seq![0u8] } else { Seq::<u8>::empty() })
        + heads(s, s.len() as int) + blank_hv().bytes() + contents(s, m, s.len() as int)
}
pub open spec fn archive<I: Seek>(e: Props, with_props: bool, s: Seq<HV>, m: Table<I>) -> Seq<u8> {
    signed_part(e, with_props, s, m) + seq![0u8] + sha1(signed_part(e, with_props, s, m))
}

/// every entry's contents are as long as its header says (add_file)
pub open spec fn sized<I: Seek>(s: Seq<HV>, m: Table<I>) -> bool { forall|i: int| 0 <= i < s.len() ==> m[slash((#[trigger] s[i]).name)].0.data().len() == s[i].size }
