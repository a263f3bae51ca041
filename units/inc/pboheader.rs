pub enum Error { Io(IoError), UnsupportedMime(u32), UnexpectedDataAfterChecksum, FileTooLarge, NoFiles }
impl vstd::std_specs::convert::FromSpecImpl<IoError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IoError) -> Error { Error::Io(v) }
}
impl From<IoError> for Error { fn from(e: IoError) -> Error { Error::Io(e) } }
pub mod crate_error { pub type Error = super::Error; }

//@extract libs/pbo/src/model/mime.rs | enum Mime
//@derive PartialEq,Eq
//@default_enum
//@end
/// the number stored in the archive for an entry type
pub open spec fn mime_num(m: Mime) -> u32 {
    match m { Mime::Vers => 0x5665_7273, Mime::Cprs => 0x4370_7273, Mime::Enco => 0x456e_6372, Mime::Blank => 0 }
}
impl Mime {
//@extract libs/pbo/src/model/mime.rs | impl Mime @ fn as_u32
//@spec
    ensures r == mime_num(*self)
//@end
//@extract libs/pbo/src/model/mime.rs | impl Mime @ fn from_u32
//@spec
    ensures
        forall|m: Mime| value == #[trigger] mime_num(m) ==> r == Some(m),
        (forall|m: Mime| value != #[trigger] mime_num(m)) ==> r is None,
//@entry
    assert(mime_num(Mime::Vers) == 0x5665_7273 && mime_num(Mime::Cprs) == 0x4370_7273 && mime_num(Mime::Enco) == 0x456e_6372 && mime_num(Mime::Blank) == 0);
//@end
}
//@extract libs/pbo/src/model/header.rs | struct Header
//@pub
//@end
impl Default for Header {
    // #[derive(Default)]: every field its type's default
    fn default() -> (r: Header) ensures r.filename@ =~= Seq::<char>::empty(), r.mime == Mime::Blank, r.original == 0, r.reserved == 0, r.timestamp == 0, r.size == 0
    { Header { filename: String::new(), mime: Default::default(), original: 0, reserved: 0, timestamp: 0, size: 0 } }
}
impl Header {
    /// the bytes of an entry header
    pub open spec fn bytes(self) -> Seq<u8> {
        encode_utf8(self.filename@) + seq![0u8] + le32(mime_num(self.mime)) + le32(self.original) + le32(self.reserved) + le32(self.timestamp) + le32(self.size)
    }
    pub open spec fn same(self, o: Header) -> bool {
        self.filename@ == o.filename@ && self.mime == o.mime && self.original == o.original && self.reserved == o.reserved
            && self.timestamp == o.timestamp && self.size == o.size
    }
//@extract libs/pbo/src/model/header.rs | impl Header @ fn new_for_file
//@spec
    ensures r.filename == filename, r.size == size, r.original == size, r.mime == Mime::Blank, r.reserved == 0, r.timestamp == 0
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn property
//@spec
    ensures r.filename@ == Seq::<char>::empty(), r.mime == Mime::Vers, r.original == 0, r.reserved == 0, r.timestamp == 0, r.size == 0
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn filename
//@spec
    ensures r@ == self.filename@
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn mime
//@spec
    ensures *r == self.mime
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn original
//@spec
    ensures r == self.original
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn reserved
//@spec
    ensures r == self.reserved
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn timestamp
//@spec
    ensures r == self.timestamp
//@end
//@extract libs/pbo/src/model/header.rs | impl Header @ fn size
//@spec
    ensures r == self.size
//@end
}
