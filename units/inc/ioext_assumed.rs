impl<T: Write> WriteExt for T {
    #[verifier::external_body] fn write_compressed_int(&mut self, x: u32) -> io::Result<usize> { unimplemented!() }
    #[verifier::external_body] fn write_cstring<S: AsRef<[u8]>>(&mut self, s: S) -> io::Result<()> { unimplemented!() }
}
impl<T: Read> ReadExt for T {
    #[verifier::external_body] fn read_cstring(&mut self) -> io::Result<String> { unimplemented!() }
    #[verifier::external_body] fn read_compressed_int(&mut self) -> io::Result<u32> { unimplemented!() }
}
pub assume_specification[ std::string::String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification[ std::string::String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= isize::MAX;
