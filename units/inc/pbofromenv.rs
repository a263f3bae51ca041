pub struct Checksum(pub [u8; 20]);
pub assume_specification[ std::string::String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= isize::MAX;
