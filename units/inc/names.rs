// Contracts of str::to_lowercase / str::replace('/', "\\") (assumed).
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn slash(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == '/' { '\\' } else { c }) }
pub assume_specification[ str::to_lowercase ](s: &str) -> (r: String) ensures r@ == lower(s@);
pub trait StrX {
    spec fn sv(&self) -> Seq<char>;
    /// the code's `.replace('/', "\\")`
    fn replace_slash(&self) -> (r: String) ensures r@ == slash(self.sv());
}
impl StrX for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn replace_slash(&self) -> (r: String) { unimplemented!() }
}
/// what two entry names are compared by
pub open spec fn key(name: Seq<char>) -> Seq<char> { lower(slash(name)) }
