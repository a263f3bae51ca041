#[verifier::external_body] pub struct Processed { x: int }
pub struct EoiIfState {}
impl EoiIfState { #[verifier::external_body] pub fn code(t: Token) -> Error { unimplemented!() } }
/// the parser ends every file with Eoi (assumed)
#[verifier::external_body] pub fn parse_file(p: &WorkspacePath) -> (r: Result<Vec<Arc<Token>>, (Vec<WorkspacePath>, Error)>) ensures r is Ok ==> ended((r->Ok_0)@) { unimplemented!() }
#[verifier::external_body] pub fn stream_of(v: Vec<Arc<Token>>) -> (r: Stream) ensures r.rest() == v@, r.at() == 0 { unimplemented!() }
#[verifier::external_body] pub fn with_files(r0: Result<(), Error>) -> (r: Result<(), (Vec<WorkspacePath>, Error)>) ensures r is Ok <==> r0 is Ok { unimplemented!() }
/// output is only made when every condition was closed
#[verifier::external_body] pub fn finish(p: &Processor, buffer: Vec<Output>) -> (r: Result<Processed, (Vec<WorkspacePath>, Error)>) requires p.v().len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn any_bool() -> bool { unimplemented!() }
#[verifier::external_body] pub fn any_of(l: &[&str], s: &str) -> bool { unimplemented!() }
#[verifier::external_body] pub fn differs(w: &String, m: Option<&str>) -> bool { unimplemented!() }
#[verifier::external_body] pub fn string_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn scope_try_from(s: &str) -> Result<Scope, ()> { unimplemented!() }
#[verifier::external_body] pub fn at_line_end(o: Option<&Arc<Token>>) -> (r: bool) ensures r == (o is None || o->0.symbol is Newline || o->0.symbol is Eoi) { unimplemented!() }
