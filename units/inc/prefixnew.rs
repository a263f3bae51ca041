//@extract libs/common/src/prefix.rs | struct Prefix
//@end
//@extract libs/common/src/prefix.rs | enum Error
//@sub enum Error ==> enum PrefixError
//@end
/// The components of a path; a path does not begin with a backslash.
pub open spec fn path(p: Seq<char>) -> Option<Seq<Seq<char>>> { if p.len() > 0 && p[0] == '\\' { None } else { Some(split(p, '\\')) } }
/// key and value of a line, if it has them
pub open spec fn key_value(l: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { match cut(l, "="@) { None => None, Some((k, v)) => Some((lowered(trimmed(k)), trimmed(v))) } }
/// the value of the first line whose key is prefix
pub open spec fn keyed(ls: Seq<Seq<char>>) -> Option<Seq<char>>
    decreases ls.len()
{
    if ls.len() == 0 { None } else {
        match key_value(ls[0]) { Some((k, v)) => if k == "prefix"@ { Some(v) } else { keyed(ls.skip(1)) }, None => keyed(ls.skip(1)) }
    }
}
/// What a prefix file means; None: it is rejected.
pub open spec fn meaning(content: Seq<char>) -> Option<Seq<Seq<char>>> {
    let t = trimmed(content);
    if t.len() == 0 || t.contains('/') { None }
    else if lines_of(t).len() == 1 && !t.contains('=') { path(t) }
    else { match keyed(lines_of(t)) { None => None, Some(v) => path(v) } }
}
impl Prefix {
    pub closed spec fn parts(&self) -> Seq<Seq<char>> { views(self.0@) }
//@extract libs/common/src/prefix.rs | impl Prefix @ fn new
//@sub pub fn new\(content: &str\) -> Result<Self, Error> \{ ==> pub fn new(file: &str) -> Result<Self, PrefixError> { let content = file;
//@sub \bError:: ==> PrefixError::
//@sub ([\w.]+)\.trim\(\)\.to_lowercase\(\) ==> str_lower(str_trim(\1))
//@sub? ([\w.]+)\.trim\(\) ==> str_trim(\1)
//@sub? (\w+)\.is_empty\(\) ==> str_empty(\1)
//@sub (\w+)\.contains\('(.)'\) ==> str_has(\1, '\2')
//@sub (\w+)\.lines\(\)\.count\(\) ==> str_lines(\1).len()
//@sub for line in (\w+)\.lines\(\) ==> for line in seq(str_lines(\1))
//@sub (\w+)\.starts_with\('(\\\\)'\) ==> str_starts_char(\1, '\2')
//@sub (?s)(\w+)\s*\.split\('(\\\\)'\)\s*\.map\(std::string::ToString::to_string\)\s*\.collect\(\) ==> split_strings(\1, '\2')
//@sub (\w+)\.split_once\('='\) ==> str_cut(\1, "=")
//@sub (\w+)\.to_string\(\) ==> str_string(\1)
//@sub key == "prefix" ==> str_is(key.as_str(), "prefix")
//@spec
    ensures r is Ok <==> meaning(file@) is Some, r is Ok ==> Some((r->Ok_0).parts()) == meaning(file@)
//@index 0
//@loop 0 for
    invariant vs0@.len() == lines_of(content@).len(), views_str(vs0@) == lines_of(content@), 0 <= ix0 <= vs0@.len(),
        keyed(lines_of(content@)) == keyed(lines_of(content@).skip(ix0 as int)),
        lines_of(content@).len() != 1 || content@.contains('='), content@.len() > 0, !content@.contains('/'), meaning(file@) == (match keyed(lines_of(content@)) { None => None, Some(v) => path(v) }),
    decreases vs0@.len() - ix0
//@loopinit 0
    proof { assert(lines_of(content@).skip(0) =~= lines_of(content@)); assert(views_str(vs0@).len() == vs0@.len()); }
//@loopstart 0
    proof {
        let ls = lines_of(content@).skip(ix0 - 1);
        assert(ls[0] == views_str(vs0@)[ix0 - 1]);
        assert(ls[0] == line@);
        assert(ls.skip(1) =~= lines_of(content@).skip(ix0 as int));
    }
//@end
//@extract libs/common/src/prefix.rs | impl Display for Prefix @ fn fmt
//@sub std::fmt::Result ==> Result<(), ()>
//@sub &mut std::fmt::Formatter<'_> ==> &mut Formatter
//@sub self\.0\.join\("(\\\\)"\) ==> join_strings(&self.0, '\1')
//@fmt
//@spec
    ensures final(f).out() == old(f).out() + joined(self.parts(), '\\')
//@entry
    proof { assert(Seq::<char>::empty() + joined(self.parts(), '\\') =~= joined(self.parts(), '\\')); }
//@end
}
