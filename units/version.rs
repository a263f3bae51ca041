#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons)]
use vstd::prelude::*;
use std::cmp::Ordering;
verus! {
//@include inc/strs.rs
//@extract libs/common/src/version.rs | struct Version
//@pub
//@end
//@extract libs/common/src/version.rs | enum Error
//@end
// ---------------------------------------------------------------- numbers as text
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit_of(c: char) -> int { c as int - '0' as int }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn val(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + digit_of(s.last()) } }
/// `s.parse::<u32>()`: digits, possibly after a plus sign, of a value that fits
pub open spec fn number(s: Seq<char>) -> Option<u32> {
    let d = if s.len() > 1 && s[0] == '+' { s.skip(1) } else { s };
    if d.len() > 0 && all_digits(d) && val(d) <= u32::MAX { Some(val(d) as u32) } else { None }
}
#[verifier::external_body] pub fn parse_u32(s: &str) -> (r: Result<u32, ()>) ensures r is Ok <==> number(s@) is Some, r is Ok ==> Some(r->Ok_0) == number(s@) { unimplemented!() }
proof fn lemma_dec(n: nat)
    ensures dec(n).len() >= 1, all_digits(dec(n)), val(dec(n)) == n
    decreases n
{
    if n >= 10 { lemma_dec(n / 10); assert(dec(n).drop_last() =~= dec(n / 10)); }
    else { assert(dec(n).drop_last() =~= Seq::empty()); assert(val(Seq::<char>::empty()) == 0); }
}
proof fn lemma_number(n: u32)
    ensures number(dec(n as nat)) == Some(n), !dec(n as nat).contains('.'), !dec(n as nat).contains('-'), dec(n as nat).len() >= 1
{
    lemma_dec(n as nat);
    let s = dec(n as nat);
    assert(is_digit(s[0]));
    assert forall|i: int| 0 <= i < s.len() implies s[i] != '.' && s[i] != '-' by { assert(is_digit(s[i])); }
}

// ---------------------------------------------------------------- order
pub open spec fn cmp_int(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
/// a version without build number comes before the same version with one
pub open spec fn build_no(v: &Version) -> int { match v.build { None => -1, Some(b) => b as int } }
pub open spec fn order(a: &Version, b: &Version) -> Ordering {
    if a.major != b.major { cmp_int(a.major as int, b.major as int) }
    else if a.minor != b.minor { cmp_int(a.minor as int, b.minor as int) }
    else if a.patch != b.patch { cmp_int(a.patch as int, b.patch as int) }
    else { cmp_int(build_no(a), build_no(b)) }
}
/// Option<u32>::partial_cmp
#[verifier::external_body] pub fn cmp_opt(a: &Option<u32>, b: &Option<u32>) -> (r: Option<Ordering>)
    ensures r == Some(cmp_int(match *a { None => -1, Some(x) => x as int }, match *b { None => -1, Some(x) => x as int }))
{ unimplemented!() }
#[verifier::external_body] pub fn cmp_u32(a: &u32, b: &u32) -> (r: Ordering) ensures r == cmp_int(*a as int, *b as int) { unimplemented!() }
impl Version {
//@extract libs/common/src/version.rs | impl PartialOrd for Version @ fn partial_cmp
//@sub? (self\.\w+)\.cmp\(&(other\.\w+)\) ==> cmp_u32(&\1, &\2)
//@sub? self\.build\.partial_cmp\(&other\.build\) ==> cmp_opt(&self.build, &other.build)
//@sub? Some\(self\.build\.cmp\(&other\.build\)\) ==> cmp_opt(&self.build, &other.build)
//@sub std::cmp::Ordering ==> Ordering
//@spec
    ensures r == Some(order(self, other))
//@end
}
pub open spec fn key(v: &Version) -> (int, int, int, int) { (v.major as int, v.minor as int, v.patch as int, build_no(v)) }
/// The order is total and transitive, equal exactly for equal numbers, and ignores the hash.
proof fn theorem_order(a: &Version, b: &Version, c: &Version)
    ensures
        order(a, b) == Ordering::Equal <==> key(a) == key(b),
        order(a, b) == Ordering::Less <==> order(b, a) == Ordering::Greater,
        order(a, b) == Ordering::Less && order(b, c) == Ordering::Less ==> order(a, c) == Ordering::Less,
        order(a, b) == Ordering::Equal ==> order(a, c) == order(b, c),
        a.major < b.major ==> order(a, b) == Ordering::Less,
        a.major == b.major && a.minor < b.minor ==> order(a, b) == Ordering::Less,
        a.major == b.major && a.minor == b.minor && a.patch < b.patch ==> order(a, b) == Ordering::Less,
        a.major == b.major && a.minor == b.minor && a.patch == b.patch && a.build is None && b.build is Some ==> order(a, b) == Ordering::Less,
{}

// ---------------------------------------------------------------- text
pub open spec fn dotted(a: u32, b: u32, c: u32) -> Seq<char> { dec(a as nat).push('.') + dec(b as nat).push('.') + dec(c as nat) }
pub open spec fn with_build(s: Seq<char>, b: Option<u32>) -> Seq<char> { match b { None => s, Some(n) => s.push('.') + dec(n as nat) } }
pub open spec fn text_of(v: &Version) -> Seq<char> {
    let s = with_build(dotted(v.major, v.minor, v.patch), v.build);
    match v.hash { None => s, Some(h) => s.push('-') + h@ }
}
/// what a parsed version holds
pub struct Parsed { pub major: u32, pub minor: u32, pub patch: u32, pub build: Option<u32>, pub hash: Option<Seq<char>> }
pub open spec fn content(v: &Version) -> Parsed { Parsed { major: v.major, minor: v.minor, patch: v.patch, build: v.build, hash: match v.hash { None => None, Some(h) => Some(h@) } } }
pub open spec fn parsed(s: Seq<char>) -> Option<Parsed> {
    let d = split(s, '-');
    let n = split(d[0], '.');
    if s.len() == 0 || n.len() < 3 || number(n[0]) is None || number(n[1]) is None || number(n[2]) is None || n.len() > 3 && number(n[3]) is None { None }
    else { Some(Parsed { major: number(n[0])->0, minor: number(n[1])->0, patch: number(n[2])->0, build: if n.len() > 3 { number(n[3]) } else { None }, hash: if d.len() > 1 { Some(d[1]) } else { None } }) }
}
impl Version {
//@extract libs/common/src/version.rs | impl TryFrom<&str> for Version @ fn try_from
//@sub fn try_from\(version: &str\) -> Result<Self, Self::Error> \{ ==> fn try_from(text: &str) -> Result<Self, Error> { let version = text;
//@sub (?s)(\w+)\s*\.parse(::<u32>)?\(\) ==> parse_u32(\1)
//@sub (?s)version\.split\('-'\) ==> str_split(version, '-')
//@sub (?s)parts\s*\.next\(\)\s*\.expect\("[^"]*"\)\s*\.split\('\.'\) ==> str_split(parts.next().unwrap(), '.')
//@sub version\.is_empty\(\) ==> str_empty(version)
//@sub \b(\w+)\.to_string\(\) ==> str_string(\1)
//@sub parts\.next\(\)\.map\(std::string::ToString::to_string\) ==> opt_string(parts.next())
//@sub (?s)let build = version\.next\(\)\.map\(\|build\| \{\s*(\w+\(build\))\s*\.map_err\(\|_\| (Error::InvalidComponent\(str_string\(build\)\))\)\s*\}\); ==> let build: Option<Result<u32, Error>> = match version.next() { None => None, Some(build) => Some(match \1 { Ok(n) => Ok(n), Err(_) => Err(\2) }) };
//@spec
    ensures r is Ok <==> parsed(text@) is Some, r is Ok ==> Some(content(&r->Ok_0)) == parsed(text@)
//@entry
    proof { lemma_split_len(text@, '-'); lemma_split_len(split(text@, '-')[0], '.'); }
//@end
//@extract libs/common/src/version.rs | impl Display for Version @ fn fmt
//@sub std::fmt::Result ==> Result<(), ()>
//@sub &mut Formatter<'_> ==> &mut Formatter
//@fmt
//@spec
    ensures r is Ok, final(f).out() == old(f).out() + text_of(self)
//@entry
    proof { reveal_strlit("."); reveal_strlit("-"); assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']); }
//@exit
    proof { assert(f.out() =~= old(f).out() + text_of(self)); }
//@end
//@extract libs/common/src/version.rs | impl Serialize for Version @ fn serialize
//@sub <S>\(&self, serializer: S\) -> Result<S::Ok, S::Error>\s*where\s*S: Serializer, ==> (&self, serializer: Serializer) -> Result<Stored, ()>
//@sub (?s)version\.push_str\(&((?:[^()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\) ==> push_text(&mut version, \1)
//@fmt
//@spec
    ensures r is Ok, (r->Ok_0).text() == text_of(self)
//@entry
    proof { reveal_strlit("."); reveal_strlit("-"); assert("."@ =~= seq!['.']); assert("-"@ =~= seq!['-']); }
//@before serializer\.serialize_str
    proof { assert(version@ =~= text_of(self)); }
//@end
//@extract libs/common/src/version.rs | impl<'de> Deserialize<'de> for Version @ fn deserialize
//@sub <D>\(deserializer: D\) -> Result<Self, D::Error>\s*where\s*D: Deserializer<'de>, ==> (deserializer: Deserializer) -> Result<Self, ()>
//@sub String::deserialize\(deserializer\) ==> read_text(deserializer)
//@sub (?s)Self::try_from\((.*?)\)\.map_err\(serde::de::Error::custom\) ==> match Self::try_from(\1) { Ok(v) => Ok(v), Err(_) => Err(()) }
//@spec
    ensures r is Ok <==> deserializer.text() is Some && parsed(deserializer.text()->0) is Some, r is Ok ==> Some(content(&r->Ok_0)) == parsed(deserializer.text()->0)
//@end
}
#[verifier::external_body] pub struct Stored { s: String }
impl Stored { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Serializer { s: String }
impl Serializer { #[verifier::external_body] pub fn serialize_str(self, s: &String) -> (r: Result<Stored, ()>) ensures r is Ok, (r->Ok_0).text() == s@ { unimplemented!() } }
#[verifier::external_body] pub struct Deserializer { s: String }
impl Deserializer { pub uninterp spec fn text(&self) -> Option<Seq<char>>; }
#[verifier::external_body] pub fn read_text(d: Deserializer) -> (r: Result<String, ()>) ensures r is Ok <==> d.text() is Some, r is Ok ==> Some((r->Ok_0)@) == d.text() { unimplemented!() }

/// Written as text and parsed: the same version (for a hash that has no dash in it).
proof fn theorem_round_trip(v: &Version)
    requires v.hash is Some ==> !(v.hash->0)@.contains('-')
    ensures parsed(text_of(v)) == Some(content(v))
{
    let (a, b, c) = (dec(v.major as nat), dec(v.minor as nat), dec(v.patch as nat));
    lemma_number(v.major); lemma_number(v.minor); lemma_number(v.patch);
    let ab = a.push('.') + b;
    lemma_split_none(a, '.'); lemma_split_more(a, b, '.'); lemma_split_more(ab, c, '.');
    assert(dotted(v.major, v.minor, v.patch) =~= ab.push('.') + c);
    let d3 = ab.push('.') + c;
    let s = with_build(d3, v.build);
    if let Some(n) = v.build { lemma_number(n); lemma_split_more(d3, dec(n as nat), '.'); }
    assert(split(s, '.')[0] == a && split(s, '.')[1] == b && split(s, '.')[2] == c);
    assert(!s.contains('-')) by {
        assert forall|i: int| 0 <= i < s.len() implies s[i] != '-' by {
            if i < a.len() { assert(s[i] == a[i]); assert(a.contains(a[i])); }
            else if i == a.len() {}
            else if i < ab.len() { assert(s[i] == b[i - a.len() - 1]); assert(b.contains(s[i])); }
            else if i == ab.len() {}
            else if i < d3.len() { assert(s[i] == c[i - ab.len() - 1]); assert(c.contains(s[i])); }
            else if i == d3.len() {}
            else { let n = dec(v.build->0 as nat); assert(s[i] == n[i - d3.len() - 1]); assert(n.contains(s[i])); }
        }
    }
    lemma_split_none(s, '-');
    if let Some(h) = v.hash { lemma_split_more(s, h@, '-'); }
    assert(text_of(v).len() > 0);
}
/// a missing or non-numeric component is rejected
proof fn theorem_rejected(s: Seq<char>)
    ensures ({ let n = split(split(s, '-')[0], '.');
        n.len() < 3 || (exists|i: int| 0 <= i < 3 && number(#[trigger] n[i]) is None) || n.len() > 3 && number(n[3]) is None ==> parsed(s) is None })
{}

// ---------------------------------------------------------------- version macro files
/// the value a line defines: what follows its last space, without a comment
pub open spec fn value_in(line: Seq<char>) -> Option<u32> {
    let c = match cut(line, "//"@) { None => line, Some(x) => x.0 };
    match cut_last(trimmed(c), seq![' ']) { None => None, Some(x) => number(x.1) }
}
/// the first line that begins with `what`
pub open spec fn first_with(lines: Seq<Seq<char>>, what: Seq<char>) -> Option<Seq<char>>
    decreases lines.len()
{ if lines.len() == 0 { None } else if at(lines[0], what, 0) { Some(lines[0]) } else { first_with(lines.skip(1), what) } }
pub open spec fn macro_value(lines: Seq<Seq<char>>, name: Seq<char>) -> Option<u32> { match first_with(lines, "#define "@ + name) { None => None, Some(l) => value_in(l) } }
/// `lines.iter().find(|line| line.starts_with(&what))`
#[verifier::external_body] pub fn find_starting<'a>(lines: &[&'a str], what: &String) -> (r: Option<&'a str>)
    ensures r is Some <==> first_with(views_str(lines@), what@) is Some, r is Some ==> Some((r->0)@) == first_with(views_str(lines@), what@)
{ unimplemented!() }
#[verifier::external_body] pub fn cut_last_space<'a>(s: &'a str) -> (r: Option<(&'a str, &'a str)>) ensures cut_last(s@, seq![' ']) == pair(r) { unimplemented!() }
pub open spec fn trimmed_lines(s: Seq<char>) -> Seq<Seq<char>> { lines_of(s).map(|i: int, l: Seq<char>| trimmed(l)) }
/// `s.lines().map(str::trim).collect::<Vec<_>>()`
#[verifier::external_body] pub fn lines_trimmed(s: &str) -> (r: Vec<&str>) ensures views_str(r@) == trimmed_lines(s@) { unimplemented!() }
impl Version {
//@extract libs/common/src/version.rs | impl Version @ fn extract_version
//@fmt
//@sub (?s)lines\s*\.iter\(\)\s*\.find\(\|line\| line\.starts_with\(&(.*?\.text\(\))\)\)\s*\.ok_or_else\(\|\| error\.clone\(\)\)\?; ==> match find_starting(lines, &\1) { None => { return Err(error); } Some(line) => line };
//@sub (?s)line\s*\.split_once\("//"\)\s*\.unwrap_or\(\(line, ""\)\)\s*\.0\s*\.trim\(\)\s*\.rsplit_once\(' '\)\s*\.ok_or\(error\)\? ==> match cut_last_space(str_trim(match str_cut(line, "//") { None => line, Some(parts) => parts.0 })) { None => { return Err(error); } Some(parts) => parts }
//@sub (?s)(\w+\s*\.\d)\s*\.parse::<u32>\(\)\s*\.map_err\(\|_\| (Error::InvalidComponent)\((\w+\s*\.\d)\.to_string\(\)\)\) ==> match parse_u32(\1) { Ok(n) => Ok(n), Err(_) => Err(\2(str_string(\3))) }
//@sub (?s)fn extract_version\(lines: &\[&str\], component: &str\) -> Result<u32, Error> \{ ==> fn extract_version(lines: &[&str], name: &str) -> Result<u32, Error> { let component = name;
//@spec
    requires name@ == "MAJOR"@ || name@ == "MINOR"@ || name@ == "PATCH"@ || name@ == "BUILD"@
    ensures r is Ok <==> macro_value(views_str(lines@), name@) is Some, r is Ok ==> Some(r->Ok_0) == macro_value(views_str(lines@), name@)
//@entry
    proof { assert(Seq::<char>::empty() + "#define "@ + name@ =~= "#define "@ + name@); }
//@end
//@extract libs/common/src/version.rs | impl Version @ fn try_from_script_version
//@sub (?s)version\.lines\(\)\.map\(str::trim\)\.collect::<Vec<_>>\(\) ==> lines_trimmed(version)
//@sub (?s)Self::extract_version\(&lines, ("[A-Z]*")\)\.ok\(\) ==> match Self::extract_version(lines.as_slice(), \1) { Ok(n) => Some(n), Err(_) => None }
//@sub (?s)Self::extract_version\(&lines, ==> Self::extract_version(lines.as_slice(),
//@spec
    ensures ({
        let ls = trimmed_lines(version@);
        let (a, b, c) = (macro_value(ls, "MAJOR"@), macro_value(ls, "MINOR"@), macro_value(ls, "PATCH"@));
        &&& r is Ok <==> a is Some && b is Some && c is Some
        &&& r is Ok ==> content(&r->Ok_0) == (Parsed { major: a->0, minor: b->0, patch: c->0, build: macro_value(ls, "BUILD"@), hash: None })
    })
//@end
//@extract libs/common/src/version.rs | impl Version @ fn new
//@spec
    ensures content(&r) == (Parsed { major, minor, patch, build, hash: None })
//@end
}

// ---------------------------------------------------------------- the version of a project
pub enum Trouble { Version(Error), Other(u8) }
//@extract libs/common/src/config/project/version.rs | struct VersionConfig
//@pub
//@end
//@extract libs/common/src/config/project/version.rs | struct VersionSectionFile
//@pub
//@end
pub open spec fn slashed(s: Seq<char>) -> Seq<char> { s.map(|i: int, c: char| if c == '\\' { '/' } else { c }) }
#[verifier::external_body] pub fn with_slashes(s: String) -> (r: String) ensures r@ == slashed(s@) { unimplemented!() }
#[verifier::external_body] pub fn str_string_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub open spec fn default_path() -> Seq<char> { "addons/main/script_version.hpp"@ }
/// Option<Result<T, E>>::transpose
#[verifier::external_body] pub fn flip<T, E>(o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures match o { None => r is Ok && r->Ok_0 is None, Some(Ok(x)) => r is Ok && r->Ok_0 == Some(x), Some(Err(e)) => r is Err && r->Err_0 == e }
{ unimplemented!() }
/// what project.toml says about the version makes sense: either a file, or major, minor and patch
pub open spec fn sensible(f: VersionSectionFile) -> bool {
    &&& !(f.path is Some && (f.major is Some || f.minor is Some || f.patch is Some))
    &&& f.major is None ==> f.minor is None && f.patch is None
    &&& f.major is Some ==> f.minor is Some && f.patch is Some
}
impl VersionConfig {
//@extract libs/common/src/config/project/version.rs | impl TryFrom<VersionSectionFile> for VersionConfig @ fn try_from
//@sub Self::Error ==> Trouble
//@sub? crate::version::Error:: ==> Error::
//@sub? Err\(Error::Version\( ==> Err(Trouble::Version(
//@sub (?s)file\s*\.path\s*\.unwrap_or_else\(\|\| "([^"]*)"\.to_string\(\)\)\s*\.replace\('\\\\', "/"\) ==> with_slashes(match file.path { Some(p) => p, None => str_string_of("\1") })
//@sub (?s)file\s*\.major\s*\.map\(\|major\| \{(.*?)\}\)\s*\.transpose\(\)\s*\.map_err\(Error::Version\)\? ==> match flip({ let f = |major: u32| -> (r: Result<(u32, u32, u32, Option<u32>), Error>) ensures r is Ok <==> file.minor is Some && file.patch is Some, r is Ok ==> r->Ok_0 == (major, file.minor->0, file.patch->0, file.build) {\1}; match file.major { None => None, Some(m) => Some(f(m)) } }) { Ok(x) => x, Err(e) => { return Err(Trouble::Version(e)); } }
//@spec
    ensures r is Ok <==> sensible(file),
        r is Ok ==> {
            &&& (r->Ok_0).path@ == slashed(match file.path { Some(p) => p@, None => default_path() })
            &&& (r->Ok_0).defined == match file.major { None => None, Some(m) => Some((m, file.minor->0, file.patch->0, file.build)) }
            &&& (r->Ok_0).git_hash == match file.git_hash { None => 8, Some(h) => h }
        }
//@end
//@extract libs/common/src/config/project/version.rs | impl VersionConfig @ fn git_hash
//@spec
    ensures r == if self.git_hash == 0 { None } else { Some(self.git_hash) }
//@end
//@extract libs/common/src/config/project/version.rs | impl VersionConfig @ fn internal_get
//@sub Result<Version, Error> ==> Result<Version, Trouble>
//@sub &VfsPath ==> &Files
//@sub (?s)Version::try_from_script_version\(&content\)\.map_err\(Into::into\) ==> match Version::try_from_script_version(&content) { Ok(v) => Ok(v), Err(e) => Err(Trouble::Version(e)) }
//@sub Err\(crate::version::Error::UnknownVersion\.into\(\)\) ==> Err(Trouble::Version(Error::UnknownVersion))
//@spec
    ensures self.defined is Some ==> r is Ok && ({ let d = self.defined->0; content(&r->Ok_0) == (Parsed { major: d.0, minor: d.1, patch: d.2, build: d.3, hash: None }) }),
        self.defined is None && r is Ok ==> text_at(*vfs, self.path@) is Some && ({
            let ls = trimmed_lines(text_at(*vfs, self.path@)->0);
            content(&r->Ok_0) == (Parsed { major: macro_value(ls, "MAJOR"@)->0, minor: macro_value(ls, "MINOR"@)->0, patch: macro_value(ls, "PATCH"@)->0, build: macro_value(ls, "BUILD"@), hash: None })
        }),
//@end
}
/// vfs::VfsPath: the files of the project
#[verifier::external_body] pub struct Files { x: u8 }
pub uninterp spec fn text_at(f: Files, path: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body] pub struct FileAt { x: u8 }
impl FileAt {
    pub uninterp spec fn text(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn exists(&self) -> (r: Result<bool, Trouble>) { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string(&self) -> (r: Result<String, Trouble>) ensures r is Ok ==> self.text() == Some((r->Ok_0)@) { unimplemented!() }
}
impl Files { #[verifier::external_body] pub fn join(&self, p: &String) -> (r: Result<FileAt, Trouble>) ensures r is Ok ==> (r->Ok_0).text() == text_at(*self, p@) { unimplemented!() } }
}
fn main() {}
