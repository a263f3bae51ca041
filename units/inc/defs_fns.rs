/// `LIST.contains(&key)`
#[verifier::external_body] pub fn listed<const N: usize>(l: &[&str; N], k: &str) -> (r: bool) ensures r == lists1(l@, k@) { unimplemented!() }
#[verifier::external_body] pub fn listed_key(l: &[(&str, u8)], k: &str) -> (r: bool) ensures r == (exists|i: int| 0 <= i < l@.len() && (#[trigger] l@[i]).0@ == k@) { unimplemented!() }
#[verifier::external_body] pub fn count_up(c: usize) -> (r: usize) ensures r == next_count(c) { unimplemented!() }
/// the text of __FILE__, __FILE_NAME__ and __FILE_SHORT__ (bounded stand-in)
#[verifier::external_body] pub fn file_token(site: &Position, key: &Arc<Token>) -> (r: Token) ensures r == (Token { symbol: Symbol::Word(string_of(file_word("__FILE__"@, *site))), source: key.source }) { unimplemented!() }
impl WorkspacePath { #[verifier::external_body] pub fn filename(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn file_name(site: &Position) -> (r: String) ensures r == string_of(file_word("__FILE_NAME__"@, *site)) { unimplemented!() }
#[verifier::external_body] pub fn file_short(site: &Position) -> (r: String) ensures r == string_of(file_word("__FILE_SHORT__"@, *site)) { unimplemented!() }
#[verifier::external_body] pub fn text_string(t: &Token) -> (r: String) ensures r@ == t.text() { unimplemented!() }
pub open spec fn lists1(l: Seq<&str>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == k }
//@extract libs/preprocessor/src/defines.rs | const BUILTIN_GEN
//@sub const BUILTIN_GEN: \[&str; 6\] = (?s:(\[.*\])); ==> fn builtin_gen() -> (r: [&'static str; 6]) ensures forall|k: Seq<char>| #[trigger] lists1(r@, k) <==> gen_name(k) { let l_ = \1; proof { lemma_gen(l_@); } l_ }
//@end
pub proof fn lemma_gen(l: Seq<&str>)
    requires l.len() == 6, l[0]@ == "__COUNTER__"@, l[1]@ == "__COUNTER_RESET__"@, l[2]@ == "__FILE__"@, l[3]@ == "__FILE_NAME__"@, l[4]@ == "__FILE_SHORT__"@, l[5]@ == "__LINE__"@
    ensures forall|k: Seq<char>| #[trigger] lists1(l, k) <==> gen_name(k)
{
    assert forall|k: Seq<char>| #[trigger] lists1(l, k) <==> gen_name(k) by {
        if gen_name(k) { assert(l[0]@ == k || l[1]@ == k || l[2]@ == k || l[3]@ == k || l[4]@ == k || l[5]@ == k); }
    }
}
pub proof fn lits_gen()
    ensures "__COUNTER__"@ != "__COUNTER_RESET__"@, "__COUNTER__"@ != "__FILE__"@, "__COUNTER__"@ != "__FILE_NAME__"@, "__COUNTER__"@ != "__FILE_SHORT__"@, "__COUNTER__"@ != "__LINE__"@,
        "__COUNTER_RESET__"@ != "__FILE__"@, "__COUNTER_RESET__"@ != "__FILE_NAME__"@, "__COUNTER_RESET__"@ != "__FILE_SHORT__"@, "__COUNTER_RESET__"@ != "__LINE__"@,
        "__FILE__"@ != "__LINE__"@, "__FILE__"@ != "__FILE_NAME__"@, "__FILE__"@ != "__FILE_SHORT__"@, "__LINE__"@ != "__FILE_NAME__"@, "__LINE__"@ != "__FILE_SHORT__"@,
{
    reveal_strlit("__COUNTER__"); reveal_strlit("__COUNTER_RESET__"); reveal_strlit("__FILE__"); reveal_strlit("__FILE_NAME__"); reveal_strlit("__FILE_SHORT__"); reveal_strlit("__LINE__");
    assert("__COUNTER__"@.len() == 11 && "__COUNTER_RESET__"@.len() == 17 && "__FILE__"@.len() == 8 && "__FILE_NAME__"@.len() == 13 && "__FILE_SHORT__"@.len() == 14 && "__LINE__"@.len() == 8);
    assert("__FILE__"@[2] == 'F' && "__LINE__"@[2] == 'L');
}
impl Defines {
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn contains_key
//@sub BUILTIN_GEN\.contains\(&key\) ==> listed(&builtin_gen(), key)
//@sub \*last\.0 == \*key ==> same_name(&last.0, key)
//@spec
    ensures r == self.has(key@)
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn get_readonly
//@sub self\s*\.stack\s*\.last\(\)\s*\.as_ref\(\)\s*\.and_then\(\|i\| (.*?)\)\s*\.or_else\(\|\| (.*?)\)\s*\.cloned\(\) ==> match (match self.stack.last() { Some(i) => \1, None => None }) { Some(e_) => Some(entry_clone(e_)), None => match \2 { Some(e_) => Some(entry_clone(e_)), None => None } }
//@spec
    ensures r == self.visible(key@)
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn insert
//@sub Arc::from\(key\) ==> name_of(key)
//@spec
    ensures *final(self) == old(self).with(key@, value), old(self).args_plain() && plain(value) ==> final(self).args_plain()
//@entry
    broadcast use ax_vec, ax_table;
//@exit
    proof { if old(self).stack@.len() > 0 { assert(self.stack@ =~= old(self).stack@.update(old(self).stack@.len() - 1, (old(self).stack@.last().0, table_of(old(self).stack@.last().1@.insert(key@, value))))); assert(self.global == old(self).global && self.counter == old(self).counter); assert(self.stack == vec_of(self.stack@)); } else { assert(self.stack@ =~= old(self).stack@); assert(vec_of(self.stack@) == vec_of(old(self).stack@)); assert(self.stack == old(self).stack); assert(self.global == table_of(self.global@)); } }
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn remove
//@spec
    ensures *final(self) == old(self).without(key@), old(self).args_plain() ==> final(self).args_plain()
//@entry
    broadcast use ax_vec, ax_table;
//@exit
    proof { if old(self).stack@.len() > 0 { assert(self.stack@ =~= old(self).stack@.update(old(self).stack@.len() - 1, (old(self).stack@.last().0, table_of(old(self).stack@.last().1@.remove(key@))))); assert(self.global == old(self).global && self.counter == old(self).counter); assert(self.stack == vec_of(self.stack@)); } else { assert(self.stack@ =~= old(self).stack@); assert(vec_of(self.stack@) == vec_of(old(self).stack@)); assert(self.stack == old(self).stack); assert(self.global == table_of(self.global@)); } }
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn push
//@sub Arc::from\(name\) ==> name_of(name)
//@spec
    ensures *final(self) == old(self).open_with(name@, args), final(self).stack@.len() == old(self).stack@.len() + 1, old(self).args_plain() && plain_table(args) ==> final(self).args_plain()
//@entry
    broadcast use ax_vec, ax_name;
//@exit
    proof { assert(self.stack@ =~= old(self).stack@.push((mk_name(name@), args))); }
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn pop
//@spec
    ensures *final(self) == old(self).closed(), old(self).args_plain() ==> final(self).args_plain()
//@entry
    broadcast use ax_vec;
//@end
//@extract libs/preprocessor/src/defines.rs | impl Defines @ fn get_with_gen
//@sub key\.to_string\(\) ==> text_string(key)
//@sub BUILTIN_GEN\.contains\(&ident\.as_str\(\)\) ==> listed(&builtin_gen(), ident.as_str())
//@sub Arc::new\(site\.path\(\)\.workspace\(\)(?s:.*?)\)\),\s*(?=Arc::new\(Token::new\(Symbol::DoubleQuote) ==> Arc::new(file_token(site, key)), 
//@sub let path = site\.path\(\)\.as_str\(\)\.replace\('/', "\\\\"\); ==> ;
//@sub let path = site\.path\(\)\.filename\(\);\s*let path = path\s*\.chars\(\)(?s:.*?)collect::<String>\(\); ==> let path = file_short(site);
//@sub let path = site\.path\(\)\.filename\(\); ==> let path = file_name(site);
//@sub self\.counter \+= 1; ==> self.counter = count_up(self.counter);
//@sub unreachable!\(\) ==> { no_way(); }
//@spec
    ensures r == old(self).found(*key, match site { Some(s) => Some(*s), None => None }), *final(self) == old(self).after(*key, match site { Some(s) => Some(*s), None => None })
//@entry
    broadcast use ax_vec, ax_arc, ax_string, lemma_vec1, lemma_vec3;
    proof { lits_gen(); }
//@end
}
