#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, redundant_semicolons, unreachable_patterns)]
use vstd::prelude::*;
use vstd::utf8::*;
verus! {
//@include inc/enc.rs
//@include inc/sink.rs
//@include inc/cfgmodel.rs
pub assume_specification[ std::string::String::len ](s: &String) -> (r: usize) ensures r == encode_utf8(s@).len(), r <= isize::MAX;
//@extract libs/config/src/model/config.rs | struct Config
//@end

// ---------------------------------------------------------------- what is written
pub open spec fn number_bytes(n: Number) -> Seq<u8> { match n { Number::Int32 { value, .. } => le32(value as u32), Number::Int64 { value, .. } => le64(value as u64), Number::Float32 { value, .. } => le32(bits(value)) } }
pub open spec fn number_code(n: Number) -> u8 { match n { Number::Int32 { .. } => 2, Number::Int64 { .. } => 6, Number::Float32 { .. } => 1 } }
pub open spec fn item_code(i: Item) -> u8 { match i { Item::Str(_) => 0, Item::Number(n) => number_code(n), Item::Array(_) => 3, Item::Invalid(_) => 255 } }
pub open spec fn item_bytes(i: Item) -> Seq<u8>
    decreases i
{ match i { Item::Str(s) => cs(s.value@), Item::Number(n) => number_bytes(n), Item::Array(a) => enc(a.len() as nat) + items_bytes(a, a.len() as nat), Item::Invalid(_) => Seq::empty() } }
/// the first n elements of an array
pub open spec fn items_bytes(v: Vec<Item>, n: nat) -> Seq<u8>
    decreases v, n
{ if n == 0 || n > v.len() { Seq::empty() } else { items_bytes(v, (n - 1) as nat) + seq![item_code(v[n - 1])] + item_bytes(v[n - 1]) } }
pub open spec fn array_bytes(v: Vec<Item>) -> Seq<u8> { enc(v.len() as nat) + items_bytes(v, v.len() as nat) }
pub open spec fn value_bytes(v: Value) -> Seq<u8> { match v { Value::Str(s) => cs(s.value@), Value::Number(n) => number_bytes(n), Value::Expression(e) => cs(e.value@), Value::Array(a) => array_bytes(a.items), _ => Seq::empty() } }
pub open spec fn value_code(v: Value) -> u8 { match v { Value::Str(_) => 0, Value::Number(n) => number_code(n), Value::Expression(_) => 4, Value::Array(_) => 3, _ => 255 } }
pub open spec fn code_bytes(p: Property) -> Seq<u8> {
    match p {
        Property::Entry { value, .. } => match value { Value::Array(a) => if a.expand { seq![5u8, 1, 0, 0, 0] } else { seq![2u8] }, v => seq![1u8, value_code(v)] },
        Property::Class(Class::External { .. }) => seq![3u8],
        Property::Class(_) => seq![0u8],
        Property::Delete(_) => seq![4u8],
        Property::MissingSemicolon(_, _) => Seq::empty(),
    }
}
pub open spec fn name_of(p: Property) -> Seq<char> {
    match p {
        Property::Entry { name, .. } => name.value@,
        Property::Class(Class::Local { name, .. }) => name.value@,
        Property::Class(Class::External { name }) => name.value@,
        Property::Class(_) => Seq::empty(),
        Property::Delete(name) => name.value@,
        Property::MissingSemicolon(name, _) => name.value@,
    }
}
pub open spec fn is_body(p: Property) -> bool { p is Class && p->Class_0 is Local }
/// a line of the property list; `at` is where the body of a class is
pub open spec fn head(p: Property, at: int) -> Seq<u8> {
    code_bytes(p) + cs(name_of(p)) + (match p { Property::Entry { value, .. } => value_bytes(value), Property::Class(Class::Local { .. }) => le32(at as u32), _ => Seq::empty() })
}
pub open spec fn props(c: Class) -> Vec<Property> { match c { Class::Local { properties, .. } => properties, Class::Root { properties } => properties, Class::External { .. } => arbitrary() } }
pub open spec fn parent_name(c: Class) -> Seq<char> { match c { Class::Local { parent: Some(p), .. } => p.value@, _ => Seq::empty() } }
pub open spec fn head_len(p: Property) -> nat { head(p, 0).len() }
pub open spec fn heads_len(v: Vec<Property>, n: nat) -> nat
    decreases n
{ if n == 0 || n > v.len() { 0 } else { heads_len(v, (n - 1) as nat) + head_len(v[n - 1]) } }
pub open spec fn class_len(c: Class) -> nat
    decreases c
{
    match c {
        Class::External { .. } => 0,
        Class::Local { properties, .. } => cs(parent_name(c)).len() + enc(properties.len() as nat).len() + heads_len(properties, properties.len() as nat) + 4 + bodies_len(properties, properties.len() as nat),
        Class::Root { properties } => cs(parent_name(c)).len() + enc(properties.len() as nat).len() + heads_len(properties, properties.len() as nat) + 4 + bodies_len(properties, properties.len() as nat),
    }
}
pub open spec fn body_len(p: Property) -> nat
    decreases p
{ match p { Property::Class(c) => class_len(c), _ => 0 } }
pub open spec fn bodies_len(v: Vec<Property>, n: nat) -> nat
    decreases v, n
{ if n == 0 || n > v.len() { 0 } else { bodies_len(v, (n - 1) as nat) + body_len(v[n - 1]) } }
/// where the first class body of a class at `at` is
pub open spec fn first_body(c: Class, at: int) -> int { at + cs(parent_name(c)).len() + enc(props(c).len() as nat).len() + heads_len(props(c), props(c).len() as nat) + 4 }
pub open spec fn heads(v: Vec<Property>, n: nat, first: int) -> Seq<u8>
    decreases n
{ if n == 0 || n > v.len() { Seq::empty() } else { heads(v, (n - 1) as nat, first) + head(v[n - 1], first + bodies_len(v, (n - 1) as nat)) } }
/// a class whose first byte is at `at`: parent, properties, address after it, bodies of its classes
pub open spec fn class_bytes(c: Class, at: int) -> Seq<u8>
    decreases c
{
    match c {
        Class::External { .. } => Seq::empty(),
        Class::Local { properties, .. } => before_bodies(c, at) + bodies(properties, properties.len() as nat, first_body(c, at)),
        Class::Root { properties } => before_bodies(c, at) + bodies(properties, properties.len() as nat, first_body(c, at)),
    }
}
pub open spec fn before_bodies(c: Class, at: int) -> Seq<u8> {
    let v = props(c);
    cs(parent_name(c)) + enc(v.len() as nat) + heads(v, v.len() as nat, first_body(c, at)) + le32((at + class_len(c)) as u32)
}
pub open spec fn body(p: Property, at: int) -> Seq<u8>
    decreases p
{ match p { Property::Class(c) => class_bytes(c, at), _ => Seq::empty() } }
pub open spec fn bodies(v: Vec<Property>, n: nat, first: int) -> Seq<u8>
    decreases v, n
{ if n == 0 || n > v.len() { Seq::empty() } else { bodies(v, (n - 1) as nat, first) + body(v[n - 1], first + bodies_len(v, (n - 1) as nat)) } }

/// nothing in it that the linter reports as an error
pub open spec fn item_ok(i: Item) -> bool
    decreases i
{ match i { Item::Str(_) => true, Item::Number(_) => true, Item::Array(a) => items_ok(a), Item::Invalid(_) => false } }
pub open spec fn items_ok(v: Vec<Item>) -> bool
    decreases v
{ forall|i: int| 0 <= i < v.len() ==> item_ok(#[trigger] v[i]) }
pub open spec fn value_ok(v: Value) -> bool { match v { Value::Str(_) => true, Value::Number(_) => true, Value::Expression(_) => true, Value::Array(a) => items_ok(a.items), _ => false } }
pub open spec fn prop_ok(p: Property) -> bool
    decreases p
{ match p { Property::Entry { value, .. } => value_ok(value), Property::Class(c) => !(c is Root) && class_ok(c), Property::Delete(_) => true, Property::MissingSemicolon(_, _) => false } }
pub open spec fn props_ok(v: Vec<Property>) -> bool
    decreases v
{ forall|i: int| 0 <= i < v.len() ==> prop_ok(#[trigger] v[i]) }
pub open spec fn class_ok(c: Class) -> bool
    decreases c
{ match c { Class::External { .. } => true, Class::Local { properties, .. } => props_ok(properties), Class::Root { properties } => props_ok(properties) } }

// ---------------------------------------------------------------- sizes
proof fn lemma_class_len(c: Class, at: int)
    ensures class_bytes(c, at).len() == class_len(c)
    decreases c
{
    match c {
        Class::External { .. } => {},
        Class::Local { properties, .. } => { lemma_heads_len(properties, properties.len() as nat, first_body(c, at)); lemma_bodies_len(properties, properties.len() as nat, first_body(c, at)); },
        Class::Root { properties } => { lemma_heads_len(properties, properties.len() as nat, first_body(c, at)); lemma_bodies_len(properties, properties.len() as nat, first_body(c, at)); },
    }
}
proof fn lemma_heads_len(v: Vec<Property>, n: nat, first: int)
    ensures heads(v, n, first).len() == heads_len(v, n)
    decreases n
{ if n == 0 || n > v.len() {} else { lemma_heads_len(v, (n - 1) as nat, first); } }
proof fn lemma_bodies_len(v: Vec<Property>, n: nat, first: int)
    ensures bodies(v, n, first).len() == bodies_len(v, n)
    decreases v, n
{
    if n == 0 || n > v.len() {} else {
        lemma_bodies_len(v, (n - 1) as nat, first);
        let p = v[n - 1]; let at = first + bodies_len(v, (n - 1) as nat);
        match p { Property::Class(c) => { lemma_class_len(c, at); assert(body(p, at) == class_bytes(c, at)); }, _ => { assert(body(p, at) == Seq::<u8>::empty()); } }
        assert(body(p, at).len() == body_len(p));
    }
}
proof fn lemma_heads_mono(v: Vec<Property>, n: nat, m: nat)
    requires n <= m <= v.len()
    ensures heads_len(v, n) <= heads_len(v, m), bodies_len(v, n) <= bodies_len(v, m), heads_len(v, n) >= n
    decreases m
{
    if m > 0 { if n < m { lemma_heads_mono(v, n, (m - 1) as nat); } else { lemma_heads_mono(v, (n - 1) as nat, (m - 1) as nat); } }
}
proof fn lemma_items_mono(v: Vec<Item>, n: nat, m: nat)
    requires n <= m <= v.len()
    ensures items_bytes(v, n).len() <= items_bytes(v, m).len(), items_bytes(v, n).len() >= n
    decreases m
{
    if m > 0 { if n < m { lemma_items_mono(v, n, (m - 1) as nat); } else { lemma_items_mono(v, (n - 1) as nat, (m - 1) as nat); } }
}

// proved for the real function in unit io
#[verifier::external_body] pub fn compressed_int_len(x: u32) -> (r: usize) ensures r == enc(x as nat).len(), r <= 5 { unimplemented!() }
impl Ident {
//@extract libs/config/src/model/ident.rs | impl Ident @ fn as_str
//@spec
    ensures r@ == self.value@
//@end
//@extract libs/config/src/model/ident.rs | impl Ident @ fn len
//@spec
    ensures r == encode_utf8(self.value@).len(), r <= isize::MAX
//@end
}
impl Class {
//@extract libs/config/src/model/class.rs | impl Class @ fn name
//@spec
    ensures match *self { Class::Local { name, .. } => r == Some(&name), Class::External { name } => r == Some(&name), Class::Root { .. } => r is None }
//@end
//@extract libs/config/src/model/class.rs | impl Class @ fn parent
//@spec
    ensures match *self { Class::Local { parent: Some(p), .. } => r == Some(&p), _ => r is None }
//@end
}
impl Property {
//@extract libs/config/src/model/property.rs | impl Property @ fn name
//@spec
    requires prop_ok(*self)
    ensures r.value@ == name_of(*self)
//@end
//@extract libs/config/src/rapify/property.rs | impl Property @ fn property_code
//@spec
    requires prop_ok(*self)
    ensures r@ == code_bytes(*self)
//@exit
    proof { assert(tailv@ =~= code_bytes(*self)); }
//@end
//@extract libs/config/src/rapify/property.rs | impl Rapify for Property @ fn rapified_length
//@spec
    requires prop_ok(*self), head_len(*self) <= u32::MAX
    ensures r + cs(name_of(*self)).len() == head_len(*self)
//@end
}
impl Str {
//@extract libs/config/src/rapify/str.rs | impl Rapify for Str @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires old(output).room() >= cs(self.value@).len()
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == cs(self.value@).len() && final(output).written() == old(output).written() + cs(self.value@) && final(output).room() == old(output).room() - r->Ok_0
//@end
//@extract libs/config/src/rapify/str.rs | impl Rapify for Str @ fn rapified_length
//@spec
    ensures r == cs(self.value@).len()
//@end
//@extract libs/config/src/rapify/str.rs | impl Rapify for Str @ fn rapified_code
//@spec
    ensures r == 0
//@end
}
impl Expression {
//@extract libs/config/src/rapify/expression.rs | impl Rapify for Expression @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires old(output).room() >= cs(self.value@).len()
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == cs(self.value@).len() && final(output).written() == old(output).written() + cs(self.value@) && final(output).room() == old(output).room() - r->Ok_0
//@end
//@extract libs/config/src/rapify/expression.rs | impl Rapify for Expression @ fn rapified_length
//@spec
    ensures r == cs(self.value@).len()
//@end
//@extract libs/config/src/rapify/expression.rs | impl Rapify for Expression @ fn rapified_code
//@spec
    ensures r == 4
//@end
}
impl Number {
//@extract libs/config/src/rapify/number.rs | impl Rapify for Number @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires old(output).room() >= number_bytes(*self).len()
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == number_bytes(*self).len() && final(output).written() == old(output).written() + number_bytes(*self) && final(output).room() == old(output).room() - r->Ok_0
//@end
//@extract libs/config/src/rapify/number.rs | impl Rapify for Number @ fn rapified_length
//@spec
    ensures r == number_bytes(*self).len()
//@end
//@extract libs/config/src/rapify/number.rs | impl Rapify for Number @ fn rapified_code
//@spec
    ensures r == number_code(*self)
//@end
}
impl Item {
//@extract libs/config/src/rapify/array.rs | impl Rapify for Item @ fn rapify
//@sub? for item in a \{ ==> for item in &*a {
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires item_ok(*self), old(output).room() >= item_bytes(*self).len(), item_bytes(*self).len() <= u32::MAX
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == item_bytes(*self).len() && final(output).written() == old(output).written() + item_bytes(*self) && final(output).room() == old(output).room() - r->Ok_0
    decreases self
//@index 0
//@entry
    proof { if let Item::Array(a) = self { lemma_items_mono(*a, a.len() as nat, a.len() as nat); } }
//@loop 0 for
    invariant *vs0 == *a, *self == Item::Array(*a), 0 <= ix0 <= a.len(), items_ok(*a), item_bytes(*self).len() <= u32::MAX,
        written == enc(a.len() as nat).len() + items_bytes(*a, ix0 as nat).len(),
        output.written() == old(output).written() + enc(a.len() as nat) + items_bytes(*a, ix0 as nat),
        output.room() == old(output).room() - written, old(output).room() >= item_bytes(*self).len()
    decreases a.len() - ix0
//@loopstart 0
    proof { lemma_items_mono(*a, ix0 as nat, a.len() as nat); assert(*item == a[ix0 - 1]); }
//@loopend 0
    proof { assert(output.written() =~= old(output).written() + enc(a.len() as nat) + items_bytes(*a, ix0 as nat)); }
//@exit
    proof { if tailv is Ok { assert(output.written() =~= old(output).written() + item_bytes(*self)); } }
//@end
//@extract libs/config/src/rapify/array.rs | impl Rapify for Item @ fn rapified_length
//@sub (?s)usize::sum\((\w+)\.iter\(\)\.map\(\|e\| ((?:[^()]|\([^()]*\))*)\)\) ==> ({ let mut sum: usize = 0; for e in &*\1 { sum += \2; } sum })
//@spec
    requires item_ok(*self), item_bytes(*self).len() <= u32::MAX
    ensures r == item_bytes(*self).len()
    decreases self
//@index 0
//@entry
    proof { if let Item::Array(a) = self { lemma_items_mono(*a, a.len() as nat, a.len() as nat); } }
//@loop 0 for
    invariant *vs0 == *a, *self == Item::Array(*a), 0 <= ix0 <= a.len(), items_ok(*a), item_bytes(*self).len() <= u32::MAX, sum == items_bytes(*a, ix0 as nat).len()
    decreases a.len() - ix0
//@loopstart 0
    proof { lemma_items_mono(*a, ix0 as nat, a.len() as nat); assert(*e == a[ix0 - 1]); }
//@end
//@extract libs/config/src/rapify/array.rs | impl Rapify for Item @ fn rapified_code
//@spec
    requires item_ok(*self)
    ensures r == item_code(*self)
//@end
}
impl Array {
    /// Rapify's default: 3
    pub fn rapified_code(&self) -> (r: u8) ensures r == 3 { 3 }
//@extract libs/config/src/rapify/array.rs | impl Rapify for Array @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires items_ok(self.items), old(output).room() >= array_bytes(self.items).len(), array_bytes(self.items).len() <= u32::MAX
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == array_bytes(self.items).len() && final(output).written() == old(output).written() + array_bytes(self.items) && final(output).room() == old(output).room() - r->Ok_0
//@index 0
//@entry
    proof { lemma_items_mono(self.items, self.items.len() as nat, self.items.len() as nat); }
//@loop 0 for
    invariant *vs0 == self.items, 0 <= ix0 <= self.items.len(), items_ok(self.items), array_bytes(self.items).len() <= u32::MAX,
        written == enc(self.items.len() as nat).len() + items_bytes(self.items, ix0 as nat).len(),
        output.written() == old(output).written() + enc(self.items.len() as nat) + items_bytes(self.items, ix0 as nat),
        output.room() == old(output).room() - written, old(output).room() >= array_bytes(self.items).len()
    decreases self.items.len() - ix0
//@loopstart 0
    proof { lemma_items_mono(self.items, ix0 as nat, self.items.len() as nat); assert(*item == self.items[ix0 - 1]); }
//@loopend 0
    proof { assert(output.written() =~= old(output).written() + enc(self.items.len() as nat) + items_bytes(self.items, ix0 as nat)); }
//@exit
    proof { if tailv is Ok { assert(output.written() =~= old(output).written() + array_bytes(self.items)); } }
//@end
//@extract libs/config/src/rapify/array.rs | impl Rapify for Array @ fn rapified_length
//@sub (?s)usize::sum\(self\.items\.iter\(\)\.map\(\|e\| ((?:[^()]|\([^()]*\))*)\)\) ==> ({ let mut sum: usize = 0; for e in &self.items { sum += \1; } sum })
//@spec
    requires items_ok(self.items), array_bytes(self.items).len() <= u32::MAX
    ensures r == array_bytes(self.items).len()
//@index 0
//@entry
    proof { lemma_items_mono(self.items, self.items.len() as nat, self.items.len() as nat); }
//@loop 0 for
    invariant *vs0 == self.items, 0 <= ix0 <= self.items.len(), items_ok(self.items), array_bytes(self.items).len() <= u32::MAX, sum == items_bytes(self.items, ix0 as nat).len()
    decreases self.items.len() - ix0
//@loopstart 0
    proof { lemma_items_mono(self.items, ix0 as nat, self.items.len() as nat); assert(*e == self.items[ix0 - 1]); }
//@end
}
impl Value {
//@extract libs/config/src/rapify/value.rs | impl Rapify for Value @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@spec
    requires value_ok(*self), old(output).room() >= value_bytes(*self).len(), value_bytes(*self).len() <= u32::MAX
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == value_bytes(*self).len() && final(output).written() == old(output).written() + value_bytes(*self) && final(output).room() == old(output).room() - r->Ok_0
//@end
//@extract libs/config/src/rapify/value.rs | impl Rapify for Value @ fn rapified_length
//@spec
    requires value_ok(*self), value_bytes(*self).len() <= u32::MAX
    ensures r == value_bytes(*self).len()
//@end
//@extract libs/config/src/rapify/value.rs | impl Rapify for Value @ fn rapified_code
//@spec
    requires value_ok(*self)
    ensures r == value_code(*self)
//@end
}
/// the bodies put aside, one after the other
pub open spec fn kept(v: Seq<Cursor>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { kept(v.drop_last()) + v.last().written() } }
pub open spec fn full(v: Seq<Cursor>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).room() == 0 }
impl Class {
//@extract libs/config/src/rapify/class.rs | impl Rapify for Class @ fn rapified_length
//@sub (?s)properties\s*\.iter\(\)\s*\.map\(\|p\| (\{.*?\n\s*\})\)\s*\.sum::<usize>\(\) ==> ({ let mut sum: usize = 0; for p in &*properties { sum += \1; } sum })
//@sub self\.parent\(\)\.map_or\(0, Ident::len\) ==> match self.parent() { None => 0, Some(parent) => parent.len() }
//@spec
    requires class_ok(*self), class_len(*self) <= u32::MAX
    ensures r == class_len(*self)
    decreases self
//@index 0
//@entry
    proof { if !(*self is External) { lemma_heads_mono(props(*self), props(*self).len() as nat, props(*self).len() as nat); } }
//@loop 0 for
    invariant *vs0 == *properties, !(*self is External), props(*self) == *properties, 0 <= ix0 <= properties.len(), props_ok(*properties), class_len(*self) <= u32::MAX, sum == heads_len(*properties, ix0 as nat) + bodies_len(*properties, ix0 as nat)
    decreases properties.len() - ix0
//@loopstart 0
    proof { lemma_heads_mono(*properties, ix0 as nat, properties.len() as nat); assert(*p == properties[ix0 - 1]); assert(prop_ok(*p)); assert(heads_len(*properties, ix0 as nat) == heads_len(*properties, (ix0 - 1) as nat) + head_len(*p)); assert(bodies_len(*properties, ix0 as nat) == bodies_len(*properties, (ix0 - 1) as nat) + body_len(*p)); }
//@end
//@extract libs/config/src/rapify/class.rs | impl Rapify for Class @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@sub (?s)properties\s*\.iter\(\)\s*\.map\(\|p\| (.*?)\)\s*\.sum::<usize>\(\) ==> ({ let mut sum: usize = 0; for p in &*properties { sum += \1; } sum })
//@sub? for property in properties \{ ==> for property in &*properties {
//@sub? for cursor in class_bodies \{ ==> for cursor in &class_bodies {
//@sub Vec<Cursor<Box<\[u8\]>>> ==> Vec<Cursor>
//@sub (?s)let buffer: Box<\[u8\]> =\s*vec!\[0; (c\.rapified_length\(\))\]\.into_boxed_slice\(\) ==> let buffer: Zeros = Zeros::new(\1)
//@spec
    requires class_ok(*self), !(*self is External), offset + class_len(*self) <= u32::MAX, old(output).room() >= class_len(*self)
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == class_len(*self) && final(output).written() == old(output).written() + class_bytes(*self, offset as int) && final(output).room() == old(output).room() - r->Ok_0
    decreases self
//@entry
    proof { if !(*self is External) { lemma_heads_mono(props(*self), props(*self).len() as nat, props(*self).len() as nat); } }
//@index 0
//@loop 0 for
    invariant *vs0 == *properties, !(*self is External), props(*self) == *properties, 0 <= ix0 <= properties.len(), props_ok(*properties), class_len(*self) <= u32::MAX, sum == heads_len(*properties, ix0 as nat)
    decreases properties.len() - ix0
//@loopstart 0
    proof { lemma_heads_mono(*properties, ix0 as nat, properties.len() as nat); assert(*p == properties[ix0 - 1]); }
//@index 1
//@loop 1 for
    invariant *vs1 == *properties, !(*self is External), props(*self) == *properties, 0 <= ix1 <= properties.len(), props_ok(*properties), offset + class_len(*self) <= u32::MAX,
        old(output).room() >= class_len(*self),
        pre_properties == cs(parent_name(*self)).len() + enc(properties.len() as nat).len(),
        written == pre_properties + heads_len(*properties, ix1 as nat),
        output.room() == old(output).room() - written,
        output.written() == old(output).written() + cs(parent_name(*self)) + enc(properties.len() as nat) + heads(*properties, ix1 as nat, first_body(*self, offset as int)),
        class_offset == first_body(*self, offset as int) + bodies_len(*properties, ix1 as nat),
        full(class_bodies@), kept(class_bodies@) == bodies(*properties, ix1 as nat, first_body(*self, offset as int))
    decreases properties.len() - ix1
//@loopstart 1
    proof { lemma_heads_mono(*properties, ix1 as nat, properties.len() as nat); assert(*property == properties[ix1 - 1]); assert(prop_ok(*property)); assert(bodies_len(*properties, ix1 as nat) == bodies_len(*properties, (ix1 - 1) as nat) + body_len(*property));
        let first = first_body(*self, offset as int);
        assert(bodies(*properties, ix1 as nat, first) == bodies(*properties, (ix1 - 1) as nat, first) + body(*property, first + bodies_len(*properties, (ix1 - 1) as nat)));
        if !is_body(*property) { assert(bodies(*properties, ix1 as nat, first) =~= bodies(*properties, (ix1 - 1) as nat, first)); } }
    let ghost out1 = output.written();
    let ghost kept1 = class_bodies@;
//@after class_bodies\.push\(cursor\);
    proof { assert(class_bodies@.drop_last() =~= kept1); }
//@loopend 1
    proof {
        assert(output.written() =~= out1 + head(*property, first_body(*self, offset as int) + bodies_len(*properties, (ix1 - 1) as nat)));
        assert(output.written() =~= old(output).written() + cs(parent_name(*self)) + enc(properties.len() as nat) + heads(*properties, ix1 as nat, first_body(*self, offset as int)));
    }
//@index 2
//@loopinit 2
    proof { lemma_bodies_len(*properties, properties.len() as nat, first_body(*self, offset as int)); assert(class_bodies@.take(0) =~= Seq::empty()); assert(class_bodies@.take(class_bodies@.len() as int) =~= class_bodies@);
        assert(output.written() =~= old(output).written() + before_bodies(*self, offset as int) + kept(class_bodies@.take(0))); }
//@loop 2 for
    invariant vs2@ == class_bodies@, full(vs2@), 0 <= ix2 <= vs2@.len(), !(*self is External), props(*self) == *properties,
        written == class_len(*self) - kept(vs2@).len() + kept(vs2@.take(ix2 as int)).len(),
        output.room() == old(output).room() - written, old(output).room() >= class_len(*self), class_len(*self) <= u32::MAX,
        kept(vs2@).len() <= class_len(*self),
        output.written() == old(output).written() + before_bodies(*self, offset as int) + kept(vs2@.take(ix2 as int))
    decreases vs2@.len() - ix2
//@loopstart 2
    proof { let t = vs2@.take(ix2 as int); assert(t.drop_last() =~= vs2@.take(ix2 - 1)); assert(t.last() == *cursor); lemma_kept(vs2@, ix2 as int); }
//@exit
    proof { if tailv is Ok { assert(output.written() =~= old(output).written() + class_bytes(*self, offset as int)); } }
//@end
}
proof fn lemma_kept(v: Seq<Cursor>, n: int)
    requires 0 <= n <= v.len()
    ensures kept(v.take(n)).len() <= kept(v).len()
    decreases v.len() - n
{ if n < v.len() { let t = v.take(n + 1); assert(t.drop_last() =~= v.take(n)); lemma_kept(v, n + 1); } else { assert(v.take(n) =~= v); } }

// ---------------------------------------------------------------- the file
pub open spec fn root(c: Config) -> Class { Class::Root { properties: c.0 } }
pub open spec fn config_len(c: Config) -> nat { class_len(root(c)) + 20 }
pub open spec fn magic() -> Seq<u8> { seq![0u8, 114, 97, 80, 0, 0, 0, 0, 8, 0, 0, 0] }
pub open spec fn config_bytes(c: Config) -> Seq<u8> { magic() + le32((16 + class_len(root(c))) as u32) + class_bytes(root(c), 16) + seq![0u8, 0, 0, 0] }
/// Vec<Property>::clone (derived)
#[verifier::external_body] pub fn same_properties(v: &Vec<Property>) -> (r: Vec<Property>) ensures r == *v { unimplemented!() }
impl Config {
//@extract libs/config/src/rapify/config.rs | impl Rapify for Config @ fn rapified_length
//@sub self\.0\.clone\(\) ==> same_properties(&self.0)
//@spec
    requires props_ok(self.0), config_len(*self) <= u32::MAX
    ensures r == config_len(*self)
//@end
//@extract libs/config/src/rapify/config.rs | impl Rapify for Config @ fn rapify
//@sub std::io::Write ==> Write
//@sub std::io::Error ==> IoError
//@sub self\.0\.clone\(\) ==> same_properties(&self.0)
//@sub (?s)let buffer: Box<\[u8\]> =\s*vec!\[0; (root_class\.rapified_length\(\))\]\.into_boxed_slice\(\) ==> let buffer: Zeros = Zeros::new(\1)
//@spec
    requires props_ok(self.0), config_len(*self) <= u32::MAX, old(output).room() >= config_len(*self)
    ensures r is Err ==> O::wfaulty(), r is Ok ==> r->Ok_0 == config_len(*self) && final(output).written() == old(output).written() + config_bytes(*self)
//@entry
    proof { lemma_class_len(root(*self), 16); }
//@exit
    proof { if tailv is Ok { assert(output.written() =~= old(output).written() + config_bytes(*self)); } }
//@end
}

// ---------------------------------------------------------------- reading it back
/// `b` stands at position p
pub open spec fn at(f: Seq<u8>, p: int, b: Seq<u8>) -> bool { 0 <= p && p + b.len() <= f.len() && f.subrange(p, p + b.len()) == b }
pub open spec fn de32(f: Seq<u8>, p: int) -> u32 { (f[p] as u32) | ((f[p + 1] as u32) << 8) | ((f[p + 2] as u32) << 16) | ((f[p + 3] as u32) << 24) }
/// a reader that starts at p finds class c: its parent, its properties in order, the address after it - going
/// to the body of each class by the address given in the property list
pub open spec fn reads_class(f: Seq<u8>, p: int, c: Class) -> bool
    decreases c
{
    match c {
        Class::External { .. } => false,
        Class::Local { properties, .. } => reads_front(f, p, c) && reads_props(f, p + cs(parent_name(c)).len() + enc(properties.len() as nat).len(), properties, properties.len() as nat),
        Class::Root { properties } => reads_front(f, p, c) && reads_props(f, p + cs(parent_name(c)).len() + enc(properties.len() as nat).len(), properties, properties.len() as nat),
    }
}
pub open spec fn reads_front(f: Seq<u8>, p: int, c: Class) -> bool {
    let n = props(c).len() as nat;
    let q = p + cs(parent_name(c)).len();
    at(f, p, cs(parent_name(c))) && at(f, q, enc(n)) && at(f, q + enc(n).len() + heads_len(props(c), n), le32((p + class_len(c)) as u32))
}
pub open spec fn reads_props(f: Seq<u8>, p: int, v: Vec<Property>, n: nat) -> bool
    decreases v, n
{ if n == 0 || n > v.len() { true } else { reads_props(f, p, v, (n - 1) as nat) && reads_prop(f, p + heads_len(v, (n - 1) as nat), v[n - 1]) } }
pub open spec fn reads_prop(f: Seq<u8>, p: int, x: Property) -> bool
    decreases x
{
    let q = p + code_bytes(x).len();
    let s = q + cs(name_of(x)).len();
    at(f, p, code_bytes(x)) && at(f, q, cs(name_of(x))) && (match x {
        Property::Entry { value, .. } => at(f, s, value_bytes(value)),
        Property::Class(c) => c is Local ==> s + 4 <= f.len() && reads_class(f, de32(f, s) as int, c),
        _ => true,
    })
}
/// a reader of the file finds config c, and the (empty) enum list where the header says it is
pub open spec fn reads_config(f: Seq<u8>, c: Config) -> bool {
    &&& at(f, 0, magic()) && f.len() >= 20 && reads_class(f, 16, root(c))
    &&& at(f, de32(f, 12) as int, seq![0u8, 0, 0, 0])
}
proof fn lemma_at(f: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires at(f, p, a + b)
    ensures at(f, p, a), at(f, p + a.len(), b)
{
    let w = f.subrange(p, p + a.len() + b.len());
    assert(f.subrange(p, p + a.len()) =~= w.take(a.len() as int)); assert(w.take(a.len() as int) =~= a);
    assert(f.subrange(p + a.len(), p + a.len() + b.len()) =~= w.skip(a.len() as int)); assert(w.skip(a.len() as int) =~= b);
}
proof fn lemma_de32(f: Seq<u8>, p: int, x: u32)
    requires at(f, p, le32(x))
    ensures de32(f, p) == x
{
    let w = f.subrange(p, p + 4);
    assert(w[0] == f[p] && w[1] == f[p + 1] && w[2] == f[p + 2] && w[3] == f[p + 3]);
    assert(((x & 0xff) as u8 as u32) | ((((x >> 8) & 0xff) as u8 as u32) << 8) | ((((x >> 16) & 0xff) as u8 as u32) << 16)
        | ((((x >> 24) & 0xff) as u8 as u32) << 24) == x) by (bit_vector);
}
proof fn lemma_reads_class(f: Seq<u8>, p: int, c: Class)
    requires at(f, p, class_bytes(c, p)), !(c is External), p + class_len(c) <= u32::MAX
    ensures reads_class(f, p, c)
    decreases c
{
    let v = props(c); let n = v.len() as nat; let first = first_body(c, p);
    let (a, b, h, e) = (cs(parent_name(c)), enc(n), heads(v, n, first), le32((p + class_len(c)) as u32));
    lemma_heads_len(v, n, first); lemma_bodies_len(v, n, first);
    lemma_at(f, p, before_bodies(c, p), bodies(v, n, first));
    lemma_at(f, p, a + b + h, e); lemma_at(f, p, a + b, h); lemma_at(f, p, a, b);
    assert(e.len() == 4);
    match c {
        Class::External { .. } => {},
        Class::Local { properties, .. } => { lemma_reads_props(f, p + a.len() + b.len(), properties, n, first); },
        Class::Root { properties } => { lemma_reads_props(f, p + a.len() + b.len(), properties, n, first); },
    }
}
proof fn lemma_reads_props(f: Seq<u8>, s: int, v: Vec<Property>, n: nat, first: int)
    requires at(f, s, heads(v, n, first)), at(f, first, bodies(v, n, first)), first + bodies_len(v, n) <= u32::MAX, n <= v.len()
    ensures reads_props(f, s, v, n)
    decreases v, n
{
    if n > 0 {
        let m = (n - 1) as nat; let x = v[n - 1]; let b = first + bodies_len(v, m);
        lemma_heads_len(v, m, first); lemma_bodies_len(v, m, first);
        lemma_at(f, s, heads(v, m, first), head(x, b));
        lemma_at(f, first, bodies(v, m, first), body(x, b));
        lemma_reads_props(f, s, v, m, first);
        let p = s + heads_len(v, m);
        let pay = match x { Property::Entry { value, .. } => value_bytes(value), Property::Class(Class::Local { .. }) => le32(b as u32), _ => Seq::empty() };
        lemma_at(f, p, code_bytes(x) + cs(name_of(x)), pay);
        lemma_at(f, p, code_bytes(x), cs(name_of(x)));
        if let Property::Class(c) = x {
            if c is Local {
                lemma_de32(f, p + code_bytes(x).len() + cs(name_of(x)).len(), b as u32);
                assert(body(x, b) == class_bytes(c, b));
                assert(body_len(x) == class_len(c));
                lemma_reads_class(f, b, c);
                assert(le32(b as u32).len() == 4);
                assert(reads_prop(f, p, x));
            } else { assert(reads_prop(f, p, x)); }
        } else { assert(reads_prop(f, p, x)); }
    }
}
/// What Config::rapify writes is read as the same config by following the addresses in it.
proof fn theorem_reads_back(c: Config)
    requires config_len(c) <= u32::MAX
    ensures reads_config(config_bytes(c), c), config_bytes(c).len() == config_len(c)
{
    let f = config_bytes(c); let r = root(c);
    lemma_class_len(r, 16);
    assert(at(f, 0, f)) by { assert(f.subrange(0, f.len() as int) =~= f); }
    let e = le32((16 + class_len(r)) as u32);
    lemma_at(f, 0, magic() + e + class_bytes(r, 16), seq![0u8, 0, 0, 0]);
    lemma_at(f, 0, magic() + e, class_bytes(r, 16));
    lemma_at(f, 0, magic(), e);
    lemma_de32(f, 12, (16 + class_len(r)) as u32);
    lemma_reads_class(f, 16, r);
}

// ---------------------------------------------------------------- nothing else reads the same
pub open spec fn number_same(a: Number, b: Number) -> bool {
    match (a, b) {
        (Number::Int32 { value: x, .. }, Number::Int32 { value: y, .. }) => x == y,
        (Number::Int64 { value: x, .. }, Number::Int64 { value: y, .. }) => x == y,
        (Number::Float32 { value: x, .. }, Number::Float32 { value: y, .. }) => bits(x) == bits(y),
        _ => false,
    }
}
pub open spec fn item_same(a: Item, b: Item) -> bool
    decreases a
{
    match (a, b) {
        (Item::Str(x), Item::Str(y)) => x.value@ == y.value@,
        (Item::Number(x), Item::Number(y)) => number_same(x, y),
        (Item::Array(x), Item::Array(y)) => x.len() == y.len() && items_same(x, y, x.len() as nat),
        _ => false,
    }
}
pub open spec fn items_same(v: Vec<Item>, w: Vec<Item>, n: nat) -> bool
    decreases v, n
{ if n == 0 || n > v.len() || n > w.len() { true } else { items_same(v, w, (n - 1) as nat) && item_same(v[n - 1], w[n - 1]) } }
pub open spec fn value_same(a: Value, b: Value) -> bool {
    match (a, b) {
        (Value::Str(x), Value::Str(y)) => x.value@ == y.value@,
        (Value::Number(x), Value::Number(y)) => number_same(x, y),
        (Value::Expression(x), Value::Expression(y)) => x.value@ == y.value@,
        (Value::Array(x), Value::Array(y)) => x.expand == y.expand && x.items.len() == y.items.len() && items_same(x.items, y.items, x.items.len() as nat),
        _ => false,
    }
}
pub open spec fn prop_same(a: Property, b: Property) -> bool
    decreases a
{
    &&& name_of(a) == name_of(b)
    &&& match (a, b) {
        (Property::Entry { value: x, .. }, Property::Entry { value: y, .. }) => value_same(x, y),
        (Property::Class(x), Property::Class(y)) => (x is Local <==> y is Local) && (x is Local ==> class_same(x, y)),
        (Property::Delete(_), Property::Delete(_)) => true,
        _ => false,
    }
}
pub open spec fn class_same(a: Class, b: Class) -> bool
    decreases a
{
    parent_name(a) == parent_name(b) && (match a {
        Class::External { .. } => b is External,
        Class::Local { properties, .. } => !(b is External) && properties.len() == props(b).len() && props_same(properties, props(b), properties.len() as nat),
        Class::Root { properties } => !(b is External) && properties.len() == props(b).len() && props_same(properties, props(b), properties.len() as nat),
    })
}
pub open spec fn props_same(v: Vec<Property>, w: Vec<Property>, n: nat) -> bool
    decreases v, n
{ if n == 0 || n > v.len() || n > w.len() { true } else { props_same(v, w, (n - 1) as nat) && prop_same(v[n - 1], w[n - 1]) } }
/// no NUL in any name or text
pub open spec fn plain(s: Seq<char>) -> bool { !encode_utf8(s).contains(0u8) }
pub open spec fn item_plain(i: Item) -> bool
    decreases i
{ match i { Item::Str(s) => plain(s.value@), Item::Array(a) => items_plain(a, a.len() as nat), _ => true } }
pub open spec fn items_plain(v: Vec<Item>, n: nat) -> bool
    decreases v, n
{ if n == 0 || n > v.len() { true } else { items_plain(v, (n - 1) as nat) && item_plain(v[n - 1]) } }
pub open spec fn prop_plain(p: Property) -> bool
    decreases p
{
    plain(name_of(p)) && match p {
        Property::Entry { value, .. } => match value { Value::Str(s) => plain(s.value@), Value::Expression(s) => plain(s.value@), Value::Array(a) => items_plain(a.items, a.items.len() as nat), _ => true },
        Property::Class(c) => class_plain(c),
        _ => true,
    }
}
pub open spec fn class_plain(c: Class) -> bool
    decreases c
{ plain(parent_name(c)) && match c { Class::External { .. } => true, Class::Local { properties, .. } => props_plain(properties, properties.len() as nat), Class::Root { properties } => props_plain(properties, properties.len() as nat) } }
pub open spec fn props_plain(v: Vec<Property>, n: nat) -> bool
    decreases v, n
{ if n == 0 || n > v.len() { true } else { props_plain(v, (n - 1) as nat) && prop_plain(v[n - 1]) } }

proof fn lemma_at_get(f: Seq<u8>, p: int, b: Seq<u8>, i: int)
    requires at(f, p, b), 0 <= i < b.len()
    ensures f[p + i] == b[i]
{ assert(f.subrange(p, p + b.len())[i] == b[i]); }
proof fn lemma_cs_same(f: Seq<u8>, p: int, a: Seq<char>, b: Seq<char>)
    requires at(f, p, cs(a)), at(f, p, cs(b)), plain(a), plain(b)
    ensures a == b
{
    let (x, y) = (encode_utf8(a), encode_utf8(b));
    lemma_at_get(f, p, cs(a), x.len() as int); lemma_at_get(f, p, cs(b), y.len() as int);
    if x.len() < y.len() { lemma_at_get(f, p, cs(b), x.len() as int); assert(y[x.len() as int] == 0); assert(y.contains(0u8)); }
    if y.len() < x.len() { lemma_at_get(f, p, cs(a), y.len() as int); assert(x[y.len() as int] == 0); assert(x.contains(0u8)); }
    assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by { lemma_at_get(f, p, cs(a), i); lemma_at_get(f, p, cs(b), i); }
    assert(x =~= y);
    encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b);
}
proof fn lemma_enc_same(f: Seq<u8>, p: int, a: nat, b: nat)
    requires at(f, p, enc(a)), at(f, p, enc(b))
    ensures a == b
{
    let t = f.skip(p);
    assert(t =~= enc(a) + t.skip(enc(a).len() as int)) by { assert(t.take(enc(a).len() as int) =~= f.subrange(p, p + enc(a).len())); }
    assert(t =~= enc(b) + t.skip(enc(b).len() as int)) by { assert(t.take(enc(b).len() as int) =~= f.subrange(p, p + enc(b).len())); }
    lemma_dec_enc(a, t.skip(enc(a).len() as int)); lemma_dec_enc(b, t.skip(enc(b).len() as int));
}
proof fn lemma_number_same(f: Seq<u8>, p: int, a: Number, b: Number)
    requires at(f, p, number_bytes(a)), at(f, p, number_bytes(b)), number_code(a) == number_code(b)
    ensures number_same(a, b), number_bytes(a).len() == number_bytes(b).len()
{
    match (a, b) {
        (Number::Int32 { value: x, .. }, Number::Int32 { value: y, .. }) => { lemma_de32(f, p, x as u32); lemma_de32(f, p, y as u32); assert((x as u32) == (y as u32) ==> x == y) by (bit_vector); },
        (Number::Int64 { value: x, .. }, Number::Int64 { value: y, .. }) => {
            let (u, w) = (x as u64, y as u64);
            lemma_at(f, p, le32((u & 0xffff_ffff) as u32), le32((u >> 32) as u32)); lemma_at(f, p, le32((w & 0xffff_ffff) as u32), le32((w >> 32) as u32));
            lemma_de32(f, p, (u & 0xffff_ffff) as u32); lemma_de32(f, p, (w & 0xffff_ffff) as u32);
            lemma_de32(f, p + 4, (u >> 32) as u32); lemma_de32(f, p + 4, (w >> 32) as u32);
            assert(((u & 0xffff_ffff) as u32) == ((w & 0xffff_ffff) as u32) && ((u >> 32) as u32) == ((w >> 32) as u32) ==> u == w) by (bit_vector);
            assert((x as u64) == (y as u64) ==> x == y) by (bit_vector);
        },
        (Number::Float32 { value: x, .. }, Number::Float32 { value: y, .. }) => { lemma_de32(f, p, bits(x)); lemma_de32(f, p, bits(y)); },
        _ => {},
    }
}
proof fn lemma_item_same(f: Seq<u8>, p: int, a: Item, b: Item)
    requires at(f, p, item_bytes(a)), at(f, p, item_bytes(b)), item_code(a) == item_code(b), item_ok(a), item_ok(b), item_plain(a), item_plain(b)
    ensures item_same(a, b), item_bytes(a).len() == item_bytes(b).len()
    decreases a
{
    match (a, b) {
        (Item::Str(x), Item::Str(y)) => { lemma_cs_same(f, p, x.value@, y.value@); },
        (Item::Number(x), Item::Number(y)) => { lemma_number_same(f, p, x, y); },
        (Item::Array(x), Item::Array(y)) => { lemma_array_same(f, p, x, y); },
        _ => {},
    }
}
proof fn lemma_array_same(f: Seq<u8>, p: int, x: Vec<Item>, y: Vec<Item>)
    requires at(f, p, array_bytes(x)), at(f, p, array_bytes(y)), items_ok(x), items_ok(y), items_plain(x, x.len() as nat), items_plain(y, y.len() as nat)
    ensures x.len() == y.len(), items_same(x, y, x.len() as nat), array_bytes(x).len() == array_bytes(y).len()
    decreases x, x.len() + 1
{
    lemma_at(f, p, enc(x.len() as nat), items_bytes(x, x.len() as nat)); lemma_at(f, p, enc(y.len() as nat), items_bytes(y, y.len() as nat));
    lemma_enc_same(f, p, x.len() as nat, y.len() as nat);
    lemma_items_same(f, p + enc(x.len() as nat).len(), x, y, x.len() as nat);
}
proof fn lemma_items_same(f: Seq<u8>, p: int, v: Vec<Item>, w: Vec<Item>, n: nat)
    requires n <= v.len(), n <= w.len(), at(f, p, items_bytes(v, n)), at(f, p, items_bytes(w, n)), items_ok(v), items_ok(w), items_plain(v, n), items_plain(w, n)
    ensures items_same(v, w, n), items_bytes(v, n).len() == items_bytes(w, n).len()
    decreases v, n
{
    if n > 0 {
        let m = (n - 1) as nat; let (a, b) = (v[n - 1], w[n - 1]);
        lemma_at(f, p, items_bytes(v, m) + seq![item_code(a)], item_bytes(a)); lemma_at(f, p, items_bytes(w, m) + seq![item_code(b)], item_bytes(b));
        lemma_at(f, p, items_bytes(v, m), seq![item_code(a)]); lemma_at(f, p, items_bytes(w, m), seq![item_code(b)]);
        lemma_items_same(f, p, v, w, m);
        lemma_at_get(f, p + items_bytes(v, m).len(), seq![item_code(a)], 0); lemma_at_get(f, p + items_bytes(w, m).len(), seq![item_code(b)], 0);
        lemma_item_same(f, p + items_bytes(v, m).len() + 1, a, b);
    }
}
proof fn lemma_code_same(f: Seq<u8>, p: int, x: Property, y: Property)
    requires at(f, p, code_bytes(x)), at(f, p, code_bytes(y)), prop_ok(x), prop_ok(y)
    ensures code_bytes(x) == code_bytes(y)
{
    lemma_at_get(f, p, code_bytes(x), 0); lemma_at_get(f, p, code_bytes(y), 0);
    if code_bytes(x)[0] == 1 { lemma_at_get(f, p, code_bytes(x), 1); lemma_at_get(f, p, code_bytes(y), 1); }
    assert(code_bytes(x) =~= code_bytes(y));
}
proof fn lemma_prop_same(f: Seq<u8>, p: int, x: Property, y: Property)
    requires reads_prop(f, p, x), reads_prop(f, p, y), prop_ok(x), prop_ok(y), prop_plain(x), prop_plain(y)
    ensures prop_same(x, y), head_len(x) == head_len(y)
    decreases x
{
    lemma_code_same(f, p, x, y);
    let q = p + code_bytes(x).len();
    lemma_cs_same(f, q, name_of(x), name_of(y));
    let s = q + cs(name_of(x)).len();
    let c = code_bytes(x);
    assert(c[0] == code_bytes(y)[0]);
    match (x, y) {
        (Property::Entry { value: a, .. }, Property::Entry { value: b, .. }) => {
            if c[0] == 1 { assert(c[1] == code_bytes(y)[1]); assert(value_code(a) == value_code(b)); }
            match (a, b) {
                (Value::Str(u), Value::Str(w)) => { lemma_cs_same(f, s, u.value@, w.value@); },
                (Value::Expression(u), Value::Expression(w)) => { lemma_cs_same(f, s, u.value@, w.value@); },
                (Value::Number(u), Value::Number(w)) => { lemma_number_same(f, s, u, w); },
                (Value::Array(u), Value::Array(w)) => { lemma_array_same(f, s, u.items, w.items); },
                _ => {},
            }
            assert(value_same(a, b));
        },
        (Property::Class(a), Property::Class(b)) => { if a is Local { lemma_class_same(f, de32(f, s) as int, a, b); } },
        _ => {},
    }
}
/// Two configs that a reader finds at the same place are the same.
proof fn lemma_class_same(f: Seq<u8>, p: int, a: Class, b: Class)
    requires reads_class(f, p, a), reads_class(f, p, b), class_ok(a), class_ok(b), class_plain(a), class_plain(b)
    ensures class_same(a, b)
    decreases a
{
    lemma_cs_same(f, p, parent_name(a), parent_name(b));
    let q = p + cs(parent_name(a)).len();
    lemma_enc_same(f, q, props(a).len() as nat, props(b).len() as nat);
    let s = q + enc(props(a).len() as nat).len();
    match a {
        Class::External { .. } => {},
        Class::Local { properties, .. } => { lemma_props_same(f, s, properties, props(b), properties.len() as nat); },
        Class::Root { properties } => { lemma_props_same(f, s, properties, props(b), properties.len() as nat); },
    }
}
proof fn lemma_props_same(f: Seq<u8>, p: int, v: Vec<Property>, w: Vec<Property>, n: nat)
    requires n <= v.len(), n <= w.len(), reads_props(f, p, v, n), reads_props(f, p, w, n), props_ok(v), props_ok(w), props_plain(v, n), props_plain(w, n)
    ensures props_same(v, w, n), heads_len(v, n) == heads_len(w, n)
    decreases v, n
{
    if n > 0 {
        lemma_props_same(f, p, v, w, (n - 1) as nat);
        lemma_prop_same(f, p + heads_len(v, (n - 1) as nat), v[n - 1], w[n - 1]);
    }
}
/// No other config is read from the file that was written for c.
proof fn theorem_nothing_else(c: Config, d: Config)
    requires config_len(c) <= u32::MAX, reads_config(config_bytes(c), d), props_ok(c.0), props_ok(d.0), class_plain(root(c)), class_plain(root(d))
    ensures class_same(root(c), root(d))
{ theorem_reads_back(c); lemma_class_same(config_bytes(c), 16, root(c), root(d)); }
}
fn main() {}
