// ---------------------------------------------------------------- configs (the types of hemtt-config)
pub use std::ops::Range;
//@extract libs/config/src/model/number.rs | enum Number
//@end
//@extract libs/config/src/model/str.rs | struct Str
//@pub
//@end
//@extract libs/config/src/model/expression.rs | struct Expression
//@pub
//@end
//@extract libs/config/src/model/ident.rs | struct Ident
//@pub
//@end
//@extract libs/config/src/model/array.rs | enum Item
//@end
//@extract libs/config/src/model/array.rs | struct Array
//@pub
//@end
//@extract libs/config/src/model/value.rs | enum Value
//@end
//@extract libs/config/src/model/property.rs | enum Property
//@end
//@extract libs/config/src/model/class.rs | enum Class
//@end
