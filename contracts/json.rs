// Stand-in for the serde_json crate: values are an enum, objects are finite maps from texts to values.
/*vxmod:serde_json*/ pub mod serde_json {
    use vstd::prelude::*;
    use crate::strs::*;
    pub struct Error { x: u8 }
    impl crate::rt::Disp for Error { uninterp spec fn disp(&self) -> Seq<char>; }
    pub struct Number { x: u8 }
    pub struct Map { x: u8 }
    pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Map) }
    /// the entries of an object, and the order in which its keys are listed
    pub uninterp spec fn jm(m: Map) -> vstd::map::Map<Seq<char>, Value>;
    pub uninterp spec fn jkeys(m: Map) -> Seq<Seq<char>>;
    pub broadcast axiom fn jkeys_dom(m: Map, i: int) requires 0 <= i < jkeys(m).len() ensures jm(m).contains_key(#[trigger] jkeys(m)[i]);
    pub broadcast axiom fn jkeys_all(m: Map, k: Seq<char>) requires #[trigger] jm(m).contains_key(k) ensures exists|i: int| 0 <= i < jkeys(m).len() && #[trigger] jkeys(m)[i] == k;
    pub broadcast axiom fn jkeys_len(m: Map) ensures #[trigger] jkeys(m).len() == jm(m).dom().len(), jm(m).dom().finite();
    pub broadcast axiom fn map_eq(m: Map, n: Map) ensures #![trigger jm(m), jm(n)] jm(m) == jm(n) ==> m == n;
    pub broadcast axiom fn string_eq(a: String, b: String) ensures #![trigger a@, b@] a@ == b@ ==> a == b;

    /// field k of v
    pub open spec fn fld(v: Value, k: Seq<char>) -> Option<Value> { if v is Object && jm(v->Object_0).contains_key(k) { Some(jm(v->Object_0)[k]) } else { None } }
    /// field k of v, Null when there is none
    pub open spec fn fldn(v: Value, k: Seq<char>) -> Value { if v is Object && jm(v->Object_0).contains_key(k) { jm(v->Object_0)[k] } else { Value::Null } }
    pub open spec fn is_str(v: Value, t: Seq<char>) -> bool { v is String && v->String_0@ == t }
    pub open spec fn strof(v: Option<Value>) -> Option<Seq<char>> { if v is Some && v->Some_0 is String { Some(v->Some_0->String_0@) } else { None } }
    /// w is v with field k set to x (v an object, or Null, which becomes an object)
    pub open spec fn put(v: Value, k: Seq<char>, x: Value, w: Value) -> bool {
        w is Object && (v is Object ==> jm(w->Object_0) == jm(v->Object_0).insert(k, x)) && (v is Null ==> jm(w->Object_0) == vstd::map::Map::<Seq<char>, Value>::empty().insert(k, x))
    }
    pub uninterp spec fn jtext(v: Value) -> Seq<char>;

    pub trait Idx { spec fn key(&self) -> Seq<char>; }
    impl Idx for str { open spec fn key(&self) -> Seq<char> { self@ } }
    impl Idx for String { open spec fn key(&self) -> Seq<char> { self@ } }
    impl<T: Idx + ?Sized> Idx for &T { open spec fn key(&self) -> Seq<char> { (*self).key() } }

    impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
    impl Clone for Map { #[verifier::external_body] fn clone(&self) -> (r: Map) ensures r == *self { unimplemented!() } }
    impl Value {
        #[verifier::external_body] pub fn get<K: Idx>(&self, k: K) -> (r: Option<&Value>) ensures match fld(*self, k.key()) { Some(x) => r is Some && *(r->Some_0) == x, None => r is None } { unimplemented!() }
        pub fn as_str(&self) -> (r: Option<&str>) ensures self is String ==> r is Some && r->Some_0@ == self->String_0@, !(self is String) ==> r is None { match self { Value::String(s) => Some(s.as_str()), _ => None } }
        pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (if self is Bool { Some(self->Bool_0) } else { None::<bool> }) { match self { Value::Bool(b) => Some(*b), _ => None } }
        pub fn as_object(&self) -> (r: Option<&Map>) ensures self is Object ==> r is Some && *(r->Some_0) == self->Object_0, !(self is Object) ==> r is None { match self { Value::Object(o) => Some(o), _ => None } }
        pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures self is Array ==> r is Some && *(r->Some_0) == self->Array_0, !(self is Array) ==> r is None { match self { Value::Array(o) => Some(o), _ => None } }
        pub fn as_object_mut(&mut self) -> (r: Option<&mut Map>)
            ensures r is Some <==> *old(self) is Object, r is Some ==> *(r->Some_0) == (*old(self))->Object_0 && *final(self) == Value::Object(*final(r->Some_0)), r is None ==> *final(self) == *old(self)
        { match self { Value::Object(o) => Some(o), _ => None } }
        pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { match self { Value::Object(_) => true, _ => false } }
        pub fn is_string(&self) -> (r: bool) ensures r == (self is String) { match self { Value::String(_) => true, _ => false } }
        pub fn is_array(&self) -> (r: bool) ensures r == (self is Array) { match self { Value::Array(_) => true, _ => false } }
        pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { match self { Value::Null => true, _ => false } }
        pub fn is_boolean(&self) -> (r: bool) ensures r == (self is Bool) { match self { Value::Bool(_) => true, _ => false } }
        pub fn is_number(&self) -> (r: bool) ensures r == (self is Number) { match self { Value::Number(_) => true, _ => false } }
        #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == jtext(*self) { unimplemented!() }
    }
    impl Map {
        #[verifier::external_body] pub fn new() -> (r: Map) ensures jm(r) == vstd::map::Map::<Seq<char>, Value>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn get<K: Idx>(&self, k: K) -> (r: Option<&Value>) ensures jm(*self).contains_key(k.key()) ==> r is Some && *(r->Some_0) == jm(*self)[k.key()], !jm(*self).contains_key(k.key()) ==> r is None { unimplemented!() }
        #[verifier::external_body] pub fn contains_key<K: Idx>(&self, k: K) -> (r: bool) ensures r == jm(*self).contains_key(k.key()) { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures jm(*final(self)) == jm(*old(self)).insert(k@, v), r == (if jm(*old(self)).contains_key(k@) { Some(jm(*old(self))[k@]) } else { None::<Value> }) { unimplemented!() }
        #[verifier::external_body] pub fn remove<K: Idx>(&mut self, k: K) -> (r: Option<Value>) ensures jm(*final(self)) == jm(*old(self)).remove(k.key()), r == (if jm(*old(self)).contains_key(k.key()) { Some(jm(*old(self))[k.key()]) } else { None::<Value> }) { unimplemented!() }
        #[verifier::external_body] pub fn keys(&self) -> (r: Keys<'_>) ensures left(r) == jkeys(*self) { unimplemented!() }
        #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == jm(*self).dom().len() { unimplemented!() }
        #[verifier::external_body] pub fn vx_is_empty(&self) -> (r: bool) ensures r == (jkeys(*self).len() == 0) { unimplemented!() }
    }
    pub struct Keys<'a> { x: core::marker::PhantomData<&'a u8> }
    pub uninterp spec fn left<'a>(k: Keys<'a>) -> Seq<Seq<char>>;
    impl<'a> Keys<'a> {
        #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a String>)
            ensures left(*old(self)).len() > 0 ==> r is Some && r->Some_0@ == left(*old(self))[0] && left(*final(self)) == left(*old(self)).skip(1), left(*old(self)).len() == 0 ==> r is None && left(*final(self)) == left(*old(self)) { unimplemented!() }
    }

    // ---- reading and writing
    /// what the serde derives make of a value (uninterpreted: the derives are outside the extracted text)
    pub uninterp spec fn js_ok<T>(s: Seq<char>) -> bool;
    pub uninterp spec fn js_val<T>(s: Seq<char>) -> T;
    pub uninterp spec fn js_err<T>(s: Seq<char>) -> Seq<char>;
    pub uninterp spec fn to_ok<T: ?Sized>(x: &T) -> bool;
    pub uninterp spec fn to_val<T: ?Sized>(x: &T) -> Value;
    pub uninterp spec fn txt_ok<T: ?Sized>(x: &T) -> bool;
    pub uninterp spec fn txt<T: ?Sized>(x: &T) -> Seq<char>;
    pub uninterp spec fn txt_pretty<T: ?Sized>(x: &T) -> Seq<char>;
    pub broadcast axiom fn to_ref<T>(x: &&T) ensures #![trigger to_val::<&T>(x)] to_val::<&T>(x) == to_val::<T>(*x);
    pub broadcast axiom fn to_ok_ref<T>(x: &&T) ensures #![trigger to_ok::<&T>(x)] to_ok::<&T>(x) == to_ok::<T>(*x);
    #[verifier::external_body] pub fn from_str<T: crate::serde::Deserialize>(s: &str) -> (r: Result<T, Error>) ensures r is Ok <==> js_ok::<T>(s@), r is Ok ==> r->Ok_0 == js_val::<T>(s@) { unimplemented!() }
    #[verifier::external_body] pub fn to_value<T: crate::serde::Serialize>(x: T) -> (r: Result<Value, Error>) ensures r is Ok <==> to_ok(&x), r is Ok ==> r->Ok_0 == to_val(&x) { unimplemented!() }
    #[verifier::external_body] pub fn from_value<T: crate::serde::Deserialize>(v: Value) -> (r: Result<T, Error>) { unimplemented!() }
    #[verifier::external_body] pub fn to_string<T: crate::serde::Serialize + ?Sized>(x: &T) -> (r: Result<String, Error>) ensures r is Ok <==> txt_ok(x), r is Ok ==> r->Ok_0@ == txt(x) { unimplemented!() }
    #[verifier::external_body] pub fn to_string_pretty<T: crate::serde::Serialize + ?Sized>(x: &T) -> (r: Result<String, Error>) ensures r is Ok <==> txt_ok(x), r is Ok ==> r->Ok_0@ == txt_pretty(x) { unimplemented!() }

    // ---- json!
    pub fn json() { }
    /// v is the JSON form of self
    pub trait Jsn { spec fn js(&self, v: Value) -> bool; }
    impl Jsn for Value { open spec fn js(&self, v: Value) -> bool { v == *self } }
    impl Jsn for str { open spec fn js(&self, v: Value) -> bool { is_str(v, self@) } }
    impl Jsn for String { open spec fn js(&self, v: Value) -> bool { is_str(v, self@) } }
    impl Jsn for bool { open spec fn js(&self, v: Value) -> bool { v == Value::Bool(*self) } }
    impl Jsn for usize { uninterp spec fn js(&self, v: Value) -> bool; }
    impl<T: Jsn> Jsn for Vec<T> { open spec fn js(&self, v: Value) -> bool { v is Array && v->Array_0@.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).js(v->Array_0@[i]) } }
    impl<T: Jsn + ?Sized> Jsn for &T { open spec fn js(&self, v: Value) -> bool { (*self).js(v) } }
    #[verifier::external_body] pub fn obj() -> (r: Value) ensures r is Object, jm(r->Object_0) == vstd::map::Map::<Seq<char>, Value>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn arr() -> (r: Value) ensures r is Array, r->Array_0@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn with<K: Idx + ?Sized>(o: Value, k: &K, v: Value) -> (r: Value) requires o is Object ensures r is Object, jm(r->Object_0) == jm(o->Object_0).insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body] pub fn to_json<T: Jsn + ?Sized>(x: &T) -> (r: Value) ensures x.js(r) { unimplemented!() }
    /// a[k] = v
    #[verifier::external_body] pub fn index_set<K: Idx>(a: &mut Value, k: K, v: Value) requires *old(a) is Object || *old(a) is Null ensures put(*old(a), k.key(), v, *final(a)) { unimplemented!() }
}
/*vxmod:serde*/ pub mod serde {
    use vstd::prelude::*;
    pub trait Serialize { }
    pub trait Deserialize: Sized { }
    impl Serialize for crate::serde_json::Value { }
    impl Deserialize for crate::serde_json::Value { }
    impl<T: Serialize + ?Sized> Serialize for &T { }
    impl<T: Serialize> Serialize for Box<T> { }
}
