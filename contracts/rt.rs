// Run-time vocabulary: what the extracted text calls instead of `format!`, and the assumed
// contracts of the few std/regex functions the extracted functions use.
/*vxmod:rt*/ pub mod rt {
    use vstd::prelude::*; use vstd::string::StringSliceAdditionalSpecFns;
    pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
    pub assume_specification [str::trim](s: &str) -> (r: &str) ensures r@ == trim(s@);
    pub assume_specification<'b>[<String as From<&str>>::from](s: &str) -> (r: String) ensures r@ == s@;
    pub broadcast axiom fn str_bound(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX;
    pub assume_specification [String::len](s: &String) -> (r: usize) ensures r <= isize::MAX;
    pub assume_specification [String::with_capacity](n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
    pub assume_specification<'a> [<std::str::Chars<'a> as std::iter::Iterator>::count](c: std::str::Chars<'a>) -> (r: usize)
       ensures r == vstd::std_specs::iter::IteratorSpec::remaining(&c).len();
    /// Unicode White_Space, and its ASCII part as Rust has it
    pub open spec fn ws(c: char) -> bool { let n = c as u32; (9 <= n <= 13) || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || (0x2000 <= n <= 0x200a) || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000 }
    pub open spec fn aws(c: char) -> bool { let n = c as u32; n == 9 || n == 10 || n == 12 || n == 13 || n == 0x20 }
    pub broadcast proof fn cat(a: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + a) == a { assert(Seq::<char>::empty() + a =~= a); }
    pub trait Disp { spec fn disp(&self) -> Seq<char>; }
    impl Disp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
    impl Disp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
    impl Disp for usize { uninterp spec fn disp(&self) -> Seq<char>; }
    impl Disp for u32 { uninterp spec fn disp(&self) -> Seq<char>; }
    impl<T: Disp + ?Sized> Disp for &T { open spec fn disp(&self) -> Seq<char> { (*self).disp() } }
    #[verifier::external_body]
    pub fn lit(a: String, s: &str) -> (r: String) ensures r@ == a@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Disp + ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn dbg<T: ?Sized>(a: String, x: &T) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    pub fn none_it<'a, T>(i: &core::slice::Iter<'a, T>) -> (r: Option<&'a T>) ensures r is None { None }
    #[verifier::external_body]
    pub fn start() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
}
/*vxmod:regex*/ pub mod regex {
    use vstd::prelude::*;
    pub uninterp spec fn re_valid(p: Seq<char>) -> bool;
    /// unanchored search of pattern p in text t
    pub uninterp spec fn re_search(p: Seq<char>, t: Seq<char>) -> bool;
    pub struct Error { x: u8 }
    pub struct Regex { p: Ghost<Seq<char>> }
    impl Regex {
        pub closed spec fn pat(&self) -> Seq<char> { self.p@ }
        #[verifier::external_body]
        pub fn new(re: &str) -> (r: Result<Regex, Error>)
            ensures r is Ok <==> re_valid(re@), r is Ok ==> r->Ok_0.pat() == re@
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_match(&self, t: &str) -> (r: bool) ensures r == re_search(self.pat(), t@) { unimplemented!() }
    }
    /// text of group i of the first match of p in t
    pub uninterp spec fn re_cap(p: Seq<char>, t: Seq<char>, i: int) -> Option<Seq<char>>;
    pub struct Captures<'t> { p: Ghost<Seq<char>>, t: &'t str }
    pub struct Match<'t> { t: &'t str }
    impl Regex {
        #[verifier::external_body]
        pub fn captures<'t>(&self, t: &'t str) -> (r: Option<Captures<'t>>) ensures r is Some <==> re_search(self.pat(), t@), r is Some ==> r->Some_0.of(self.pat(), t@) { unimplemented!() }
    }
    impl<'t> Captures<'t> {
        pub closed spec fn of(&self, p: Seq<char>, t: Seq<char>) -> bool { self.p@ == p && self.t@ == t }
        pub closed spec fn g(&self, i: int) -> Option<Seq<char>> { re_cap(self.p@, self.t@, i) }
        pub broadcast proof fn g_is(&self, p: Seq<char>, t: Seq<char>, i: int) requires #[trigger] self.of(p, t) ensures #[trigger] self.g(i) == re_cap(p, t, i) { }
        #[verifier::external_body]
        pub fn get(&self, i: usize) -> (r: Option<Match<'t>>) ensures self.g(i as int) is Some ==> r is Some && r->Some_0.tx() == self.g(i as int)->Some_0, self.g(i as int) is None ==> r is None { unimplemented!() }
    }
    impl<'t> Match<'t> {
        pub closed spec fn tx(&self) -> Seq<char> { self.t@ }
        #[verifier::external_body]
        pub fn as_str(&self) -> (r: &'t str) ensures r@ == self.tx() { unimplemented!() }
    }
    impl crate::rt::Disp for Error { uninterp spec fn disp(&self) -> Seq<char>; }
}
