// Stand-ins for quick_xml and the header type; the serde derives behind them are uninterpreted.
/*vxmod:quick_xml*/ pub mod quick_xml {
    pub mod de {
        use vstd::prelude::*;
        pub struct DeError { x: u8 }
        impl crate::rt::Disp for DeError { uninterp spec fn disp(&self) -> Seq<char>; }
        pub uninterp spec fn de_ok<T>(s: Seq<char>) -> bool;
        pub uninterp spec fn de_val<T>(s: Seq<char>) -> T;
        #[verifier::external_body] pub fn from_str<T: crate::serde::Deserialize>(s: &str) -> (r: Result<T, DeError>) ensures r is Ok <==> de_ok::<T>(s@), r is Ok ==> r->Ok_0 == de_val::<T>(s@) { unimplemented!() }
    }
    pub mod se {
        use vstd::prelude::*;
        pub struct SeError { x: u8 }
        impl crate::rt::Disp for SeError { uninterp spec fn disp(&self) -> Seq<char>; }
        pub uninterp spec fn se_ok<T: ?Sized>(x: &T) -> bool;
        pub uninterp spec fn se_text<T: ?Sized>(x: &T) -> Seq<char>;
        #[verifier::external_body] pub fn to_string<T: crate::serde::Serialize + ?Sized>(x: &T) -> (r: Result<String, SeError>) ensures r is Ok <==> se_ok(x), r is Ok ==> r->Ok_0@ == se_text(x) { unimplemented!() }
    }
}
/*vxmod:header*/ pub mod header {
    use vstd::prelude::*;
    pub struct AppHdr { pub msg_def_idr: String, pub x: u8 }
    impl crate::serde::Serialize for AppHdr { }
    impl crate::serde::Deserialize for AppHdr { }
}
