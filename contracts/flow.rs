// Stand-ins for dataflow_rs, datafake_rs, datalogic_rs and chrono, with the contracts the handlers use them by.
/*vxmod:dataflow_rs*/ pub mod dataflow_rs {
    pub mod engine {
        use vstd::prelude::*;
        use std::sync::Arc;
        use crate::serde_json::*;
        use self::message::{Message, Change};
        pub mod error {
            use vstd::prelude::*;
            pub enum DataflowError {
                Validation(String), FunctionExecution { context: String, source: Option<Box<DataflowError>> }, Workflow(String), Task(String), FunctionNotFound(String), Deserialization(String),
                Io(String), LogicEvaluation(String), Http { status: u16, message: String }, Timeout(String), Unknown(String),
            }
            pub type Result<T> = std::result::Result<T, DataflowError>;
            impl crate::rt::Disp for DataflowError { uninterp spec fn disp(&self) -> Seq<char>; }
            impl DataflowError {
                #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() }
                #[verifier::external_body] pub fn function_execution<S: Into<String>>(context: S, source: Option<DataflowError>) -> (r: DataflowError) { unimplemented!() }
            }
        }
        pub mod message {
            use vstd::prelude::*;
            use std::sync::Arc;
            use crate::serde_json::*;
            pub struct AuditTrail { x: u8 }
            pub struct ErrorInfo { x: u8 }
            pub struct Message { pub id: String, pub payload: Arc<Value>, pub context: Value, pub audit_trail: Vec<AuditTrail>, pub errors: Vec<ErrorInfo>, pub vx_cache: Option<Arc<Value>> }
            pub struct Change { pub path: Arc<str>, pub old_value: Arc<Value>, pub new_value: Arc<Value> }
            pub open spec fn ctx_ok(v: Value) -> bool { v is Object || v is Null }
            /// one part of the context is lent out: the rest of the message stays as it is
            pub open spec fn lends(a: Message, b: Message, k: Seq<char>, x: Value) -> bool {
                put(a.context, k, x, b.context) && b.id == a.id && b.payload == a.payload && b.audit_trail == a.audit_trail && b.errors == a.errors && b.cached() == a.cached()
            }
            impl Message {
                /// the context as it was when it was last asked for, if nothing invalidated it since
                pub open spec fn cached(&self) -> Option<Arc<Value>> { self.vx_cache }
                pub open spec fn data_(&self) -> Value { fldn(self.context, "data"@) }
                pub open spec fn meta_(&self) -> Value { fldn(self.context, "metadata"@) }
                pub open spec fn temp_(&self) -> Value { fldn(self.context, "temp_data"@) }
                #[verifier::external_body] pub fn data(&self) -> (r: &Value) ensures *r == self.data_() { unimplemented!() }
                #[verifier::external_body] pub fn metadata(&self) -> (r: &Value) ensures *r == self.meta_() { unimplemented!() }
                #[verifier::external_body] pub fn temp_data(&self) -> (r: &Value) ensures *r == self.temp_() { unimplemented!() }
                #[verifier::external_body] pub fn data_mut(&mut self) -> (r: &mut Value) requires ctx_ok(old(self).context) ensures *r == old(self).data_(), lends(*old(self), *final(self), "data"@, *final(r)) { unimplemented!() }
                #[verifier::external_body] pub fn metadata_mut(&mut self) -> (r: &mut Value) requires ctx_ok(old(self).context) ensures *r == old(self).meta_(), lends(*old(self), *final(self), "metadata"@, *final(r)) { unimplemented!() }
                #[verifier::external_body] pub fn temp_data_mut(&mut self) -> (r: &mut Value) requires ctx_ok(old(self).context) ensures *r == old(self).temp_(), lends(*old(self), *final(self), "temp_data"@, *final(r)) { unimplemented!() }
                #[verifier::external_body] pub fn invalidate_context_cache(&mut self)
                    ensures final(self).cached() is None, final(self).context == old(self).context, final(self).id == old(self).id, final(self).payload == old(self).payload, final(self).audit_trail == old(self).audit_trail, final(self).errors == old(self).errors { unimplemented!() }
                #[verifier::external_body] pub fn get_context_arc(&mut self) -> (r: Arc<Value>)
                    ensures final(self).cached() == Some(r), old(self).cached() is Some ==> r == old(self).cached()->Some_0, old(self).cached() is None ==> *r == old(self).context,
                        final(self).context == old(self).context, final(self).id == old(self).id, final(self).payload == old(self).payload, final(self).audit_trail == old(self).audit_trail, final(self).errors == old(self).errors { unimplemented!() }
                #[verifier::external_body] pub fn add_error(&mut self, e: ErrorInfo) { unimplemented!() }
                #[verifier::external_body] pub fn has_errors(&self) -> (r: bool) ensures r == (self.errors@.len() > 0) { unimplemented!() }
            }
        }
        pub struct MapConfig { x: u8 }
        pub struct ValidationConfig { x: u8 }
        pub enum MapName { Map }
        pub enum ValidationName { Validation }
        pub enum FunctionConfig { Map { name: MapName, input: MapConfig }, Validation { name: ValidationName, input: ValidationConfig }, Custom { name: String, input: Value } }
        pub trait AsyncFunctionHandler { fn execute(&self, message: &mut Message, config: &FunctionConfig, datalogic: Arc<crate::datalogic_rs::DataLogic>) -> (r: error::Result<(usize, Vec<Change>)>); }
    }
}
/*vxmod:datalogic_rs*/ pub mod datalogic_rs { pub struct DataLogic { x: u8 } }
/*vxmod:datafake_rs*/ pub mod datafake_rs {
    use vstd::prelude::*;
    use crate::serde_json::Value;
    pub struct DataGenerator { x: u8 }
    pub struct DataFakeError { x: u8 }
    impl crate::rt::Disp for DataFakeError { uninterp spec fn disp(&self) -> Seq<char>; }
    /// the scenario a generator was made from, and what a generator may generate (random)
    pub uninterp spec fn gen_ok(v: Value) -> bool;
    pub uninterp spec fn gen_of(g: DataGenerator) -> Value;
    pub uninterp spec fn gen_may(v: Value, r: Value) -> bool;
    impl DataGenerator {
        #[verifier::external_body] pub fn from_value(v: Value) -> (r: std::result::Result<DataGenerator, DataFakeError>) ensures r is Ok <==> gen_ok(v), r is Ok ==> gen_of(r->Ok_0) == v { unimplemented!() }
        #[verifier::external_body] pub fn generate(&self) -> (r: std::result::Result<Value, DataFakeError>) ensures r is Ok ==> gen_may(gen_of(*self), r->Ok_0) { unimplemented!() }
    }
}
/*vxmod:chrono*/ pub mod chrono {
    use vstd::prelude::*;
    pub struct Utc { x: u8 }
    pub struct DateTime { x: u8 }
    impl Utc { #[verifier::external_body] pub fn now() -> (r: DateTime) { unimplemented!() } }
    impl DateTime { #[verifier::external_body] pub fn to_rfc3339(&self) -> (r: String) { unimplemented!() } }
}
/*vxmod:arcs*/ pub mod arcs {
    use vstd::prelude::*;
    use std::sync::Arc;
    pub assume_specification [<Arc<str> as From<String>>::from](s: String) -> (r: Arc<str>) ensures r@ == s@;
    pub assume_specification<'b> [<Arc<str> as From<&str>>::from](s: &str) -> (r: Arc<str>) ensures r@ == s@;
}
