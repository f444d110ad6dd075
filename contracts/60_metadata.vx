//@ file segment_metadata.rs
//@ prelude
    // What derive(::prost::Enumeration) generates: the protobuf number of the value.
    pub uninterp spec fn pb_num<T>(v: T) -> i32;
    impl From<ColumnType> for i32 { #[verifier::external_body] fn from(v: ColumnType) -> (r: i32) { unimplemented!() } }
    impl From<Encoding> for i32 { #[verifier::external_body] fn from(v: Encoding) -> (r: i32) { unimplemented!() } }
    impl From<IndexType> for i32 { #[verifier::external_body] fn from(v: IndexType) -> (r: i32) { unimplemented!() } }
    impl vstd::std_specs::convert::FromSpecImpl<ColumnType> for i32 {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: ColumnType) -> i32 { pb_num(v) }
    }
    impl vstd::std_specs::convert::FromSpecImpl<Encoding> for i32 {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: Encoding) -> i32 { pb_num(v) }
    }
    impl vstd::std_specs::convert::FromSpecImpl<IndexType> for i32 {
        open spec fn obeys_from_spec() -> bool { true }
        open spec fn from_spec(v: IndexType) -> i32 { pb_num(v) }
    }
