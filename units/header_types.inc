@@item header.rs::HeaderField
@@end
@@item header.rs::HeaderFieldError
@@end
@@item header.rs::FieldName
@@end
@@item header.rs::FieldBody
@@end
@@item header.rs::HeaderFields
@@end
impl VAsStr for FieldName {
    open spec fn vstr(&self) -> Seq<char> { self.0@ }
@@fn header.rs::FieldName::as_ref as v_as_ref
@nopub
@ret r
@@end
}
impl VAsStr for &FieldName {
    open spec fn vstr(&self) -> Seq<char> { self.0@ }
    fn v_as_ref(&self) -> (r: &str) { (**self).v_as_ref() }
}
impl VAsBytes for FieldBody {
    open spec fn vby(&self) -> Seq<u8> { self.0@ }
@@fn header.rs::FieldBody::as_ref as v_as_ref
@nopub
@ret r
@@end
}
impl VAsBytes for &FieldBody {
    open spec fn vby(&self) -> Seq<u8> { self.0@ }
    fn v_as_ref(&self) -> (r: &[u8]) { (**self).v_as_ref() }
}
impl HeaderFields {
@@fn header.rs::HeaderFields::as_ref as v_as_ref
@ret r
@spec
    ensures r@ == self.0@,
@@end
}
/// Header field names are equal when they differ in ASCII case only.
pub open spec fn same_name(a: FieldName, b: FieldName) -> bool { lower(a.0@) == lower(b.0@) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for FieldName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FieldName) -> bool { same_name(*self, *other) }
}
impl PartialEq for FieldName {
@@fn header.rs::FieldName<PartialEq>::eq
@nopub
@ret r
@@end
}
pub open spec fn wsp(b: u8) -> bool { b == 32 || b == 9 }

/// Every CRLF is followed by WSP, and there is no other CR or LF.
pub open spec fn folded_ok(v: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> {
        &&& (#[trigger] v[i] == 13 ==> i + 2 < v.len() && v[i + 1] == 10 && wsp(v[i + 2]))
        &&& (v[i] == 10 ==> i > 0 && v[i - 1] == 13)
    }
}
