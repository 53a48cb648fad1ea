@@method into v_into
@@method parse v_parse
@@method as_ref v_as_ref
@@method eq_ignore_ascii_case v_eq_ignore_ascii_case
@@include sig_types.inc
// ---- trusted: more of core ----
/// `b.iter().all(f)` on the bytes of a string
#[verifier::external_body]
pub fn v_all_bytes<F: Fn(u8) -> bool>(b: &[u8], f: F) -> (r: bool)
    requires forall|x: u8| #[trigger] f.requires((x,)),
    ensures r ==> forall|i: int| 0 <= i < b@.len() ==> f.ensures((#[trigger] b@[i],), true),
        !r ==> exists|i: int| 0 <= i < b@.len() && f.ensures((#[trigger] b@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_string_utf8(b: Vec<u8>) -> (r: Result<String, VUtf8Error>)
    ensures match r { Ok(s) => utf8(s@) == b@, Err(_) => !is_utf8(b@) },
{ unimplemented!() }
/// `b.splitn(2, |&c| c == x)`
#[verifier::external_body]
pub struct VSplitN2<'a> { b: &'a [u8] }
impl<'a> View for VSplitN2<'a> { type V = Seq<Seq<u8>>; uninterp spec fn view(&self) -> Seq<Seq<u8>>; }
pub open spec fn first_b(s: Seq<u8>, c: u8) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let i = first_b(s.skip(1), c); if i < 0 { -1 } else { i + 1 } }
}
impl<'a> VSplitN2<'a> {
    #[verifier::external_body]
    pub fn v_new(b: &'a [u8], c: u8) -> (r: Self)
        ensures r@ == if first_b(b@, c) < 0 { seq![b@] } else { seq![b@.take(first_b(b@, c)), b@.skip(first_b(b@, c) + 1)] }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
// ----
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires utf8(a) == utf8(b)
    ensures a == b
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
@@fn tag_list.rs::parse_quoted_printable_value
@ret r
@replace quoted_printable::decode => decode
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: ParseTagListError) { $e })
@spec
    requires tag_value_ok(value@),
    ensures match r { Ok(v) => qp(value@) == Some(v@), Err(_) => qp(value@) is None },
@@end
/// qp-hdr = hdr-name ":" qp-hdr-value
pub open spec fn copied(v: Seq<char>, name: Seq<char>, value: Seq<u8>) -> bool {
    qp(v) matches Some(b) && first_b(b, 0x3a) >= 0 && utf8(name) == b.take(first_b(b, 0x3a)) && name_ok(name) && value == b.skip(first_b(b, 0x3a) + 1)
}
@@fn tag_list.rs::parse_quoted_printable_header_field
@ret r
@dropasserts
@replace quoted_printable::decode => decode
@replace $i_v.splitn(2, |&$i_c| $i_c == $e) => VSplitN2::v_new(&$i_v, $e)
@replace str::from_utf8 => v_from_utf8
@replace FieldName::new($x) => FieldName::new(v_box_str($x))
@replace value.into() => v_box_slice(value)
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: ParseTagListError) { $e })
@spec
    ensures match r { Ok((n, b)) => copied(value@, n.0@, b@), Err(_) => forall|n: Seq<char>, b: Seq<u8>| !#[trigger] copied(value@, n, b) },
@head
    proof {
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) implies a == b by { lemma_utf8_inj(a, b); }
    }
@@end
@@fn signature.rs::parse_number
@ret r
@replace $i_s.bytes().all(|$i_b| $e) => v_all_bytes($i_s.v_bytes(), |$i_b: u8| -> (v_r: bool) ensures v_r == is_digit_c($i_b as char) { $e })
@spec
    ensures r == number(s@),
@head
    proof { lemma_digit_bytes(s@); }
@@end
/// 1*DIGIT, in range
pub open spec fn number(s: Seq<char>) -> Option<u64> { if s.len() > 0 && digits(s) && dec(s) <= u64::MAX { Some(dec(s) as u64) } else { None } }
proof fn lemma_digit_bytes(s: Seq<char>)
    ensures digits(s) <==> forall|i: int| 0 <= i < utf8(s).len() ==> is_digit_c(#[trigger] utf8(s)[i] as char)
{
    let b = utf8(s);
    if forall|i: int| 0 <= i < b.len() ==> is_digit_c(#[trigger] b[i] as char) {
        let t = Seq::new(b.len(), |i: int| b[i] as char);
        assert forall|i: int| 0 <= i < t.len() implies is_ascii_c(#[trigger] t[i]) by { assert(is_digit_c(b[i] as char)); }
        vstd::utf8::is_ascii_chars_encode_utf8(t);
        assert(utf8(t) =~= b);
        lemma_utf8_inj(s, t);
        assert forall|i: int| 0 <= i < s.len() implies is_digit_c(#[trigger] s[i]) by { assert(is_digit_c(b[i] as char)); }
    }
    if digits(s) {
        assert forall|i: int| 0 <= i < s.len() implies is_ascii_c(#[trigger] s[i]) by {}
        vstd::utf8::is_ascii_chars_encode_utf8(s);
    }
}
// ================= algorithms =================
pub open spec fn sig_alg(s: Seq<char>) -> Option<SigningAlgorithm> {
    if eq_ic(s, "rsa-sha256"@) { Some(SigningAlgorithm::RsaSha256) } else if eq_ic(s, "ed25519-sha256"@) { Some(SigningAlgorithm::Ed25519Sha256) } else { None }
}
pub open spec fn canon_alg(s: Seq<char>) -> Option<CanonicalizationAlgorithm> {
    if eq_ic(s, "simple"@) { Some(CanonicalizationAlgorithm::Simple) } else if eq_ic(s, "relaxed"@) { Some(CanonicalizationAlgorithm::Relaxed) } else { None }
}
/// sig-c-tag-alg [ "/" sig-c-tag-alg ]
pub open spec fn canon_of(s: Seq<char>) -> Option<Canonicalization> {
    let i = first_c(s, '/');
    if i < 0 { match canon_alg(s) { Some(h) => Some(Canonicalization { header: h, body: CanonicalizationAlgorithm::Simple }), None => None } }
    else { match (canon_alg(s.take(i)), canon_alg(s.skip(i + 1))) { (Some(h), Some(b)) => Some(Canonicalization { header: h, body: b }), _ => None } }
}
impl VFromStr for SigningAlgorithm {
    type VErr = ParseAlgorithmError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, ParseAlgorithmError>) -> bool { match r { Ok(a) => sig_alg(s) == Some(a), Err(_) => sig_alg(s) is None } }
@@fn signature.rs::SigningAlgorithm<FromStr>::from_str as v_from_str
@nopub
@ret r
@replace Self::Err => Self::VErr
@@end
}
impl VFromStr for CanonicalizationAlgorithm {
    type VErr = ParseAlgorithmError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, ParseAlgorithmError>) -> bool { match r { Ok(a) => canon_alg(s) == Some(a), Err(_) => canon_alg(s) is None } }
@@fn signature.rs::CanonicalizationAlgorithm<FromStr>::from_str as v_from_str
@nopub
@ret r
@replace Self::Err => Self::VErr
@@end
}
#[verifier::external_body]
pub fn v_default_canon_alg() -> (r: CanonicalizationAlgorithm) ensures r is Simple { unimplemented!() }
#[verifier::external_body]
pub fn v_default_canon() -> (r: Canonicalization) ensures r.header is Simple, r.body is Simple { unimplemented!() }
proof fn lemma_first_c_split(s: Seq<char>, a: Seq<char>, c: char, b: Seq<char>)
    requires s == a + seq![c] + b, !a.contains(c)
    ensures first_c(s, c) == a.len(), s.take(a.len() as int) == a, s.skip(a.len() + 1int) == b,
{
    lemma_first_c(s, c);
    assert(s[a.len() as int] == c);
    let i = first_c(s, c);
    if 0 <= i < a.len() { assert(a[i] == s[i]); assert(a.contains(c)); }
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() + 1int) =~= b);
}
impl VFromStr for Canonicalization {
    type VErr = ParseAlgorithmError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, ParseAlgorithmError>) -> bool { match r { Ok(a) => canon_of(s) == Some(a), Err(_) => canon_of(s) is None } }
@@fn signature.rs::Canonicalization<FromStr>::from_str as v_from_str
@nopub
@ret r
@replace Self::Err => Self::VErr
@replace s.split_once('/') => v_split_once(s, '/')
@replace Default::default() => v_default_canon_alg()
@head
    proof {
        lemma_first_c(s@, '/');
        if !s@.contains('/') { assert(first_c(s@, '/') < 0); }
        assert forall|a: Seq<char>, b: Seq<char>| s@ == #[trigger] (a + seq!['/'] + b) && !a.contains('/') implies first_c(s@, '/') == a.len() && s@.take(a.len() as int) == a && s@.skip(a.len() + 1int) == b by { lemma_first_c_split(s@, a, '/', b); }
    }
@@end
}
impl SigningAlgorithm {
@@fn signature.rs::SigningAlgorithm::from_parts
@ret r
@spec
    ensures r == match (key_type, hash_alg) { (KeyType::Rsa, HashAlgorithm::Sha256) => Some(SigningAlgorithm::RsaSha256), (KeyType::Ed25519, HashAlgorithm::Sha256) => Some(SigningAlgorithm::Ed25519Sha256) },
@@end
@@fn signature.rs::SigningAlgorithm::key_type
@ret r
@spec
    ensures r == match self { SigningAlgorithm::RsaSha256 => KeyType::Rsa, SigningAlgorithm::Ed25519Sha256 => KeyType::Ed25519 },
@@end
@@fn signature.rs::SigningAlgorithm::hash_algorithm
@ret r
@spec
    ensures r is Sha256,
@@end
@@fn signature.rs::SigningAlgorithm<CanonicalStr>::canonical_str
@ret r
@spec
    ensures sig_alg(r@) == Some(*self), r@ == match self { SigningAlgorithm::RsaSha256 => "rsa-sha256"@, SigningAlgorithm::Ed25519Sha256 => "ed25519-sha256"@ },
@head
    proof { reveal_strlit("rsa-sha256"); reveal_strlit("ed25519-sha256"); assert(lower("rsa-sha256"@).len() != lower("ed25519-sha256"@).len()); }
@@end
}
// ================= RFC 6376, 3.5: the tags =================
/// i=: the quoted-printable encoding of an identity.
pub open spec fn id_parts(v: Seq<char>, l: Seq<char>, d: Seq<char>) -> bool {
    qp(v) matches Some(b) && exists|s: Seq<char>| #[trigger] utf8(s) == b && identity_parts(s, l, d)
}
pub open spec fn id_valid(v: Seq<char>) -> bool { exists|l: Seq<char>, d: Seq<char>| #[trigger] id_parts(v, l, d) }
pub open spec fn copied_valid(v: Seq<char>) -> bool { exists|n: Seq<char>, b: Seq<u8>| #[trigger] copied(v, n, b) }
pub open spec fn has_from(l: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < l.len() && eq_ic(#[trigger] l[i], "From"@) }
pub open spec fn has_dns_txt(l: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < l.len() && eq_ic(#[trigger] l[i], "dns/txt"@) }
pub open spec fn all_names(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> name_ok(#[trigger] l[i]) }
pub open spec fn all_copied(l: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < l.len() ==> copied_valid(#[trigger] l[i]) }
pub type SigErr = DkimSignatureErrorKind;
/// A rule that this tag violates.
pub open spec fn sig_tag_bad(t: Tag, e: SigErr) -> bool {
    let v = t.value;
    if t.name == "v"@ { e is IncompatibleVersion && v != "1"@ }
    else if t.name == "a"@ { sig_alg(v) is None && if eq_ic(v, "rsa-sha1"@) { e is HistoricAlgorithm } else { e is UnsupportedAlgorithm } }
    else if t.name == "b"@ { match b64(no_ws(v)) { None => e is InvalidBase64, Some(x) => x.len() == 0 && e is EmptySignatureTag } }
    else if t.name == "bh"@ { match b64(no_ws(v)) { None => e is InvalidBase64, Some(x) => x.len() == 0 && e is EmptyBodyHashTag } }
    else if t.name == "c"@ { e is UnsupportedCanonicalization && canon_of(v) is None }
    else if t.name == "d"@ { e is InvalidDomain && !name_valid(v, true) }
    else if t.name == "h"@ { (e is EmptySignedHeadersTag && v.len() == 0) || (e is InvalidSignedHeaderName && !all_names(items(v))) || (e is FromHeaderNotSigned && !has_from(items(v))) }
    else if t.name == "i"@ { e is InvalidIdentity && !id_valid(v) }
    else if t.name == "l"@ { e is InvalidBodyLength && number(v) is None }
    else if t.name == "q"@ { (e is InvalidQueryMethod && has_empty(items(v))) || (e is NoSupportedQueryMethods && !has_dns_txt(items(v))) }
    else if t.name == "s"@ { e is InvalidSelector && !name_valid(v, false) }
    else if t.name == "t"@ { e is InvalidTimestamp && number(v) is None }
    else if t.name == "x"@ { e is InvalidExpiration && number(v) is None }
    else if t.name == "z"@ { e is InvalidCopiedHeaderField && !all_copied(pieces(v, '|')) }
    else { false }
}
/// It violates none.
pub open spec fn sig_tag_fine(t: Tag) -> bool {
    let v = t.value;
    if t.name == "v"@ { v == "1"@ }
    else if t.name == "a"@ { sig_alg(v) is Some }
    else if t.name == "b"@ || t.name == "bh"@ { b64(no_ws(v)) matches Some(x) && x.len() > 0 }
    else if t.name == "c"@ { canon_of(v) is Some }
    else if t.name == "d"@ { name_valid(v, true) }
    else if t.name == "h"@ { v.len() > 0 && all_names(items(v)) && has_from(items(v)) }
    else if t.name == "i"@ { id_valid(v) }
    else if t.name == "l"@ || t.name == "t"@ || t.name == "x"@ { number(v) is Some }
    else if t.name == "q"@ { !has_empty(items(v)) && has_dns_txt(items(v)) }
    else if t.name == "s"@ { name_valid(v, false) }
    else if t.name == "z"@ { all_copied(pieces(v, '|')) }
    else { true }
}
proof fn theorem_tag_fine(t: Tag)
    ensures sig_tag_fine(t) <==> forall|e: SigErr| !#[trigger] sig_tag_bad(t, e)
{
    lemma_sig_lits();
    if !sig_tag_fine(t) {
        let e = if t.name == "v"@ { SigErr::IncompatibleVersion }
            else if t.name == "a"@ { if eq_ic(t.value, "rsa-sha1"@) { SigErr::HistoricAlgorithm } else { SigErr::UnsupportedAlgorithm } }
            else if t.name == "b"@ { if b64(no_ws(t.value)) is None { SigErr::InvalidBase64 } else { SigErr::EmptySignatureTag } }
            else if t.name == "bh"@ { if b64(no_ws(t.value)) is None { SigErr::InvalidBase64 } else { SigErr::EmptyBodyHashTag } }
            else if t.name == "c"@ { SigErr::UnsupportedCanonicalization }
            else if t.name == "d"@ { SigErr::InvalidDomain }
            else if t.name == "h"@ { if t.value.len() == 0 { SigErr::EmptySignedHeadersTag } else if !all_names(items(t.value)) { SigErr::InvalidSignedHeaderName } else { SigErr::FromHeaderNotSigned } }
            else if t.name == "i"@ { SigErr::InvalidIdentity }
            else if t.name == "l"@ { SigErr::InvalidBodyLength }
            else if t.name == "q"@ { if has_empty(items(t.value)) { SigErr::InvalidQueryMethod } else { SigErr::NoSupportedQueryMethods } }
            else if t.name == "s"@ { SigErr::InvalidSelector }
            else if t.name == "t"@ { SigErr::InvalidTimestamp }
            else if t.name == "x"@ { SigErr::InvalidExpiration }
            else { SigErr::InvalidCopiedHeaderField };
        assert(sig_tag_bad(t, e));
    }
}
pub open spec fn missing(tags: Seq<Tag>, e: SigErr) -> bool {
    (e is MissingVersionTag && lookup(tags, "v"@) is None) || (e is MissingAlgorithmTag && lookup(tags, "a"@) is None)
    || (e is MissingSignatureTag && lookup(tags, "b"@) is None) || (e is MissingBodyHashTag && lookup(tags, "bh"@) is None)
    || (e is MissingDomainTag && lookup(tags, "d"@) is None) || (e is MissingSignedHeadersTag && lookup(tags, "h"@) is None)
    || (e is MissingSelectorTag && lookup(tags, "s"@) is None)
}
/// The identity domain is the signing domain or below it.
pub open spec fn identity_within(tags: Seq<Tag>) -> bool {
    forall|l: Seq<char>, d: Seq<char>| lookup(tags, "i"@) is Some && #[trigger] id_parts(lookup(tags, "i"@)->0, l, d) ==> at_or_below(a_form(d), a_form(lookup(tags, "d"@)->0))
}
pub open spec fn expires_later(tags: Seq<Tag>) -> bool {
    lookup(tags, "t"@) is Some && lookup(tags, "x"@) is Some ==> number(lookup(tags, "x"@)->0)->0 > number(lookup(tags, "t"@)->0)->0
}
pub open spec fn sig_tags_fine(tags: Seq<Tag>, n: int) -> bool { forall|i: int| 0 <= i < n ==> sig_tag_fine(#[trigger] tags[i]) }
/// Every rule holds.
pub open spec fn sig_ok(tags: Seq<Tag>) -> bool {
    sig_tags_fine(tags, tags.len() as int) && (forall|e: SigErr| !#[trigger] missing(tags, e)) && identity_within(tags) && expires_later(tags)
}
/// A rule that the signature violates.
pub open spec fn sig_violates(tags: Seq<Tag>, e: SigErr) -> bool {
    (exists|i: int| 0 <= i < tags.len() && sig_tag_bad(#[trigger] tags[i], e)) || missing(tags, e)
    || (e is DomainMismatch && !identity_within(tags)) || (e is ExpirationNotAfterTimestamp && !expires_later(tags))
}
proof fn theorem_sig_ok(tags: Seq<Tag>)
    ensures sig_ok(tags) <==> forall|e: SigErr| !sig_violates(tags, e)
{
    if !sig_tags_fine(tags, tags.len() as int) {
        let i = choose|i: int| 0 <= i < tags.len() && !sig_tag_fine(#[trigger] tags[i]);
        theorem_tag_fine(tags[i]);
        let e = choose|e: SigErr| #[trigger] sig_tag_bad(tags[i], e);
        assert(sig_violates(tags, e));
    } else {
        assert forall|i: int, e: SigErr| 0 <= i < tags.len() implies !#[trigger] sig_tag_bad(tags[i], e) by { theorem_tag_fine(tags[i]); }
    }
    if exists|e: SigErr| #[trigger] missing(tags, e) { let e = choose|e: SigErr| #[trigger] missing(tags, e); assert(sig_violates(tags, e)); }
    if !identity_within(tags) { assert(sig_violates(tags, SigErr::DomainMismatch)); }
    if !expires_later(tags) { assert(sig_violates(tags, SigErr::ExpirationNotAfterTimestamp)); }
}
pub open spec fn sig_known() -> ISet<Seq<char>> {
    ISet::new(|n: Seq<char>| n == "v"@ || n == "a"@ || n == "b"@ || n == "bh"@ || n == "c"@ || n == "d"@ || n == "h"@ || n == "i"@ || n == "l"@ || n == "q"@ || n == "s"@ || n == "t"@ || n == "x"@ || n == "z"@)
}
pub open spec fn h_names(h: Seq<FieldName>) -> Seq<Seq<char>> { h.map_values(|n: FieldName| n.0@) }
pub open spec fn copied_data(l: Seq<Seq<char>>, h: Seq<(FieldName, Box<[u8]>)>) -> bool {
    h.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> copied(#[trigger] l[i], h[i].0.0@, h[i].1@)
}
pub open spec fn local_of(i: Identity) -> Seq<char> { match i.local_part { Some(l) => l@, None => seq![] } }
pub open spec fn num_of(v: Option<Seq<char>>) -> Option<u64> { match v { Some(v) => number(v), None => None } }
/// What the signature says.
pub open spec fn sig_data(tags: Seq<Tag>, r: DkimSignature) -> bool {
    &&& Some(r.algorithm) == sig_alg(lookup(tags, "a"@)->0)
    &&& Some(r.signature_data@) == b64(no_ws(lookup(tags, "b"@)->0))
    &&& Some(r.body_hash@) == b64(no_ws(lookup(tags, "bh"@)->0))
    &&& match lookup(tags, "c"@) { Some(v) => Some(r.canonicalization) == canon_of(v), None => r.canonicalization.header is Simple && r.canonicalization.body is Simple }
    &&& r.domain.0@ == lookup(tags, "d"@)->0
    &&& h_names(r.signed_headers@) == items(lookup(tags, "h"@)->0)
    &&& match lookup(tags, "i"@) { Some(v) => r.identity matches Some(i) && identity_ok(i) && id_parts(v, local_of(i), i.domain.0@), None => r.identity is None }
    &&& r.body_length == num_of(lookup(tags, "l"@))
    &&& r.selector.0@ == lookup(tags, "s"@)->0
    &&& r.timestamp == num_of(lookup(tags, "t"@))
    &&& r.expiration == num_of(lookup(tags, "x"@))
    &&& match lookup(tags, "z"@) { Some(v) => copied_data(pieces(v, '|'), r.copied_headers@), None => r.copied_headers@.len() == 0 }
    &&& ext_view(r.ext_tags@) == others(tags, sig_known())
}
impl DkimSignatureError {
@@fn signature.rs::DkimSignatureError::new
@ret r
@spec
    ensures r.kind == kind,
@@end
}
proof fn lemma_id_unique(v: Seq<char>, l: Seq<char>, d: Seq<char>, l2: Seq<char>, d2: Seq<char>)
    requires id_parts(v, l, d), id_parts(v, l2, d2)
    ensures l == l2, d == d2
{
    let s = choose|s: Seq<char>| #[trigger] utf8(s) == qp(v)->0 && identity_parts(s, l, d);
    let s2 = choose|s: Seq<char>| #[trigger] utf8(s) == qp(v)->0 && identity_parts(s, l2, d2);
    lemma_utf8_inj(s, s2);
    lemma_last_at(s, l, d, l2, d2);
}
#[verifier::external_body]
pub fn v_any_name<F: Fn(&FieldName) -> bool>(s: &Vec<FieldName>, f: F) -> (r: bool)
    requires forall|x: &FieldName| #[trigger] f.requires((x,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false),
{ unimplemented!() }
/// The variable for a tag holds what the tags read so far say.
pub open spec fn in_a(o: Option<Seq<char>>, x: Option<SigningAlgorithm>) -> bool { match o { Some(v) => x matches Some(x) && sig_alg(v) == Some(x), None => x is None } }
pub open spec fn in_b(o: Option<Seq<char>>, x: Option<Box<[u8]>>) -> bool { match o { Some(v) => x matches Some(x) && b64(no_ws(v)) == Some(x@) && x@.len() > 0, None => x is None } }
pub open spec fn in_bh(o: Option<Seq<char>>, x: Option<Box<[u8]>>) -> bool { match o { Some(v) => x matches Some(x) && b64(no_ws(v)) == Some(x@) && x@.len() > 0, None => x is None } }
pub open spec fn in_c(o: Option<Seq<char>>, x: Option<Canonicalization>) -> bool { match o { Some(v) => x matches Some(x) && canon_of(v) == Some(x), None => x is None } }
pub open spec fn in_d(o: Option<Seq<char>>, x: Option<DomainName>) -> bool { match o { Some(v) => x matches Some(x) && x.0@ == v && domain_ok(x), None => x is None } }
pub open spec fn in_h(o: Option<Seq<char>>, x: Option<Box<[FieldName]>>) -> bool { match o { Some(v) => x matches Some(x) && h_names(x@) == items(v), None => x is None } }
pub open spec fn in_i(o: Option<Seq<char>>, x: Option<Identity>) -> bool { match o { Some(v) => x matches Some(x) && identity_ok(x) && id_parts(v, local_of(x), x.domain.0@), None => x is None } }
pub open spec fn in_l(o: Option<Seq<char>>, x: Option<u64>) -> bool { match o { Some(v) => x matches Some(x) && number(v) == Some(x), None => x is None } }
pub open spec fn in_s(o: Option<Seq<char>>, x: Option<Selector>) -> bool { match o { Some(v) => x matches Some(x) && x.0@ == v && selector_ok(x), None => x is None } }
pub open spec fn in_t(o: Option<Seq<char>>, x: Option<u64>) -> bool { match o { Some(v) => x matches Some(x) && number(v) == Some(x), None => x is None } }
pub open spec fn in_x(o: Option<Seq<char>>, x: Option<u64>) -> bool { match o { Some(v) => x matches Some(x) && number(v) == Some(x), None => x is None } }
pub open spec fn in_z(o: Option<Seq<char>>, x: Option<Box<[(FieldName, Box<[u8]>)]>>) -> bool { match o { Some(v) => x matches Some(x) && copied_data(pieces(v, '|'), x@), None => x is None } }
proof fn lemma_sig_lits()
    ensures "v"@ != "a"@, "v"@ != "b"@, "v"@ != "bh"@, "v"@ != "c"@, "v"@ != "d"@, "v"@ != "h"@, "v"@ != "i"@, "v"@ != "l"@, "v"@ != "q"@, "v"@ != "s"@, "v"@ != "t"@, "v"@ != "x"@, "v"@ != "z"@, "a"@ != "b"@, "a"@ != "bh"@, "a"@ != "c"@, "a"@ != "d"@, "a"@ != "h"@, "a"@ != "i"@, "a"@ != "l"@, "a"@ != "q"@, "a"@ != "s"@, "a"@ != "t"@, "a"@ != "x"@, "a"@ != "z"@, "b"@ != "bh"@, "b"@ != "c"@, "b"@ != "d"@, "b"@ != "h"@, "b"@ != "i"@, "b"@ != "l"@, "b"@ != "q"@, "b"@ != "s"@, "b"@ != "t"@, "b"@ != "x"@, "b"@ != "z"@, "bh"@ != "c"@, "bh"@ != "d"@, "bh"@ != "h"@, "bh"@ != "i"@, "bh"@ != "l"@, "bh"@ != "q"@, "bh"@ != "s"@, "bh"@ != "t"@, "bh"@ != "x"@, "bh"@ != "z"@, "c"@ != "d"@, "c"@ != "h"@, "c"@ != "i"@, "c"@ != "l"@, "c"@ != "q"@, "c"@ != "s"@, "c"@ != "t"@, "c"@ != "x"@, "c"@ != "z"@, "d"@ != "h"@, "d"@ != "i"@, "d"@ != "l"@, "d"@ != "q"@, "d"@ != "s"@, "d"@ != "t"@, "d"@ != "x"@, "d"@ != "z"@, "h"@ != "i"@, "h"@ != "l"@, "h"@ != "q"@, "h"@ != "s"@, "h"@ != "t"@, "h"@ != "x"@, "h"@ != "z"@, "i"@ != "l"@, "i"@ != "q"@, "i"@ != "s"@, "i"@ != "t"@, "i"@ != "x"@, "i"@ != "z"@, "l"@ != "q"@, "l"@ != "s"@, "l"@ != "t"@, "l"@ != "x"@, "l"@ != "z"@, "q"@ != "s"@, "q"@ != "t"@, "q"@ != "x"@, "q"@ != "z"@, "s"@ != "t"@, "s"@ != "x"@, "s"@ != "z"@, "t"@ != "x"@, "t"@ != "z"@, "x"@ != "z"@,
{
    reveal_strlit("v"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("bh"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("h"); reveal_strlit("i"); reveal_strlit("l"); reveal_strlit("q"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("x"); reveal_strlit("z"); assert("v"@[0] == 'v'); assert("a"@[0] == 'a'); assert("b"@[0] == 'b'); assert("c"@[0] == 'c'); assert("d"@[0] == 'd'); assert("h"@[0] == 'h'); assert("i"@[0] == 'i'); assert("l"@[0] == 'l'); assert("q"@[0] == 'q'); assert("s"@[0] == 's'); assert("t"@[0] == 't'); assert("x"@[0] == 'x'); assert("z"@[0] == 'z'); assert("bh"@.len() == 2); assert("b"@.len() == 1);
}
impl DkimSignature {
@@fn signature.rs::DkimSignature::from_tag_list_internal
@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(120)]
@ret r
@loops 4
@replace let mut algorithm = None; => let mut algorithm: Option<SigningAlgorithm> = None;
@replace let mut signature_data = None; => let mut signature_data: Option<Box<[u8]>> = None;
@replace let mut body_hash = None; => let mut body_hash: Option<Box<[u8]>> = None;
@replace let mut canonicalization = None; => let mut canonicalization: Option<Canonicalization> = None;
@replace let mut domain = None; => let mut domain: Option<DomainName> = None;
@replace let mut signed_headers = None; => let mut signed_headers: Option<Box<[FieldName]>> = None;
@replace let mut identity = None; => let mut identity: Option<Identity> = None;
@replace let mut body_length = None; => let mut body_length: Option<u64> = None;
@replace let mut selector = None; => let mut selector: Option<Selector> = None;
@replace let mut timestamp = None; => let mut timestamp: Option<u64> = None;
@replace let mut expiration = None; => let mut expiration: Option<u64> = None;
@replace let mut copied_headers = None; => let mut copied_headers: Option<Box<[(FieldName, Box<[u8]>)]>> = None;
@replace let mut ext_tags = vec![]; => let mut ext_tags: Vec<(Box<str>, Box<str>)> = vec![];
@replace let mut sh = vec![]; => let mut sh: Vec<FieldName> = vec![];
@replace let mut headers = vec![]; => let mut headers: Vec<(FieldName, Box<[u8]>)> = vec![];
@replace value.parse().map_err(|_| { $e }) => value.v_parse::<SigningAlgorithm>().map_err(|v_u| -> (v_e: DkimSignatureErrorKind) ensures v_e == (if eq_ic(value@, "rsa-sha1"@) { DkimSignatureErrorKind::HistoricAlgorithm } else { DkimSignatureErrorKind::UnsupportedAlgorithm }) { $e })
@replace value.parse() => value.v_parse()
@replace tag_list::parse_colon_separated_value => parse_colon_separated_value
@replace tag_list::parse_quoted_printable_value => parse_quoted_printable_value
@replace tag_list::parse_quoted_printable_header_field => parse_quoted_printable_header_field
@replace tag_list::parse_base64_value => parse_base64_value
@replace .map_err(|_| $i_a::$i_b) => .map_err(|v_u| -> (v_e: DkimSignatureErrorKind) ensures v_e == $i_a::$i_b { $i_a::$i_b })
@replace FieldName::new($x) => FieldName::new(v_box_str($x))
@replace sh.iter().any(|$i_h| *$i_k == $e) => v_any_name(&sh, |$i_h: &FieldName| -> (v_b: bool) ensures v_b == eq_ic($i_h.0@, $e@) { (*$i_k).v_eq_str(&$e) })
@replace String::from_utf8 => v_string_utf8
@replace value.split('|') => v_split_vec(value, '|')
@replace canonicalization.unwrap_or_default() => (match canonicalization { Some(v_x) => v_x, None => v_default_canon() })
@replace copied_headers.unwrap_or_default() => (match copied_headers { Some(v_x) => v_x, None => v_default_box() })
@spec
    requires values_ok(tags_of(tag_list.0@)), distinct_names(tags_of(tag_list.0@)),
    ensures match r { Ok(r) => sig_ok(tags_of(tag_list.0@)) && sig_data(tags_of(tag_list.0@), r), Err(e) => sig_violates(tags_of(tag_list.0@), e) },
@head
    hide(lookup); hide(others); hide(items); hide(qp); hide(lower); hide(pieces); hide(number); hide(canon_of); hide(at_or_below); hide(name_valid); hide(identity_parts); hide(in_a); hide(in_b); hide(in_bh); hide(in_c); hide(in_d); hide(in_h); hide(in_i); hide(in_l); hide(in_s); hide(in_t); hide(in_x); hide(in_z);
    broadcast use axiom_str_ext;
    let ghost tags = tags_of(tag_list.0@);
    proof {
        assert forall|a: Seq<char>, b: Seq<char>| #[trigger] utf8(a) == #[trigger] utf8(b) implies a == b by { lemma_utf8_inj(a, b); }
        lemma_sig_lits(); assert(tags.take(0) =~= seq![]); assert(tags.take(tags.len() as int) =~= tags); lemma_lookup_none(); assert(in_a(None, None)) by { reveal(in_a); } assert(in_b(None, None)) by { reveal(in_b); } assert(in_bh(None, None)) by { reveal(in_bh); } assert(in_c(None, None)) by { reveal(in_c); } assert(in_d(None, None)) by { reveal(in_d); } assert(in_h(None, None)) by { reveal(in_h); } assert(in_i(None, None)) by { reveal(in_i); } assert(in_l(None, None)) by { reveal(in_l); } assert(in_s(None, None)) by { reveal(in_s); } assert(in_t(None, None)) by { reveal(in_t); } assert(in_x(None, None)) by { reveal(in_x); } assert(in_z(None, None)) by { reveal(in_z); } }
@loop 0 index
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@ == tag_list.0@,
        sig_tags_fine(tags, v_i0 as int),
        version_seen == lookup(tags.take(v_i0 as int), "v"@) is Some,
        in_a(lookup(tags.take(v_i0 as int), "a"@), algorithm),
        in_b(lookup(tags.take(v_i0 as int), "b"@), signature_data),
        in_bh(lookup(tags.take(v_i0 as int), "bh"@), body_hash),
        in_c(lookup(tags.take(v_i0 as int), "c"@), canonicalization),
        in_d(lookup(tags.take(v_i0 as int), "d"@), domain),
        in_h(lookup(tags.take(v_i0 as int), "h"@), signed_headers),
        in_i(lookup(tags.take(v_i0 as int), "i"@), identity),
        in_l(lookup(tags.take(v_i0 as int), "l"@), body_length),
        in_s(lookup(tags.take(v_i0 as int), "s"@), selector),
        in_t(lookup(tags.take(v_i0 as int), "t"@), timestamp),
        in_x(lookup(tags.take(v_i0 as int), "x"@), expiration),
        in_z(lookup(tags.take(v_i0 as int), "z"@), copied_headers),
        ext_view(ext_tags@) == others(tags.take(v_i0 as int), sig_known()),
    decreases v_seq0@.len() - v_i0,
@loop 0 head
    let ghost gi = v_i0 as int;
    let ghost ext0 = ext_view(ext_tags@);
    proof {
        lemma_take_next(tags, gi);
        assert(tags[gi] == tag_of(v_seq0@[gi]));
        assert forall|v: Seq<char>| true implies #[trigger] items(v).take(0) == Seq::<Seq<char>>::empty() by { assert(items(v).take(0) =~= seq![]); }
        assert forall|v: Seq<char>| true implies #[trigger] pieces(v, '|').take(0) == Seq::<Seq<char>>::empty() by { assert(pieces(v, '|').take(0) =~= seq![]); }
    }
@loop 0 tail
    proof {
        assert(ext_view(ext_tags@) =~= if sig_known().contains(tags[gi].name) { ext0 } else { ext0.push((tags[gi].name, tags[gi].value)) });
        let t = tags[gi];
        if t.name == "i"@ { assert(id_parts(t.value, local_of(identity->0), identity->0.domain.0@)); }
        assert(sig_tag_fine(t));
        assert(in_a(lookup(tags.take(v_i0 as int), "a"@), algorithm)) by { if t.name == "a"@ { reveal(in_a); } }
        assert(in_b(lookup(tags.take(v_i0 as int), "b"@), signature_data)) by { if t.name == "b"@ { reveal(in_b); } }
        assert(in_bh(lookup(tags.take(v_i0 as int), "bh"@), body_hash)) by { if t.name == "bh"@ { reveal(in_bh); } }
        assert(in_c(lookup(tags.take(v_i0 as int), "c"@), canonicalization)) by { if t.name == "c"@ { reveal(in_c); } }
        assert(in_d(lookup(tags.take(v_i0 as int), "d"@), domain)) by { if t.name == "d"@ { reveal(in_d); } }
        assert(in_h(lookup(tags.take(v_i0 as int), "h"@), signed_headers)) by { if t.name == "h"@ { reveal(in_h); } }
        assert(in_i(lookup(tags.take(v_i0 as int), "i"@), identity)) by { if t.name == "i"@ { reveal(in_i); } }
        assert(in_l(lookup(tags.take(v_i0 as int), "l"@), body_length)) by { if t.name == "l"@ { reveal(in_l); } }
        assert(in_s(lookup(tags.take(v_i0 as int), "s"@), selector)) by { if t.name == "s"@ { reveal(in_s); } }
        assert(in_t(lookup(tags.take(v_i0 as int), "t"@), timestamp)) by { if t.name == "t"@ { reveal(in_t); } }
        assert(in_x(lookup(tags.take(v_i0 as int), "x"@), expiration)) by { if t.name == "x"@ { reveal(in_x); } }
        assert(in_z(lookup(tags.take(v_i0 as int), "z"@), copied_headers)) by { if t.name == "z"@ { reveal(in_z); } }
    }
@loop 0 after
    proof {
        reveal(in_a);
        reveal(in_b);
        reveal(in_bh);
        reveal(in_c);
        reveal(in_d);
        reveal(in_h);
        reveal(in_i);
        reveal(in_l);
        reveal(in_s);
        reveal(in_t);
        reveal(in_x);
        reveal(in_z);
        assert forall|l: Seq<char>, d: Seq<char>| lookup(tags, "i"@) is Some && #[trigger] id_parts(lookup(tags, "i"@)->0, l, d) implies l == local_of(identity->0) && d == identity->0.domain.0@ by { lemma_id_unique(lookup(tags, "i"@)->0, l, d, local_of(identity->0), identity->0.domain.0@); }
    }
@loop 1 index copy
@loop 1 spec
    invariant
        v_i1 <= v_seq1@.len(), str_views(v_seq1@) == items(value@), h_names(sh@) == items(value@).take(v_i1 as int),
        forall|j: int| 0 <= j < v_i1 ==> name_ok(#[trigger] items(value@)[j]),
    decreases v_seq1@.len() - v_i1,
@loop 1 head
    proof { assert(str_views(v_seq1@).len() == v_seq1@.len()); assert(str_views(v_seq1@)[v_i1 as int] == v_seq1@[v_i1 as int]@); lemma_take_item(items(value@), v_i1 as int); }
    let ghost sh0 = h_names(sh@);
@loop 1 tail
    proof { assert(h_names(sh@) =~= sh0.push(sh@.last().0@)); assert(items(value@).take(v_i1 as int) =~= items(value@).take(v_i1 - 1).push(items(value@)[v_i1 - 1])); }
@loop 1 after
    proof {
        assert(str_views(v_seq1@).len() == v_seq1@.len()); assert(items(value@).take(v_i1 as int) =~= items(value@));
        assert forall|i: int| 0 <= i < sh@.len() implies #[trigger] items(value@)[i] == sh@[i].0@ by { assert(h_names(sh@)[i] == sh@[i].0@); }
        assert(sh@.len() == items(value@).len());
        assert forall|i: int| 0 <= i < sh@.len() implies items(value@)[i] == (#[trigger] sh@[i]).0@ by {}
    }
@loop 2 index copy
@loop 2 spec
    invariant
        v_i2 <= v_seq2@.len(), str_views(v_seq2@) == items(value@),
        forall|j: int| 0 <= j < v_i2 ==> (#[trigger] items(value@)[j]).len() > 0,
        dns_txt_seen == exists|j: int| 0 <= j < v_i2 && eq_ic(#[trigger] items(value@)[j], "dns/txt"@),
    decreases v_seq2@.len() - v_i2,
@loop 2 head
    proof { assert(str_views(v_seq2@).len() == v_seq2@.len()); assert(str_views(v_seq2@)[v_i2 as int] == v_seq2@[v_i2 as int]@); }
@loop 2 after
    proof { assert(str_views(v_seq2@).len() == v_seq2@.len()); }
@loop 3 index copy
@loop 3 spec
    invariant
        v_i3 <= v_seq3@.len(), str_views(v_seq3@) == pieces(value@, '|'), headers@.len() == v_i3,
        forall|j: int| 0 <= j < v_i3 ==> copied(#[trigger] pieces(value@, '|')[j], headers@[j].0.0@, headers@[j].1@),
    decreases v_seq3@.len() - v_i3,
@loop 3 head
    let ghost pvalue = value@;
    proof { assert(str_views(v_seq3@).len() == v_seq3@.len()); assert(str_views(v_seq3@)[v_i3 as int] == v_seq3@[v_i3 as int]@); }
@loop 3 after
    proof { assert(str_views(v_seq3@).len() == v_seq3@.len()); }
@@end
@@fn signature.rs::DkimSignature::from_tag_list
@attr
#[verifier::loop_isolation(false)]
@ret r
@loops 1
@replace let mut algorithm_str = None; => let mut algorithm_str: Option<Box<str>> = None;
@replace let mut signature_data_str = None; => let mut signature_data_str: Option<Box<str>> = None;
@replace let mut domain_str = None; => let mut domain_str: Option<Box<str>> = None;
@replace let mut identity_str = None; => let mut identity_str: Option<Box<str>> = None;
@replace let mut selector_str = None; => let mut selector_str: Option<Box<str>> = None;
@replace Self::from_tag_list_internal($x).map_err(|$i_k| {$b}) => (match Self::from_tag_list_internal($x) { Ok(v_x) => Ok(v_x), Err($i_k) => Err({ $b }) })
@spec
    requires values_ok(tags_of(tag_list.0@)), distinct_names(tags_of(tag_list.0@)),
    ensures match r { Ok(r) => sig_ok(tags_of(tag_list.0@)) && sig_data(tags_of(tag_list.0@), r), Err(e) => sig_violates(tags_of(tag_list.0@), e.kind) && sig_err_data(tags_of(tag_list.0@), e) },
@head
    hide(lookup); hide(others); hide(sig_ok); hide(sig_data); hide(sig_violates);
    broadcast use axiom_str_ext;
    let ghost tags = tags_of(tag_list.0@);
    proof { lemma_sig_lits(); assert(tags.take(0) =~= seq![]); assert(tags.take(tags.len() as int) =~= tags); lemma_lookup_none(); }
@loop 0 index
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@ == tag_list.0@,
        raw_str(lookup(tags.take(v_i0 as int), "a"@), algorithm_str),
        raw_str(lookup(tags.take(v_i0 as int), "b"@), signature_data_str),
        raw_str(lookup(tags.take(v_i0 as int), "d"@), domain_str),
        raw_str(lookup(tags.take(v_i0 as int), "i"@), identity_str),
        raw_str(lookup(tags.take(v_i0 as int), "s"@), selector_str),
    decreases v_seq0@.len() - v_i0,
@loop 0 head
    proof { lemma_take_next(tags, v_i0 as int); assert(tags[v_i0 as int] == tag_of(v_seq0@[v_i0 as int])); }
@@end
@@fn signature.rs::DkimSignature<FromStr>::from_str
@ret r
@replace .map_err(|_| $e)? => .map_err(|v_u| -> (v_e: DkimSignatureError) ensures v_e.kind is TagListFormat { $e })?
@replace Self::Err => DkimSignatureError
@spec
    ensures match r {
        Ok(r) => exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) && distinct_names(tags) && sig_ok(tags) && sig_data(tags, r),
        Err(e) => (e.kind is TagListFormat && forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) ==> !distinct_names(tags))
            || exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) && distinct_names(tags) && sig_violates(tags, e.kind) && sig_err_data(tags, e),
    },
@head
    hide(sig_ok); hide(sig_data); hide(sig_violates); hide(sig_err_data);
    proof {
        assert forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) implies values_ok(tags) by { lemma_values_ok(s@, tags); }
        assert forall|a: Seq<Tag>, b: Seq<Tag>| #[trigger] tag_list_ok(s@, a) && #[trigger] tag_list_ok(s@, b) implies a == b by { theorem_tag_list(s@, a); theorem_tag_list(s@, b); }
    }
@@end
}
pub open spec fn raw_str(v: Option<Seq<char>>, s: Option<Box<str>>) -> bool { match v { Some(v) => s matches Some(s) && s@ == v, None => s is None } }
/// The raw tag values reported along with an error.
pub open spec fn sig_err_data(tags: Seq<Tag>, e: DkimSignatureError) -> bool {
    &&& raw_str(lookup(tags, "a"@), e.algorithm_str)
    &&& raw_str(lookup(tags, "b"@), e.signature_data_str)
    &&& raw_str(lookup(tags, "d"@), e.domain_str)
    &&& raw_str(lookup(tags, "i"@), e.identity_str)
    &&& raw_str(lookup(tags, "s"@), e.selector_str)
}
