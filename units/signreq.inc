// ================= C18: requests =================
/// The tags that the formatter writes itself.
pub open spec fn own_tag(n: Seq<char>) -> bool {
    n == "v"@ || n == "a"@ || n == "b"@ || n == "bh"@ || n == "c"@ || n == "d"@ || n == "h"@ || n == "i"@ || n == "l"@ || n == "s"@ || n == "t"@ || n == "x"@ || n == "z"@
}
@@fn signer/format.rs::is_output_tag
@ret r
@spec
    ensures r == own_tag(name@),
@head
    broadcast use axiom_str_ext;
@@end
impl BodyLength {
@@fn signer/mod.rs::BodyLength::to_usize
@ret r
@replace TryFromIntError => VIntConvErr
@replace n.try_into().map(Some) => (match v_try_usize(n) { Ok(v_n) => Ok(Some(v_n)), Err(v_e) => Err(v_e) })
@spec
    ensures match r { Ok(x) => x == limit_of(self) && !too_long(self), Err(_) => too_long(self) },
@@end
}
pub open spec fn limit_of(b: BodyLength) -> Option<usize> { match b { BodyLength::Exact(n) => Some(n as usize), _ => None } }
pub open spec fn too_long(b: BodyLength) -> bool { b matches BodyLength::Exact(n) && n > usize::MAX }

pub open spec fn is_from() -> spec_fn(FieldName) -> bool { |n: FieldName| lower(n.0@) == lower("From"@) }
pub open spec fn names_from(s: Seq<FieldName>) -> bool { exists|i: int| 0 <= i < s.len() && is_from()(#[trigger] s[i]) }
pub open spec fn with_semi() -> spec_fn(FieldName) -> bool { |n: FieldName| n.0@.contains(';') }
pub open spec fn not_wsp() -> spec_fn(char) -> bool { |c: char| c != ' ' && c != '\t' }
pub open spec fn ext_ok(t: Seq<(String, String)>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> tag_name_ok((#[trigger] t[i]).0@) && tag_value_ok(t[i].1@) && !own_tag(t[i].0@)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@
}
pub open spec fn id_within(i: Identity, d: DomainName) -> bool { at_or_below(a_form(i.domain.0@), a_form(d.0@)) }
/// What makes a request unusable.
pub open spec fn unusable<T: VAsKey>(r: SignRequest<T>, e: RequestError) -> bool {
    match e {
        RequestError::IncompatibleKeyType => key_kind(r.signing_key.vkey()) != sig_key_type(r.algorithm),
        RequestError::FromHeaderNotSigned => r.header_selection matches HeaderSelection::Manual(h) && !names_from(h@),
        RequestError::InvalidSignedFieldName => r.header_selection matches HeaderSelection::Manual(h) && exists|i: int| 0 <= i < h@.len() && with_semi()(#[trigger] h@[i]),
        RequestError::DomainMismatch => r.identity matches Some(i) && !id_within(i, r.domain),
        RequestError::ZeroExpirationDuration => r.valid_duration matches Some(d) && d.secs == 0,
        RequestError::InvalidExtTags => !ext_ok(r.ext_tags@),
        RequestError::InvalidDkimSignatureHeaderName => lower(r.format.header_name@) != lower("DKIM-Signature"@),
        RequestError::InvalidIndentationWhitespace => r.format.indentation@.len() == 0 || exists|i: int| 0 <= i < r.format.indentation@.len() && not_wsp()(#[trigger] r.format.indentation@[i]),
        RequestError::Overflow => too_long(r.body_length),
        _ => false,
    }
}
/// A request that can be constructed.
pub open spec fn req_made<T>(r: SignRequest<T>) -> bool { domain_ok(r.domain) && (r.identity matches Some(i) ==> domain_ok(i.domain)) }
pub open spec fn key_kind(k: crypto::SigningKey) -> KeyType { match k { crypto::SigningKey::Rsa(_) => KeyType::Rsa, crypto::SigningKey::Ed25519(_) => KeyType::Ed25519 } }
pub open spec fn sig_key_type(a: SigningAlgorithm) -> KeyType { match a { SigningAlgorithm::RsaSha256 => KeyType::Rsa, SigningAlgorithm::Ed25519Sha256 => KeyType::Ed25519 } }
@@fn signer/mod.rs::validate_request
@ret r
@replace AsRef<SigningKey> => VAsKey
@replace $i_s.iter().any(|name| *name == "From") => v_any_by($i_s, Ghost(is_from()), |name: &FieldName| -> (v_b: bool) ensures v_b == is_from()(*name) { (*name).v_eq_str(&"From") })
@replace $i_s.iter().any(|name| name.as_ref().contains(';')) => v_any_by($i_s, Ghost(with_semi()), |name: &FieldName| -> (v_b: bool) ensures v_b == with_semi()(*name) { name.v_as_ref().v_contains_c(';') })
@replace HashSet::new() => VStrSet::new()
@replace tag_list::is_tag_name => is_tag_name
@replace tag_list::is_tag_value => is_tag_value
@replace format::is_output_tag => is_output_tag
@replace parse::is_wsp => is_wsp
@replace if request.ext_tags.iter().any(|(name, value)| { $e }) { $c } =>
let mut v_k: usize = 0;
let mut v_bad = false;
while v_k < request.ext_tags.len()
    invariant
        v_k <= request.ext_tags@.len(),
        !v_bad ==> ext_ok(request.ext_tags@.take(v_k as int)) && forall|n: Seq<char>| #[trigger] tags_seen@.contains(n) <==> exists|i: int| 0 <= i < v_k && (#[trigger] request.ext_tags@[i]).0@ == n,
        v_bad ==> !ext_ok(request.ext_tags@),
    decreases request.ext_tags@.len() - v_k,
{
    v_probe!();
    let v_p = &request.ext_tags[v_k];
    let name = &v_p.0;
    let value = &v_p.1;
    proof { lemma_ext_step(request.ext_tags@, v_k as int); }
    if $e { v_bad = true; }
    v_k = v_k + 1;
}
proof { assert(request.ext_tags@.take(request.ext_tags@.len() as int) =~= request.ext_tags@); }
if v_bad { $c }
@replace indent.is_empty() => v_is_empty_str(indent)
@replace indent.chars().any(|c| $e) => v_any_char(indent, Ghost(not_wsp()), |c: char| -> (v_b: bool) ensures v_b == not_wsp()(c) { $e })
@spec
    requires req_made(*request),
    ensures match r {
        Ok(_) => forall|e: RequestError| #[trigger] unusable(*request, e) ==> e is Overflow,
        Err(e) => unusable(*request, e) && !(e is Overflow),
    },
@@end
proof fn lemma_ext_step(t: Seq<(String, String)>, k: int)
    requires 0 <= k < t.len()
    ensures
        ext_ok(t.take(k + 1)) <==> ext_ok(t.take(k)) && tag_name_ok(t[k].0@) && tag_value_ok(t[k].1@) && !own_tag(t[k].0@) && forall|i: int| 0 <= i < k ==> (#[trigger] t[i]).0@ != t[k].0@,
        !ext_ok(t.take(k + 1)) ==> !ext_ok(t),
{
    let a = t.take(k);
    let b = t.take(k + 1);
    assert forall|i: int| 0 <= i < k implies a[i] == t[i] by {}
    assert forall|i: int| 0 <= i <= k implies b[i] == t[i] by {}
    if ext_ok(b) {
        assert forall|i: int| 0 <= i < a.len() implies tag_name_ok((#[trigger] a[i]).0@) && tag_value_ok(a[i].1@) && !own_tag(a[i].0@) by { assert(b[i] == a[i]); }
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0@ != (#[trigger] a[j]).0@ by { assert(b[i] == a[i] && b[j] == a[j]); }
        assert(b[k] == t[k]);
        assert forall|i: int| 0 <= i < k implies (#[trigger] t[i]).0@ != t[k].0@ by { assert(b[i] == t[i] && b[k] == t[k]); }
    }
    if ext_ok(a) && tag_name_ok(t[k].0@) && tag_value_ok(t[k].1@) && !own_tag(t[k].0@) && forall|i: int| 0 <= i < k ==> (#[trigger] t[i]).0@ != t[k].0@ {
        assert forall|i: int| 0 <= i < b.len() implies tag_name_ok((#[trigger] b[i]).0@) && tag_value_ok(b[i].1@) && !own_tag(b[i].0@) by { if i < k { assert(b[i] == a[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0@ != (#[trigger] b[j]).0@ by { if j < k { assert(b[i] == a[i] && b[j] == a[j]); } else { assert(b[i] == t[i]); } }
    }
    if ext_ok(t) {
        assert forall|i: int| 0 <= i < b.len() implies tag_name_ok((#[trigger] b[i]).0@) && tag_value_ok(b[i].1@) && !own_tag(b[i].0@) by { assert(b[i] == t[i]); }
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0@ != (#[trigger] b[j]).0@ by { assert(b[i] == t[i] && b[j] == t[j]); }
    }
}
/// Where the fields of a signer come from.
pub open spec fn accepted<T: VAsKey>(hs: Seq<HeaderField>, q: Seq<SignRequest<T>>) -> bool {
    &&& names_from(names_up(hs)) && 0 < q.len() <= 10
    &&& forall|i: int, e: RequestError| 0 <= i < q.len() ==> !#[trigger] unusable(q[i], e)
}
pub open spec fn rejected<T: VAsKey>(hs: Seq<HeaderField>, q: Seq<SignRequest<T>>, e: RequestError) -> bool {
    match e {
        RequestError::MissingFromHeader => !names_from(names_up(hs)),
        RequestError::TooManyRequests => q.len() > 10,
        RequestError::EmptyRequests => q.len() == 0,
        _ => exists|i: int| 0 <= i < q.len() && #[trigger] unusable(q[i], e),
    }
}
/// A rejection for a reason, and an acceptance only when there is none.
proof fn theorem_accepted<T: VAsKey>(hs: Seq<HeaderField>, q: Seq<SignRequest<T>>)
    ensures accepted(hs, q) <==> forall|e: RequestError| !#[trigger] rejected(hs, q, e)
{
    if forall|e: RequestError| !#[trigger] rejected(hs, q, e) {
        assert(!rejected(hs, q, RequestError::MissingFromHeader) && !rejected(hs, q, RequestError::TooManyRequests) && !rejected(hs, q, RequestError::EmptyRequests));
        assert forall|i: int, e: RequestError| 0 <= i < q.len() implies !#[trigger] unusable(q[i], e) by { assert(!rejected(hs, q, e)); }
    }
}
pub open spec fn sign_key<T>(r: SignRequest<T>) -> BodyHasherKey { (limit_of(r.body_length), HashAlgorithm::Sha256, r.canonicalization.body) }
impl<T> Signer<T> {
    pub open spec fn ready(&self, q: Seq<SignRequest<T>>) -> bool {
        &&& self.body_hasher.inv() && !self.body_hasher.fail_on_truncate
        &&& self.tasks@.len() == q.len()
        &&& forall|j: int| 0 <= j < q.len() ==> (#[trigger] self.tasks@[j]).request == q[j]
        &&& forall|j: int| 0 <= j < q.len() ==> self.body_hasher.hashers@.contains_key(sign_key(#[trigger] q[j]))
    }
}
pub open spec fn is_from_field() -> spec_fn(HeaderField) -> bool { |f: HeaderField| lower(f.0.0@) == lower("From"@) }
proof fn lemma_from(hs: Seq<HeaderField>)
    ensures names_from(names_up(hs)) <==> exists|i: int| 0 <= i < hs.len() && is_from_field()(#[trigger] hs[i])
{
    let u = names_up(hs);
    if exists|i: int| 0 <= i < hs.len() && is_from_field()(#[trigger] hs[i]) {
        let i = choose|i: int| 0 <= i < hs.len() && is_from_field()(#[trigger] hs[i]);
        assert(u[hs.len() - 1 - i] == hs[i].0);
        assert(is_from()(u[hs.len() - 1 - i]));
    }
    if names_from(u) {
        let i = choose|i: int| 0 <= i < u.len() && is_from()(#[trigger] u[i]);
        assert(hs[hs.len() - 1 - i].0 == u[i]);
        assert(is_from_field()(hs[hs.len() - 1 - i]));
    }
}
impl<T> Signer<T>
where
    T: VAsKey,
{
@@fn signer/mod.rs::Signer::prepare_signing
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@replace prepare_signing<I> => prepare_signing
@replace requests: I => requests: Vec<SignRequest<T>>
@replace I: IntoIterator<Item = SignRequest<T>>, => T: VAsKey,
@replace headers.as_ref().iter().any(|(name, _)| *name == "From") => v_any_by(headers.v_as_ref(), Ghost(is_from_field()), |v_f: &HeaderField| -> (v_b: bool) ensures v_b == is_from_field()(*v_f) { let (name, _) = v_f; (*name).v_eq_str(&"From") })
@replace let mut tasks = vec![]; => let mut tasks: Vec<SignerTask<T>> = vec![];
@replace request.body_length.to_usize().map_err(|_| $e)? => (match request.body_length.to_usize() { Ok(v_l) => { proof { assert forall|e: RequestError| !#[trigger] unusable(q[i as int], e) by { assert(request == q[i as int]); } } v_l } Err(_) => { proof { assert(request == q[i as int]); assert(unusable(q[i as int], RequestError::Overflow)); } return Err($e) } })
@replace for (i, request) in requests.into_iter().enumerate() { $b } =>
let ghost q = requests@;
let mut v_it = v_into_iter(requests);
let mut i: usize = 0;
loop
    invariant
        i <= 10, i <= q.len(), v_it@ == q.skip(i as int), tasks@.len() == i,
        body_hasher.fail_on_truncate == false,
        forall|j: int, e: RequestError| 0 <= j < i ==> !#[trigger] unusable(q[j], e),
        forall|j: int| 0 <= j < i ==> (#[trigger] tasks@[j]).request == q[j],
        forall|j: int| 0 <= j < i ==> body_hasher.registrations@.contains(sign_key(#[trigger] q[j])),
    ensures i == q.len(),
    decreases q.len() - i,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { assert(v_x == q[i as int]); assert(v_it@ =~= q.skip(i + 1)); }
            let request = v_x;
            $b
        }
        None => break,
    }
    i = i + 1;
}
@spec
    requires forall|j: int| 0 <= j < requests@.len() ==> req_made(#[trigger] requests@[j]),
    ensures match r {
        Ok(s) => accepted(headers.0@, requests@) && s.ready(requests@) && s.headers == headers && s.body_hasher.v_seen@ == Seq::<u8>::empty(),
        Err(e) => rejected(headers.0@, requests@, e),
    },
@head
    proof { lemma_from(headers.0@); }
@@end
@@fn signer/mod.rs::Signer::process_body_chunk
@ret r
@spec
    requires old(self).body_hasher.inv(), fits(old(self).body_hasher.v_seen@ + chunk@),
    ensures final(self).tasks == old(self).tasks, final(self).headers == old(self).headers,
        final(self).body_hasher.v_seen@ == old(self).body_hasher.v_seen@ + chunk@,
        final(self).body_hasher.inv(), final(self).body_hasher.fail_on_truncate == old(self).body_hasher.fail_on_truncate,
        final(self).body_hasher.hashers@.dom() =~= old(self).body_hasher.hashers@.dom(),
        r is Done ==> final(self).body_hasher.all_settled(),
@@end
}
