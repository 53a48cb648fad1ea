@@method into_boxed_slice v_boxed_slice
@@method into_boxed_str v_boxed_str
@@method clone v_clone
// ---- trusted: clones, boxes, key sizes ----
/// A copy is the same value.
pub trait VClone: Sized { spec fn vsame(&self, r: Self) -> bool; fn v_clone(&self) -> (r: Self) ensures self.vsame(r); }
impl VClone for Box<[u8]> { open spec fn vsame(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for Vec<FieldName> { open spec fn vsame(&self, r: Self) -> bool { r@ == self@ } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
impl VClone for FieldName { open spec fn vsame(&self, r: Self) -> bool { r == *self } #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VBoxed: Sized { spec fn vtxt(&self) -> Seq<char>; fn v_boxed_str(self) -> (r: Box<str>) ensures r@ == self.vtxt(); }
impl VBoxed for String { open spec fn vtxt(&self) -> Seq<char> { self@ } fn v_boxed_str(self) -> (r: Box<str>) { v_string_box(self) } }
pub trait VBoxedBytes: Sized { spec fn vbs(&self) -> Seq<u8>; fn v_boxed_slice(self) -> (r: Box<[u8]>) ensures r@ == self.vbs(); }
impl VBoxedBytes for Vec<u8> { open spec fn vbs(&self) -> Seq<u8> { self@ } fn v_boxed_slice(self) -> (r: Box<[u8]>) { v_box_bytes(self) } }
impl VInto<String> for &String {
    open spec fn vinto(&self, t: String) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: String) { unimplemented!() }
}
impl VRsaPrv {
    /// The octets of the modulus.
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r <= 0x0fff_ffff { unimplemented!() }
}
#[verifier::external]
impl std::fmt::Debug for HeaderFieldError { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[verifier::external]
impl std::fmt::Debug for VIntConvErr { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
// ---- end of trusted ----
pub fn v_all_of(b: &Box<[u8]>) -> (r: &[u8]) ensures r@ == b@ { b }
pub fn v_try_u64(n: usize) -> (r: Result<u64, VIntConvErr>) ensures match r { Ok(m) => m == n, Err(_) => n > u64::MAX } { Ok(n as u64) }

// ================= C18: which fields are signed =================
pub open spec fn default_names() -> Seq<Seq<char>> {
    seq!["From"@, "Reply-To"@, "Subject"@, "Date"@, "To"@, "Cc"@, "Resent-Date"@, "Resent-From"@, "Resent-To"@, "Resent-Cc"@, "In-Reply-To"@, "References"@,
        "List-Id"@, "List-Help"@, "List-Unsubscribe"@, "List-Subscribe"@, "List-Post"@, "List-Owner"@, "List-Archive"@]
}
/// One of the names in RFC 6376, 5.4.1, ignoring case.
pub open spec fn by_default() -> spec_fn(FieldName) -> bool { |n: FieldName| exists|i: int| 0 <= i < 19 && lower(#[trigger] default_names()[i]) == lower(n.0@) }
proof fn lemma_default_names()
    ensures forall|i: int| 0 <= i < 19 ==> name_ok(#[trigger] default_names()[i]) && !default_names()[i].contains(';'),
        default_names()[0] == "From"@, default_names().len() == 19,
{
    assert forall|i: int| 0 <= i < 19 implies name_ok(#[trigger] default_names()[i]) && !default_names()[i].contains(';') by {
        if i == 0 { reveal_strlit("From"); assert("From"@.len() == 4); }
        if i == 1 { reveal_strlit("Reply-To"); assert("Reply-To"@.len() == 8); }
        if i == 2 { reveal_strlit("Subject"); assert("Subject"@.len() == 7); }
        if i == 3 { reveal_strlit("Date"); assert("Date"@.len() == 4); }
        if i == 4 { reveal_strlit("To"); assert("To"@.len() == 2); }
        if i == 5 { reveal_strlit("Cc"); assert("Cc"@.len() == 2); }
        if i == 6 { reveal_strlit("Resent-Date"); assert("Resent-Date"@.len() == 11); }
        if i == 7 { reveal_strlit("Resent-From"); assert("Resent-From"@.len() == 11); }
        if i == 8 { reveal_strlit("Resent-To"); assert("Resent-To"@.len() == 9); }
        if i == 9 { reveal_strlit("Resent-Cc"); assert("Resent-Cc"@.len() == 9); }
        if i == 10 { reveal_strlit("In-Reply-To"); assert("In-Reply-To"@.len() == 11); }
        if i == 11 { reveal_strlit("References"); assert("References"@.len() == 10); }
        if i == 12 { reveal_strlit("List-Id"); assert("List-Id"@.len() == 7); }
        if i == 13 { reveal_strlit("List-Help"); assert("List-Help"@.len() == 9); }
        if i == 14 { reveal_strlit("List-Unsubscribe"); assert("List-Unsubscribe"@.len() == 16); }
        if i == 15 { reveal_strlit("List-Subscribe"); assert("List-Subscribe"@.len() == 14); }
        if i == 16 { reveal_strlit("List-Post"); assert("List-Post"@.len() == 9); }
        if i == 17 { reveal_strlit("List-Owner"); assert("List-Owner"@.len() == 10); }
        if i == 18 { reveal_strlit("List-Archive"); assert("List-Archive"@.len() == 12); }
    }
}
pub open spec fn names_are(r: Seq<FieldName>, t: Seq<Seq<char>>) -> bool { r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == t[i] }
@@fn signer/mod.rs::default_signed_headers
@ret r
@replace names.into_iter().map(|n| $e).collect() =>
{
let mut v_o: Vec<FieldName> = Vec::new();
let mut v_k: usize = 0;
proof { lemma_default_names(); assert(str_views(names@) =~= default_names()); }
while v_k < names.len()
    invariant v_k <= names@.len(), names@.len() == 19, str_views(names@) == default_names(), v_o@.len() == v_k,
        forall|i: int| 0 <= i < v_k ==> (#[trigger] v_o@[i]).0@ == default_names()[i],
    decreases names@.len() - v_k,
{
    v_probe!();
    let n = names[v_k];
    proof { lemma_default_names(); assert(str_views(names@)[v_k as int] == n@); assert(name_ok(default_names()[v_k as int])); }
    let v_n = $e;
    v_o.push(v_n);
    v_k = v_k + 1;
}
v_o
}
@replace FieldName::new(n) => FieldName::new(v_box_str(n))
@spec
    ensures names_are(r@, default_names()),
@@end
proof fn lemma_up_step(hs: Seq<HeaderField>, k: int, p: spec_fn(FieldName) -> bool)
    requires 0 < k <= hs.len()
    ensures names_up(hs.skip(k - 1)).filter(p) == if p(hs[k - 1].0) { names_up(hs.skip(k)).filter(p).push(hs[k - 1].0) } else { names_up(hs.skip(k)).filter(p) }
{
    reveal(Seq::filter);
    let a = names_up(hs.skip(k - 1));
    assert(a.drop_last() =~= names_up(hs.skip(k)));
    assert(a.last() == hs[k - 1].0);
}
@@fn signer/mod.rs::select_headers
@ret r
@replace <'a, 'b: 'a> => <'a, F: Fn(&FieldName) -> bool>
@replace mut pred: impl FnMut(&FieldName) -> bool + 'b => Ghost(v_p): Ghost<spec_fn(FieldName) -> bool>, pred: F
@replace impl DoubleEndedIterator<Item = &FieldName> + 'a => Vec<&'a FieldName>
@replace headers.as_ref().iter().rev().filter_map(move |(name, _)| $e) =>
let v_s = headers.v_as_ref();
let mut v_o: Vec<&'a FieldName> = Vec::new();
let mut v_k: usize = v_s.len();
proof { reveal(Seq::filter); assert(names_up(v_s@.skip(v_k as int)) =~= Seq::<FieldName>::empty()); assert(ref_vals(v_o@) =~= Seq::<FieldName>::empty()); }
while v_k > 0
    invariant v_k <= v_s@.len(), v_s@ == headers.0@, ref_vals(v_o@) == names_up(v_s@.skip(v_k as int)).filter(v_p),
        forall|x: FieldName| #[trigger] pred.requires((&x,)), forall|x: FieldName, b: bool| #[trigger] pred.ensures((&x,), b) ==> b == v_p(x),
    decreases v_k,
{
    v_probe!();
    proof { lemma_up_step(v_s@, v_k as int, v_p); }
    v_k = v_k - 1;
    let (name, _) = &v_s[v_k];
    let v_x: Option<&'a FieldName> = $e;
    match v_x {
        Some(v_n) => { let ghost v_o0 = v_o@; v_o.push(v_n); proof { assert(ref_vals(v_o@) =~= ref_vals(v_o0).push(*v_n)); } }
        None => {}
    }
}
proof { assert(v_s@.skip(0) =~= v_s@); }
v_o
@spec
    requires forall|x: FieldName| #[trigger] pred.requires((&x,)), forall|x: FieldName, b: bool| #[trigger] pred.ensures((&x,), b) ==> b == v_p(x),
    ensures ref_vals(r@) == names_up(headers.0@).filter(v_p),
@@end
proof fn lemma_by_default(def: Seq<FieldName>)
    requires names_are(def, default_names())
    ensures forall|n: FieldName| #[trigger] has_name(def, n) == by_default()(n)
{
    lemma_default_names();
    assert forall|n: FieldName| #[trigger] has_name(def, n) == by_default()(n) by {
        if has_name(def, n) { let i = choose|i: int| 0 <= i < def.len() && same_name(#[trigger] def[i], n); assert(lower(default_names()[i]) == lower(n.0@)); }
        if by_default()(n) { let i = choose|i: int| 0 <= i < 19 && lower(#[trigger] default_names()[i]) == lower(n.0@); assert(same_name(def[i], n)); }
    }
}
@@fn signer/sign.rs::select_signed_headers
@ret r
@replace let def: HashSet<_> = signer::default_signed_headers().into_iter().collect(); => let v_d = default_signed_headers(); proof { lemma_by_default(v_d@); } let def = v_name_set(v_d);
@replace signer::select_headers(headers, move |name| $e).collect() => select_headers(headers, Ghost(by_default()), |name: &FieldName| -> (v_b: bool) ensures v_b == by_default()(*name) { $e })
@spec
    ensures ref_vals(r@) == names_up(headers.0@).filter(by_default()),
@@end
// ---- what such names are ----
proof fn lemma_kept<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures forall|i: int| 0 <= i < s.filter(p).len() ==> p(#[trigger] s.filter(p)[i]) && s.contains(s.filter(p)[i]),
        forall|x: A| s.contains(x) && p(x) ==> #[trigger] s.filter(p).contains(x),
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let m = s.drop_last();
        let f = s.filter(p);
        let g = m.filter(p);
        lemma_kept(m, p);
        assert forall|i: int| 0 <= i < f.len() implies p(#[trigger] f[i]) && s.contains(f[i]) by {
            if i < g.len() { assert(f[i] == g[i]); let j = choose|j: int| 0 <= j < m.len() && m[j] == g[i]; assert(s[j] == g[i]); } else { assert(f[i] == s.last()); }
        }
        assert forall|x: A| s.contains(x) && p(x) implies #[trigger] f.contains(x) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
            if j < m.len() { assert(m[j] == x); assert(m.contains(x)); assert(g.contains(x)); let i = choose|i: int| 0 <= i < g.len() && g[i] == x; assert(f[i] == x); } else { assert(f[g.len() as int] == x); }
        }
    }
}
pub open spec fn all_valid(hs: Seq<HeaderField>) -> bool { forall|i: int| 0 <= i < hs.len() ==> name_ok((#[trigger] hs[i]).0.0@) && body_ok(hs[i].1.0@) }
pub open spec fn names_fine(ns: Seq<FieldName>) -> bool { forall|i: int| 0 <= i < ns.len() ==> name_ok((#[trigger] ns[i]).0@) && !ns[i].0@.contains(';') }
proof fn lemma_no_semi(a: Seq<char>, b: Seq<char>)
    requires lower(a) == lower(b), !a.contains(';')
    ensures !b.contains(';')
{
    if b.contains(';') {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == ';';
        assert(lower(b)[i] == ';');
        assert(lower(a).len() == a.len());
        assert(lower(a)[i] == lower_c(a[i]));
        assert(a[i] == ';');
    }
}
proof fn lemma_selected(hs: Seq<HeaderField>)
    requires all_valid(hs), names_from(names_up(hs))
    ensures names_fine(names_up(hs).filter(by_default())), names_from(names_up(hs).filter(by_default()))
{
    let u = names_up(hs);
    let f = u.filter(by_default());
    lemma_kept(u, by_default());
    lemma_default_names();
    assert forall|i: int| 0 <= i < f.len() implies name_ok((#[trigger] f[i]).0@) && !f[i].0@.contains(';') by {
        let j = choose|j: int| 0 <= j < u.len() && u[j] == f[i];
        assert(hs[hs.len() - 1 - j].0 == u[j]);
        let k = choose|k: int| 0 <= k < 19 && lower(#[trigger] default_names()[k]) == lower(f[i].0@);
        lemma_no_semi(default_names()[k], f[i].0@);
    }
    let j = choose|j: int| 0 <= j < u.len() && is_from()(#[trigger] u[j]);
    assert(lower(default_names()[0]) == lower(u[j].0@));
    assert(by_default()(u[j]));
    assert(u.contains(u[j]));
    assert(f.contains(u[j]));
    let k = choose|k: int| 0 <= k < f.len() && f[k] == u[j];
    assert(is_from()(f[k]));
}
// ================= the parts of a signature =================
pub open spec fn in_names(ns: Seq<FieldName>) -> spec_fn(HeaderField) -> bool { |f: HeaderField| has_name(ns, f.0) }
pub open spec fn copies(r: Seq<(FieldName, Box<[u8]>)>, fs: Seq<HeaderField>) -> bool { r.len() == fs.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == fs[i].0 && r[i].1@ == fs[i].1.0@ }
proof fn lemma_kept_step(hs: Seq<HeaderField>, k: int, p: spec_fn(HeaderField) -> bool)
    requires 0 <= k < hs.len()
    ensures hs.take(k + 1).filter(p) == if p(hs[k]) { hs.take(k).filter(p).push(hs[k]) } else { hs.take(k).filter(p) }
{
    reveal(Seq::filter);
    assert(hs.take(k + 1).drop_last() =~= hs.take(k));
}
@@fn signer/sign.rs::prepare_copied_headers
@ret r
@replace let mut result = vec![]; => let mut result: Vec<(FieldName, Box<[u8]>)> = Vec::new();
@replace selected_headers.contains(name) => v_contains_name(selected_headers, name)
@replace for (name, value) in headers.as_ref() { $b } =>
let v_s = headers.v_as_ref();
let mut v_k: usize = 0;
proof { reveal(Seq::filter); assert(v_s@.take(0) =~= Seq::<HeaderField>::empty()); }
while v_k < v_s.len()
    invariant v_k <= v_s@.len(), v_s@ == headers.0@, copies(result@, v_s@.take(v_k as int).filter(in_names(selected_headers@))),
    decreases v_s@.len() - v_k,
{
    v_probe!();
    let (name, value) = &v_s[v_k];
    proof { lemma_kept_step(v_s@, v_k as int, in_names(selected_headers@)); }
    $b
    v_k = v_k + 1;
}
proof { assert(v_s@.take(v_s@.len() as int) =~= v_s@); }
@spec
    ensures copies(r@, headers.0@.filter(in_names(selected_headers@))),
@@end
@@fn signer/sign.rs::now_unix_secs
@ret r
@replace SystemTime::now => VSystemTime::now
@replace SystemTime::UNIX_EPOCH => VSystemTime::epoch()
@replace .map_or(0, |t| $e) => .v_map_or_zero(|t: VDuration| -> (v_r: u64) ensures v_r == t.secs { $e })
@@end
pub trait VMapOrZero: Sized { fn v_map_or_zero<F: Fn(VDuration) -> u64>(self, f: F) -> (r: u64) requires forall|x: VDuration| #[trigger] f.requires((x,)); }
impl VMapOrZero for Result<VDuration, VSystemTimeError> {
    fn v_map_or_zero<F: Fn(VDuration) -> u64>(self, f: F) -> (r: u64) { match self { Ok(d) => f(d), Err(_) => 0 } }
}
impl crypto::SigningKey {
@@fn crypto/mod.rs::SigningKey::signature_length
@ret r
@replace ::ed25519_dalek::SIGNATURE_LENGTH => 64
@replace Self::Rsa => crypto::SigningKey::Rsa
@replace Self::Ed25519 => crypto::SigningKey::Ed25519
@spec
    ensures r <= 0x0fff_ffff,
@@end
}
@@fn signer/sign.rs::estimate_b_tag_length
@ret r
@spec
    ensures r <= max_len(),
@@end
/// What the key makes of a digest.
pub open spec fn signs(k: crypto::SigningKey, alg: HashAlgorithm, d: Seq<u8>) -> Option<Seq<u8>> {
    match k { crypto::SigningKey::Rsa(k) => rsa_signs(k, alg, d), crypto::SigningKey::Ed25519(k) => Some(ed_signs(k, d)) }
}
@@fn signer/sign.rs::sign_hash
@ret r
@spec
    ensures match r { Ok(s) => signs(*signing_key, hash_alg, data_hash@) == Some(s@), Err(e) => signs(*signing_key, hash_alg, data_hash@) is None && e is SigningFailure },
@@end
/// The signature with its value.
pub open spec fn with_data(r: DkimSignature, s: UnsignedDkimSignature, data: Seq<u8>) -> bool {
    &&& r.algorithm == s.algorithm && r.signature_data@ == data && r.body_hash == s.body_hash && r.canonicalization == s.canonicalization && r.domain == s.domain
    &&& r.signed_headers == s.signed_headers && r.identity == s.identity && r.body_length == s.body_length && r.selector == s.selector
    &&& r.timestamp == s.timestamp && r.expiration == s.expiration && r.copied_headers == s.copied_headers && r.ext_tags == s.ext_tags
}
impl UnsignedDkimSignature {
@@fn signer/format.rs::UnsignedDkimSignature::into_signature
@ret r
@spec
    ensures with_data(r, self, signature_data@),
@@end
@@fn signer/format.rs::UnsignedDkimSignature::format_without_signature
@ret r
@spec
    requires made(*self), indent_ok(format.indentation@), b_tag_len <= max_len(), format.tag_order matches Some(o) ==> o.total(),
    ensures formatted_as(r.0@, r.1, *self, *format),
@@end
}
/// The data hash of what is formatted, `v`.
pub open spec fn hashed(v: Seq<char>, n: usize, sig: UnsignedDkimSignature, f: OutputFormat, hs: Seq<HeaderField>) -> Seq<u8> {
    data_hash(HashAlgorithm::Sha256, sig.canonicalization.header, hs, sig.signed_headers@, f.header_name@, v)
}
/// The field value `r` is `v` with the data put in at `n`.
pub open spec fn filled(v: Seq<char>, n: usize, r: Seq<char>, data: Seq<u8>, sig: UnsignedDkimSignature, f: OutputFormat) -> bool {
    exists|s: Seq<char>, t: Seq<char>, j: int| #[trigger] b64_body(t, data, s, f.indentation@) && #[trigger] put_in(v, n, t, r, j) && is_produced(r, sig, f, t)
}
pub open spec fn signed_from(r: Seq<char>, data: Seq<u8>, sig: UnsignedDkimSignature, k: crypto::SigningKey, f: OutputFormat, hs: Seq<HeaderField>, v: Seq<char>, n: usize) -> bool {
    formatted_as(v, n, sig, f) && signs(k, HashAlgorithm::Sha256, hashed(v, n, sig, f, hs)) == Some(data) && filled(v, n, r, data, sig, f)
}
/// The output has the signature of the formatted field, in it.
pub open spec fn signed_as(o: SigningOutput, sig: UnsignedDkimSignature, k: crypto::SigningKey, f: OutputFormat, hs: Seq<HeaderField>) -> bool {
    &&& o.header_name@ == f.header_name@ && with_data(o.signature, sig, o.signature.signature_data@) && flows(o.header_value@)
    &&& exists|v: Seq<char>, n: usize| #[trigger] signed_from(o.header_value@, o.signature.signature_data@, sig, k, f, hs, v, n)
}
pub open spec fn cannot_sign(sig: UnsignedDkimSignature, k: crypto::SigningKey, f: OutputFormat, hs: Seq<HeaderField>) -> bool {
    exists|v: Seq<char>, n: usize| #[trigger] formatted_as(v, n, sig, f) && signs(k, HashAlgorithm::Sha256, hashed(v, n, sig, f, hs)) is None
}
pub open spec fn order_ok(f: OutputFormat) -> bool { indent_ok(f.indentation@) && (f.tag_order matches Some(o) ==> o.total()) }
proof fn lemma_at_b(v: Seq<char>, n: usize, sig: UnsignedDkimSignature, f: OutputFormat)
    requires formatted_as(v, n, sig, f)
    ensures boundary(v, n as nat)
{
    let ps = choose|ps: Seq<Piece>| #[trigger] formatted(v, n, ps, sig, f);
    lemma_at_b_in(v, n, ps, sig, f);
}
proof fn lemma_at_b_in(v: Seq<char>, n: usize, ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat)
    requires formatted(v, n, ps, sig, f)
    ensures boundary(v, n as nat)
{
    hide(said);
    let m = choose|m: int| #[trigger] b_here(ps, m, n);
    lemma_joined_at(ps, m);
    let x = closed_pieces(ps.take(m)) + ps[m].ws + "b"@ + seq!['='];
    let z = ps[m].body + after_pieces(ps.skip(m + 1));
    assert(v =~= x + z);
    assert(v.take(x.len() as int) =~= x);
}
proof fn lemma_filled(v: Seq<char>, n: usize, r: Seq<char>, data: Seq<u8>, sig: UnsignedDkimSignature, f: OutputFormat)
    requires formatted_as(v, n, sig, f), sig_fine(sig), indent_ok(f.indentation@), put_data(v, n, r, data, f.indentation@)
    ensures flows(r), filled(v, n, r, data, sig, f)
{
    hide(b64_body); hide(put_in); hide(flows); hide(is_produced); hide(formatted_as);
    let (s, t, j) = choose|s: Seq<char>, t: Seq<char>, j: int| #[trigger] b64_body(t, data, s, f.indentation@) && #[trigger] put_in(v, n, t, r, j);
    theorem_sent(v, n, sig, f, data, s, t, r, j);
}
pub open spec fn put_data(v: Seq<char>, n: usize, r: Seq<char>, data: Seq<u8>, ind: Seq<char>) -> bool {
    exists|s: Seq<char>, t: Seq<char>, k: int| #[trigger] b64_body(t, data, s, ind) && #[trigger] put_in(v, n, t, r, k)
}
proof fn lemma_ready(sig: UnsignedDkimSignature, hs: Seq<HeaderField>, f: OutputFormat)
    requires sig_fine(sig), all_valid(hs), order_ok(f)
    ensures made(sig), hs_ok(sig.canonicalization.header, hs), indent_ok(f.indentation@), f.tag_order matches Some(o) ==> o.total()
{}
proof fn lemma_flows_body(v: Seq<char>) requires flows(v) ensures body_ok(utf8(v)) {}
@@fn signer/sign.rs::produce_signature
@ret r
@replace message_hash::compute_data_hash => compute_data_hash
@replace format::insert_signature_data => insert_signature_data
@replace &sig.signature_data[..] => v_all_of(&sig.signature_data)
@replace assert_eq!($a, $b) => v_runtime_assert($a == $b)
@spec
    requires sig_fine(sig), order_ok(*format), all_valid(headers.0@), key_kind(*signing_key) == sig_key_type(sig.algorithm),
    ensures r matches Ok(o) ==> o.header_name@ == format.header_name@,
        r matches Ok(o) ==> flows(o.header_value@),
        r matches Ok(o) ==> with_data(o.signature, sig, o.signature.signature_data@),
        r matches Ok(o) ==> signed_as(o, sig, *signing_key, *format, headers.0@),
        r matches Err(e) ==> e is SigningFailure && cannot_sign(sig, *signing_key, *format, headers.0@),
@head
    hide(formatted_as); hide(filled); hide(sig_fine); hide(order_ok); hide(all_valid); hide(made); hide(hs_ok); hide(flows); hide(put_in); hide(b64_body); hide(boundary); hide(indent_ok); hide(data_hash); hide(is_produced);
    proof { lemma_ready(sig, headers.0@, *format); }
@before let data_hash = $x;
    let ghost v_v = formatted_header_value@;
    let ghost v_sig = sig;
    proof { theorem_hashed(v_v, insertion_index, sig, *format); lemma_flows_body(v_v); lemma_at_b(v_v, insertion_index, sig, *format); }
@after let data_hash = $x;
    proof {
        assert(data_hash@ == hashed(v_v, insertion_index, sig, *format, headers.0@));
        assert(signs(*signing_key, hash_alg, data_hash@) is None ==> cannot_sign(sig, *signing_key, *format, headers.0@)) by { assert(formatted_as(v_v, insertion_index, sig, *format)); }
    }
@after format::insert_signature_data($x);
    proof {
        assert(put_data(v_v, insertion_index, formatted_header_value@, sig.signature_data@, format.indentation@));
        lemma_filled(v_v, insertion_index, formatted_header_value@, sig.signature_data@, v_sig, *format);
        assert(signed_from(formatted_header_value@, sig.signature_data@, v_sig, *signing_key, *format, headers.0@, v_v, insertion_index));
    }
@@end

// ================= C18: what a request asks for =================
/// The body that is signed: as long as the request says.
pub open spec fn body_of<T>(r: SignRequest<T>, b: Seq<u8>) -> Seq<u8> {
    let c = bcanon_of(r.canonicalization.body, b);
    match r.body_length { BodyLength::Exact(n) => c.take(n as int), _ => c }
}
pub open spec fn fields_of<T>(r: SignRequest<T>, hs: Seq<HeaderField>) -> Seq<FieldName> {
    match r.header_selection { HeaderSelection::Auto => names_up(hs).filter(by_default()), HeaderSelection::Manual(h) => h@ }
}
pub open spec fn time_of<T>(r: SignRequest<T>, t: Option<u64>) -> bool {
    match r.timestamp { Timestamp::None => t is None, Timestamp::Now => t is Some, Timestamp::Exact(x) => t == Some(x) }
}
/// The timestamp (or the present) and the duration.
pub open spec fn expires_of<T>(r: SignRequest<T>, t: Option<u64>, x: Option<u64>) -> bool {
    match r.valid_duration {
        None => x is None,
        Some(d) => match t { Some(t) => x == Some(sat_add(t, d.secs)), None => x matches Some(x) && x >= d.secs },
    }
}
pub open spec fn tags_same(r: Seq<(Box<str>, Box<str>)>, t: Seq<(String, String)>) -> bool { r.len() == t.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0@ == t[i].0@ && r[i].1@ == t[i].1@ }
/// The signature has what was asked for, and only that.
pub open spec fn as_asked<T>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, s: UnsignedDkimSignature) -> bool {
    &&& s.algorithm == r.algorithm && s.canonicalization == r.canonicalization && s.domain == r.domain && s.selector == r.selector && s.identity == r.identity
    &&& s.body_hash@ == digest_of(HashAlgorithm::Sha256, body_of(r, b))
    &&& match r.body_length { BodyLength::NoLimit => s.body_length is None, _ => s.body_length matches Some(n) && n == body_of(r, b).len() }
    &&& s.signed_headers@ == fields_of(r, hs)
    &&& time_of(r, s.timestamp) && expires_of(r, s.timestamp, s.expiration)
    &&& if r.copy_headers { copies(s.copied_headers@, hs.filter(in_names(fields_of(r, hs)))) } else { s.copied_headers@.len() == 0 }
    &&& tags_same(s.ext_tags@, r.ext_tags@)
}
pub open spec fn asked_and_signed<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, s: UnsignedDkimSignature, o: SigningOutput) -> bool {
    as_asked(r, hs, b, s) && signed_as(o, s, r.signing_key.vkey(), r.format, hs)
}
/// The answer to a request.
pub open spec fn outcome<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, o: Result<SigningOutput, SigningError>) -> bool {
    let short = is_short(r, b);
    match o {
        Ok(o) => !short && exists|s: UnsignedDkimSignature| #[trigger] asked_and_signed(r, hs, b, s, o),
        Err(SigningError::InsufficientContent) => short,
        Err(SigningError::SigningFailure) => !short && exists|s: UnsignedDkimSignature| #[trigger] as_asked(r, hs, b, s) && cannot_sign(s, r.signing_key.vkey(), r.format, hs),
        // a body longer than u64::MAX
        Err(SigningError::Overflow) => false,
    }
}
/// A request as it can be constructed.
pub open spec fn whole<T>(r: SignRequest<T>) -> bool {
    &&& req_made(r) && selector_ok(r.selector)
    &&& r.header_selection matches HeaderSelection::Manual(h) ==> forall|i: int| 0 <= i < h@.len() ==> name_ok((#[trigger] h@[i]).0@)
    &&& r.format.tag_order matches Some(o) ==> o.total()
}
pub open spec fn can_use<T: VAsKey>(r: SignRequest<T>) -> bool { forall|e: RequestError| !#[trigger] unusable(r, e) }
proof fn lemma_fields<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>)
    requires whole(r), can_use(r), all_valid(hs), names_from(names_up(hs))
    ensures names_fine(fields_of(r, hs)), names_from(fields_of(r, hs)), order_ok(r.format), ext_ok(r.ext_tags@), key_kind(r.signing_key.vkey()) == sig_key_type(r.algorithm), !too_long(r.body_length)
{
    lemma_selected(hs);
    assert(!unusable(r, RequestError::FromHeaderNotSigned) && !unusable(r, RequestError::InvalidSignedFieldName) && !unusable(r, RequestError::InvalidExtTags) && !unusable(r, RequestError::IncompatibleKeyType) && !unusable(r, RequestError::InvalidIndentationWhitespace) && !unusable(r, RequestError::Overflow));
    let ind = r.format.indentation@;
    assert(indent_ok(ind)) by { assert forall|i: int| 0 <= i < ind.len() implies wspc(#[trigger] ind[i]) by { assert(!not_wsp()(ind[i])); } }
    match r.header_selection {
        HeaderSelection::Auto => {}
        HeaderSelection::Manual(h) => { assert forall|i: int| 0 <= i < h@.len() implies !(#[trigger] h@[i]).0@.contains(';') by { assert(!with_semi()(h@[i])); } }
    }
}
proof fn lemma_asked_fine<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, s: UnsignedDkimSignature)
    requires whole(r), as_asked(r, hs, b, s), names_fine(fields_of(r, hs)), names_from(fields_of(r, hs)), ext_ok(r.ext_tags@)
    ensures sig_fine(s)
{
    let f = fields_of(r, hs);
    let t = s.ext_tags@;
    let u = r.ext_tags@;
    assert forall|i: int| 0 <= i < t.len() implies tag_name_ok((#[trigger] t[i]).0@) && tag_value_ok(t[i].1@) && !own_tag(t[i].0@) by { assert(tag_name_ok(u[i].0@)); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@ by { assert(u[i].0@ != u[j].0@); }
    assert forall|i: int| 0 <= i < name_seqs(f).len() implies name_ok(#[trigger] name_seqs(f)[i]) && !name_seqs(f)[i].contains(';') by { assert(name_seqs(f)[i] == f[i].0@); assert(name_ok(f[i].0@)); }
    let k = choose|k: int| 0 <= k < f.len() && is_from()(#[trigger] f[k]);
}
#[verifier::external_body]
pub fn v_cloned<T: VClone>(v: Vec<&T>) -> (r: Vec<T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (*v@[i]).vsame(#[trigger] r@[i]) { unimplemented!() }
proof fn lemma_cloned(v: Seq<&FieldName>, r: Seq<FieldName>)
    requires r.len() == v.len(), forall|i: int| 0 <= i < r.len() ==> (*v[i]).vsame(#[trigger] r[i])
    ensures r == ref_vals(v)
{
    assert(r =~= ref_vals(v)) by { assert forall|i: int| 0 <= i < r.len() implies r[i] == ref_vals(v)[i] by { assert((*v[i]).vsame(r[i])); } }
}
pub fn v_names_of(v: Vec<&FieldName>) -> (r: Vec<FieldName>) ensures r@ == ref_vals(v@) { let ghost g = v@; let r = v_cloned(v); proof { lemma_cloned(g, r@); } r }
proof fn lemma_no_from(s: Seq<FieldName>) requires names_from(s) ensures exists|i: int| 0 <= i < s.len() && is_from()(#[trigger] s[i]) {}
proof fn lemma_no_semis(s: Seq<FieldName>) requires names_fine(s) ensures !(exists|i: int| 0 <= i < s.len() && with_semi()(#[trigger] s[i])) {}
pub open spec fn is_short<T>(r: SignRequest<T>, b: Seq<u8>) -> bool { r.body_length matches BodyLength::Exact(n) && bcanon_of(r.canonicalization.body, b).len() < n }
proof fn lemma_outcome<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, s: UnsignedDkimSignature, o: Result<SigningOutput, SigningError>)
    requires as_asked(r, hs, b, s), !is_short(r, b),
        o matches Ok(o) ==> signed_as(o, s, r.signing_key.vkey(), r.format, hs),
        o matches Err(e) ==> e is SigningFailure && cannot_sign(s, r.signing_key.vkey(), r.format, hs),
    ensures outcome(r, hs, b, o)
{
    match o { Ok(o) => { assert(asked_and_signed(r, hs, b, s, o)); } Err(e) => {} }
}
@@fn signer/sign.rs::perform_signing
@ret r
@replace AsRef<SigningKey> => VAsKey
@replace produce_signature($a) => { let v_o = produce_signature($a); proof { lemma_outcome(v_q, headers.0@, v_b, v_g, v_o); } v_o }
@replace body_hash_results: &BodyHashResults => body_hash_results: &BodyHashResults, Ghost(v_b): Ghost<Seq<u8>>
@replace final_len.try_into() => v_try_u64(final_len)
@replace select_signed_headers(headers).into_iter().cloned().collect() => v_names_of(select_signed_headers(headers))
@replace $i_s.iter().any(|name| *name == "From") => v_any_by(&$i_s, Ghost(is_from()), |name: &FieldName| -> (v_b: bool) ensures v_b == is_from()(*name) { (*name).v_eq_str(&"From") })
@replace $i_s.iter().any(|name| name.as_ref().contains(';')) => v_any_by(&$i_s, Ghost(with_semi()), |name: &FieldName| -> (v_b: bool) ensures v_b == with_semi()(*name) { name.v_as_ref().v_contains_c(';') })
@replace request.valid_duration.map(|duration| { $e }) => (match request.valid_duration { Some(duration) => Some({ $e }), None => None })
@replace timestamp.unwrap_or_else(now_unix_secs) => (match timestamp { Some(v_t) => v_t, None => now_unix_secs() })
@replace Box::from(copied_headers) => v_box_vec(copied_headers)
@replace [].into() => v_default_box()
@replace request.ext_tags.into_iter().map(|(k, v)| $e).collect() => v_box_vec(v_map_vec(request.ext_tags, |v_p: (String, String)| -> (v_r: (Box<str>, Box<str>)) ensures v_r.0@ == v_p.0@, v_r.1@ == v_p.1@ { let (k, v) = v_p; $e }))
@spec
    requires whole(request), can_use(request), all_valid(headers.0@), names_from(names_up(headers.0@)), fits(v_b),
        body_hash_results.results@.contains_key(sign_key(request)), answer(false, sign_key(request), v_b, body_hash_results.results@[sign_key(request)]),
    ensures outcome(request, headers.0@, v_b, r),
@head
    let ghost v_q = request;
    proof { lemma_fields(request, headers.0@); }
@before assert!(signed_headers.iter().any(|name| *name == "From"));
    proof { assert(signed_headers@ == fields_of(v_q, headers.0@)); lemma_no_from(signed_headers@); lemma_no_semis(signed_headers@); }
@after let sig = $x;
    proof { assert(as_asked(v_q, headers.0@, v_b, sig)); lemma_asked_fine(v_q, headers.0@, v_b, sig); }
    let ghost v_g = sig;
@@end
/// Tasks for which the hasher has what is needed.
pub open spec fn v_ready<T: VAsKey>(t: Seq<SignerTask<T>>, hs: Seq<HeaderField>, b: Seq<u8>, h: Map<BodyHasherKey, (CountingHasher, bool)>) -> bool {
    &&& all_valid(hs) && names_from(names_up(hs)) && fits(b)
    &&& forall|j: int| 0 <= j < t.len() ==> whole((#[trigger] t[j]).request) && can_use(t[j].request) && h.contains_key(sign_key(t[j].request))
}
proof fn lemma_task<T: VAsKey>(t: Seq<SignerTask<T>>, hs: Seq<HeaderField>, b: Seq<u8>, h: Map<BodyHasherKey, (CountingHasher, bool)>, j: int)
    requires v_ready(t, hs, b, h), 0 <= j < t.len()
    ensures whole(t[j].request), can_use(t[j].request), h.contains_key(sign_key(t[j].request)), all_valid(hs), names_from(names_up(hs)), fits(b)
{}
/// What `prepare_signing` gives can sign, whatever body has come.
proof fn theorem_prepared<T: VAsKey>(s: Signer<T>, q: Seq<SignRequest<T>>)
    requires accepted(s.headers.0@, q), s.ready(q), all_valid(s.headers.0@), forall|j: int| 0 <= j < q.len() ==> whole(#[trigger] q[j])
    ensures v_ready(s.tasks@, s.headers.0@, s.body_hasher.v_seen@, s.body_hasher.hashers@)
{
    assert forall|j: int| 0 <= j < s.tasks@.len() implies whole((#[trigger] s.tasks@[j]).request) && can_use(s.tasks@[j].request) && s.body_hasher.hashers@.contains_key(sign_key(s.tasks@[j].request)) by {
        assert(s.tasks@[j].request == q[j]);
        assert(whole(q[j]));
        assert forall|e: RequestError| !#[trigger] unusable(q[j], e) by {}
    }
}
#[verifier::external_body]
pub fn v_box_vec<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { unimplemented!() }
impl<T> Signer<T>
where
    T: VAsKey,
{
@@fn signer/mod.rs::Signer::sign
@ret r
@replace sign::perform_signing($a) => perform_signing($a, Ghost(v_b))
@replace let mut result = vec![]; => let mut result: Vec<Result<SigningOutput, SigningError>> = vec![];
@replace for task in self.tasks { $b } =>
let mut v_it = v_into_iter(self.tasks);
let ghost mut v_k: int = 0;
loop
    invariant
        0 <= v_k <= v_t.len(), v_it@ == v_t.skip(v_k), result@.len() == v_k, 
        forall|j: int| 0 <= j < v_k ==> outcome(v_t[j].request, v_hs, v_b, #[trigger] result@[j]),
        self.headers.0@ == v_hs, v_ready(v_t, v_hs, v_b, v_h), fits(v_b),
        forall|k: BodyHasherKey| #[trigger] v_h.contains_key(k) ==> body_hash_results.results@.contains_key(k) && answer(false, k, v_b, body_hash_results.results@[k]),
    ensures v_k == v_t.len(),
    decreases v_t.len() - v_k,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { assert(v_x == v_t[v_k]); assert(v_it@ =~= v_t.skip(v_k + 1)); }
            let task = v_x;
            proof { lemma_task(v_t, v_hs, v_b, v_h, v_k); }
            $b
        }
        None => break,
    }
    proof { v_k = v_k + 1; }
}
@spec
    requires v_ready(self.tasks@, self.headers.0@, self.body_hasher.v_seen@, self.body_hasher.hashers@), self.body_hasher.inv(), !self.body_hasher.fail_on_truncate,
    ensures r@.len() == self.tasks@.len(), forall|j: int| 0 <= j < r@.len() ==> outcome(self.tasks@[j].request, self.headers.0@, self.body_hasher.v_seen@, #[trigger] r@[j]),
@head
    hide(answer); hide(outcome); hide(v_ready);
    let ghost v_b = self.body_hasher.v_seen@;
    let ghost v_hs = self.headers.0@;
    let ghost v_t = self.tasks@;
    let ghost v_h = self.body_hasher.hashers@;
@@end
}
// ================= the produced field as a header field =================
/// A field that was signed can be put on top of the message.
pub open spec fn output_ok(o: SigningOutput) -> bool { name_ok(o.header_name@) && flows(o.header_value@) }
proof fn theorem_output<T: VAsKey>(r: SignRequest<T>, hs: Seq<HeaderField>, b: Seq<u8>, o: SigningOutput)
    requires can_use(r), outcome(r, hs, b, Ok(o))
    ensures output_ok(o)
{
    let s = choose|s: UnsignedDkimSignature| #[trigger] asked_and_signed(r, hs, b, s, o);
    assert(!unusable(r, RequestError::InvalidDkimSignatureHeaderName));
    lemma_header_name(o.header_name@);
}
proof fn lemma_header_name(n: Seq<char>)
    requires lower(n) == lower("DKIM-Signature"@)
    ensures name_ok(n)
{
    reveal_strlit("DKIM-Signature");
    let d = "DKIM-Signature"@;
    assert(d.len() == 14 && lower(d).len() == 14 && lower(n).len() == n.len());
    assert forall|i: int| 0 <= i < n.len() implies is_graphic_c(#[trigger] n[i]) && n[i] != ':' by {
        assert(lower(n)[i] == lower_c(n[i]));
        assert(lower(d)[i] == lower_c(d[i]));
        assert(is_graphic_c(d[i]) && d[i] != ':');
    }
}
impl SigningOutput {
@@fn signer/mod.rs::SigningOutput::to_header_field
@ret r
@replace FieldName::new($x) => FieldName::new(v_box_str($x))
@replace $i_s.header_value.as_bytes() => $i_s.header_value.as_str().as_bytes()
@replace FieldBody::new($x) => FieldBody::new(v_box_slice($x))
@spec
    requires output_ok(*self),
    ensures r.0.0@ == self.header_name@, r.1.0@ == utf8(self.header_value@),
@@end
}
