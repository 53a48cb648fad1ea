// ================= removing the b value leaves a valid field body =================
proof fn lemma_body_step(v: Seq<u8>)
    ensures
        ({ let i = first_crlf(v);
           &&& -1 <= i
           &&& i >= 0 ==> at_crlf(v, i) && cut_lines(v) == seq![v.take(i)] + cut_lines(v.skip(i + 2)) && cut_lines(v)[0] == v.take(i)
               && (body_ok(v) <==> no_ctl(v.take(i)) && cont_ok(v.skip(i + 2)))
           &&& i < 0 ==> cut_lines(v) == seq![v] && (body_ok(v) <==> no_ctl(v))
           &&& forall|j: int| at_crlf(v, j) ==> 0 <= i <= j
           &&& cut_lines(v).len() > 0 }),
{
    lemma_first_crlf(v);
    let i = first_crlf(v);
    if i >= 0 {
        let r = v.skip(i + 2);
        let ls = cut_lines(v);
        lemma_lines_len(r);
        assert(ls =~= seq![v.take(i)] + cut_lines(r));
        assert(forall|k: int| 0 <= k < cut_lines(r).len() ==> #[trigger] cut_lines(r)[k] == ls[k + 1]);
        if body_ok(v) {
            assert(first_line_ok(ls[0]));
            assert(cont_line_ok(ls[1]));
            assert forall|k: int| 0 <= k < cut_lines(r).len() implies (if k == 0 { first_line_ok(#[trigger] cut_lines(r)[k]) } else { cont_line_ok(cut_lines(r)[k]) }) by { assert(cont_line_ok(ls[k + 1])); }
        }
        if no_ctl(v.take(i)) && cont_ok(r) {
            assert forall|k: int| 0 <= k < ls.len() implies (if k == 0 { first_line_ok(#[trigger] ls[k]) } else { cont_line_ok(ls[k]) }) by {
                if k > 0 { assert(ls[k] == cut_lines(r)[k - 1]); }
            }
        }
    } else {
        assert(cut_lines(v) =~= seq![v]);
        if body_ok(v) { assert(first_line_ok(cut_lines(v)[0])); }
    }
}
proof fn lemma_lines_len(v: Seq<u8>)
    ensures cut_lines(v).len() > 0
    decreases v.len()
{
    lemma_first_crlf(v);
    if first_crlf(v) >= 0 && first_crlf(v) + 2 <= v.len() { lemma_lines_len(v.skip(first_crlf(v) + 2)); }
}
/// What may follow a CRLF.
pub open spec fn cont_ok(v: Seq<u8>) -> bool { body_ok(v) && cont_line_ok(cut_lines(v)[0]) }
proof fn lemma_suffix(x: Seq<u8>, q: Seq<u8>)
    requires body_ok(x + q), q.len() == 0 || q[0] != 10
    ensures body_ok(q),
    decreases x.len()
{
    let v = x + q;
    lemma_body_step(v);
    lemma_body_step(q);
    let i = first_crlf(v);
    if i >= 0 && i + 2 <= x.len() {
        assert(v.skip(i + 2) =~= x.skip(i + 2) + q);
        lemma_suffix(x.skip(i + 2), q);
    } else if i >= 0 {
        assert(i >= x.len());
        let k = i - x.len();
        assert(at_crlf(q, k));
        lemma_shift_crlf(x, q);
        assert(first_crlf(q) == k);
        assert(v.skip(i + 2) =~= q.skip(k + 2));
        assert forall|j: int| 0 <= j < q.take(k).len() implies (!ctl(#[trigger] q.take(k)[j]) || q.take(k)[j] == 9) by { assert(v.take(i)[j + x.len()] == q.take(k)[j]); }
    } else {
        lemma_shift_crlf(x, q);
        assert forall|j: int| 0 <= j < q.len() implies (!ctl(#[trigger] q[j]) || q[j] == 9) by { assert(v[j + x.len()] == q[j]); }
    }
}
proof fn lemma_shift_crlf(x: Seq<u8>, q: Seq<u8>)
    ensures forall|j: int| at_crlf(q, j) ==> at_crlf(x + q, j + x.len()),
        first_crlf(x + q) >= x.len() ==> first_crlf(q) == first_crlf(x + q) - x.len(),
        first_crlf(x + q) < 0 ==> first_crlf(q) < 0,
{
    let v = x + q;
    lemma_first_crlf(v);
    lemma_first_crlf(q);
    assert forall|j: int| at_crlf(q, j) implies at_crlf(v, j + x.len()) by { assert(v[j + x.len()] == q[j]); assert(v[j + x.len() + 1] == q[j + 1]); }
    let i = first_crlf(v);
    if i >= x.len() { assert(q[i - x.len()] == v[i] && q[i - x.len() + 1] == v[i + 1]); assert(at_crlf(q, i - x.len())); }
}
proof fn lemma_body_cut(p: Seq<u8>, m: Seq<u8>, q: Seq<u8>)
    requires body_ok(p + m + q), p.len() > 0, p.last() == 61, q.len() == 0 || q[0] == 59
    ensures body_ok(p + q), cont_ok(p + m + q) ==> cont_ok(p + q),
    decreases p.len()
{
    let v = p + m + q;
    let w = p + q;
    lemma_body_step(v);
    lemma_body_step(w);
    let i = first_crlf(v);
    assert(forall|j: int| 0 <= j < p.len() ==> v[j] == p[j] && w[j] == p[j]);
    if 0 <= i && i < p.len() {
        assert(i + 1 < p.len());
        assert(i + 2 < p.len());
        let p2 = p.skip(i + 2);
        assert(v.skip(i + 2) =~= p2 + m + q);
        assert(w.skip(i + 2) =~= p2 + q);
        assert(p2.last() == 61);
        lemma_body_cut(p2, m, q);
        assert(at_crlf(w, i));
        let j = first_crlf(w);
        assert(at_crlf(v, j));
        assert(j == i);
        assert(v.take(i) =~= w.take(i));
    } else {
        let x = p + m;
        assert(x + q =~= v);
        lemma_suffix(x, q);
        lemma_body_step(q);
        let j = first_crlf(w);
        let lv = cut_lines(v)[0];
        let lw = cut_lines(w)[0];
        assert(p.len() <= lv.len());
        assert(forall|k: int| 0 <= k < p.len() ==> lv[k] == p[k]);
        assert forall|k: int| 0 <= k < p.len() implies (!ctl(#[trigger] p[k]) || p[k] == 9) by { assert(lv[k] == p[k]); }
        if j >= 0 && j < p.len() { assert(j + 1 < p.len()) by { if j + 1 == p.len() { assert(w[j] == p.last()); } } assert(at_crlf(v, j)); }
        lemma_shift_crlf(p, q);
        if j >= 0 {
            let k = j - p.len();
            assert(first_crlf(q) == k);
            assert(w.skip(j + 2) =~= q.skip(k + 2));
            assert(lw =~= p + q.take(k));
            assert forall|n: int| 0 <= n < lw.len() implies (!ctl(#[trigger] lw[n]) || lw[n] == 9) by {
                if n < p.len() { assert(lw[n] == p[n]); } else { assert(lw[n] == q.take(k)[n - p.len()]); }
            }
        } else {
            assert(lw == w);
            assert forall|n: int| 0 <= n < lw.len() implies (!ctl(#[trigger] lw[n]) || lw[n] == 9) by {
                if n < p.len() { assert(lw[n] == p[n]); } else { assert(lw[n] == q[n - p.len()]); }
            }
        }
        if cont_ok(v) {
            assert(lw[0] == lv[0]);
            assert(lw[p.len() - 1] == 61);
            assert(!wsp(61));
        }
    }
}
proof fn lemma_without_b_body(s: Seq<char>)
    requires body_ok(utf8(s))
    ensures body_ok(utf8(without_b(s)))
{
    lemma_b_value(s);
    if let Some((a, b)) = b_value(s) {
        let p = s.take(a); let m = s.subrange(a, b); let q = s.skip(b);
        assert(s =~= p + m + q);
        vstd::utf8::encode_utf8_concat(p + m, q);
        vstd::utf8::encode_utf8_concat(p, m);
        vstd::utf8::encode_utf8_concat(p, q);
        assert(p =~= s.take(a - 1) + seq!['=']);
        vstd::utf8::encode_utf8_concat(s.take(a - 1), seq!['=']);
        vstd::utf8::is_ascii_chars_encode_utf8(seq!['=']);
        assert(utf8(seq!['=']).last() == 61);
        if b < s.len() {
            assert(q =~= seq![';'] + s.skip(b + 1));
            vstd::utf8::encode_utf8_concat(seq![';'], s.skip(b + 1));
            vstd::utf8::is_ascii_chars_encode_utf8(seq![';']);
            assert(utf8(seq![';'])[0] == 59);
        } else {
            assert(q =~= seq![]);
            vstd::utf8::is_ascii_chars_encode_utf8(q);
        }
        lemma_body_cut(utf8(p), utf8(m), utf8(q));
    }
}

// ================= RFC 6376, 3.7: the data hash, and its verification =================
pub open spec fn data_hash(alg: HashAlgorithm, canon: CanonicalizationAlgorithm, hs: Seq<HeaderField>, names: Seq<FieldName>, name: Seq<char>, value: Seq<char>) -> Seq<u8> {
    digest_of(alg, selected_output(canon, hs, names) + canon_field(canon, name, utf8(value)))
}
@@fn message_hash.rs::compute_data_hash
@ret r
@replace canonicalize::canonicalize_headers => canonicalize_headers
@replace canonicalize::canonicalize_header => canonicalize_header
@spec
    requires hs_ok(canon_alg, headers.0@), canon_alg is Relaxed ==> body_ok(utf8(formatted_dkim_sig_header_value@)),
    ensures r@ == data_hash(hash_alg, canon_alg, headers.0@, selected_headers@, dkim_sig_header_name@, formatted_dkim_sig_header_value@),
@@end
@@fn verifier/verify.rs::verify_signature
@ret r
@spec
    ensures match r { Ok(_) => crypto::verifies(*key, hash_alg, data_hash@, signature_data@), Err(e) => !crypto::verifies(*key, hash_alg, data_hash@, signature_data@) && e == failed() },
@@end
pub open spec fn failed() -> VerificationError { VerificationError::VerificationFailure(crypto::VerificationError::VerificationFailure) }
/// The signature value is the key's over the selected fields and the signature
/// field without its b value.
pub open spec fn data_verifies(k: VerifyingKey, sig: DkimSignature, hs: Seq<HeaderField>, name: Seq<char>, value: Seq<char>) -> bool {
    crypto::verifies(k, alg_hash(sig.algorithm), data_hash(alg_hash(sig.algorithm), sig.canonicalization.header, hs, sig.signed_headers@, name, without_b(value)), sig.signature_data@)
}
pub open spec fn alg_hash(a: SigningAlgorithm) -> HashAlgorithm { HashAlgorithm::Sha256 }
@@fn verifier/verify.rs::perform_verification
@ret r
@replace message_hash::compute_data_hash => compute_data_hash
@spec
    requires hs_ok(CanonicalizationAlgorithm::Relaxed, headers.0@), body_ok(utf8(value@)),
    ensures match r { Ok(_) => data_verifies(*verifying_key, *sig, headers.0@, name@, value@), Err(e) => !data_verifies(*verifying_key, *sig, headers.0@, name@, value@) && e == failed() },
@head
    proof { lemma_without_b_body(value@); }
@@end
