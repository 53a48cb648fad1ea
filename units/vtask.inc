// ================= C08: the verifier's policy =================
pub open spec fn unix_secs(t: VSystemTime) -> int { if t.ns() < 0 { 0 } else { t.ns() / 1_000_000_000 } }
/// `t` is the current time, in seconds.
pub open spec fn cfg_now(c: Config, t: u64) -> bool { c.fixed_system_time matches Some(x) ==> t == unix_secs(x) }
impl Config {
@@fn verifier/mod.rs::Config::current_timestamp
@ret r
@replace SystemTime::now => VSystemTime::now
@replace SystemTime::UNIX_EPOCH => VSystemTime::epoch()
@replace .unwrap_or_default() => .v_unwrap_or_default()
@spec
    ensures cfg_now(*self, r),
@@end
}
pub open spec fn sat_add(a: u64, b: u64) -> u64 { if a + b > u64::MAX { u64::MAX } else { (a + b) as u64 } }
pub open spec fn sat_sub(a: u64, b: u64) -> u64 { if a < b { 0 } else { (a - b) as u64 } }
pub open spec fn is_name(n: FieldName) -> spec_fn(HeaderField) -> bool { |f: HeaderField| same_name(f.0, n) }
pub open spec fn eq_name(n: FieldName) -> spec_fn(FieldName) -> bool { |f: FieldName| same_name(f, n) }
/// More fields of the name than entries in the list.
pub open spec fn more_fields(hs: Seq<HeaderField>, signed: Seq<FieldName>, n: FieldName) -> bool { signed.filter(eq_name(n)).len() < hs.filter(is_name(n)).len() }
pub open spec fn header_policy(hs: Seq<HeaderField>, required: Seq<FieldName>, guarded: Seq<FieldName>, signed: Seq<FieldName>, e: PolicyError) -> bool {
    match e {
        PolicyError::RequiredHeaderNotSigned => exists|i: int| 0 <= i < required.len() && !has_name(signed, #[trigger] required[i]),
        PolicyError::UnsignedHeaderOccurrence => exists|i: int| 0 <= i < guarded.len() && more_fields(hs, signed, #[trigger] guarded[i]),
        _ => false,
    }
}
/// The signature violates the policy at time `t`, and `e` says how.
pub open spec fn policy_violated(sig: DkimSignature, hs: Seq<HeaderField>, c: Config, t: u64, e: VerificationError) -> bool {
    match e {
        VerificationError::Overflow => sig.body_length matches Some(n) && n > usize::MAX,
        VerificationError::Policy(PolicyError::SignatureExpired) => !c.allow_expired && (sig.expiration matches Some(x) && t >= sat_add(x, c.time_tolerance.secs)),
        VerificationError::Policy(PolicyError::TimestampInFuture) => !c.allow_timestamp_in_future && (sig.timestamp matches Some(x) && sat_sub(x, c.time_tolerance.secs) > t),
        VerificationError::Policy(p) => header_policy(hs, c.headers_required_in_signature@, c.headers_forbidden_to_be_unsigned@, sig.signed_headers@, p),
        _ => false,
    }
}
pub open spec fn policy_ok(sig: DkimSignature, hs: Seq<HeaderField>, c: Config, t: u64) -> bool { forall|e: VerificationError| !policy_violated(sig, hs, c, t, e) }
@@fn verifier/header.rs::validate_signed_headers
@attr
#[verifier::loop_isolation(false)]
@ret r
@replace $i_s.contains($i_h) => v_contains_name($i_s, $i_h)
@replace headers.iter().filter(|(name, _)| $e).count() => v_count_by(headers, Ghost(is_name(*req)), |v_f: &HeaderField| -> (v_r: bool) ensures v_r == same_name(v_f.0, *req) { let (name, _) = v_f; $e })
@replace signed_headers.iter().filter(|&name| $e).take($n).count() => v_min(v_count_by(signed_headers, Ghost(eq_name(*req)), |v_n: &FieldName| -> (v_r: bool) ensures v_r == same_name(*v_n, *req) { let name = v_n; $e }), $n)
@spec
    ensures match r {
        Ok(_) => forall|e: PolicyError| !header_policy(headers@, headers_required_in_signature@, headers_forbidden_to_be_unsigned@, signed_headers@, e),
        Err(VerificationError::Policy(e)) => header_policy(headers@, headers_required_in_signature@, headers_forbidden_to_be_unsigned@, signed_headers@, e),
        Err(_) => false,
    },
@loop 0 index
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@ == headers_required_in_signature@,
        forall|i: int| 0 <= i < v_i0 ==> has_name(signed_headers@, #[trigger] headers_required_in_signature@[i]),
    decreases v_seq0@.len() - v_i0,
@loop 1 index
@loop 1 spec
    invariant
        v_i1 <= v_seq1@.len(), v_seq1@ == headers_forbidden_to_be_unsigned@,
        forall|i: int| 0 <= i < headers_required_in_signature@.len() ==> has_name(signed_headers@, #[trigger] headers_required_in_signature@[i]),
        forall|i: int| 0 <= i < v_i1 ==> !more_fields(headers@, signed_headers@, #[trigger] headers_forbidden_to_be_unsigned@[i]),
    decreases v_seq1@.len() - v_i1,
@@end
pub fn v_min(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
@@fn verifier/header.rs::validate_signature
@ret r
@spec
    ensures match r {
        Ok(_) => exists|t: u64| #[trigger] cfg_now(*config, t) && policy_ok(*sig, headers.0@, *config, t),
        Err(e) => exists|t: u64| #[trigger] cfg_now(*config, t) && policy_violated(*sig, headers.0@, *config, t, e),
    },
@head
    proof { lemma_some_time(*config); }
@@end
proof fn lemma_some_time(c: Config)
    ensures exists|t: u64| cfg_now(c, t)
{
    let t: u64 = match c.fixed_system_time { Some(x) => { axiom_time(x); unix_secs(x) as u64 }, None => 0 };
    assert(cfg_now(c, t));
}
// ================= C17: one task per signature field =================
pub open spec fn is_dkim() -> spec_fn(HeaderField) -> bool { |f: HeaderField| lower(f.0.0@) == lower("DKIM-Signature"@) }
/// The positions of the signature fields that are considered.
pub open spec fn sig_places(hs: Seq<HeaderField>, max: usize) -> Seq<int> { first_n(places(hs, is_dkim()), max) }
/// What parsing a signature gives (C11).
pub open spec fn sig_read(s: Seq<char>, r: Result<DkimSignature, DkimSignatureError>) -> bool {
    match r {
        Ok(r) => exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) && distinct_names(tags) && sig_ok(tags) && sig_data(tags, r),
        Err(e) => (e.kind is TagListFormat && forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) ==> !distinct_names(tags))
            || exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) && distinct_names(tags) && sig_violates(tags, e.kind) && sig_err_data(tags, e),
    }
}
/// The task for the field at position `i` before any key lookup.
pub open spec fn task_begun(hs: Seq<HeaderField>, c: Config, i: int, k: VerifyTask) -> bool {
    let (name, value) = (hs[i].0.0@, hs[i].1.0@);
    &&& k.index == i && k.key_record is None
    &&& match k.status {
        VerifyStatus::InProgress => k.signature matches Some(sig) && k.header_name matches Some(n) && k.header_value matches Some(v) && n@ == name && utf8(v@) == value
            && sig_read(v@, Ok(sig)) && exists|t: u64| #[trigger] cfg_now(c, t) && policy_ok(sig, hs, c, t),
        VerifyStatus::Failed(e) => match k.signature {
            Some(sig) => (exists|v: Seq<char>| #[trigger] utf8(v) == value && sig_read(v, Ok(sig))) && exists|t: u64| #[trigger] cfg_now(c, t) && policy_violated(sig, hs, c, t, e),
            None => e matches VerificationError::DkimSignatureFormat(e) && ((e.kind is Utf8Encoding && !is_utf8(value)) || exists|v: Seq<char>| #[trigger] utf8(v) == value && sig_read(v, Err(e))),
        },
        VerifyStatus::Successful => false,
    }
}
impl VerifyTask {
@@fn verifier/header.rs::VerifyTask::failed
@ret r
@spec
    ensures r.index == index, r.status == VerifyStatus::Failed(error), r.signature is None, r.key_record is None, r.header_name is None, r.header_value is None,
@@end
@@fn verifier/header.rs::VerifyTask::started
@ret r
@spec
    ensures r.index == index, r.status is InProgress, r.signature == Some(sig), r.key_record is None, r.header_name == Some(name), r.header_value == Some(value),
@@end
}
impl<'a, 'b> HeaderVerifier<'a, 'b> {
@@fn verifier/header.rs::HeaderVerifier::find_signatures
@ret r
@attr
#[verifier::loop_isolation(false)]
@replace let mut tasks = vec![]; => let mut tasks: Vec<VerifyTask> = vec![];
@replace let $i_d = headers.as_ref().iter().enumerate().filter(|(_, (name, _))| $e).take($n); => let $i_d = v_find_first(headers.v_as_ref(), Ghost(is_dkim()), |v_f: &HeaderField| -> (v_r: bool) ensures v_r == (lower(v_f.0.0@) == lower("DKIM-Signature"@)) { let (name, _) = v_f; $e }, $n);
@replace *name == DKIM_SIGNATURE_NAME => (*name).v_eq_str(&DKIM_SIGNATURE_NAME)
@replace str::from_utf8($x) => v_from_utf8($x)
@spec
    ensures match r {
        None => sig_places(headers.0@, config.max_signatures).len() == 0,
        Some(v) => {
            let p = sig_places(headers.0@, config.max_signatures);
            &&& v.headers == headers && v.config == config
            &&& v.tasks@.len() == p.len() > 0
            &&& forall|k: int| 0 <= k < p.len() ==> task_begun(headers.0@, *config, p[k], #[trigger] v.tasks@[k])
        },
    },
@loop 0 index copy
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@.len() == sig_places(headers.0@, config.max_signatures).len(), tasks@.len() == v_i0,
        forall|k: int| 0 <= k < v_seq0@.len() ==> (#[trigger] v_seq0@[k]).0 == sig_places(headers.0@, config.max_signatures)[k] && *v_seq0@[k].1 == headers.0@[v_seq0@[k].0 as int],
        forall|k: int| 0 <= k < v_i0 ==> task_begun(headers.0@, *config, sig_places(headers.0@, config.max_signatures)[k], #[trigger] tasks@[k]),
    decreases v_seq0@.len() - v_i0,
@@end
}
// ================= C09: what a key record permits =================
pub open spec fn alg_type(a: SigningAlgorithm) -> KeyType { match a { SigningAlgorithm::RsaSha256 => KeyType::Rsa, SigningAlgorithm::Ed25519Sha256 => KeyType::Ed25519 } }
pub open spec fn record_forbids(t: KeyType, h: HashAlgorithm, r: DkimKeyRecord, d: DomainName, i: Option<Identity>, e: VerificationError) -> bool {
    match e {
        VerificationError::WrongKeyType => r.key_type != t,
        VerificationError::KeyRevoked => r.key_data@.len() == 0,
        VerificationError::DisallowedHashAlgorithm => !r.hash_algorithms@.contains(h),
        VerificationError::DomainMismatch => r.flags@.contains(SelectorFlag::NoSubdomains) && (i matches Some(i) && idna_a(d.0@) != idna_a(i.domain.0@)),
        _ => false,
    }
}
pub open spec fn id_of(i: Option<&Identity>) -> Option<Identity> { match i { Some(i) => Some(*i), None => None } }
@@fn verifier/header.rs::validate_key_record
@ret r
@replace $i_r.hash_algorithms.contains($x) => v_contains_alg(&$i_r.hash_algorithms, $x)
@replace $i_r.flags.contains(&$x) => v_contains_flag(&$i_r.flags, $x)
@spec
    requires domain_ok(*domain), identity matches Some(i) ==> domain_ok(i.domain),
    ensures match r {
        Ok(_) => forall|e: VerificationError| !record_forbids(key_type, hash_alg, *record, *domain, id_of(identity), e),
        Err(e) => record_forbids(key_type, hash_alg, *record, *domain, id_of(identity), e),
    },
@@end
pub open spec fn usable(k: Option<VerifyingKey>) -> bool { k matches Some(k) && crypto::min_size_ok(k) }
@@fn verifier/header.rs::read_verifying_key
@ret r
@spec
    ensures match r {
        Ok(k) => crypto::key_of(key_type, key_data@) == Some(k) && crypto::min_size_ok(k),
        Err(e) => match crypto::key_of(key_type, key_data@) { None => e is InvalidKey, Some(k) => e is InsufficientKeySize && !crypto::min_size_ok(k) },
    },
@@end
/// Smaller than the configured minimum.
pub open spec fn too_small(k: VerifyingKey, c: Config) -> bool { crypto::bits_of(k) matches Some(n) && n < c.min_key_bits }
@@fn verifier/header.rs::validate_verifying_key
@ret r
@spec
    ensures match r { Ok(_) => !too_small(*verifying_key, *config), Err(e) => too_small(*verifying_key, *config) && e == VerificationError::Policy(PolicyError::KeyTooSmall) },
@@end
pub type ParsedRecord = Result<Arc<DkimKeyRecord>, DkimKeyRecordError>;
/// What parsing a key record gives (C12).
pub open spec fn record_read(s: Seq<char>, r: Result<DkimKeyRecord, DkimKeyRecordError>) -> bool {
    match r {
        Ok(r) => exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) && distinct_names(tags) && rec_ok(tags) && rec_data(tags, r),
        Err(e) => (e is TagListFormat && forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) ==> !distinct_names(tags))
            || exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) && distinct_names(tags) && rec_violates(tags, e),
    }
}
/// The record that a TXT record stands for.
pub open spec fn parsed_from(raw: Result<String, VIoError>, r: ParsedRecord) -> bool {
    match raw {
        Ok(s) => match r { Ok(a) => record_read(s@, Ok(*a)), Err(e) => record_read(s@, Err(e)) },
        Err(_) => r matches Err(e) && e is RecordFormat,
    }
}
pub open spec fn cache_ok(raw: Result<String, VIoError>, c: CachedDkimKeyRecord) -> bool {
    match c { CachedDkimKeyRecord::Unparsed(x) => x == raw, CachedDkimKeyRecord::Parsed(r) => parsed_from(raw, r) }
}
/// Parsed at most once: once parsed, it stays.
pub open spec fn cached_step(a: CachedDkimKeyRecord, b: CachedDkimKeyRecord) -> bool {
    a == b || (a matches CachedDkimKeyRecord::Unparsed(raw) && b matches CachedDkimKeyRecord::Parsed(r) && parsed_from(raw, r))
}
impl CachedDkimKeyRecord {
@@fn verifier/header.rs::CachedDkimKeyRecord::parse_and_cache
@ret r
@replace $i_r.map(Arc::new) => (match $i_r { Ok(v_x) => Ok(Arc::new(v_x)), Err(v_x) => Err(v_x) })
@spec
    ensures cached_step(*old(self), *final(self)), *final(self) == CachedDkimKeyRecord::Parsed(*r),
@@end
}
/// Why there are no key records.
pub open spec fn lookup_error(k: ErrorKind) -> VerificationError {
    match k {
        ErrorKind::NotFound => VerificationError::NoKeyFound,
        ErrorKind::InvalidInput => VerificationError::InvalidKeyDomain,
        ErrorKind::TimedOut => VerificationError::Timeout,
        _ => VerificationError::KeyLookup,
    }
}
pub open spec fn lookup_outcome(l: QueryResult) -> Result<Vec<Result<String, VIoError>>, VerificationError> {
    match l { Ok(t) => if t@.len() == 0 { Err(VerificationError::NoKeyFound) } else { Ok(t) }, Err(e) => Err(lookup_error(e.k())) }
}
@@fn verifier/header.rs::map_lookup_result_to_key_records
@ret r
@replace let records = $i_t.into_iter().map($i_a::$i_b).collect(); => let records: Vec<CachedDkimKeyRecord> = v_map_vec($i_t, |v_x: Result<String, VIoError>| -> (v_r: CachedDkimKeyRecord) ensures v_r == $i_a::$i_b(v_x) { $i_a::$i_b(v_x) });
@spec
    ensures match r {
        Ok(c) => lookup_outcome(lookup_result) matches Ok(t) && c@.len() == t@.len() && forall|i: int| 0 <= i < c@.len() ==> #[trigger] c@[i] == CachedDkimKeyRecord::Unparsed(t@[i]),
        Err(e) => lookup_outcome(lookup_result) == Result::<Vec<Result<String, VIoError>>, VerificationError>::Err(e),
    },
@@end
// ================= C07, C09: one signature, its key records =================
/// What a signature says is well-formed (it was parsed).
pub open spec fn sig_wf(s: DkimSignature) -> bool { domain_ok(s.domain) && selector_ok(s.selector) && (s.identity matches Some(i) ==> domain_ok(i.domain)) }
/// Why the signature does not verify with the record.
pub open spec fn record_fails(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, r: DkimKeyRecord, e: VerificationError) -> bool {
    let t = alg_type(s.algorithm);
    let k = crypto::key_of(t, r.key_data@);
    record_forbids(t, alg_hash(s.algorithm), r, s.domain, s.identity, e)
    || match e {
        VerificationError::VerificationFailure(crypto::VerificationError::InvalidKey) => k is None,
        VerificationError::VerificationFailure(crypto::VerificationError::InsufficientKeySize) => (k matches Some(k) && !crypto::min_size_ok(k)),
        VerificationError::VerificationFailure(crypto::VerificationError::VerificationFailure) => (k matches Some(k) && !data_verifies(k, s, hs, name, value)),
        VerificationError::Policy(PolicyError::KeyTooSmall) => (k matches Some(k) && too_small(k, c)),
        _ => false,
    }
}
/// The record permits the signature and its key verifies it.
pub open spec fn record_verifies(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, r: DkimKeyRecord) -> bool {
    let t = alg_type(s.algorithm);
    &&& forall|e: VerificationError| !#[trigger] record_forbids(t, alg_hash(s.algorithm), r, s.domain, s.identity, e)
    &&& crypto::key_of(t, r.key_data@) matches Some(k) && crypto::min_size_ok(k) && !too_small(k, c) && data_verifies(k, s, hs, name, value)
}
proof fn theorem_record_verifies(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, r: DkimKeyRecord)
    ensures record_verifies(s, hs, c, name, value, r) <==> forall|e: VerificationError| !#[trigger] record_fails(s, hs, c, name, value, r, e)
{
    let t = alg_type(s.algorithm);
    if !record_verifies(s, hs, c, name, value, r) {
        if exists|e: VerificationError| #[trigger] record_forbids(t, alg_hash(s.algorithm), r, s.domain, s.identity, e) {
            let e = choose|e: VerificationError| #[trigger] record_forbids(t, alg_hash(s.algorithm), r, s.domain, s.identity, e);
            assert(record_fails(s, hs, c, name, value, r, e));
        } else {
            let e = match crypto::key_of(t, r.key_data@) {
                None => VerificationError::VerificationFailure(crypto::VerificationError::InvalidKey),
                Some(k) => if !crypto::min_size_ok(k) { VerificationError::VerificationFailure(crypto::VerificationError::InsufficientKeySize) }
                    else if too_small(k, c) { VerificationError::Policy(PolicyError::KeyTooSmall) }
                    else { VerificationError::VerificationFailure(crypto::VerificationError::VerificationFailure) },
            };
            assert(record_fails(s, hs, c, name, value, r, e));
        }
    } else {
        assert forall|e: VerificationError| !#[trigger] record_fails(s, hs, c, name, value, r, e) by {
            assert(!record_forbids(t, alg_hash(s.algorithm), r, s.domain, s.identity, e));
        }
    }
}
/// The outcome of trying one record.
pub open spec fn tried(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, p: ParsedRecord, status: VerifyStatus, rec: Option<Arc<DkimKeyRecord>>) -> bool {
    match p {
        Err(e) => status == VerifyStatus::Failed(VerificationError::KeyRecordFormat(e)) && rec is None,
        Ok(r) => rec == Some(r) && match status {
            VerifyStatus::Successful => record_verifies(s, hs, c, name, value, *r),
            VerifyStatus::Failed(e) => record_fails(s, hs, c, name, value, *r, e),
            VerifyStatus::InProgress => false,
        },
    }
}
pub open spec fn verifies_with(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, p: ParsedRecord) -> bool {
    p matches Ok(r) && record_verifies(s, hs, c, name, value, *r)
}
pub open spec fn arc_val<T>(r: Arc<T>) -> T { *r }
proof fn lemma_not_verified(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, p: ParsedRecord, status: VerifyStatus, rec: Option<Arc<DkimKeyRecord>>)
    requires tried(s, hs, c, name, value, p, status, rec), !(status is Successful)
    ensures !verifies_with(s, hs, c, name, value, p)
{
    if let Ok(r) = p { theorem_record_verifies(s, hs, c, name, value, arc_val(r)); assert(record_fails(s, hs, c, name, value, arc_val(r), status->Failed_0)); }
}
pub open spec fn record_at(c: Seq<CachedDkimKeyRecord>, i: int) -> ParsedRecord { c[i]->Parsed_0 }
/// The outcome after `n` records.
pub open spec fn tried_upto(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, recs: Seq<CachedDkimKeyRecord>, n: int, status: VerifyStatus, rec: Option<Arc<DkimKeyRecord>>) -> bool {
    &&& 0 < n <= recs.len()
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] recs[i]) is Parsed
    &&& forall|i: int| 0 <= i < n - 1 ==> !verifies_with(s, hs, c, name, value, (#[trigger] recs[i])->Parsed_0)
    &&& tried(s, hs, c, name, value, record_at(recs, n - 1), status, rec)
}
/// The first record that verifies decides, otherwise the last one.
pub open spec fn decided_by(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, recs: Seq<CachedDkimKeyRecord>, n: int, status: VerifyStatus, rec: Option<Arc<DkimKeyRecord>>) -> bool {
    tried_upto(s, hs, c, name, value, recs, n, status, rec) && (status is Successful || n == recs.len())
}
pub open spec fn some_records(r: Result<Vec<CachedDkimKeyRecord>, VerificationError>) -> bool { r matches Ok(c) ==> c@.len() > 0 }
pub open spec fn same_signature(a: VerifyTask, b: VerifyTask) -> bool { a.index == b.index && a.signature == b.signature && a.header_name == b.header_name && a.header_value == b.header_value }
@@fn signature.rs::(KeyType , HashAlgorithm)<From<SigningAlgorithm>>::from as v_alg_parts
@ret r
@replace Self => (KeyType, HashAlgorithm)
@spec
    ensures r.0 == alg_type(alg), r.1 == alg_hash(alg),
@@end
@@fn verifier/header.rs::verify_task
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(60)]
@replace sig.algorithm.into() => v_alg_parts(sig.algorithm)
@replace e.clone() => v_clone_err(e)
@replace verify::perform_verification => perform_verification
@replace let key_records = $i_c.iter_mut().map(|r| r.parse_and_cache()); => 
@replace for (i, key_record) in key_records.enumerate() { $b } =>
let mut v_k: usize = 0;
while v_k < cached_records.len()
    invariant_except_break
        v_k > 0 ==> tried_upto(sig0, headers.0@, *config, name0, value0, cached_records@, v_k as int, task.status, task.key_record) && !(task.status is Successful),
    invariant
        v_k <= cached_records@.len() == c0.len(),
        same_signature(*task, t0),
        forall|j: int| 0 <= j < c0.len() ==> cached_step(c0[j], #[trigger] cached_records@[j]),
    ensures decided_by(sig0, headers.0@, *config, name0, value0, cached_records@, v_k as int, task.status, task.key_record),
    decreases cached_records@.len() - v_k,
{
    v_probe!();
    let ghost g0 = cached_records@;
    let ghost gk = v_k as int;
    let i = v_k;
    proof {
        if gk > 0 {
            lemma_not_verified(sig0, headers.0@, *config, name0, value0, record_at(g0, gk - 1), task.status, task.key_record);
        }
    }
    let key_record = v_vec_mut(cached_records, v_k).parse_and_cache();
    v_k = v_k + 1;
    $b
}
@spec
    requires
        old(task).status is InProgress, old(task).signature is Some, sig_wf(old(task).signature->0), old(task).header_name is Some, old(task).header_value is Some,
        hs_ok(CanonicalizationAlgorithm::Relaxed, headers.0@), body_ok(utf8(old(task).header_value->0@)),
        some_records(*old(lookup_result)),
    ensures
        same_signature(*final(task), *old(task)),
        match *old(lookup_result) {
            Err(e) => final(task).status == VerifyStatus::Failed(e) && final(task).key_record == old(task).key_record && *final(lookup_result) == *old(lookup_result),
            Ok(c0) => *final(lookup_result) matches Ok(c1) && c1@.len() == c0@.len()
                && (forall|j: int| 0 <= j < c0@.len() ==> cached_step(c0@[j], #[trigger] c1@[j]))
                && exists|n: int| #[trigger] decided_by(old(task).signature->0, headers.0@, *config, old(task).header_name->0@, old(task).header_value->0@, c1@, n, final(task).status, final(task).key_record),
        },
@head
    let ghost t0 = *task;
    let ghost sig0 = t0.signature->0;
    let ghost name0 = t0.header_name->0@;
    let ghost value0 = t0.header_value->0@;
    let ghost c0 = lookup_result->Ok_0@;
@tail
    proof {
        assert(decided_by(sig0, headers.0@, *config, name0, value0, cached_records@, v_k as int, task.status, task.key_record));
    }
@@end
proof fn lemma_sig_wf(s: Seq<char>, r: DkimSignature)
    requires sig_read(s, Ok(r))
    ensures sig_wf(r)
{
    let tags = choose|tags: Seq<Tag>| #[trigger] tag_list_ok(s, tags) && distinct_names(tags) && sig_ok(tags) && sig_data(tags, r);
    theorem_lookup(tags, "d"@);
    theorem_lookup(tags, "s"@);
    assert(!missing(tags, SigErr::MissingDomainTag) && !missing(tags, SigErr::MissingSelectorTag));
    lemma_sig_lits();
    let i = choose|i: int| 0 <= i < tags.len() && #[trigger] tags[i] == (Tag { name: "d"@, value: lookup(tags, "d"@)->0 });
    let j = choose|i: int| 0 <= i < tags.len() && #[trigger] tags[i] == (Tag { name: "s"@, value: lookup(tags, "s"@)->0 });
    assert(sig_tag_fine(tags[i]) && sig_tag_fine(tags[j]));
}
