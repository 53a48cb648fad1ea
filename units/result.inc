// ================= C04, C07, C17: from the headers and the body to the results =================
@@item verifier/mod.rs::VerificationStatus
@@end
@@item verifier/mod.rs::VerificationResult
@@end
@@item verifier/mod.rs::VerifierTask
@@end
@@item verifier/mod.rs::Verifier
@@end
/// What the body hash of a signature is computed with.
pub open spec fn hash_key(s: DkimSignature) -> BodyHasherKey {
    (match s.body_length { Some(n) => Some(n as usize), None => None }, alg_hash(s.algorithm), s.canonicalization.body)
}
pub open spec fn length_fits(s: DkimSignature) -> bool { s.body_length matches Some(n) ==> n <= usize::MAX }
/// The verdict on the body `b` for a signature.
pub open spec fn body_verdict(s: DkimSignature, no_more: bool, b: Seq<u8>) -> VerificationStatus {
    let (len, alg, canon) = hash_key(s);
    let c = bcanon_of(canon, b);
    let counted = match len { Some(n) => c.take(n as int), None => c };
    if len matches Some(n) && c.len() < n { VerificationStatus::Failure(VerificationError::InsufficientContent) }
    else if no_more && (len matches Some(n) && c.len() > n) { VerificationStatus::Failure(VerificationError::Policy(PolicyError::UnsignedContent)) }
    else if digest_of(alg, counted) == s.body_hash@ { VerificationStatus::Success }
    else { VerificationStatus::Failure(VerificationError::BodyHashMismatch) }
}
/// `len.try_into().expect(..)`: a panic where the number does not fit.
#[verifier::external_body]
pub fn v_to_usize(len: u64) -> (r: usize) requires len <= usize::MAX ensures r == len as usize { unimplemented!() }
#[verifier::external_body]
pub fn v_same_bytes(a: &Box<[u8]>, b: &Box<[u8]>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

@@fn message_hash.rs::body_hasher_key
@ret r
@replace map(|len| len.try_into().expect($m)) => map(|len: u64| -> (v_r: usize) requires len <= usize::MAX ensures v_r == len as usize { v_to_usize(len) })
@spec
    requires length_fits(*sig)
    ensures r == hash_key(*sig)
@@end
@@fn verifier/mod.rs::verify_body_hash
@ret r
@replace h == &sig.body_hash => v_same_bytes(h, &sig.body_hash)
@spec
    requires length_fits(*sig), body_hash_results.results@.contains_key(hash_key(*sig)),
    ensures forall|no_more: bool, b: Seq<u8>| #[trigger] answer(no_more, hash_key(*sig), b, body_hash_results.results@[hash_key(*sig)]) ==> r == body_verdict(*sig, no_more, b),
@@end

/// A task taken over from the verification of the headers.
pub open spec fn carried(k: VerifyTask, t: VerifierTask) -> bool {
    &&& t.index == k.index && t.signature == k.signature && t.key_record == k.key_record
    &&& match k.status {
        VerifyStatus::InProgress => false,
        VerifyStatus::Failed(e) => t.status == VerificationStatus::Failure(e),
        VerifyStatus::Successful => t.status is Success && t.signature is Some && length_fits(t.signature->0),
    }
}
/// The state between the headers and the end of the body.
impl Verifier {
    pub open spec fn ready(&self) -> bool {
        &&& self.body_hasher.inv()
        &&& forall|j: int| 0 <= j < self.tasks@.len() && (#[trigger] self.tasks@[j]).status is Success ==>
            (self.tasks@[j].signature matches Some(s) && length_fits(s) && self.body_hasher.hashers@.contains_key(hash_key(s)))
    }
}
/// The tasks after the headers have been verified.
pub open spec fn headers_done(hs: Seq<HeaderField>, c: Config, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, ts: Seq<VerifierTask>) -> bool {
    exists|t0: Seq<VerifyTask>, t1: Seq<VerifyTask>| #[trigger] all_begun(hs, c, t0) && #[trigger] all_done(hs, c, l0, l1, t0, t1)
        && ts.len() == t1.len() && forall|j: int| 0 <= j < ts.len() ==> carried(t1[j], #[trigger] ts[j])
}
proof fn lemma_finished(hs: Seq<HeaderField>, c: Config, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, t0: Seq<VerifyTask>, t1: Seq<VerifyTask>)
    requires all_begun(hs, c, t0), all_done(hs, c, l0, l1, t0, t1), hs_ok(CanonicalizationAlgorithm::Relaxed, hs)
    ensures t1.len() == t0.len(), forall|j: int| 0 <= j < t1.len() ==> !((#[trigger] t1[j]).status is InProgress)
        && (t1[j].status is Successful ==> (t1[j].signature matches Some(s) && length_fits(s)))
{
    reveal(task_decided);
    lemma_begun(hs, c, t0);
    let p = sig_places(hs, c.max_signatures);
    assert forall|j: int| 0 <= j < t1.len() implies !((#[trigger] t1[j]).status is InProgress) && (t1[j].status is Successful ==> (t1[j].signature matches Some(s) && length_fits(s))) by {
        assert(task_begun(hs, c, p[j], t0[j]));
        if t0[j].status is InProgress {
            let s = t0[j].signature->0;
            let t = choose|t: u64| #[trigger] cfg_now(c, t) && policy_ok(s, hs, c, t);
            assert(!policy_violated(s, hs, c, t, VerificationError::Overflow));
        }
    }
}
impl Verifier {
@@fn verifier/mod.rs::Verifier::verify_header
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@replace LookupTxt => VLookup
@replace resolver: &T => resolver: &T, v_log: &mut VLog
@replace verifier.verify_all(resolver) => verifier.verify_all(resolver, v_log)
@replace let mut tasks = vec![]; => let mut tasks: Vec<VerifierTask> = vec![];
@replace for task in verified_tasks { $b } =>
let ghost t1 = verified_tasks@;
proof { lemma_finished(headers.0@, *config, log0, v_log@, t0, t1); }
let mut v_it = v_into_iter(verified_tasks);
let ghost mut v_n: int = 0;
loop
    invariant
        0 <= v_n <= t1.len(), v_it@ == t1.skip(v_n), tasks@.len() == v_n,
        forall|j: int| 0 <= j < v_n ==> carried(t1[j], #[trigger] tasks@[j]),
        body_hasher.fail_on_truncate == config.forbid_unsigned_content,
        forall|j: int| 0 <= j < v_n && (#[trigger] tasks@[j]).status is Success ==> body_hasher.registrations@.contains(hash_key(tasks@[j].signature->0)),
    ensures v_n == t1.len(),
    decreases t1.len() - v_n,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { assert(v_x == t1[v_n]); assert(v_it@ =~= t1.skip(v_n + 1)); v_n = v_n + 1; }
            let task = v_x;
            $b
        }
        None => break,
    }
}
@spec
    requires hs_ok(CanonicalizationAlgorithm::Relaxed, headers.0@),
    ensures match r {
        None => sig_places(headers.0@, config.max_signatures).len() == 0 && final(v_log)@ == old(v_log)@,
        Some(v) => v.ready() && v.body_hasher.v_seen@ == Seq::<u8>::empty() && v.body_hasher.fail_on_truncate == config.forbid_unsigned_content
            && v.tasks@.len() > 0 && headers_done(headers.0@, *config, old(v_log)@, final(v_log)@, v.tasks@),
    },
@head
    let ghost log0 = v_log@;
@before let verified_tasks =
    let ghost t0 = verifier.tasks@;
    proof { assert(all_begun(headers.0@, *config, t0)); }
@tail
    proof {
        assert(all_begun(headers.0@, *config, t0) && all_done(headers.0@, *config, log0, v_log@, t0, t1));
    }
@@end
@@fn verifier/mod.rs::Verifier::process_body_chunk
@ret r
@spec
    requires old(self).ready(), fits(old(self).body_hasher.v_seen@ + chunk@),
    ensures final(self).ready(), final(self).tasks == old(self).tasks,
        final(self).body_hasher.v_seen@ == old(self).body_hasher.v_seen@ + chunk@,
        final(self).body_hasher.fail_on_truncate == old(self).body_hasher.fail_on_truncate,
        r is Done ==> final(self).body_hasher.all_settled(),
@@end
@@fn verifier/mod.rs::Verifier::finish
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@replace let mut result = vec![]; => let mut result: Vec<VerificationResult> = vec![];
@replace for task in self.tasks { $b } =>
let ghost ts = self.tasks@;
let mut v_it = v_into_iter(self.tasks);
let ghost mut v_n: int = 0;
loop
    invariant
        0 <= v_n <= ts.len(), v_it@ == ts.skip(v_n), result@.len() == v_n,
        forall|j: int| 0 <= j < v_n ==> concluded(ts[j], no_more, body, #[trigger] result@[j]),
    ensures v_n == ts.len(),
    decreases ts.len() - v_n,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { assert(v_x == ts[v_n]); assert(v_it@ =~= ts.skip(v_n + 1)); v_n = v_n + 1; }
            let task = v_x;
            $b
        }
        None => break,
    }
}
@spec
    requires self.ready(),
    ensures r@.len() == self.tasks@.len(),
        forall|j: int| 0 <= j < r@.len() ==> concluded(self.tasks@[j], self.body_hasher.fail_on_truncate, self.body_hasher.v_seen@, #[trigger] r@[j]),
@head
    let ghost no_more = self.body_hasher.fail_on_truncate;
    let ghost body = self.body_hasher.v_seen@;
@@end
}
/// The result for one task at the end of the body.
pub open spec fn concluded(t: VerifierTask, no_more: bool, b: Seq<u8>, r: VerificationResult) -> bool {
    &&& r.index == t.index && r.signature == t.signature && r.key_record == t.key_record
    &&& r.status == match t.status {
        VerificationStatus::Success => body_verdict(t.signature->0, no_more, b),
        VerificationStatus::Failure(e) => VerificationStatus::Failure(e),
    }
}
/// C17: one result for each considered signature field, in their order.
/// C07, C08, C09: a success means a signature that reads well and obeys the policy, a key
/// record obtained for its domain and selector that verifies it, and a matching body hash.
proof fn theorem_results(hs: Seq<HeaderField>, c: Config, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, ts: Seq<VerifierTask>, b: Seq<u8>, r: Seq<VerificationResult>)
    requires headers_done(hs, c, l0, l1, ts), hs_ok(CanonicalizationAlgorithm::Relaxed, hs), r.len() == ts.len(),
        forall|j: int| 0 <= j < r.len() ==> concluded(ts[j], c.forbid_unsigned_content, b, #[trigger] r[j]),
    ensures
        r.len() == sig_places(hs, c.max_signatures).len(),
        forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).index == sig_places(hs, c.max_signatures)[j],
        forall|j: int| 0 <= j < r.len() && (#[trigger] r[j]).status is Success ==> passed(hs, c, l0, l1, b, r[j]),
{
    let (t0, t1) = choose|t0: Seq<VerifyTask>, t1: Seq<VerifyTask>| #[trigger] all_begun(hs, c, t0) && #[trigger] all_done(hs, c, l0, l1, t0, t1)
        && ts.len() == t1.len() && forall|j: int| 0 <= j < ts.len() ==> carried(t1[j], #[trigger] ts[j]);
    let (ps, set) = choose|ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>| #[trigger] spawned_as(ps, needed(t0), l0, l1, set) && t1.len() == t0.len() && forall|j: int| 0 <= j < t1.len() ==> task_done(hs, c, ps, set, t0[j], #[trigger] t1[j]);
    let p = sig_places(hs, c.max_signatures);
    reveal(task_decided);
    assert forall|j: int| 0 <= j < r.len() implies (#[trigger] r[j]).index == p[j] && (r[j].status is Success ==> passed(hs, c, l0, l1, b, r[j])) by {
        assert(task_begun(hs, c, p[j], t0[j]) && task_done(hs, c, ps, set, t0[j], t1[j]) && carried(t1[j], ts[j]) && concluded(ts[j], c.forbid_unsigned_content, b, r[j]));
        if r[j].status is Success {
            assert(t0[j].status is InProgress);
            let s = t0[j].signature->0;
            let q = choose|q: int| 0 <= q < ps.len() && #[trigger] ps[q] == pair_of(s) && task_decided(t0[j], hs, c, set[q].1, t1[j]);
            let k = l0.len() + q;
            assert(l1.skip(l0.len() as int)[q] == l1[k]);
            assert(lookup_outcome(set[q].1) is Ok);
            let t = lookup_outcome(set[q].1)->Ok_0@;
            let (recs, n) = choose|recs: Seq<CachedDkimKeyRecord>, n: int| cached_all(t, recs) && #[trigger] decided_by(s, hs, c, t0[j].header_name->0@, t0[j].header_value->0@, recs, n, t1[j].status, t1[j].key_record);
            assert(recs[n - 1] is Parsed);
            assert(cache_ok(t[n - 1], recs[n - 1]));
            let rec = t1[j].key_record->0;
            assert(answered(l1[k], s, set[q].1, n - 1, rec));
            assert(proven(hs, c, s, t0[j].header_name->0@, t0[j].header_value->0@, arc_val(rec)));
        }
    }
}
/// `rec` is the record read from the text at place `n` of the answer `x` for the key of `s`.
pub open spec fn answered(x: (Seq<char>, VAnswer), s: DkimSignature, res: QueryResult, n: int, rec: Arc<DkimKeyRecord>) -> bool {
    x.0 == key_name(pair_of(s)) && looked_up(x.1, res) && (lookup_outcome(res) matches Ok(t) && 0 <= n < t@.len() && cache_ok(t@[n], CachedDkimKeyRecord::Parsed(Ok(rec))))
}
pub open spec fn proven(hs: Seq<HeaderField>, c: Config, s: DkimSignature, name: Seq<char>, value: Seq<char>, rec: DkimKeyRecord) -> bool {
    sig_read(value, Ok(s)) && (exists|t: u64| #[trigger] cfg_now(c, t) && policy_ok(s, hs, c, t)) && record_verifies(s, hs, c, name, value, rec)
}
pub open spec fn passed(hs: Seq<HeaderField>, c: Config, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, b: Seq<u8>, r: VerificationResult) -> bool {
    r.signature matches Some(s) && (r.key_record matches Some(rec) && {
        &&& exists|v: Seq<char>| utf8(v) == hs[r.index as int].1.0@ && #[trigger] proven(hs, c, s, hs[r.index as int].0.0@, v, arc_val(rec))
        &&& exists|k: int, res: QueryResult, n: int| l0.len() <= k < l1.len() && #[trigger] answered(l1[k], s, res, n, rec)
        &&& body_verdict(s, c.forbid_unsigned_content, b) is Success
    })
}
