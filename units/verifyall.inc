// ================= C07, C09, C17: all signatures =================
pub open spec fn cached_all(t: Seq<Result<String, VIoError>>, recs: Seq<CachedDkimKeyRecord>) -> bool {
    recs.len() == t.len() && forall|i: int| 0 <= i < recs.len() ==> cache_ok(t[i], #[trigger] recs[i])
}
pub open spec fn some_decides(s: DkimSignature, hs: Seq<HeaderField>, c: Config, name: Seq<char>, value: Seq<char>, t: Seq<Result<String, VIoError>>, status: VerifyStatus, rec: Option<Arc<DkimKeyRecord>>) -> bool {
    exists|recs: Seq<CachedDkimKeyRecord>, n: int| cached_all(t, recs) && #[trigger] decided_by(s, hs, c, name, value, recs, n, status, rec)
}
/// The outcome for a signature, given the result of its lookup.
#[verifier::opaque]
pub open spec fn task_decided(t0: VerifyTask, hs: Seq<HeaderField>, c: Config, res: QueryResult, k: VerifyTask) -> bool {
    same_signature(k, t0) && match lookup_outcome(res) {
        Err(e) => k.status == VerifyStatus::Failed(e) && k.key_record == t0.key_record,
        Ok(t) => some_decides(t0.signature->0, hs, c, t0.header_name->0@, t0.header_value->0@, t@, k.status, k.key_record),
    }
}
pub open spec fn has_records(res: QueryResult, r: Result<Vec<CachedDkimKeyRecord>, VerificationError>) -> bool {
    match lookup_outcome(res) {
        Err(e) => r matches Err(x) && x == e,
        Ok(t) => r matches Ok(c) && cached_all(t@, c@) && c@.len() > 0,
    }
}
proof fn lemma_places<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures forall|k: int| 0 <= k < places(s, p).len() ==> 0 <= #[trigger] places(s, p)[k] < s.len() && p(s[places(s, p)[k]]),
        forall|j: int, k: int| 0 <= j < k < places(s, p).len() ==> #[trigger] places(s, p)[j] < #[trigger] places(s, p)[k],
        forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) ==> places(s, p).contains(i),
    decreases s.len()
{
    if s.len() > 0 {
        let r = places(s.drop_last(), p);
        lemma_places(s.drop_last(), p);
        assert forall|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) implies places(s, p).contains(i) by {
            if i < s.len() - 1 {
                assert(s.drop_last()[i] == s[i]);
                let k = choose|k: int| 0 <= k < r.len() && r[k] == i;
                assert(places(s, p)[k] == i);
            } else { assert(places(s, p)[r.len() as int] == i); }
        }
        assert forall|k: int| 0 <= k < places(s, p).len() implies 0 <= #[trigger] places(s, p)[k] < s.len() && p(s[places(s, p)[k]]) by {
            if k < r.len() { assert(places(s, p)[k] == r[k]); assert(s.drop_last()[r[k]] == s[r[k]]); }
        }
    }
}
/// All tasks as they are before the lookups: one for each signature field.
pub open spec fn all_begun(hs: Seq<HeaderField>, c: Config, ts: Seq<VerifyTask>) -> bool {
    let p = sig_places(hs, c.max_signatures);
    ts.len() == p.len() && forall|k: int| 0 <= k < p.len() ==> task_begun(hs, c, p[k], #[trigger] ts[k])
}
proof fn lemma_begun(hs: Seq<HeaderField>, c: Config, ts: Seq<VerifyTask>)
    requires all_begun(hs, c, ts), hs_ok(CanonicalizationAlgorithm::Relaxed, hs)
    ensures
        forall|j: int, k: int| 0 <= j < ts.len() && 0 <= k < ts.len() && #[trigger] ts[j].index == #[trigger] ts[k].index ==> j == k,
        forall|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress ==> ts[j].signature is Some && sig_wf(ts[j].signature->0) && ts[j].header_name is Some && ts[j].header_value is Some && body_ok(utf8(ts[j].header_value->0@)),
        forall|j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]).index < hs.len(),
{
    let p = sig_places(hs, c.max_signatures);
    lemma_places(hs, is_dkim());
    assert forall|j: int, k: int| 0 <= j < k < p.len() implies #[trigger] p[j] < #[trigger] p[k] by {
        assert(p[j] == places(hs, is_dkim())[j] && p[k] == places(hs, is_dkim())[k]);
    }
    assert forall|j: int| 0 <= j < ts.len() implies (#[trigger] ts[j]).index == p[j] && p[j] < hs.len() && (ts[j].status is InProgress ==> sig_wf(ts[j].signature->0) && body_ok(utf8(ts[j].header_value->0@))) by {
        assert(task_begun(hs, c, p[j], ts[j]));
        assert(p[j] == places(hs, is_dkim())[j]);
        if ts[j].status is InProgress { lemma_sig_wf(ts[j].header_value->0@, ts[j].signature->0); assert(body_ok(hs[p[j]].1.0@)); }
    }
}
/// The outcome for one signature: its lookup is among the answers.
pub open spec fn task_done(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: VerifyTask, k: VerifyTask) -> bool {
    if t0.status is InProgress { exists|q: int| 0 <= q < ps.len() && #[trigger] ps[q] == pair_of(t0.signature->0) && task_decided(t0, hs, c, set[q].1, k) } else { k == t0 }
}
/// The tasks after the first `n` answers, the last one only for the first `m` tasks.
#[verifier::opaque]
pub open spec fn part_done(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, n: int, m: int) -> bool {
    &&& ts.len() == t0.len()
    &&& forall|j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]).index == t0[j].index
    &&& forall|j: int| 0 <= j < ts.len() && !(t0[j].status is InProgress) ==> #[trigger] ts[j] == t0[j]
    &&& forall|j: int, q: int| 0 <= j < ts.len() && t0[j].status is InProgress && 0 <= q < ps.len() && #[trigger] ps[q] == pair_of(t0[j].signature->0)
        ==> if q < n - 1 || (q == n - 1 && j < m) { task_decided(t0[j], hs, c, set[q].1, #[trigger] ts[j]) } else { ts[j] == t0[j] }
}
pub open spec fn all_done(hs: Seq<HeaderField>, c: Config, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>) -> bool {
    exists|ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>| #[trigger] spawned_as(ps, needed(t0), l0, l1, set) && ts.len() == t0.len() && forall|j: int| 0 <= j < ts.len() ==> task_done(hs, c, ps, set, t0[j], #[trigger] ts[j])
}
proof fn lemma_next_answer(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, n: int)
    requires part_done(hs, c, ps, set, t0, ts, n, t0.len() as int)
    ensures part_done(hs, c, ps, set, t0, ts, n + 1, 0)
{
    reveal(part_done);
    assert forall|j: int, q: int| 0 <= j < ts.len() && t0[j].status is InProgress && 0 <= q < ps.len() && #[trigger] ps[q] == pair_of(t0[j].signature->0)
        implies if q < n { task_decided(t0[j], hs, c, set[q].1, #[trigger] ts[j]) } else { ts[j] == t0[j] } by {}
}
proof fn lemma_task_step(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, us: Seq<VerifyTask>, n: int, m: int)
    requires part_done(hs, c, ps, set, t0, ts, n, m), 0 <= m < ts.len(), 0 < n <= ps.len(), us.len() == ts.len(),
        forall|j: int| 0 <= j < ts.len() && j != m ==> #[trigger] us[j] == ts[j],
        forall|i: int, j: int| 0 <= i < ps.len() && 0 <= j < ps.len() && #[trigger] ps[i] == #[trigger] ps[j] ==> i == j,
        us[m].index == ts[m].index,
        if t0[m].status is InProgress && ps[n - 1] == pair_of(t0[m].signature->0) { task_decided(t0[m], hs, c, set[n - 1].1, us[m]) } else { us[m] == ts[m] },
    ensures part_done(hs, c, ps, set, t0, us, n, m + 1)
{
    reveal(part_done);
    assert forall|j: int| 0 <= j < us.len() implies (#[trigger] us[j]).index == t0[j].index by { assert(ts[j].index == t0[j].index); }
    assert forall|j: int| 0 <= j < us.len() && !(t0[j].status is InProgress) implies #[trigger] us[j] == t0[j] by { assert(ts[j] == t0[j]); }
    assert forall|j: int, q: int| 0 <= j < us.len() && t0[j].status is InProgress && 0 <= q < ps.len() && #[trigger] ps[q] == pair_of(t0[j].signature->0)
        implies if q < n - 1 || (q == n - 1 && j < m + 1) { task_decided(t0[j], hs, c, set[q].1, #[trigger] us[j]) } else { us[j] == t0[j] } by {
        if j == m && q == n - 1 {} else {
            assert(ps[q] == pair_of(t0[j].signature->0));
            if j == m { if ps[n - 1] == pair_of(t0[m].signature->0) { assert(ps[q] == ps[n - 1]); assert(false); } }
            assert(us[j] == ts[j]);
        }
    }
}
proof fn lemma_part(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, n: int, m: int)
    requires part_done(hs, c, ps, set, t0, ts, n, m)
    ensures ts.len() == t0.len(), forall|j: int| 0 <= j < ts.len() ==> (#[trigger] ts[j]).index == t0[j].index
{ reveal(part_done); }
proof fn lemma_part_start(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>)
    ensures part_done(hs, c, ps, set, t0, t0, 0, t0.len() as int)
{ reveal(part_done); }
proof fn lemma_part_end(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>)
    requires part_done(hs, c, ps, set, t0, ts, set.len() as int, t0.len() as int), spawned_as(ps, needed(t0), l0, l1, set), ps.len() == set.len(),
    ensures all_done(hs, c, l0, l1, t0, ts)
{
    reveal(part_done);
    lemma_needed(t0);
    assert forall|j: int| 0 <= j < ts.len() implies task_done(hs, c, ps, set, t0[j], #[trigger] ts[j]) by {
        if t0[j].status is InProgress {
            assert(needed(t0).contains_key(pair_of(t0[j].signature->0)));
            assert(ps.contains(pair_of(t0[j].signature->0)));
            let q = choose|q: int| 0 <= q < ps.len() && ps[q] == pair_of(t0[j].signature->0);
            assert(ps[q] == pair_of(t0[j].signature->0));
        }
    }
}
proof fn lemma_task_err(t0: VerifyTask, hs: Seq<HeaderField>, c: Config, res: QueryResult, k: VerifyTask)
    requires lookup_outcome(res) matches Err(e) && same_signature(k, t0) && k.status == VerifyStatus::Failed(e) && k.key_record == t0.key_record
    ensures task_decided(t0, hs, c, res, k)
{ reveal(task_decided); }
proof fn lemma_untouched(hs: Seq<HeaderField>, c: Config, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, t0: Seq<VerifyTask>, ts: Seq<VerifyTask>, n: int, m: int)
    requires part_done(hs, c, ps, set, t0, ts, n, m), 0 <= m < ts.len(), 0 < n <= ps.len(), t0[m].status is InProgress, ps[n - 1] == pair_of(t0[m].signature->0)
    ensures ts[m] == t0[m]
{
    reveal(part_done);
}
proof fn lemma_decided(t0: VerifyTask, hs: Seq<HeaderField>, c: Config, res: QueryResult, recs: Seq<CachedDkimKeyRecord>, n: int, k: VerifyTask)
    requires lookup_outcome(res) matches Ok(t) && cached_all(t@, recs), same_signature(k, t0), decided_by(t0.signature->0, hs, c, t0.header_name->0@, t0.header_value->0@, recs, n, k.status, k.key_record),
    ensures task_decided(t0, hs, c, res, k)
{
    reveal(task_decided);
}
impl<'a, 'b> HeaderVerifier<'a, 'b> {
@@fn verifier/header.rs::HeaderVerifier::verify_all
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
#[verifier::rlimit(60)]
@ret r
@replace LookupTxt => VLookup
@replace resolver: &T => resolver: &T, v_log: &mut VLog
@replace Queries::spawn($a, $b, $c) => Queries::spawn($a, $b, v_log, $c)
@replace for raw_result in queries.set.into_iter() { $b } =>
let ghost set = queries.set@;
let ghost ps = choose|ps: Seq<VPair>| #[trigger] spawned_as(ps, needed(t0), log0, v_log@, set);
let mut v_it = v_into_iter(queries.set);
let ghost mut v_n: int = 0;
proof { lemma_part_start(self.headers.0@, *self.config, ps, set, t0); }
loop
    invariant
        0 <= v_n <= set.len(), v_it@ == set.skip(v_n), v_self.headers == self.headers, v_self.config == self.config,
        part_done(self.headers.0@, *self.config, ps, set, t0, v_self.tasks@, v_n, t0.len() as int),
    ensures v_n == set.len(),
    decreases set.len() - v_n,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { lemma_next_answer(self.headers.0@, *self.config, ps, set, t0, v_self.tasks@, v_n); assert(v_x == set[v_n]); assert(v_it@ =~= set.skip(v_n + 1)); v_n = v_n + 1; }
            let raw_result = v_x;
            $b
        }
        None => break,
    }
}
@replace let selected_tasks = self.tasks.iter_mut().filter(|t| $e); for task in selected_tasks { $c } =>
proof { lemma_part(self.headers.0@, *self.config, ps, set, t0, v_self.tasks@, v_n, 0); }
let mut v_k: usize = 0;
while v_k < v_self.tasks.len()
    invariant
        v_k <= t0.len(), v_self.tasks@.len() == t0.len(), 0 < v_n <= set.len(), v_self.headers == self.headers, v_self.config == self.config,
        has_records(set[v_n - 1].1, records),
        part_done(self.headers.0@, *self.config, ps, set, t0, v_self.tasks@, v_n, v_k as int),
    decreases v_self.tasks@.len() - v_k,
{
    v_probe!();
    let ghost g0 = v_self.tasks@;
    let ghost r0 = records;
    let ghost gk = v_k as int;
    let v_hit = { let t = &v_self.tasks[v_k]; $e };
    proof {
        lemma_part(self.headers.0@, *self.config, ps, set, t0, g0, v_n, gk);
        assert(g0[gk].index == t0[gk].index);
        assert(ps[v_n - 1] == ps[v_n - 1] && ps.contains(ps[v_n - 1]));
        lemma_hit(t0, ps, set, v_n - 1, gk);
        assert(v_hit <==> t0[gk].status is InProgress && ps[v_n - 1] == pair_of(t0[gk].signature->0));
        if v_hit { lemma_untouched(self.headers.0@, *self.config, ps, set, t0, g0, v_n, gk); assert(g0[gk] == t0[gk]); }
    }
    if v_hit {
        let task = v_vec_mut(&mut v_self.tasks, v_k);
        assert(*task == t0[gk]);
        $c
        proof {
            lemma_has_records(set[v_n - 1].1, r0, records);
            assert(v_self.tasks@ =~= g0.update(gk, v_self.tasks@[gk]));
            if records is Err { assert(lookup_outcome(set[v_n - 1].1) is Err); lemma_task_err(t0[gk], self.headers.0@, *self.config, set[v_n - 1].1, v_self.tasks@[gk]); }
            if records is Ok { let c1 = records->Ok_0;
                let k1 = v_self.tasks@[gk];
                let n = choose|n: int| #[trigger] decided_by(t0[gk].signature->0, self.headers.0@, *self.config, t0[gk].header_name->0@, t0[gk].header_value->0@, c1@, n, k1.status, k1.key_record);
                lemma_decided(t0[gk], self.headers.0@, *self.config, set[v_n - 1].1, c1@, n, k1);
            }
            assert(task_decided(t0[gk], self.headers.0@, *self.config, set[v_n - 1].1, v_self.tasks@[gk]));
        }
    }
    proof { lemma_task_step(self.headers.0@, *self.config, ps, set, t0, g0, v_self.tasks@, v_n, gk); }
    v_k = v_k + 1;
}
@spec
    requires all_begun(self.headers.0@, *self.config, self.tasks@), hs_ok(CanonicalizationAlgorithm::Relaxed, self.headers.0@),
    ensures all_done(self.headers.0@, *self.config, old(v_log)@, final(v_log)@, self.tasks@, r@),
@head
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost t0 = self.tasks@;
    let ghost log0 = v_log@;
    proof { lemma_begun(self.headers.0@, *self.config, t0); }
@tail
    proof { lemma_part_end(self.headers.0@, *self.config, ps, set, t0, v_self.tasks@, log0, v_log@); }
@@end
}
proof fn lemma_hit(t0: Seq<VerifyTask>, ps: Seq<VPair>, set: Seq<(HashSet<usize>, QueryResult)>, q: int, j: int)
    requires 0 <= j < t0.len(), 0 <= q < ps.len(), ps.len() == set.len(), set[q].0@ == needed(t0)[ps[q]], needed(t0).contains_key(ps[q]),
        forall|j: int, k: int| 0 <= j < t0.len() && 0 <= k < t0.len() && #[trigger] t0[j].index == #[trigger] t0[k].index ==> j == k,
    ensures set[q].0@.contains(t0[j].index) <==> t0[j].status is InProgress && ps[q] == pair_of(t0[j].signature->0)
{
    lemma_needed(t0);
    assert(needed(t0)[ps[q]].contains(t0[j].index) <==> exists|i: int| 0 <= i < t0.len() && (#[trigger] t0[i]).status is InProgress && pair_of(t0[i].signature->0) == ps[q] && t0[i].index == t0[j].index);
}
proof fn lemma_has_records(res: QueryResult, a: Result<Vec<CachedDkimKeyRecord>, VerificationError>, b: Result<Vec<CachedDkimKeyRecord>, VerificationError>)
    requires has_records(res, a),
        match a { Err(e) => b == a, Ok(c0) => b matches Ok(c1) && c1@.len() == c0@.len() && forall|j: int| 0 <= j < c0@.len() ==> cached_step(c0@[j], #[trigger] c1@[j]) },
    ensures has_records(res, b)
{
    if let Ok(c0) = a { if let Ok(c1) = b { if let Ok(t) = lookup_outcome(res) {
        assert forall|i: int| 0 <= i < c1@.len() implies cache_ok(t@[i], #[trigger] c1@[i]) by { assert(cache_ok(t@[i], c0@[i])); assert(cached_step(c0@[i], c1@[i])); }
    } } }
}
