// ================= trusted: the resolver, and the map of lookups =================
pub type VAnswer = Result<Vec<Result<Vec<u8>, VIoError>>, VIoError>;
/// The queries made, and their answers.
#[verifier::external_body]
pub struct VLog { l: u8 }
impl View for VLog { type V = Seq<(Seq<char>, VAnswer)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, VAnswer)>; }
/// `LookupTxt`, with the queries recorded
pub trait VLookup {
    fn lookup_txt(&self, name: &str, log: &mut VLog) -> (r: VAnswer)
        ensures final(log)@ == old(log)@.push((name@, r));
}
pub type VPair = (Seq<char>, Seq<char>);
/// Stands for `HashMap<(String, String), HashSet<usize>>`.
#[verifier::external_body]
pub struct VLookupMap { m: u8 }
impl View for VLookupMap { type V = Map<VPair, Set<usize>>; uninterp spec fn view(&self) -> Map<VPair, Set<usize>>; }
pub open spec fn at_or_empty(m: Map<VPair, Set<usize>>, p: VPair) -> Set<usize> { if m.contains_key(p) { m[p] } else { Set::empty() } }
impl VLookupMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<VPair, Set<usize>>::empty() { unimplemented!() }
    /// `m.entry(k).or_default().insert(i)`
    #[verifier::external_body]
    pub fn v_insert_at(&mut self, k: (String, String), i: usize) -> (r: bool)
        ensures final(self)@ == old(self)@.insert((k.0@, k.1@), at_or_empty(old(self)@, (k.0@, k.1@)).insert(i))
    { unimplemented!() }
    /// The entries, each once, in some order.
    #[verifier::external_body]
    pub fn v_entries(self) -> (r: VIntoIter<((String, String), HashSet<usize>)>)
        ensures pairs_of(r@).no_duplicates(), forall|p: VPair| #[trigger] pairs_of(r@).contains(p) <==> self@.contains_key(p),
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).1@ == self@[pair_of_key(r@[k].0)],
    { unimplemented!() }
}
pub open spec fn pair_of_key(k: (String, String)) -> VPair { (k.0@, k.1@) }
pub open spec fn pairs_of(s: Seq<((String, String), HashSet<usize>)>) -> Seq<VPair> { s.map_values(|e: ((String, String), HashSet<usize>)| pair_of_key(e.0)) }
#[verifier::external_body]
pub fn v_io_err(k: ErrorKind) -> (r: VIoError) ensures r.k() == k { unimplemented!() }
// ---- end of trusted ----
@@item verifier/query.rs::QueriesBuilder
@replace HashMap<(String, String), HashSet<usize>> => VLookupMap
@@end
@@item verifier/query.rs::Queries
@@end
// ================= C17: key lookups =================
/// RFC 6376, 3.6.2.1, as an absolute name in A-label form.
pub open spec fn key_name(p: VPair) -> Seq<char> { p.1 + "._domainkey."@ + p.0 + "."@ }
pub open spec fn pair_of(s: DkimSignature) -> VPair { (idna_a(s.domain.0@)->0, idna_a(s.selector.0@)->0) }
/// The TXT record as text.
pub open spec fn text_of(a: Result<Vec<u8>, VIoError>, r: Result<String, VIoError>) -> bool {
    match a { Ok(b) => match r { Ok(s) => utf8(s@) == b@, Err(_) => !is_utf8(b@) }, Err(e) => r == Result::<String, VIoError>::Err(e) }
}
/// At most three of the records, in order; all if there are no more.
pub open spec fn chosen(t: Seq<Result<Vec<u8>, VIoError>>, r: Seq<Result<String, VIoError>>, at: Seq<int>) -> bool {
    &&& at.len() == r.len() && r.len() == if t.len() < 3 { t.len() } else { 3 }
    &&& forall|i: int, j: int| 0 <= i < j < at.len() ==> #[trigger] at[i] < #[trigger] at[j]
    &&& forall|i: int| 0 <= i < at.len() ==> 0 <= #[trigger] at[i] < t.len() && text_of(t[at[i]], r[i])
}
pub open spec fn looked_up(a: VAnswer, r: QueryResult) -> bool {
    match a { Err(e) => r matches Err(x) && x == e, Ok(t) => r matches Ok(r) && some_chosen(t@, r@) }
}
pub open spec fn some_chosen(t: Seq<Result<Vec<u8>, VIoError>>, r: Seq<Result<String, VIoError>>) -> bool { exists|at: Seq<int>| #[trigger] chosen(t, r, at) }
@@fn verifier/query.rs::look_up_records::parse_utf8 as parse_utf8
@ret r
@replace io::Result<Vec<u8>> => Result<Vec<u8>, VIoError>
@replace io::Result<String> => Result<String, VIoError>
@replace $i_t.and_then(|$i_s| String::from_utf8($x).map_err(|_| $e.into())) => (match $i_t { Ok($i_s) => match v_string_utf8($x) { Ok(v_s) => Ok(v_s), Err(_) => Err(v_io_err($e)) }, Err(v_e) => Err(v_e) })
@spec
    ensures text_of(txt, r),
@@end
@@fn verifier/query.rs::look_up_records
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@replace LookupTxt => VLookup
@replace resolver: &T, => resolver: &T, v_log: &mut VLog,
@replace .lookup_txt($x) => .lookup_txt($x, v_log)
@replace let mut result = vec![]; => let mut result: Vec<Result<String, VIoError>> = vec![];
@replace let mut last = None; => let mut last: Option<Result<Vec<u8>, VIoError>> = None;
@replace for (i, txt) in txts.into_iter().enumerate() { $b } =>
let ghost ts = txts@;
let v_len = txts.len();
let mut v_it = v_into_iter(txts);
let mut v_n: usize = 0;
let ghost mut at: Seq<int> = seq![];
loop
    invariant
        v_n <= ts.len() == v_len, v_it@ == ts.skip(v_n as int),
        at.len() == result@.len() == if v_n < 2 { v_n as int } else { 2 },
        forall|i: int| 0 <= i < at.len() ==> #[trigger] at[i] == i,
        forall|i: int| 0 <= i < result@.len() ==> text_of(ts[i], #[trigger] result@[i]),
        v_n > 2 ==> last == Some(ts[v_n - 1]), v_n <= 2 ==> last is None,
    ensures v_n == ts.len(),
    decreases ts.len() - v_n,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            let i = v_n;
            proof { assert(v_x == ts[v_n as int]); assert(v_it@ =~= ts.skip(v_n + 1)); at = if i < 2 { at.push(i as int) } else { at }; }
            v_n = v_n + 1;
            let txt = v_x;
            $b
        }
        None => break,
    }
}
@spec
    ensures
        final(v_log)@.len() == old(v_log)@.len() + 1, final(v_log)@.drop_last() == old(v_log)@,
        final(v_log)@.last().0 == key_name((domain@, selector@)), looked_up(final(v_log)@.last().1, r),
@tail
    proof {
        let a2 = if ts.len() > 2 { at.push(ts.len() - 1) } else { at };
        assert forall|i: int| 0 <= i < a2.len() implies 0 <= #[trigger] a2[i] < ts.len() && text_of(ts[a2[i]], result@[i]) by { if i < at.len() { assert(at[i] == i); } }
        assert forall|i: int, j: int| 0 <= i < j < a2.len() implies #[trigger] a2[i] < #[trigger] a2[j] by { assert(at[i] == i); if j < at.len() { assert(at[j] == j); } }
        assert(chosen(ts, result@, a2));
        let a = v_log@.last().1;
        assert(a is Ok && a->Ok_0@ == ts);
        assert(chosen(a->Ok_0@, result@, a2));
        assert(some_chosen(a->Ok_0@, result@));
        
    }
@@end
impl QueriesBuilder {
@@fn verifier/query.rs::QueriesBuilder::new
@ret r
@replace HashMap => VLookupMap
@spec
    ensures r.lookup_pairs@ == Map::<VPair, Set<usize>>::empty(),
@@end
@@fn verifier/query.rs::QueriesBuilder::add_lookup
@replace .entry($k).or_default().insert($i) => .v_insert_at($k, $i)
@spec
    requires domain_ok(*domain), selector_ok(*selector),
    ensures final(self).lookup_pairs@ == ({
        let p = (idna_a(domain.0@)->0, idna_a(selector.0@)->0);
        old(self).lookup_pairs@.insert(p, at_or_empty(old(self).lookup_pairs@, p).insert(index))
    }),
@@end
}
/// Each query was made, once, in this order, and this is what came back.
pub open spec fn queried(ps: Seq<VPair>, log: Seq<(Seq<char>, VAnswer)>, set: Seq<(HashSet<usize>, QueryResult)>) -> bool {
    &&& ps.len() == log.len() == set.len()
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] log[k]).0 == key_name(ps[k]) && looked_up(log[k].1, set[k].1)
}
impl QueriesBuilder {
@@fn verifier/query.rs::QueriesBuilder::spawn_all
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@replace LookupTxt => VLookup
@replace resolver: &T, => resolver: &T, v_log: &mut VLog,
@replace look_up_records($a,$b,$c) => look_up_records($a, v_log, $b, $c)
@replace domain.as_ref() => &domain
@replace selector.as_ref() => &selector
@replace let mut set = Vec::new(); => let mut set: Vec<(HashSet<usize>, QueryResult)> = Vec::new();
@replace for ((domain, selector), indexes) in self.lookup_pairs { $b } =>
let mut v_it = self.lookup_pairs.v_entries();
let ghost es = v_it@;
let ghost mut v_n: int = 0;
proof { assert(v_log@ =~= log0 + v_log@.skip(log0.len() as int)); assert(v_log@.skip(log0.len() as int) =~= seq![]); assert(pairs_of(es).take(0) =~= seq![]); }
loop
    invariant
        0 <= v_n <= es.len(), v_it@ == es.skip(v_n), v_log@.len() >= log0.len(), v_log@.take(log0.len() as int) == log0,
        queried(pairs_of(es).take(v_n), v_log@.skip(log0.len() as int), set@),
        forall|k: int| 0 <= k < v_n ==> (#[trigger] set@[k]).0@ == es[k].1@,
    ensures v_n == es.len(),
    decreases es.len() - v_n,
{
    v_probe!();
    match v_it.next() {
        Some(v_x) => {
            proof { assert(v_x == es[v_n]); assert(v_it@ =~= es.skip(v_n + 1)); v_n = v_n + 1; assert(pairs_of(es)[v_n - 1] == pair_of_key(v_x.0)); }
            let ghost l1 = v_log@;
            let ((domain, selector), indexes) = v_x;
            $b
            proof {
                assert(v_log@.len() == l1.len() + 1);
                assert(v_log@.take(log0.len() as int) =~= l1.take(log0.len() as int));
                assert(v_log@.skip(log0.len() as int) =~= l1.skip(log0.len() as int).push(v_log@.last()));
                assert(pairs_of(es).take(v_n) =~= pairs_of(es).take(v_n - 1).push(pairs_of(es)[v_n - 1]));
            }
        }
        None => break,
    }
}
@spec
    ensures spawned(self.lookup_pairs@, old(v_log)@, final(v_log)@, r.set@),
@head
    let ghost log0 = v_log@;
    let ghost m0 = self.lookup_pairs@;
@tail
    proof { assert(pairs_of(es).take(v_n) =~= pairs_of(es)); assert(spawned_as(pairs_of(es), m0, log0, v_log@, set@)); }
@@end
}
pub open spec fn spawned_as(ps: Seq<VPair>, m: Map<VPair, Set<usize>>, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, set: Seq<(HashSet<usize>, QueryResult)>) -> bool {
    &&& ps.no_duplicates() && forall|p: VPair| #[trigger] ps.contains(p) <==> m.contains_key(p)
    &&& l1.len() >= l0.len() && l1.take(l0.len() as int) == l0
    &&& queried(ps, l1.skip(l0.len() as int), set)
    &&& forall|k: int| 0 <= k < set.len() ==> (#[trigger] set[k]).0@ == m[ps[k]]
}
/// One query per distinct pair.
pub open spec fn spawned(m: Map<VPair, Set<usize>>, l0: Seq<(Seq<char>, VAnswer)>, l1: Seq<(Seq<char>, VAnswer)>, set: Seq<(HashSet<usize>, QueryResult)>) -> bool {
    exists|ps: Seq<VPair>| #[trigger] spawned_as(ps, m, l0, l1, set)
}
/// The pairs that undecided tasks need, with the positions of the tasks.
pub open spec fn needed(ts: Seq<VerifyTask>) -> Map<VPair, Set<usize>>
    decreases ts.len()
{
    if ts.len() == 0 { Map::empty() }
    else {
        let m = needed(ts.drop_last());
        let t = ts.last();
        if t.status is InProgress { let p = pair_of(t.signature->0); m.insert(p, at_or_empty(m, p).insert(t.index)) } else { m }
    }
}
proof fn lemma_needed(ts: Seq<VerifyTask>)
    ensures
        forall|p: VPair| #[trigger] needed(ts).contains_key(p) <==> exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p,
        forall|p: VPair, i: usize| needed(ts).contains_key(p) ==> (#[trigger] needed(ts)[p].contains(i) <==> exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p && ts[j].index == i),
    decreases ts.len()
{
    if ts.len() > 0 {
        let r = ts.drop_last();
        lemma_needed(r);
        let n = ts.len() - 1;
        assert forall|p: VPair| true implies (#[trigger] needed(ts).contains_key(p) <==> exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p) by {
            if needed(ts).contains_key(p) {
                if needed(r).contains_key(p) { let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).status is InProgress && pair_of(r[j].signature->0) == p; assert(ts[j] == r[j]); }
                else { assert(ts[n] == ts.last()); }
            }
            if exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p {
                let j = choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p;
                if j < n { assert(r[j] == ts[j]); }
            }
        }
        assert forall|p: VPair, i: usize| needed(ts).contains_key(p) implies (#[trigger] needed(ts)[p].contains(i) <==> exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p && ts[j].index == i) by {
            if needed(ts)[p].contains(i) {
                if needed(r).contains_key(p) && needed(r)[p].contains(i) {
                    let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j]).status is InProgress && pair_of(r[j].signature->0) == p && r[j].index == i; assert(ts[j] == r[j]);
                } else { assert(ts[n] == ts.last()); }
            }
            if exists|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p && ts[j].index == i {
                let j = choose|j: int| 0 <= j < ts.len() && (#[trigger] ts[j]).status is InProgress && pair_of(ts[j].signature->0) == p && ts[j].index == i;
                if j < n { assert(r[j] == ts[j]); assert(needed(r).contains_key(p)); }
            }
        }
    }
}
impl Queries {
@@fn verifier/query.rs::Queries::spawn
@attr
#[verifier::loop_isolation(false)]
@ret r
@replace LookupTxt => VLookup
@replace resolver: &T, => resolver: &T, v_log: &mut VLog,
@replace crate::signature::DkimSignature => DkimSignature
@replace .spawn_all($x, $y) => .spawn_all($x, v_log, $y)
@spec
    requires forall|j: int| 0 <= j < tasks@.len() && (#[trigger] tasks@[j]).status is InProgress ==> tasks@[j].signature is Some && sig_wf(tasks@[j].signature->0),
    ensures spawned(needed(tasks@), old(v_log)@, final(v_log)@, r.set@),
@loop 0 index
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@ == tasks@, builder.lookup_pairs@ == needed(tasks@.take(v_i0 as int)),
        forall|j: int| 0 <= j < tasks@.len() && (#[trigger] tasks@[j]).status is InProgress ==> tasks@[j].signature is Some && sig_wf(tasks@[j].signature->0),
    decreases v_seq0@.len() - v_i0,
@loop 0 head
    proof { assert(tasks@.take(v_i0 + 1).drop_last() =~= tasks@.take(v_i0 as int)); assert(tasks@.take(v_i0 + 1).last() == tasks@[v_i0 as int]); }
@loop 0 after
    proof { assert(tasks@.take(tasks@.len() as int) =~= tasks@); }
@@end
}
