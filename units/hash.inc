broadcast use vstd::std_specs::hash::group_hash_axioms;


// ================= trusted: digests, and maps keyed by plain data =================
/// Stands for `Box<dyn DynDigest + Send + Sync>`.
#[verifier::external_body]
pub struct VDigest { d: u8 }
impl VDigest {
    pub uninterp spec fn alg(&self) -> HashAlgorithm;
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn v_new(Ghost(a): Ghost<HashAlgorithm>) -> (r: VDigest) ensures r.alg() == a, r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8])
        ensures final(self).alg() == old(self).alg(), final(self).fed() == old(self).fed() + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Box<[u8]>) ensures r@ == digest_of(self.alg(), self.fed()) { unimplemented!() }
}
pub axiom fn axiom_key_model() ensures vstd::std_specs::hash::obeys_key_model::<BodyHasherKey>();
/// The keys of a map, each once, in some order.
#[verifier::external_body]
pub fn v_keys<K, V>(m: &HashMap<K, V>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), forall|k: K| #[trigger] r@.contains(k) <==> m@.contains_key(k),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_set_keys<K>(m: HashSet<K>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), forall|k: K| #[trigger] r@.contains(k) <==> m@.contains(k),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_get_mut<'a, K, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: &'a mut V)
    requires old(m)@.contains_key(*k)
    ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_get<'a, K, V>(m: &'a HashMap<K, V>, k: &K) -> (r: &'a V)
    requires m@.contains_key(*k)
    ensures *r == m@[*k],
{ unimplemented!() }
#[verifier::external_body]
pub fn v_remove<K, V>(m: &mut HashMap<K, V>, k: &K) -> (r: V)
    requires old(m)@.contains_key(*k)
    ensures r == old(m)@[*k], final(m)@ == old(m)@.remove(*k),
{ unimplemented!() }

// ================= the counting hasher =================
@@item crypto/hash.rs::InsufficientInput
@@end
@@item crypto/hash.rs::HashStatus
@@end
@@item crypto/hash.rs::CountingHasher
@replace Box<dyn digest::DynDigest + Send + Sync> => VDigest
@@end
impl CountingHasher {
    pub open spec fn wf(&self) -> bool {
        &&& self.bytes_written == self.digest.fed().len()
        &&& (self.length matches Some(n) ==> self.bytes_written <= n)
    }
    pub open spec fn fed(&self) -> Seq<u8> { self.digest.fed() }
    pub open spec fn full(&self) -> bool { self.length == Some(self.bytes_written) }
@@fn crypto/hash.rs::CountingHasher::new
@ret r
@replace Box<dyn digest::DynDigest + Send + Sync> => VDigest
@replace Box::new(Sha256::default()) => VDigest::v_new(Ghost(HashAlgorithm::Sha256))
@replace Box::new(Sha1::default()) => VDigest::v_new(Ghost(HashAlgorithm::Sha1))
@spec
    ensures r.wf(), r.digest.alg() == alg, r.length == length, r.fed() == Seq::<u8>::empty(),
@@end

@@fn crypto/hash.rs::CountingHasher::update
@ret r
@spec
    requires old(self).wf(), old(self).length is None ==> old(self).fed().len() + bytes@.len() <= usize::MAX,
    ensures final(self).wf(), final(self).digest.alg() == old(self).digest.alg(), final(self).length == old(self).length,
        ({
            let all = old(self).fed() + bytes@;
            match old(self).length {
                Some(n) => if all.len() <= n { final(self).fed() =~= all && r is AllConsumed }
                    else { final(self).fed() =~= all.take(n as int) && r is Truncated },
                None => final(self).fed() =~= all && r is AllConsumed,
            }
        }),
@@end

@@fn crypto/hash.rs::CountingHasher::finish
@ret r
@spec
    requires self.wf(),
    ensures match r {
        Ok(x) => (self.length is None || self.full()) && x.0@ == digest_of(self.digest.alg(), self.fed()) && x.1 == self.fed().len(),
        Err(_) => self.length is Some && !self.full(),
    },
@@end

@@fn crypto/hash.rs::CountingHasher::is_done
@ret r
@spec
    ensures r == self.full(),
@@end
}

// ================= C04: what each request is answered =================
@@item message_hash.rs::BodyHasherStance
@@end
@@item message_hash.rs::BodyHasherKey
@@end
@@item message_hash.rs::BodyHasherBuilder
@@end
@@item message_hash.rs::BodyHashError
@@end
@@item message_hash.rs::BodyHashResult
@@end
@@item message_hash.rs::BodyHashResults
@@end
@@item message_hash.rs::BodyHasher
@replace hashers: HashMap<$t> => v_seen: Ghost<Seq<u8>>, pub hashers: HashMap<$t>
@@end

/// The answer to one request, for the whole body `b`.
pub open spec fn answer(fot: bool, key: BodyHasherKey, b: Seq<u8>, r: BodyHashResult) -> bool {
    let c = bcanon_of(key.2, b);
    match key.0 {
        None => r matches Ok(x) && x.0@ == digest_of(key.1, c) && x.1 == c.len(),
        Some(n) => if c.len() < n {
            r == BodyHashResult::Err(BodyHashError::InsufficientInput)
        } else if fot && c.len() > n {
            r == BodyHashResult::Err(BodyHashError::InputTruncated)
        } else {
            r matches Ok(x) && x.0@ == digest_of(key.1, c.take(n as int)) && x.1 == n
        },
    }
}
/// Bodies of at most usize::MAX - 4 bytes.
pub open spec fn fits(b: Seq<u8>) -> bool { b.len() + 4 <= usize::MAX }

pub open spec fn active(e: (CountingHasher, bool), fot: bool) -> bool { !e.0.full() || (fot && !e.1) }
/// Nothing that may still follow can change the answer.
pub open spec fn settled(key: BodyHasherKey, e: (CountingHasher, bool), fot: bool, p: Seq<u8>) -> bool {
    &&& key.0 is Some
    &&& forall|q: Seq<u8>| fits(#[trigger] (p + q)) ==> {
        let c = bcanon_of(key.2, p + q);
        let n = key.0->0;
        n <= c.len() && e.0.fed() == c.take(n as int) && (fot ==> e.1 && c.len() > n)
    }
}
#[verifier::opaque]
pub open spec fn entry_ok(key: BodyHasherKey, e: (CountingHasher, bool), fot: bool, c: BodyCanonicalizer, p: Seq<u8>) -> bool {
    &&& e.0.wf() && e.0.digest.alg() == key.1 && e.0.length == key.0
    &&& if active(e, fot) { c.kind == key.2 && rel(c, p, e.0.fed()) && !e.1 } else { settled(key, e, fot, p) }
}
pub open spec fn canoner(kind: CanonicalizationAlgorithm, s: BodyCanonicalizer, r: BodyCanonicalizer) -> BodyCanonicalizer {
    match kind { CanonicalizationAlgorithm::Simple => s, CanonicalizationAlgorithm::Relaxed => r }
}
impl BodyHasher {
    pub open spec fn canon_for(&self, kind: CanonicalizationAlgorithm) -> BodyCanonicalizer {
        canoner(kind, self.canonicalizer_simple, self.canonicalizer_relaxed)
    }
    pub open spec fn inv(&self) -> bool {
        &&& fits(self.v_seen@)
        &&& forall|k: BodyHasherKey| #[trigger] self.hashers@.contains_key(k) ==>
            entry_ok(k, self.hashers@[k], self.fail_on_truncate, self.canon_for(k.2), self.v_seen@)
    }
    pub open spec fn all_settled(&self) -> bool {
        forall|k: BodyHasherKey| #[trigger] self.hashers@.contains_key(k) ==> !active(self.hashers@[k], self.fail_on_truncate)
    }
}

// ---------------------------------------------------------------- lemmas ----
proof fn lemma_reduced_len(s: Seq<u8>, n: int)
    requires 0 <= n <= s.len()
    ensures reduced_upto(s, n).len() <= n
    decreases n
{
    if n > 0 { lemma_reduced_len(s, n - 1); }
}
proof fn lemma_rel_bounds(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>)
    requires rel(c, p, acc)
    ensures sane(c), c.empty_lines <= p.len(), acc.len() <= p.len()
{
    reveal(rel);
    lemma_reduced_len(p, p.len() as int);
}
proof fn lemma_canon_len(k: CanonicalizationAlgorithm, p: Seq<u8>)
    ensures bcanon_of(k, p).len() <= p.len() + 4
{
    lemma_reduced_len(p, p.len() as int);
    lemma_strip_len(p);
    lemma_strip_len(reduced(p));
}
proof fn lemma_strip_len(s: Seq<u8>)
    ensures strip_crlfs(s).len() <= s.len()
    decreases s.len()
{
    if ends_crlf(s) { lemma_strip_len(s.take(s.len() - 2)); }
}
/// What has been emitted stays a prefix of the canonical body, whatever follows.
proof fn lemma_prefix(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>, q: Seq<u8>)
    requires rel(c, p, acc), fits(p + q),
    ensures acc.len() <= bcanon_of(c.kind, p + q).len(), bcanon_of(c.kind, p + q).take(acc.len() as int) == acc,
    decreases q.len()
{
    if q.len() == 0 {
        lemma_finish(c, p, acc);
        assert(p + q =~= p);
        assert((acc + finish_out(c)).take(acc.len() as int) =~= acc);
    } else {
        lemma_rel_bounds(c, p, acc);
        lemma_bstep(c, p, acc, q[0]);
        let (c2, out) = step(c, q[0]);
        assert(p.push(q[0]) + q.skip(1) =~= p + q);
        lemma_prefix(c2, p.push(q[0]), acc + out, q.skip(1));
        let full = bcanon_of(c.kind, p + q);
        assert(full.take((acc + out).len() as int).take(acc.len() as int) =~= full.take(acc.len() as int));
        assert((acc + out).take(acc.len() as int) =~= acc);
    }
}
/// One hasher takes one canonicalized chunk.
proof fn lemma_took(key: BodyHasherKey, e0: (CountingHasher, bool), e1: (CountingHasher, bool), truncated: bool, fot: bool,
    c0: BodyCanonicalizer, c1: BodyCanonicalizer, p: Seq<u8>, chunk: Seq<u8>, out: Seq<u8>)
    requires
        entry_ok(key, e0, fot, c0, p), active(e0, fot), fits(p + chunk), c1.kind == c0.kind,
        rel(c1, p + chunk, e0.0.fed() + out),
        e1.0.wf(), e1.0.digest.alg() == e0.0.digest.alg(), e1.0.length == e0.0.length,
        e1.1 == (e0.1 || truncated),
        match e0.0.length {
            Some(n) => if (e0.0.fed() + out).len() <= n { e1.0.fed() =~= e0.0.fed() + out && !truncated }
                else { e1.0.fed() =~= (e0.0.fed() + out).take(n as int) && truncated },
            None => e1.0.fed() =~= e0.0.fed() + out && !truncated,
        },
    ensures entry_ok(key, e1, fot, c1, p + chunk),
        active(e1, fot) <==> !truncated && (fot || !e1.0.full()),
{
    reveal(entry_ok);
    let all = e0.0.fed() + out;
    if !active(e1, fot) {
        let n = key.0->0;
        assert forall|q: Seq<u8>| fits(#[trigger] (p + chunk + q)) implies {
            let c = bcanon_of(key.2, p + chunk + q);
            n <= c.len() && e1.0.fed() == c.take(n as int) && (fot ==> e1.1 && c.len() > n)
        } by {
            lemma_prefix(c1, p + chunk, all, q);
            let c = bcanon_of(key.2, p + chunk + q);
            assert(c.take(all.len() as int).take(n as int) =~= c.take(n as int));
            assert(all.take(n as int) =~= e1.0.fed());
        }
    }
}
pub open spec fn took(key: BodyHasherKey, e1: (CountingHasher, bool), truncated: bool, fot: bool, c1: BodyCanonicalizer, p: Seq<u8>) -> bool {
    entry_ok(key, e1, fot, c1, p) && (active(e1, fot) <==> !truncated && (fot || !e1.0.full()))
}
/// A settled entry stays as it is.
proof fn lemma_idle(key: BodyHasherKey, e: (CountingHasher, bool), fot: bool, c0: BodyCanonicalizer, c1: BodyCanonicalizer, p: Seq<u8>, chunk: Seq<u8>)
    requires entry_ok(key, e, fot, c0, p), !active(e, fot), fits(p + chunk),
    ensures entry_ok(key, e, fot, c1, p + chunk),
{
    reveal(entry_ok);
    assert forall|q: Seq<u8>| fits(#[trigger] (p + chunk + q)) implies {
        let c = bcanon_of(key.2, p + chunk + q);
        let n = key.0->0;
        n <= c.len() && e.0.fed() == c.take(n as int) && (fot ==> e.1 && c.len() > n)
    } by {
        assert(p + (chunk + q) =~= p + chunk + q);
    }
}

impl BodyHasherBuilder {
@@fn message_hash.rs::BodyHasherBuilder::new
@ret r
@spec
    ensures r.fail_on_truncate == fail_on_partially_hashed_input, r.registrations@ == Set::<BodyHasherKey>::empty(),
@head
    proof { axiom_key_model(); }
@@end
@@fn message_hash.rs::BodyHasherBuilder::register_canonicalization
@spec
    ensures final(self).fail_on_truncate == old(self).fail_on_truncate,
        final(self).registrations@ == old(self).registrations@.insert((len, hash, canon)),
@head
    proof { axiom_key_model(); }
@@end
@@fn message_hash.rs::BodyHasherBuilder::build
@ret r
@replace self.registrations.into_iter().map(|key @ (len, hash, _)| $e).collect() =>
{ let v_ks = v_set_keys(self.registrations);
  let mut v_m: HashMap<BodyHasherKey, (CountingHasher, bool)> = HashMap::new();
  let mut v_i: usize = 0;
  while v_i < v_ks.len()
    invariant
        v_i <= v_ks.len(), v_ks@.no_duplicates(),
        vstd::std_specs::hash::obeys_key_model::<BodyHasherKey>(),
        forall|j: int| 0 <= j < v_i ==> v_m@.contains_key(#[trigger] v_ks@[j]),
        forall|k: BodyHasherKey| #[trigger] v_m@.contains_key(k) ==> {
            let e = v_m@[k];
            v_ks@.contains(k) && e.0.wf() && e.0.digest.alg() == k.1 && e.0.length == k.0 && e.0.fed() == Seq::<u8>::empty() && !e.1
        },
    decreases v_ks.len() - v_i
  { v_probe!(); let key = v_ks[v_i]; let (len, hash, _) = key; let v_e = $e; v_m.insert(v_e.0, v_e.1); v_i += 1; }
  proof {
      assert forall|k: BodyHasherKey| self.registrations@.contains(k) implies v_m@.contains_key(k) by {
          assert(v_ks@.contains(k));
          let j = choose|j: int| 0 <= j < v_ks@.len() && v_ks@[j] == k;
          assert(v_m@.contains_key(v_ks@[j]));
      }
  }
  v_m }
@replace hashers, canonicalizer_simple: => v_seen: Ghost(Seq::<u8>::empty()), hashers, canonicalizer_simple:
@ident Simple CanonicalizationAlgorithm::Simple
@ident Relaxed CanonicalizationAlgorithm::Relaxed
@spec
    ensures r.inv(), r.v_seen@ == Seq::<u8>::empty(), r.fail_on_truncate == self.fail_on_truncate,
        r.hashers@.dom() =~= self.registrations@,
@head
    proof { axiom_key_model(); }
@tail
    proof {
        reveal(entry_ok);
        assert forall|k: BodyHasherKey| #[trigger] hashers@.contains_key(k) && !active(hashers@[k], self.fail_on_truncate)
            implies settled(k, hashers@[k], self.fail_on_truncate, Seq::<u8>::empty()) by {
            assert forall|q: Seq<u8>| bcanon_of(k.2, q).take(0) == Seq::<u8>::empty() by {
                assert(bcanon_of(k.2, q).take(0) =~= Seq::<u8>::empty());
            }
        }
    }
@@end
}

impl BodyHasher {
@@fn message_hash.rs::BodyHasher::hash_chunk
@ret r
@replace let active_hashers = self.hashers.iter_mut().filter(|(_, (hasher, truncated))| { $cond }); for ((_, _, canon), (hasher, truncated)) in active_hashers { $body } =>
let v_ks = v_keys(&self.hashers);
let mut v_i: usize = 0;
while v_i < v_ks.len()
    invariant
        v_i <= v_ks.len(), v_ks@.no_duplicates(), fits(old(self).v_seen@ + chunk@), old(self).inv(),
        self.fail_on_truncate == old(self).fail_on_truncate, self.v_seen == old(self).v_seen,
        self.hashers@.dom() =~= old(self).hashers@.dom(),
        forall|k: BodyHasherKey| #[trigger] v_ks@.contains(k) <==> old(self).hashers@.contains_key(k),
        forall|j: int| v_i <= j < v_ks.len() ==> self.hashers@[#[trigger] v_ks@[j]] == old(self).hashers@[v_ks@[j]],
        forall|j: int| 0 <= j < v_i ==> ({
            let k = #[trigger] v_ks@[j];
            &&& entry_ok(k, self.hashers@[k], self.fail_on_truncate, self.canon_for(k.2), self.v_seen@ + chunk@)
            &&& (all_done ==> !active(self.hashers@[k], self.fail_on_truncate))
            &&& (active(self.hashers@[k], self.fail_on_truncate) ==> (if k.2 is Simple { canonicalized_chunk_simple } else { canonicalized_chunk_relaxed }) is Some)
        }),
        self.canonicalizer_simple.kind == old(self).canonicalizer_simple.kind,
        self.canonicalizer_relaxed.kind == old(self).canonicalizer_relaxed.kind,
        match canonicalized_chunk_simple {
            None => self.canonicalizer_simple == old(self).canonicalizer_simple,
            Some::<Vec<u8>>(v_o) => forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(old(self).canonicalizer_simple, p, acc) ==> rel(self.canonicalizer_simple, p + chunk@, acc + v_o@),
        },
        match canonicalized_chunk_relaxed {
            None => self.canonicalizer_relaxed == old(self).canonicalizer_relaxed,
            Some::<Vec<u8>>(v_o) => forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(old(self).canonicalizer_relaxed, p, acc) ==> rel(self.canonicalizer_relaxed, p + chunk@, acc + v_o@),
        },
    decreases v_ks.len() - v_i
{ v_probe!();
    let v_key = v_ks[v_i];
    proof { assert(v_ks@.contains(v_ks@[v_i as int])); }
    let v_active = { let v_e = v_get(&self.hashers, &v_key); let hasher = &v_e.0; let truncated = &v_e.1; $cond };
    let ghost v_e0 = self.hashers@[v_key];
    let ghost v_h0 = self.hashers@;
    let ghost v_p = self.v_seen@;
    let ghost v_c0 = old(self).canon_for(v_key.2);
    proof {
        assert(v_active == active(v_e0, self.fail_on_truncate));
        if !v_active { lemma_idle(v_key, v_e0, self.fail_on_truncate, v_c0, self.canon_for(v_key.2), v_p, chunk@); }
        else { reveal(entry_ok); lemma_rel_bounds(v_c0, v_p, v_e0.0.fed()); }
    }
    v_i += 1;
    if v_active {
    let (_, _, canon) = &v_key;
    let (hasher, truncated) = v_get_mut(&mut self.hashers, &v_key);
    $body
    }
    proof {
        if v_active {
            let e1 = self.hashers@[v_key];
            assert(took(v_key, e1, e1.1, self.fail_on_truncate, self.canon_for(v_key.2), v_p + chunk@));
        }
        assert(forall|j: int| 0 <= j < v_ks.len() && j != v_i - 1 ==> #[trigger] v_ks@[j] != v_key);
        if v_active {
            assert(self.hashers@ =~= v_h0.insert(v_key, self.hashers@[v_key]));
        }
        assert(v_ks@[v_i - 1] == v_key);
        assert forall|j: int| 0 <= j < v_i - 1 implies ({
            let k = #[trigger] v_ks@[j];
            entry_ok(k, self.hashers@[k], self.fail_on_truncate, self.canon_for(k.2), self.v_seen@ + chunk@)
        }) by {
            let k = v_ks@[j];
            assert(self.hashers@[k] == v_h0[k]);
            reveal(entry_ok);
        }
    }
}
proof {
    assert forall|k: BodyHasherKey| #[trigger] self.hashers@.contains_key(k) implies
        entry_ok(k, self.hashers@[k], self.fail_on_truncate, self.canon_for(k.2), self.v_seen@ + chunk@)
        && (all_done ==> !active(self.hashers@[k], self.fail_on_truncate)) by {
        assert(v_ks@.contains(k));
        let j = choose|j: int| 0 <= j < v_ks@.len() && v_ks@[j] == k;
        assert(v_ks@[j] == k);
    }
}
@replace canonicalized_chunk_simple.get_or_insert_with(|| $e) => { if canonicalized_chunk_simple.is_none() { canonicalized_chunk_simple = Some($e); } canonicalized_chunk_simple.as_ref().unwrap() }
@replace canonicalized_chunk_relaxed.get_or_insert_with(|| $e) => { if canonicalized_chunk_relaxed.is_none() { canonicalized_chunk_relaxed = Some($e); } canonicalized_chunk_relaxed.as_ref().unwrap() }
@before match hasher.update(canonicalized_chunk)
    let ghost v_out = canonicalized_chunk@;
    let ghost v_c1 = canoner(v_key.2, self.canonicalizer_simple, self.canonicalizer_relaxed);
    proof { assert(rel(v_c1, v_p + chunk@, v_e0.0.fed() + v_out)); lemma_rel_bounds(v_c1, v_p + chunk@, v_e0.0.fed() + v_out); }
    let ghost v_all = v_e0.0.fed() + v_out;
    proof {
        assert forall|e1: (CountingHasher, bool), tr: bool| e1.0.wf() && e1.0.digest.alg() == v_e0.0.digest.alg() && e1.0.length == v_e0.0.length
            && e1.1 == (v_e0.1 || tr) && (match v_e0.0.length {
                Some(n) => if v_all.len() <= n { e1.0.fed() =~= v_all && !tr } else { e1.0.fed() =~= v_all.take(n as int) && tr },
                None => e1.0.fed() =~= v_all && !tr,
            }) implies #[trigger] took(v_key, e1, tr, self.fail_on_truncate, v_c1, v_p + chunk@) by {
            lemma_took(v_key, v_e0, e1, tr, self.fail_on_truncate, v_c0, v_c1, v_p, chunk@, v_out);
        }
    }
@spec
    requires old(self).inv(), fits(old(self).v_seen@ + chunk@),
    ensures final(self).inv(), final(self).v_seen@ == old(self).v_seen@ + chunk@,
        final(self).fail_on_truncate == old(self).fail_on_truncate,
        final(self).hashers@.dom() =~= old(self).hashers@.dom(),
        r is Done ==> final(self).all_settled(),
@tail
    proof { self.v_seen@ = self.v_seen@ + chunk@; }
@@end

@@fn message_hash.rs::BodyHasher::finish
@ret r
@replace map_err(|InsufficientInput| $e) => map_err(|v_e: InsufficientInput| -> (v_r: BodyHashError) ensures v_r == $e { $e })
@replace Some(|| self.canonicalizer_simple.finish()) => Some(|| -> (v_r: Vec<u8>) requires sane(v_cs), ensures v_r@ =~= finish_out(v_cs) { self.canonicalizer_simple.finish() })
@replace Some(|| self.canonicalizer_relaxed.finish()) => Some(|| -> (v_r: Vec<u8>) requires sane(v_cr), ensures v_r@ =~= finish_out(v_cr) { self.canonicalizer_relaxed.finish() })
@replace for (key @ (_, _, canon), (mut hasher, mut truncated)) in self.hashers { $body } =>
let mut v_map = self.hashers;
let v_ks = v_keys(&v_map);
let ghost v_gks = v_ks@;
proof {
    assert forall|j: int| 0 <= j < v_ks.len() implies v_h0.contains_key(#[trigger] v_ks@[j]) by { assert(v_ks@.contains(v_ks@[j])); }
}
let mut v_i: usize = 0;
while v_i < v_ks.len()
    invariant
        v_i <= v_ks.len(), v_ks@.no_duplicates(), fits(v_p), vstd::std_specs::hash::obeys_key_model::<BodyHasherKey>(),
        forall|k: BodyHasherKey| #[trigger] v_ks@.contains(k) <==> v_h0.contains_key(k),
        forall|k: BodyHasherKey| #[trigger] v_h0.contains_key(k) ==> entry_ok(k, v_h0[k], self.fail_on_truncate, canoner(k.2, v_cs, v_cr), v_p),
        forall|j: int| v_i <= j < v_ks.len() ==> v_map@.contains_key(#[trigger] v_ks@[j]) && v_map@[v_ks@[j]] == v_h0[v_ks@[j]],
        forall|k: BodyHasherKey| #[trigger] results@.contains_key(k) ==> v_h0.contains_key(k),
        forall|j: int| 0 <= j < v_i ==> ({
            let k = #[trigger] v_ks@[j];
            results@.contains_key(k) && answer(self.fail_on_truncate, k, v_p, results@[k])
        }),
        match canonicalized_chunk_simple {
            None => match finish_canonicalization_simple { Some(f) => (sane(v_cs) ==> f.requires(())) && (forall|v_r: Vec<u8>| f.ensures((), v_r) ==> v_r@ =~= finish_out(v_cs)), None => false },
            Some::<Vec<u8>>(v_o) => finish_canonicalization_simple is None && v_o@ =~= finish_out(v_cs),
        },
        match canonicalized_chunk_relaxed {
            None => match finish_canonicalization_relaxed { Some(f) => (sane(v_cr) ==> f.requires(())) && (forall|v_r: Vec<u8>| f.ensures((), v_r) ==> v_r@ =~= finish_out(v_cr)), None => false },
            Some::<Vec<u8>>(v_o) => finish_canonicalization_relaxed is None && v_o@ =~= finish_out(v_cr),
        },
    decreases v_ks.len() - v_i
{ v_probe!();
    let key = v_ks[v_i];
    proof {
        assert(v_ks@.contains(v_ks@[v_i as int]));
        assert(forall|j: int| 0 <= j < v_ks.len() && j != v_i ==> #[trigger] v_ks@[j] != key);
        assert(v_h0.contains_key(key));
        reveal(entry_ok);
    }
    v_i += 1;
    let (_, _, canon) = key;
    let (mut hasher, mut truncated) = v_remove(&mut v_map, &key);
    let ghost v_e0 = v_h0[key];
    let ghost v_c = canoner(canon, v_cs, v_cr);
    proof {
        if active(v_e0, self.fail_on_truncate) {
            lemma_rel_bounds(v_c, v_p, v_e0.0.fed());
            lemma_finish(v_c, v_p, v_e0.0.fed());
            lemma_canon_len(canon, v_p);
            assert(v_e0.0.fed() + finish_out(v_c) == bcanon_of(canon, v_p));
            assert(bcanon_of(canon, v_p).take(bcanon_of(canon, v_p).len() as int) =~= bcanon_of(canon, v_p));
        } else {
            assert(v_p + Seq::<u8>::empty() =~= v_p);
            assert(fits(v_p + Seq::<u8>::empty()));
        }
    }
    $body
    proof {
        assert(results@.contains_key(key));
        assert(v_ks@[v_i - 1] == key);
        assert(answer(self.fail_on_truncate, key, v_p, results@[key]));
    }
}
@spec
    requires self.inv(),
    ensures r.results@.dom() =~= self.hashers@.dom(),
        forall|k: BodyHasherKey| #[trigger] self.hashers@.contains_key(k) ==> answer(self.fail_on_truncate, k, self.v_seen@, r.results@[k]),
@head
    proof { axiom_key_model(); }
    let ghost v_cs = self.canonicalizer_simple;
    let ghost v_cr = self.canonicalizer_relaxed;
    let ghost v_h0 = self.hashers@;
    let ghost v_p = self.v_seen@;
@tail
    proof {
        assert forall|k: BodyHasherKey| v_h0.contains_key(k) implies results@.contains_key(k) && answer(self.fail_on_truncate, k, v_p, results@[k]) by {
            assert(v_gks.contains(k));
            let j = choose|j: int| 0 <= j < v_gks.len() && v_gks[j] == k;
            assert(results@.contains_key(v_gks[j]));
        }
    }
@@end
}

impl BodyHashResults {
@@fn message_hash.rs::BodyHashResults::get
@ret r
@spec
    ensures match r { Some(x) => self.results@.contains_key(*key) && *x == self.results@[*key], None => !self.results@.contains_key(*key) },
@head
    proof { axiom_key_model(); }
@@end
}
/// The requests answered when the hasher says it is done do not depend on what follows.
proof fn lemma_done(h: BodyHasher, q: Seq<u8>, k: BodyHasherKey, r: BodyHashResult)
    requires h.inv(), h.all_settled(), fits(h.v_seen@ + q), h.hashers@.contains_key(k), answer(h.fail_on_truncate, k, h.v_seen@, r),
    ensures answer(h.fail_on_truncate, k, h.v_seen@ + q, r),
{
    reveal(entry_ok);
    let p = h.v_seen@;
    assert(p + seq![] =~= p);
    assert(settled(k, h.hashers@[k], h.fail_on_truncate, p));
    assert(fits(p + Seq::<u8>::empty()));
}
