@@method extend v_extend
@@item canonicalize.rs::CanonState
@attr
#[derive(Clone, Copy)]
@@end
@@item canonicalize.rs::BodyCanonicalizer
@@end

@@include canon_body_spec.inc

// ================= ghost relation between consumed and emitted =================
pub open spec fn crlfs(n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { seq![] } else { crlfs((n - 1) as nat) + crlf() }
}
/// Bytes held back in a state.
pub open spec fn held(st: CanonState) -> Seq<u8> {
    match st {
        CanonState::Cr => seq![13u8],
        CanonState::WspCr => seq![32u8, 13u8],
        _ => seq![],
    }
}
pub open spec fn btext_of(kind: CanonicalizationAlgorithm, p: Seq<u8>) -> Seq<u8> {
    match kind {
        CanonicalizationAlgorithm::Simple => p,
        CanonicalizationAlgorithm::Relaxed => reduced(p),
    }
}
/// `acc` has been emitted after `p` has been consumed, in this state.
#[verifier::opaque]
pub open spec fn rel(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>) -> bool {
    let n = p.len();
    &&& btext_of(c.kind, p) =~= acc + crlfs(c.empty_lines as nat) + held(c.state)
    &&& c.empty_lines as nat <= p.len()
    &&& (acc.len() == 0 <==> c.only_empty_lines)
    &&& (!c.blank_line ==> c.empty_lines == 0 && acc.len() > 0 && !ends_crlf(acc))
    &&& (c.blank_line && acc.len() > 0 ==> ends_crlf(acc) && acc.len() > 2 && !ends_crlf(acc.take(acc.len() - 2)))
    &&& match c.state {
        CanonState::Init => n == 0 && c.blank_line,
        CanonState::CrLf => n >= 2 && p[n - 2] == 13 && p[n - 1] == 10 && c.blank_line,
        CanonState::Byte => n >= 1 && !c.blank_line && p[n - 1] != 13
            && (c.kind is Relaxed ==> !is_wsp_b(p[n - 1])) && acc.last() == p[n - 1],
        CanonState::Cr => n >= 1 && p[n - 1] == 13
            && (c.kind is Relaxed ==> n < 2 || !is_wsp_b(p[n - 2])),
        CanonState::Wsp => c.kind is Relaxed && n >= 1 && is_wsp_b(p[n - 1]),
        CanonState::WspCr => c.kind is Relaxed && n >= 2 && p[n - 1] == 13 && is_wsp_b(p[n - 2]),
    }
}
pub open spec fn sane(c: BodyCanonicalizer) -> bool {
    match c.state {
        CanonState::Wsp | CanonState::WspCr => c.kind is Relaxed,
        _ => true,
    }
}
pub open spec fn flushed(c: BodyCanonicalizer, st: CanonState) -> BodyCanonicalizer {
    BodyCanonicalizer { state: st, blank_line: false, empty_lines: 0, only_empty_lines: false, ..c }
}
/// What one byte does (a proof device; the oracle is `bcanon_of`).
pub open spec fn step(c: BodyCanonicalizer, b: u8) -> (BodyCanonicalizer, Seq<u8>) {
    let relaxed = c.kind is Relaxed;
    let pend = crlfs(c.empty_lines as nat);
    let next = if b == 13 { CanonState::Cr } else if relaxed && is_wsp_b(b) { CanonState::Wsp } else { CanonState::Byte };
    match c.state {
        CanonState::Init | CanonState::CrLf => if next is Byte {
            (flushed(c, CanonState::Byte), pend + seq![b])
        } else {
            (BodyCanonicalizer { state: next, ..c }, seq![])
        },
        CanonState::Byte => if next is Byte {
            (c, seq![b])
        } else {
            (BodyCanonicalizer { state: next, ..c }, seq![])
        },
        CanonState::Wsp => if b == 13 {
            (BodyCanonicalizer { state: CanonState::WspCr, ..c }, seq![])
        } else if is_wsp_b(b) {
            (c, seq![])
        } else {
            (flushed(c, CanonState::Byte), pend + seq![32u8, b])
        },
        CanonState::Cr | CanonState::WspCr => if b == 10 {
            if c.blank_line {
                (BodyCanonicalizer { state: CanonState::CrLf, empty_lines: (c.empty_lines + 1) as usize, ..c }, seq![])
            } else {
                (BodyCanonicalizer { state: CanonState::CrLf, blank_line: true, ..c }, crlf())
            }
        } else {
            let out = if c.state is WspCr { seq![32u8, 13u8] } else { seq![13u8] };
            (flushed(c, next), pend + out + if next is Byte { seq![b] } else { seq![] })
        },
    }
}

proof fn lemma_reduced_stable(s: Seq<u8>, b: u8, n: int)
    requires 0 <= n, n + 2 <= s.len(),
    ensures reduced_upto(s.push(b), n) == reduced_upto(s, n),
    decreases n
{
    if n > 0 {
        lemma_reduced_stable(s, b, n - 1);
        assert(reduced_at(s, n - 1) =~= reduced_at(s.push(b), n - 1));
    }
}

/// `reduced` after one more byte, by the last bytes seen.
proof fn lemma_reduced_push(s: Seq<u8>, b: u8)
    ensures
        ({
            let n = s.len() as int;
            let t = s.push(b);
            let w1 = n >= 1 && is_wsp_b(s[n - 1]);
            let w2 = n >= 2 && is_wsp_b(s[n - 2]) && s[n - 1] == 13;
            &&& !w1 && !w2 ==> reduced(t) =~= reduced(s) + if is_wsp_b(b) { seq![] } else { seq![b] }
            &&& w1 && is_wsp_b(b) ==> reduced(t) =~= reduced(s)
            &&& w1 && !is_wsp_b(b) ==> reduced(t) =~= reduced(s) + seq![32u8, b]
            &&& w2 && b != 10 ==> reduced(t) =~= reduced(s) + if is_wsp_b(b) { seq![] } else { seq![b] }
            &&& w2 && b == 10 ==> reduced(s).len() >= 2 && reduced(s) =~= reduced(s).take(reduced(s).len() - 2) + seq![32u8, 13u8]
                && reduced(t) =~= reduced(s).take(reduced(s).len() - 2) + seq![13u8, 10u8]
        }),
{
    let n = s.len() as int;
    let t = s.push(b);
    assert(reduced(t) == reduced_upto(t, n) + reduced_at(t, n));
    if n >= 1 {
        assert(reduced_upto(t, n) == reduced_upto(t, n - 1) + reduced_at(t, n - 1));
        assert(reduced(s) == reduced_upto(s, n - 1) + reduced_at(s, n - 1));
    }
    if n >= 2 {
        lemma_reduced_stable(s, b, n - 2);
        assert(reduced_upto(t, n - 1) == reduced_upto(t, n - 2) + reduced_at(t, n - 2));
        assert(reduced_upto(s, n - 1) == reduced_upto(s, n - 2) + reduced_at(s, n - 2));
    }
}

proof fn lemma_bstep(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>, b: u8)
    requires rel(c, p, acc), c.empty_lines < usize::MAX,
    ensures rel(step(c, b).0, p.push(b), acc + step(c, b).1),
{
    lemma_crlfs(c.empty_lines as nat);
    lemma_crlfs(c.empty_lines as nat + 1);
    assert(crlfs(0) =~= seq![]);
    assert(crlfs(c.empty_lines as nat + 1) =~= crlfs(c.empty_lines as nat) + crlf());
    lemma_step_text(c, p, acc, b);
    lemma_step_shape(c, p, acc, b);
    reveal(rel);
}
/// The emitted, pending and held-back bytes stay the text seen so far.
#[verifier::spinoff_prover]
proof fn lemma_step_text(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>, b: u8)
    requires rel(c, p, acc), c.empty_lines < usize::MAX,
    ensures ({
        let (c2, out) = step(c, b);
        btext_of(c2.kind, p.push(b)) =~= acc + out + crlfs(c2.empty_lines as nat) + held(c2.state)
    }),
{
    reveal(rel);
    let (c2, out) = step(c, b);
    let q = p.push(b);
    let pend = crlfs(c.empty_lines as nat);
    lemma_reduced_push(p, b);
    assert(crlfs(0) =~= seq![]);
    assert(crlfs(c.empty_lines as nat + 1) =~= pend + crlf());
    let r = btext_of(c.kind, p);
    let n = p.len() as int;
    let t = btext_of(c.kind, q);
    match c.kind {
        CanonicalizationAlgorithm::Simple => {
            assert(t =~= r + seq![b]);
            if b == 10 && c.state is Cr {
                assert(t =~= (acc + pend) + crlf());
            }
        }
        CanonicalizationAlgorithm::Relaxed => {
            match c.state {
                CanonState::Init | CanonState::CrLf | CanonState::Byte => {
                    assert(t =~= r + if is_wsp_b(b) { seq![] } else { seq![b] });
                }
                CanonState::Wsp => {
                    assert(is_wsp_b(b) ==> t =~= r);
                    assert(!is_wsp_b(b) ==> t =~= r + seq![32u8, b]);
                }
                CanonState::Cr => {
                    assert(t =~= r + if is_wsp_b(b) { seq![] } else { seq![b] });
                    if b == 10 { assert(t =~= (acc + pend) + crlf()); }
                }
                CanonState::WspCr => {
                    if b == 10 {
                        assert(r.take(r.len() - 2) =~= acc + pend);
                        assert(t =~= (acc + pend) + crlf());
                    } else {
                        assert(t =~= r + if is_wsp_b(b) { seq![] } else { seq![b] });
                    }
                }
            }
        }
    }
}
#[verifier::spinoff_prover]
proof fn lemma_step_shape(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>, b: u8)
    requires rel(c, p, acc), c.empty_lines < usize::MAX,
    ensures ({
        let (c2, out) = step(c, b);
        let acc2 = acc + out;
        &&& (acc2.len() == 0 <==> c2.only_empty_lines)
        &&& (!c2.blank_line ==> c2.empty_lines == 0 && acc2.len() > 0 && !ends_crlf(acc2))
        &&& (c2.blank_line && acc2.len() > 0 ==> ends_crlf(acc2) && acc2.len() > 2 && !ends_crlf(acc2.take(acc2.len() - 2)))
        &&& (c2.state is Byte ==> acc2.last() == b)
    }),
{
    reveal(rel);
    let (c2, out) = step(c, b);
    let acc2 = acc + out;
    lemma_crlfs(c.empty_lines as nat);
    if out.len() > 0 {
        assert(acc2.last() == out.last());
        if acc2.len() >= 2 && out.len() >= 2 {
            assert(acc2[acc2.len() - 2] == out[out.len() - 2]);
        }
        if c2.blank_line {
            assert(acc2.take(acc2.len() - 2) =~= acc);
        }
    } else {
        assert(acc2 =~= acc);
    }
}

proof fn lemma_crlfs(n: nat)
    ensures crlfs(n).len() == 2 * n,
        n > 0 ==> crlfs(n)[2 * n - 1] == 10 && crlfs(n)[2 * n - 2] == 13,
    decreases n
{
    if n > 0 { lemma_crlfs((n - 1) as nat); }
}
proof fn lemma_strip_app(s: Seq<u8>, n: nat)
    ensures strip_crlfs(s + crlfs(n)) == strip_crlfs(s),
    decreases n
{
    lemma_crlfs(n);
    if n == 0 {
        assert(s + crlfs(n) =~= s);
    } else {
        lemma_crlfs((n - 1) as nat);
        let t = s + crlfs(n);
        assert(t.take(t.len() - 2) =~= s + crlfs((n - 1) as nat));
        lemma_strip_app(s, (n - 1) as nat);
    }
}

/// What `finish` must return, given the final state.
pub open spec fn finish_out(c: BodyCanonicalizer) -> Seq<u8> {
    let pend = crlfs(c.empty_lines as nat);
    match c.state {
        CanonState::Init => if c.kind is Simple { crlf() } else { seq![] },
        CanonState::CrLf => if c.kind is Simple && c.only_empty_lines { crlf() } else { seq![] },
        CanonState::Byte | CanonState::Wsp => crlf(),
        CanonState::Cr | CanonState::WspCr => pend + held(c.state) + crlf(),
    }
}
proof fn lemma_finish(c: BodyCanonicalizer, p: Seq<u8>, acc: Seq<u8>)
    requires rel(c, p, acc),
    ensures bcanon_of(c.kind, p) =~= acc + finish_out(c),
{
    reveal(rel);
    let e = c.empty_lines as nat;
    let t = btext_of(c.kind, p);
    lemma_crlfs(e);
    assert(crlfs(0) =~= seq![]);
    assert(acc.len() > 0 ==> strip_crlfs(acc) == if c.blank_line { acc.take(acc.len() - 2) } else { acc }) by {
        if acc.len() > 0 && c.blank_line {
            assert(strip_crlfs(acc) == strip_crlfs(acc.take(acc.len() - 2)));
        }
    }
    if acc.len() > 0 && c.blank_line {
        assert(acc.take(acc.len() - 2) + crlf() =~= acc);
    }
    assert(strip_crlfs(seq![]) == Seq::<u8>::empty());
    match c.state {
        CanonState::Init => {}
        CanonState::CrLf => {
            assert(t =~= acc + crlfs(e));
            lemma_strip_app(acc, e);
            if acc.len() == 0 { assert(acc =~= seq![]); }
            assert(p.last() == 10);
        }
        CanonState::Byte => {
            assert(t =~= acc);
        }
        CanonState::Wsp => {
            assert(t =~= acc + crlfs(e));
            lemma_strip_app(acc, e);
            if acc.len() == 0 { assert(acc =~= seq![]); }
            if c.blank_line {
                assert(t.len() == 0 || ends_crlf(t)) by {
                    if e > 0 { assert(ends_crlf(t)); }
                    else { assert(t =~= acc); }
                }
                assert(unterminated_blank_tail(p));
            } else {
                assert(t =~= acc);
            }
        }
        CanonState::Cr | CanonState::WspCr => {
            assert(t.last() == 13);
            assert(!ends_crlf(t));
            assert(p.last() == 13);
        }
    }
}

@@fn canonicalize.rs::BodyCanonicalizer::canon_chunk_relaxed::is_wsp as canon_is_wsp
@ret r
@spec
    ensures r == is_wsp_b(b),
@@end

impl BodyCanonicalizer {
@@fn canonicalize.rs::BodyCanonicalizer::new
@ret r
@spec
    ensures r.kind == kind, rel(r, seq![], seq![]), r.empty_lines == 0, sane(r),
@head
    proof { reveal(rel); assert(reduced(seq![]) =~= seq![]); assert(crlfs(0) =~= seq![]); }
@@end

@@fn canonicalize.rs::BodyCanonicalizer::canonicalize_chunk
@ret r
@spec
    requires sane(*old(self)), old(self).empty_lines + bytes@.len() <= usize::MAX,
    ensures final(self).kind == old(self).kind, sane(*final(self)),
        final(self).empty_lines <= old(self).empty_lines + bytes@.len(),
        forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(*old(self), p, acc) ==> rel(*final(self), p + bytes@, acc + r@),
@@end

@@fn canonicalize.rs::BodyCanonicalizer::canon_chunk_simple
@ret r
@spec
    requires old(self).kind is Simple, sane(*old(self)), old(self).empty_lines + bytes@.len() <= usize::MAX,
    ensures final(self).kind == old(self).kind, sane(*final(self)),
        final(self).empty_lines <= old(self).empty_lines + bytes@.len(),
        forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(*old(self), p, acc) ==> rel(*final(self), p + bytes@, acc + r@),
@loops 1
@loop 0 index
@loop 0 before
    proof {
        assert(result@ =~= seq![]);
        assert forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(*old(self), p, acc) implies rel(*self, p + bytes@.take(0), acc + result@) by {
            assert(p + bytes@.take(0) =~= p); assert(acc + result@ =~= acc);
        }
        reveal(chunk_rel);
    }
@loop 0 spec
        invariant
            self.kind is Simple, self.kind == old(self).kind, sane(*self),
            self.empty_lines <= old(self).empty_lines + v_i0, v_seq0 == bytes, v_i0 <= bytes.len(),
            old(self).empty_lines + bytes@.len() <= usize::MAX,
            chunk_rel(*old(self), *self, bytes@.take(v_i0 as int), result@),
        decreases bytes.len() - v_i0,
@loop 0 head
        proof { lemma_chunk_step(*old(self), *self, bytes@, v_i0 as int, result@); }
@loop 0 after
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); reveal(chunk_rel); }
@@end

@@fn canonicalize.rs::BodyCanonicalizer::canon_chunk_relaxed
@ret r
@spec
    requires old(self).kind is Relaxed, sane(*old(self)), old(self).empty_lines + bytes@.len() <= usize::MAX,
    ensures final(self).kind == old(self).kind, sane(*final(self)),
        final(self).empty_lines <= old(self).empty_lines + bytes@.len(),
        forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(*old(self), p, acc) ==> rel(*final(self), p + bytes@, acc + r@),
@ident is_wsp canon_is_wsp
@loops 1
@loop 0 index
@loop 0 before
    proof {
        assert(result@ =~= seq![]);
        assert forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(*old(self), p, acc) implies rel(*self, p + bytes@.take(0), acc + result@) by {
            assert(p + bytes@.take(0) =~= p); assert(acc + result@ =~= acc);
        }
        reveal(chunk_rel);
    }
@loop 0 spec
        invariant
            self.kind is Relaxed, self.kind == old(self).kind, sane(*self),
            self.empty_lines <= old(self).empty_lines + v_i0, v_seq0 == bytes, v_i0 <= bytes.len(),
            old(self).empty_lines + bytes@.len() <= usize::MAX,
            chunk_rel(*old(self), *self, bytes@.take(v_i0 as int), result@),
        decreases bytes.len() - v_i0,
@loop 0 head
        proof { lemma_chunk_step(*old(self), *self, bytes@, v_i0 as int, result@); }
@loop 0 after
    proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); reveal(chunk_rel); }
@@end

@@fn canonicalize.rs::BodyCanonicalizer::finish
@ret r
@spec
    requires sane(self),
    ensures r@ =~= finish_out(self),
        forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(self, p, acc) ==> acc + r@ == bcanon_of(self.kind, p),
@head
    proof {
        assert forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(self, p, acc) implies acc + finish_out(self) == bcanon_of(self.kind, p) by {
            lemma_finish(self, p, acc);
        }
    }
@@end

@@fn canonicalize.rs::BodyCanonicalizer::flush_empty_lines
@spec
    ensures *final(self) == flushed(*old(self), old(self).state),
        final(result)@ =~= old(result)@ + crlfs(old(self).empty_lines as nat),
@loops 1
@loop 0 iter it
@loop 0 spec
        invariant *self == *old(self), result@ =~= old(result)@ + crlfs(it.index@ as nat),
@@end
}
#[verifier::opaque]
pub open spec fn chunk_rel(c0: BodyCanonicalizer, c: BodyCanonicalizer, used: Seq<u8>, out: Seq<u8>) -> bool {
    forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(c0, p, acc) ==> rel(c, p + used, acc + out)
}
/// One iteration: the relation carries over for whatever was consumed before.
proof fn lemma_chunk_step(c0: BodyCanonicalizer, c: BodyCanonicalizer, bytes: Seq<u8>, i: int, out: Seq<u8>)
    requires 0 <= i < bytes.len(), c.empty_lines < usize::MAX, chunk_rel(c0, c, bytes.take(i), out),
    ensures forall|c2: BodyCanonicalizer, out2: Seq<u8>|
        c2 == step(c, bytes[i]).0 && out2 =~= out + step(c, bytes[i]).1
            ==> #[trigger] chunk_rel(c0, c2, bytes.take(i + 1), out2),
{
    reveal(chunk_rel);
    let s = step(c, bytes[i]);
    assert forall|p: Seq<u8>, acc: Seq<u8>| #[trigger] rel(c0, p, acc) implies rel(s.0, p + bytes.take(i + 1), acc + (out + s.1)) by {
        lemma_bstep(c, p + bytes.take(i), acc + out, bytes[i]);
        assert((p + bytes.take(i)).push(bytes[i]) =~= p + bytes.take(i + 1));
        assert((acc + out) + s.1 =~= acc + (out + s.1));
    }
}
