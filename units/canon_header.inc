@@method extend v_extend
@@method to_ascii_lowercase v_to_ascii_lowercase
@@include canon_header_spec.inc

@@fn canonicalize.rs::canonicalize_header_relaxed::is_space as is_space
@ret r
@spec
    ensures r == sp4(b),
@@end

@@fn canonicalize.rs::canonicalize_header_relaxed::trim_space as trim_space
@ret r
@replace |(&b, _)| is_space(b) => |v_p: &(&u8, &[u8])| -> (v_r: bool) ensures v_r == sp4(*v_p.0) { is_space(*v_p.0) }
@spec
    ensures r@ == trim_b(sp4f(), value@),
@loops 2
@loop 0 spec
        invariant trim_l(sp4f(), value@) == trim_l(sp4f(), value0@),
        ensures value@ == trim_l(sp4f(), value0@),
        decreases value@.len(),
@loop 1 spec
        invariant trim_r(sp4f(), value@) == trim_b(sp4f(), value0@),
        ensures value@ == trim_b(sp4f(), value0@),
        decreases value@.len(),
@head
    let ghost value0 = value;
@@end

@@fn canonicalize.rs::canonicalize_header_relaxed
@replace FieldBody::new(value) => FieldBody::new(v_box_slice(value))
@spec
    requires body_ok(value@),
    ensures final(result)@ =~= old(result)@ + relaxed_value(value@),
@loops 1
@loop 0 iter it
@loop 0 before
    proof { theorem_field_body(value0@); lemma_relaxed(value0@); assert(value@.skip(0) =~= value@); }
@loop 0 spec
        invariant
            result@ + compress(sp4f(), value@.skip(it.index@), compressing) =~= old(result)@ + compress(sp4f(), value@, false),
@loop 0 head
    proof {
        assert(value@.skip(it.index@)[0] == value@[it.index@]);
        assert(value@.skip(it.index@).skip(1) =~= value@.skip(it.index@ + 1));
    }
@head
    let ghost value0 = value;
@tail
    proof { assert(result@ + compress(sp4f(), value@.skip(value@.len() as int), compressing) =~= result@); }
@@end

@@fn canonicalize.rs::canonicalize_header
@replace impl AsRef<str> => impl VAsStr
@replace impl AsRef<[u8]> => impl VAsBytes
@spec
    requires algorithm is Relaxed ==> body_ok(value.vby()),
    ensures final(result)@ =~= old(result)@ + canon_field(algorithm, name.vstr(), value.vby()),
@@end


// ================= RFC 6376, 5.4.2: which field instances are selected =================
pub open spec fn lname(n: FieldName) -> Seq<char> { lower(n.0@) }
/// How often a name occurs in a list of names.
pub open spec fn count_names(names: Seq<FieldName>, l: Seq<char>) -> nat
    decreases names.len()
{
    if names.len() == 0 { 0 }
    else { count_names(names.drop_last(), l) + (if lname(names.last()) == l { 1nat } else { 0 }) }
}
/// The k-th instance (from 0) of a field, counted from the bottom of the header.
pub open spec fn kth_from_bottom(hs: Seq<HeaderField>, l: Seq<char>, k: nat) -> Option<int>
    decreases hs.len()
{
    if hs.len() == 0 { None }
    else if lname(hs.last().0) != l { kth_from_bottom(hs.drop_last(), l, k) }
    else if k == 0 { Some(hs.len() - 1) }
    else { kth_from_bottom(hs.drop_last(), l, (k - 1) as nat) }
}
/// The signer's list names are served in order; the n-th mention of a name
/// takes the n-th instance from the bottom; a name with no instance left
/// contributes nothing.
pub open spec fn selected_output(alg: CanonicalizationAlgorithm, hs: Seq<HeaderField>, names: Seq<FieldName>) -> Seq<u8>
    decreases names.len()
{
    if names.len() == 0 { seq![] } else {
        let l = lname(names.last());
        let k = count_names(names.drop_last(), l);
        selected_output(alg, hs, names.drop_last()) + match kth_from_bottom(hs, l, k) {
            Some(p) => canon_field(alg, hs[p].0.0@, hs[p].1.0@) + seq![13u8, 10u8],
            None => seq![],
        }
    }
}
pub open spec fn count_fields(hs: Seq<HeaderField>, l: Seq<char>) -> nat
    decreases hs.len()
{
    if hs.len() == 0 { 0 } else { (if lname(hs[0].0) == l { 1nat } else { 0 }) + count_fields(hs.skip(1), l) }
}
/// How many instances of the same name are below.
pub open spec fn below(hs: Seq<HeaderField>, p: int) -> nat { count_fields(hs.skip(p + 1), lname(hs[p].0)) }
#[verifier::opaque]
pub open spec fn used_ok(used: Set<usize>, hs: Seq<HeaderField>, names: Seq<FieldName>) -> bool {
    forall|p: int| 0 <= p < hs.len() ==> (used.contains((#[trigger] rev_index(hs, p)) as usize) <==> below(hs, p) < count_names(names, lname(hs[p].0)))
}
pub open spec fn rev_index(hs: Seq<HeaderField>, p: int) -> int { hs.len() - 1 - p }
proof fn lemma_count_skip(hs: Seq<HeaderField>, p: int, l: Seq<char>)
    requires 0 <= p < hs.len(),
    ensures count_fields(hs.skip(p), l) == count_fields(hs.skip(p + 1), l) + (if lname(hs[p].0) == l { 1nat } else { 0 }),
{
    assert(hs.skip(p).skip(1) =~= hs.skip(p + 1));
    assert(hs.skip(p)[0] == hs[p]);
}
proof fn lemma_count_mono(hs: Seq<HeaderField>, p: int, q: int, l: Seq<char>)
    requires 0 <= p <= q <= hs.len(),
    ensures count_fields(hs.skip(p), l) >= count_fields(hs.skip(q), l),
    decreases q - p
{
    if p < q { lemma_count_skip(hs, p, l); lemma_count_mono(hs, p + 1, q, l); }
}
proof fn lemma_below(hs: Seq<HeaderField>, p: int, q: int)
    requires 0 <= p < q < hs.len(), lname(hs[p].0) == lname(hs[q].0),
    ensures below(hs, p) > below(hs, q),
{
    lemma_count_mono(hs, p + 1, q, lname(hs[p].0));
    lemma_count_skip(hs, q, lname(hs[q].0));
}
proof fn lemma_used_init(hs: Seq<HeaderField>, names: Seq<FieldName>)
    ensures used_ok(Set::empty(), hs, names.take(0)),
{
    reveal(used_ok);
}
proof fn lemma_take(names: Seq<FieldName>, j: int)
    requires 0 <= j < names.len(),
    ensures names.take(j + 1).last() == names[j], names.take(j + 1).drop_last() == names.take(j),
{
    assert(names.take(j + 1).drop_last() =~= names.take(j));
}
/// The instance found: everything below with its name was in use.
proof fn lemma_found(used: Set<usize>, hs: Seq<HeaderField>, names: Seq<FieldName>, j: int, p: int)
    requires
        hs.len() <= usize::MAX, 0 <= j < names.len(), 0 <= p < hs.len(), used_ok(used, hs, names.take(j)),
        lname(hs[p].0) == lname(names[j]), below(hs, p) == count_names(names.take(j), lname(names[j])),
    ensures used_ok(used.insert((hs.len() - 1 - p) as usize), hs, names.take(j + 1)),
{
    reveal(used_ok);
    lemma_take(names, j);
    let u2 = used.insert((hs.len() - 1 - p) as usize);
    assert forall|q: int| 0 <= q < hs.len() implies (u2.contains((#[trigger] rev_index(hs, q)) as usize) <==> below(hs, q) < count_names(names.take(j + 1), lname(hs[q].0))) by {
        if lname(hs[q].0) == lname(names[j]) {
            if q < p { lemma_below(hs, q, p); }
            if q > p { lemma_below(hs, p, q); }
        }
    }
}
proof fn lemma_none(used: Set<usize>, hs: Seq<HeaderField>, names: Seq<FieldName>, j: int)
    requires
        0 <= j < names.len(), used_ok(used, hs, names.take(j)),
        count_fields(hs.skip(0), lname(names[j])) <= count_names(names.take(j), lname(names[j])),
    ensures used_ok(used, hs, names.take(j + 1)),
{
    reveal(used_ok);
    lemma_take(names, j);
    assert forall|q: int| 0 <= q < hs.len() implies (used.contains((#[trigger] rev_index(hs, q)) as usize) <==> below(hs, q) < count_names(names.take(j + 1), lname(hs[q].0))) by {
        if lname(hs[q].0) == lname(names[j]) {
            lemma_count_skip(hs, q, lname(hs[q].0));
            lemma_count_mono(hs, 0, q, lname(hs[q].0));
        }
    }
}
/// State of the scan from the bottom: fields at or below `p` are done.
pub open spec fn scan_ok(hs: Seq<HeaderField>, names: Seq<FieldName>, j: int, p: int) -> bool {
    let l = lname(names[j]);
    let k = count_names(names.take(j), l);
    let c = count_fields(hs.skip(p), l);
    &&& c <= k
    &&& kth_from_bottom(hs, l, k) == kth_from_bottom(hs.take(p), l, (k - c) as nat)
}
/// One field looked at.
proof fn lemma_scan_step(used: Set<usize>, hs: Seq<HeaderField>, names: Seq<FieldName>, j: int, p: int)
    requires 0 <= j < names.len(), 0 < p <= hs.len(), used_ok(used, hs, names.take(j)), scan_ok(hs, names, j, p),
    ensures
        (lname(hs[p - 1].0) != lname(names[j]) || used.contains((hs.len() - p) as usize)) ==> scan_ok(hs, names, j, p - 1),
        (lname(hs[p - 1].0) == lname(names[j]) && !used.contains((hs.len() - p) as usize)) ==>
            below(hs, p - 1) == count_names(names.take(j), lname(names[j]))
            && kth_from_bottom(hs, lname(names[j]), count_names(names.take(j), lname(names[j]))) == Some(p - 1),
{
    reveal(used_ok);
    let l = lname(names[j]);
    lemma_count_skip(hs, p - 1, l);
    assert(hs.take(p).last() == hs[p - 1]);
    assert(hs.take(p).drop_last() =~= hs.take(p - 1));
    assert(rev_index(hs, p - 1) == hs.len() - p);
}
pub open spec fn hs_ok(alg: CanonicalizationAlgorithm, hs: Seq<HeaderField>) -> bool {
    alg is Relaxed ==> forall|i: int| 0 <= i < hs.len() ==> body_ok((#[trigger] hs[i]).1.0@)
}

@@fn canonicalize.rs::canonicalize_headers
@ret r
@spec
    requires hs_ok(algorithm, headers.0@),
    ensures r@ =~= selected_output(algorithm, headers.0@, selected_headers@),
@loops 2
@head
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost hs = headers.0@;
    let ghost names = selected_headers@;
    proof { lemma_used_init(hs, names); assert(headers.0.len() == hs.len() && hs.len() <= usize::MAX); }
@loop 0 iter it
@loop 0 spec
        invariant
            hs == headers.0@, names == selected_headers@, hs_ok(algorithm, hs), hs.len() <= usize::MAX,
            result@ =~= selected_output(algorithm, hs, names.take(it.index@)),
            used_ok(processed_indexes@, hs, names.take(it.index@)),
@loop 0 head
            broadcast use vstd::std_specs::hash::group_hash_axioms;
            let ghost j = it.index@;
            let ghost out0 = result@;
            proof { lemma_take(names, j); assert(hs.skip(hs.len() as int) =~= seq![]); assert(hs.take(hs.len() as int) =~= hs); }
@loop 1 index
@loop 1 spec
            invariant_except_break
                result@ == out0, v_i1 <= v_seq1@.len(),
                scan_ok(hs, names, j, hs.len() - v_i1),
                used_ok(processed_indexes@, hs, names.take(j)),
            invariant
                v_seq1@ == hs, hs == headers.0@, names == selected_headers@, hs_ok(algorithm, hs),
                0 <= j < names.len(), *selected_header == names[j], hs.len() <= usize::MAX,
                out0 =~= selected_output(algorithm, hs, names.take(j)),
            ensures
                (scan_ok(hs, names, j, 0) && result@ == out0 && used_ok(processed_indexes@, hs, names.take(j)))
                || (result@ =~= selected_output(algorithm, hs, names.take(j + 1)) && used_ok(processed_indexes@, hs, names.take(j + 1))),
            decreases v_seq1.len() - v_i1,
@loop 1 head
                broadcast use vstd::std_specs::hash::group_hash_axioms;
                proof {
                    let p = hs.len() - v_i1;
                    lemma_take(names, j);
                    lemma_scan_step(processed_indexes@, hs, names, j, p);
                    if lname(hs[p - 1].0) == lname(names[j]) && !processed_indexes@.contains((hs.len() - p) as usize) {
                        lemma_found(processed_indexes@, hs, names, j, p - 1);
                    }
                }
@loop 1 after
        proof {
            lemma_take(names, j);
            if scan_ok(hs, names, j, 0) && result@ == out0 && used_ok(processed_indexes@, hs, names.take(j)) {
                assert(hs.take(0) =~= seq![]);
                lemma_none(processed_indexes@, hs, names, j);
            }
        }
@tail
    proof { assert(names.take(names.len() as int) =~= names); }
@@end
