// ================= RFC 6376, 3.4.1 and 3.4.2, on one header field =================
pub open spec fn sp4(b: u8) -> bool { b == 32 || b == 9 || b == 13 || b == 10 }
/// "Unfold all header field continuation lines": CRLF removed.
pub open spec fn unfold(v: Seq<u8>) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { seq![] }
    else if v.len() >= 2 && v[0] == 13 && v[1] == 10 { unfold(v.skip(2)) }
    else { seq![v[0]] + unfold(v.skip(1)) }
}
/// "Delete any WSP" at the start and at the end.
pub open spec fn trim_l(sp: spec_fn(u8) -> bool, v: Seq<u8>) -> Seq<u8>
    decreases v.len()
{
    if v.len() > 0 && sp(v[0]) { trim_l(sp, v.skip(1)) } else { v }
}
pub open spec fn trim_r(sp: spec_fn(u8) -> bool, v: Seq<u8>) -> Seq<u8>
    decreases v.len()
{
    if v.len() > 0 && sp(v.last()) { trim_r(sp, v.take(v.len() - 1)) } else { v }
}
pub open spec fn trim_b(sp: spec_fn(u8) -> bool, v: Seq<u8>) -> Seq<u8> { trim_r(sp, trim_l(sp, v)) }
/// "Convert all sequences of one or more WSP characters to a single SP".
pub open spec fn compress(sp: spec_fn(u8) -> bool, v: Seq<u8>, in_run: bool) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { seq![] }
    else if sp(v[0]) { (if in_run { seq![] } else { seq![32u8] }) + compress(sp, v.skip(1), true) }
    else { seq![v[0]] + compress(sp, v.skip(1), false) }
}
pub open spec fn relaxed_value(v: Seq<u8>) -> Seq<u8> {
    compress(wspf(), trim_b(wspf(), unfold(v)), false)
}
/// The canonical form of one field, without the final CRLF.
pub open spec fn canon_field(alg: CanonicalizationAlgorithm, name: Seq<char>, value: Seq<u8>) -> Seq<u8> {
    match alg {
        CanonicalizationAlgorithm::Simple => utf8(name) + seq![58u8] + value,
        CanonicalizationAlgorithm::Relaxed => utf8(lower(name)) + seq![58u8] + relaxed_value(value),
    }
}

pub open spec fn sp4f() -> spec_fn(u8) -> bool { |b: u8| sp4(b) }
pub open spec fn wspf() -> spec_fn(u8) -> bool { |b: u8| wsp(b) }
/// Proof device: one pass over the value, a SP at the end of each inner run.
pub open spec fn pass(sp: spec_fn(u8) -> bool, v: Seq<u8>, seen: bool) -> Seq<u8>
    decreases v.len()
{
    if v.len() == 0 { seq![] }
    else if sp(v[0]) {
        (if seen && v.len() > 1 && !sp(v[1]) { seq![32u8] } else { seq![] }) + pass(sp, v.skip(1), seen)
    } else { seq![v[0]] + pass(sp, v.skip(1), true) }
}
proof fn lemma_pass_trim_l(sp: spec_fn(u8) -> bool, v: Seq<u8>)
    ensures pass(sp, v, false) == pass(sp, trim_l(sp, v), false), trim_l(sp, v).len() > 0 ==> !sp(trim_l(sp, v)[0]),
    decreases v.len()
{
    if v.len() > 0 && sp(v[0]) {
        lemma_pass_trim_l(sp, v.skip(1));
        assert(pass(sp, v, false) =~= pass(sp, v.skip(1), false));
    }
}
proof fn lemma_pass_drop_last(sp: spec_fn(u8) -> bool, v: Seq<u8>, seen: bool)
    requires v.len() > 0, sp(v.last()),
    ensures pass(sp, v, seen) == pass(sp, v.take(v.len() - 1), seen),
    decreases v.len()
{
    let w = v.take(v.len() - 1);
    if v.len() == 1 {
        assert(v.skip(1) =~= seq![]);
        assert(w =~= seq![]);
        assert(pass(sp, v.skip(1), seen) =~= seq![]);
    } else {
        lemma_pass_drop_last(sp, v.skip(1), if sp(v[0]) { seen } else { true });
        assert(v.skip(1).take(v.skip(1).len() - 1) =~= w.skip(1));
        if sp(v[0]) && v.len() == 2 {
            assert(w.skip(1) =~= seq![]);
        }
    }
}
proof fn lemma_pass_trim_r(sp: spec_fn(u8) -> bool, v: Seq<u8>, seen: bool)
    ensures pass(sp, v, seen) == pass(sp, trim_r(sp, v), seen),
        trim_r(sp, v).len() > 0 ==> !sp(trim_r(sp, v).last()) && trim_r(sp, v)[0] == v[0],
    decreases v.len()
{
    if v.len() > 0 && sp(v.last()) {
        lemma_pass_drop_last(sp, v, seen);
        lemma_pass_trim_r(sp, v.take(v.len() - 1), seen);
    }
}
proof fn lemma_pass_compress(sp: spec_fn(u8) -> bool, v: Seq<u8>)
    requires v.len() > 0 ==> !sp(v.last()),
    ensures pass(sp, v, true) == compress(sp, v, false),
        v.len() > 0 && sp(v[0]) ==> compress(sp, v, false) == seq![32u8] + compress(sp, v, true),
        v.len() > 0 && !sp(v[0]) ==> compress(sp, v, false) == compress(sp, v, true),
    decreases v.len()
{
    if v.len() > 0 {
        let r = v.skip(1);
        if r.len() > 0 { assert(r.last() == v.last()); }
        lemma_pass_compress(sp, r);
        if sp(v[0]) {
            assert(r.len() > 0);
            assert(r[0] == v[1]);
            assert(compress(sp, v, false) =~= seq![32u8] + compress(sp, r, true));
            assert(compress(sp, v, true) =~= compress(sp, r, true));
            assert(pass(sp, v, true) =~= compress(sp, v, false));
        }
    }
}
/// The three steps on a whole value amount to one pass.
proof fn lemma_steps_pass(sp: spec_fn(u8) -> bool, v: Seq<u8>)
    ensures pass(sp, v, false) == compress(sp, trim_b(sp, v), false),
{
    lemma_pass_trim_l(sp, v);
    let l = trim_l(sp, v);
    lemma_pass_trim_r(sp, l, false);
    let t = trim_b(sp, v);
    if t.len() > 0 {
        lemma_pass_compress(sp, t.skip(1));
        if t.len() > 1 { assert(t.skip(1).last() == t.last()); }
        lemma_pass_compress(sp, t);
        assert(!sp(t[0]));
        assert(pass(sp, t, false) =~= pass(sp, t, true));
    }
}
/// Folding white space counts as white space in that pass.
proof fn lemma_pass_unfold(v: Seq<u8>, seen: bool)
    requires folded_ok(v),
    ensures pass(sp4f(), v, seen) == pass(wspf(), unfold(v), seen),
    decreases v.len()
{
    if v.len() == 0 {
    } else if v[0] == 13 {
        let r1 = v.skip(1);
        let r2 = v.skip(2);
        assert(r1.skip(1) =~= r2);
        assert(folded_ok(r2)) by {
            assert forall|i: int| 0 <= i < r2.len() implies {
                &&& (#[trigger] r2[i] == 13 ==> i + 2 < r2.len() && r2[i + 1] == 10 && wsp(r2[i + 2]))
                &&& (r2[i] == 10 ==> i > 0 && r2[i - 1] == 13)
            } by {
                assert(r2[i] == v[i + 2]);
                assert(v[i + 2] == 10 ==> v[i + 1] == 13);
            }
        }
        lemma_pass_unfold(r2, seen);
        assert(r1[0] == 10 && r2[0] == v[2]);
        assert(r1[1] == v[2]);
        assert(pass(sp4f(), v, seen) =~= pass(sp4f(), r1, seen));
        assert(pass(sp4f(), r1, seen) =~= pass(sp4f(), r2, seen));
    } else {
        let r = v.skip(1);
        assert(folded_ok(r)) by {
            assert forall|i: int| 0 <= i < r.len() implies {
                &&& (#[trigger] r[i] == 13 ==> i + 2 < r.len() && r[i + 1] == 10 && wsp(r[i + 2]))
                &&& (r[i] == 10 ==> i > 0 && r[i - 1] == 13)
            } by {
                assert(r[i] == v[i + 1]);
                assert(v[i + 1] == 10 ==> v[i] == 13);
            }
        }
        assert(v[0] != 10);
        let u = unfold(v);
        let seen2 = if wsp(v[0]) { seen } else { true };
        lemma_pass_unfold(r, seen2);
        assert(u.skip(1) =~= unfold(r));
        if wsp(v[0]) && r.len() > 0 {
            if r[0] == 13 {
                // the next character after the CRLF is white space, too
                lemma_unfold_head(r);
            } else {
                assert(unfold(r)[0] == r[0]);
            }
            assert(u[1] == unfold(r)[0]);
        }
    }
}
proof fn lemma_unfold_head(r: Seq<u8>)
    requires folded_ok(r), r.len() > 0, r[0] == 13,
    ensures unfold(r).len() > 0, wsp(unfold(r)[0]),
{
    let r2 = r.skip(2);
    assert(r2[0] == r[2]);
    assert(unfold(r) == unfold(r2));
    assert(unfold(r2) == seq![r2[0]] + unfold(r2.skip(1)));
}
proof fn lemma_relaxed(v: Seq<u8>)
    requires folded_ok(v),
    ensures relaxed_value(v) == compress(sp4f(), trim_b(sp4f(), v), false),
{
    lemma_pass_unfold(v, false);
    lemma_steps_pass(sp4f(), v);
    lemma_steps_pass(wspf(), unfold(v));
}
