@@method strip_prefix v_strip_prefix
@@method strip_suffix v_strip_suffix
@@method trim_start_matches v_trim_start_matches
@@method trim_end_matches v_trim_end_matches
@@method is_ascii_alphabetic v_is_ascii_alphabetic
@@method is_ascii_alphanumeric v_is_ascii_alphanumeric
@@method is_ascii v_is_ascii

// ================= RFC 6376, 2.8: folding white space =================
pub open spec fn wspc(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn all_wsp(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> wspc(#[trigger] s[i]) }
pub open spec fn crlf_c() -> Seq<char> { seq!['\r', '\n'] }
/// FWS = [*WSP CRLF] 1*WSP
pub open spec fn is_fws(s: Seq<char>) -> bool {
    ||| s.len() > 0 && all_wsp(s)
    ||| exists|n: int| 0 <= n && n + 2 < s.len() && all_wsp(s.take(n)) && #[trigger] s.subrange(n, n + 2) =~= crlf_c() && all_wsp(s.skip(n + 2))
}
pub open spec fn opt_fws(s: Seq<char>) -> bool { s.len() == 0 || is_fws(s) }
// the parser, as functions on sequences (proof device)
pub open spec fn run(f: spec_fn(char) -> bool, s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) { 1 + run(f, s.skip(1)) } else { 0 }
}
pub open spec fn fw() -> spec_fn(char) -> bool { |c: char| wspc(c) }
/// How many characters `strip_wsp` takes (0: fails).
pub open spec fn n_wsp(s: Seq<char>) -> nat { run(fw(), s) }
pub open spec fn starts_crlf(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '\r' && s[1] == '\n' }
pub open spec fn n_fws(s: Seq<char>) -> nat {
    let a = n_wsp(s);
    let t = s.skip(a as int);
    if starts_crlf(t) && n_wsp(t.skip(2)) > 0 { a + 2 + n_wsp(t.skip(2)) } else { a }
}
pub open spec fn after_fws(s: Seq<char>) -> Seq<char> { s.skip(n_fws(s) as int) }
/// From the end.
pub open spec fn rrun(f: spec_fn(char) -> bool, s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() > 0 && f(s.last()) { 1 + rrun(f, s.drop_last()) } else { 0 }
}
pub open spec fn rn_wsp(s: Seq<char>) -> nat { rrun(fw(), s) }
pub open spec fn rn_fws(s: Seq<char>) -> nat {
    let a = rn_wsp(s);
    let t = s.take(s.len() - a);
    if a > 0 && t.len() >= 2 && t[t.len() - 2] == '\r' && t[t.len() - 1] == '\n' { a + 2 + rn_wsp(t.take(t.len() - 2)) } else { a }
}

pub proof fn lemma_skips()
    ensures
        forall|s: Seq<char>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b),
        forall|s: Seq<char>| #[trigger] s.skip(0) == s,
        forall|s: Seq<char>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).take(b) == s.subrange(a, a + b),
        forall|s: Seq<char>, a: int, b: int| 0 <= b <= a <= s.len() ==> #[trigger] s.take(a).take(b) == s.take(b),
{
    assert forall|s: Seq<char>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by {
        assert(s.skip(a).skip(b) =~= s.skip(a + b));
    }
    assert forall|s: Seq<char>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); }
    assert forall|s: Seq<char>, a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).take(b) == s.subrange(a, a + b) by {
        assert(s.skip(a).take(b) =~= s.subrange(a, a + b));
    }
    assert forall|s: Seq<char>, a: int, b: int| 0 <= b <= a <= s.len() implies #[trigger] s.take(a).take(b) == s.take(b) by {
        assert(s.take(a).take(b) =~= s.take(b));
    }
}
pub proof fn lemma_after_fws()
    ensures
        forall|s: Seq<char>| n_fws(s) == 0 ==> #[trigger] after_fws(s) == s,
        forall|s: Seq<char>| #[trigger] n_fws(s) <= s.len(),
        forall|s: Seq<char>| (#[trigger] after_fws(s)).len() == s.len() - n_fws(s),
{
    assert forall|s: Seq<char>| n_fws(s) == 0 implies #[trigger] after_fws(s) == s by { assert(s.skip(0) =~= s); }
    assert forall|s: Seq<char>| true implies #[trigger] n_fws(s) <= s.len() by { lemma_n_fws(s); }
    assert forall|s: Seq<char>| true implies (#[trigger] after_fws(s)).len() == s.len() - n_fws(s) by { lemma_n_fws(s); }
}
proof fn lemma_run(f: spec_fn(char) -> bool, s: Seq<char>)
    ensures
        run(f, s) <= s.len(),
        forall|i: int| 0 <= i < run(f, s) ==> f(#[trigger] s[i]),
        run(f, s) < s.len() ==> !f(s[run(f, s) as int]),
    decreases s.len()
{
    if s.len() > 0 && f(s[0]) {
        lemma_run(f, s.skip(1));
        assert forall|i: int| 0 <= i < run(f, s) implies f(#[trigger] s[i]) by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
proof fn lemma_run_is(f: spec_fn(char) -> bool, s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]), n < s.len() ==> !f(s[n]),
    ensures run(f, s) == n
{
    lemma_run(f, s);
    let r = run(f, s) as int;
    if r < n { assert(f(s[r])); }
    if n < r { assert(f(s[n])); }
}
proof fn lemma_n_fws(s: Seq<char>)
    ensures n_wsp(s) <= n_fws(s) <= s.len(), n_fws(s) > 0 ==> is_fws(s.take(n_fws(s) as int)),
        n_fws(s) > 0 ==> wspc(s[0]) || s[0] == '\r',
{
    lemma_run(fw(), s);
    let a = n_wsp(s) as int;
    let t = s.skip(a);
    if starts_crlf(t) {
        lemma_run(fw(), t.skip(2));
        let b = n_wsp(t.skip(2)) as int;
        if b > 0 {
            let w = s.take(a + 2 + b);
            assert(n_fws(s) == a + 2 + b);
            assert(w.take(a) =~= s.take(a));
            assert(w.subrange(a, a + 2) =~= crlf_c());
            assert forall|i: int| 0 <= i < w.skip(a + 2).len() implies wspc(#[trigger] w.skip(a + 2)[i]) by {
                assert(w.skip(a + 2)[i] == t.skip(2)[i]);
                assert(fw()(t.skip(2)[i]));
            }
            assert(is_fws(w));
        }
    }
}
/// The contract of `trim_start_matches` pins the run length.
pub proof fn lemma_trim_all(f: spec_fn(char) -> bool)
    ensures forall|s: Seq<char>, n: int| 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> f(#[trigger] s[i])) && (n < s.len() ==> !f(s[n]))
        ==> #[trigger] s.skip(n) == s.skip(run(f, s) as int) && run(f, s) == n
{
    assert forall|s: Seq<char>, n: int| 0 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> f(#[trigger] s[i])) && (n < s.len() ==> !f(s[n]))
        implies #[trigger] s.skip(n) == s.skip(run(f, s) as int) && run(f, s) == n by {
        lemma_run_is(f, s, n);
    }
}
proof fn lemma_rrun(f: spec_fn(char) -> bool, s: Seq<char>)
    ensures
        rrun(f, s) <= s.len(),
        forall|i: int| s.len() - rrun(f, s) <= i < s.len() ==> f(#[trigger] s[i]),
        rrun(f, s) < s.len() ==> !f(s[s.len() - 1 - rrun(f, s)]),
    decreases s.len()
{
    if s.len() > 0 && f(s.last()) {
        lemma_rrun(f, s.drop_last());
        assert forall|i: int| s.len() - rrun(f, s) <= i < s.len() implies f(#[trigger] s[i]) by {
            if i < s.len() - 1 { assert(s[i] == s.drop_last()[i]); }
        }
    }
}
pub proof fn lemma_rtrim_all(f: spec_fn(char) -> bool)
    ensures forall|s: Seq<char>, n: int| 0 <= n <= s.len() && (forall|i: int| n <= i < s.len() ==> f(#[trigger] s[i])) && (n > 0 ==> !f(s[n - 1]))
        ==> #[trigger] s.take(n) == s.take(s.len() - rrun(f, s)) && rrun(f, s) == s.len() - n
{
    assert forall|s: Seq<char>, n: int| 0 <= n <= s.len() && (forall|i: int| n <= i < s.len() ==> f(#[trigger] s[i])) && (n > 0 ==> !f(s[n - 1]))
        implies #[trigger] s.take(n) == s.take(s.len() - rrun(f, s)) && rrun(f, s) == s.len() - n by {
        lemma_rrun(f, s);
        let r = s.len() - rrun(f, s);
        if r < n { assert(f(s[n - 1])); }
        if n < r { assert(f(s[r - 1])); }
    }
}
/// Nothing that could be part of preceding FWS.
pub open spec fn no_fws_at(z: Seq<char>) -> bool { z.len() == 0 || (!wspc(z[0]) && z[0] != '\r') }
proof fn lemma_fws_then(w: Seq<char>, z: Seq<char>)
    requires opt_fws(w), no_fws_at(z),
    ensures n_fws(w + z) == w.len(), after_fws(w + z) == z,
{
    let s = w + z;
    assert(s.skip(w.len() as int) =~= z);
    if all_wsp(w) {
        assert forall|i: int| 0 <= i < w.len() implies fw()(#[trigger] s[i]) by { assert(s[i] == w[i]); }
        lemma_run_is(fw(), s, w.len() as int);
    } else {
        let n = choose|n: int| 0 <= n && n + 2 < w.len() && all_wsp(w.take(n)) && #[trigger] w.subrange(n, n + 2) =~= crlf_c() && all_wsp(w.skip(n + 2));
        assert(w.subrange(n, n + 2)[0] == w[n] && w.subrange(n, n + 2)[1] == w[n + 1]);
        assert(crlf_c()[0] == '\r' && crlf_c()[1] == '\n');
        assert forall|i: int| 0 <= i < n implies fw()(#[trigger] s[i]) by { assert(s[i] == w.take(n)[i]); }
        lemma_run_is(fw(), s, n);
        let t = s.skip(n);
        assert(starts_crlf(t));
        let u = t.skip(2);
        assert(u =~= w.skip(n + 2) + z);
        let m = w.len() - n - 2;
        assert forall|i: int| 0 <= i < m implies fw()(#[trigger] u[i]) by { assert(u[i] == w.skip(n + 2)[i]); }
        lemma_run_is(fw(), u, m);
    }
}
proof fn lemma_opt_fws_head(w: Seq<char>)
    requires opt_fws(w)
    ensures w.len() > 0 ==> wspc(w[0]) || w[0] == '\r'
{
    if w.len() > 0 && !all_wsp(w) {
        let n = choose|n: int| 0 <= n && n + 2 < w.len() && all_wsp(w.take(n)) && #[trigger] w.subrange(n, n + 2) =~= crlf_c() && all_wsp(w.skip(n + 2));
        if n == 0 { assert(w.subrange(0, 2)[0] == w[0]); assert(crlf_c()[0] == '\r'); } else { assert(w.take(n)[0] == w[0]); }
    }
}
