// ================= RFC 6376, 2.8 and 3.2: the grammar =================
/// tag-name = ALPHA *(ALPHA / DIGIT / "_")
pub open spec fn alnum_c(c: char) -> bool { is_alpha_c(c) || is_digit_c(c) || c == '_' }
pub open spec fn tag_name_ok(s: Seq<char>) -> bool {
    s.len() > 0 && is_alpha_c(s[0]) && forall|i: int| 0 <= i < s.len() ==> alnum_c(#[trigger] s[i])
}
/// VALCHAR = %x21-3A / %x3C-7E, and anything beyond ASCII
pub open spec fn tval_c(c: char) -> bool { ('!' <= c && c <= '~' && c != ';') || !is_ascii_c(c) }
pub open spec fn all_tval(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> tval_c(#[trigger] s[i]) }
/// tval *( FWS tval ), tval = 1*VALCHAR
pub open spec fn tag_value_some(s: Seq<char>) -> bool
    decreases s.len()
{
    ||| s.len() > 0 && all_tval(s)
    ||| exists|i: int, j: int| 0 < i < j < s.len() && all_tval(s.take(i)) && is_fws(#[trigger] s.subrange(i, j)) && tag_value_some(s.skip(j))
}
pub open spec fn tag_value_ok(s: Seq<char>) -> bool { s.len() == 0 || tag_value_some(s) }
/// tag-spec = [FWS] tag-name [FWS] "=" [FWS] tag-value [FWS]
pub open spec fn tag_spec_as(s: Seq<char>, name: Seq<char>, value: Seq<char>, w1: Seq<char>, w2: Seq<char>, w3: Seq<char>, w4: Seq<char>) -> bool {
    &&& s == w1 + (name + (w2 + (seq!['='] + (w3 + (value + w4)))))
    &&& opt_fws(w1) && opt_fws(w2) && opt_fws(w3) && opt_fws(w4)
    &&& tag_name_ok(name) && tag_value_ok(value)
    // one FWS around an empty value
    &&& value.len() == 0 ==> w4.len() == 0
}
pub struct Tag { pub name: Seq<char>, pub value: Seq<char> }
pub open spec fn tag_spec_ok(s: Seq<char>, t: Tag) -> bool {
    exists|w1: Seq<char>, w2: Seq<char>, w3: Seq<char>, w4: Seq<char>| #[trigger] tag_spec_as(s, t.name, t.value, w1, w2, w3, w4)
}
/// tag-list = tag-spec *( ";" tag-spec ) [ ";" ]
pub open spec fn tag_list_ok(s: Seq<char>, tags: Seq<Tag>) -> bool
    decreases tags.len()
{
    &&& tags.len() > 0
    &&& if tags.len() == 1 {
        tag_spec_ok(s, tags[0]) || (s.len() > 0 && s.last() == ';' && tag_spec_ok(s.drop_last(), tags[0]))
    } else {
        exists|n: int| 0 <= n < s.len() && s[n] == ';' && #[trigger] tag_spec_ok(s.take(n), tags[0]) && tag_list_ok(s.skip(n + 1), tags.skip(1))
    }
}
pub open spec fn distinct_names(tags: Seq<Tag>) -> bool {
    forall|i: int, j: int| 0 <= i < j < tags.len() ==> tags[i].name != tags[j].name
}

// ================= the parser, as functions on sequences (proof device) =================
pub open spec fn ft() -> spec_fn(char) -> bool { |c: char| tval_c(c) }
pub open spec fn fa() -> spec_fn(char) -> bool { |c: char| alnum_c(c) }
pub open spec fn n_name(s: Seq<char>) -> nat { if s.len() > 0 && is_alpha_c(s[0]) { run(fa(), s) } else { 0 } }
pub open spec fn n_value(s: Seq<char>) -> nat
    decreases s.len(), 1nat
{
    let a = run(ft(), s);
    if a == 0 || a > s.len() { 0 } else { a + n_cont(s.skip(a as int)) }
}
pub open spec fn n_cont(s: Seq<char>) -> nat
    decreases s.len(), 0nat
{
    let b = n_fws(s);
    if b == 0 || b > s.len() { 0 }
    else {
        let c = n_value(s.skip(b as int));
        if c == 0 { 0 } else { b + c }
    }
}
pub open spec fn p_name_eq(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let s1 = after_fws(s);
    let n = n_name(s1) as int;
    let s2 = after_fws(s1.skip(n));
    if n > 0 && s2.len() > 0 && s2[0] == '=' { Some((s2.skip(1), s1.take(n))) } else { None }
}
pub open spec fn p_spec(s: Seq<char>) -> Option<(Seq<char>, Tag)> {
    match p_name_eq(s) {
        None => None,
        Some((s, name)) => {
            let s = after_fws(s);
            let n = n_value(s) as int;
            if n > 0 { Some((after_fws(s.skip(n)), Tag { name, value: s.take(n) })) }
            else { Some((s, Tag { name, value: seq![] })) }
        }
    }
}

pub open spec fn p_more(s: Seq<char>) -> (Seq<char>, Seq<Tag>)
    decreases s.len()
{
    if s.len() > 0 && s[0] == ';' {
        match p_spec(s.skip(1)) {
            Some((s2, t)) => if s2.len() < s.len() { let (r, ts) = p_more(s2); (r, seq![t] + ts) } else { (s, seq![]) },
            None => (s, seq![]),
        }
    } else { (s, seq![]) }
}
pub open spec fn p_list(s: Seq<char>) -> Option<(Seq<char>, Seq<Tag>)> {
    match p_spec(s) {
        None => None,
        Some((s1, t)) => {
            let (r, ts) = p_more(s1);
            Some((if r.len() > 0 && r[0] == ';' { r.skip(1) } else { r }, seq![t] + ts))
        }
    }
}
// ---------------------------------------------------------------- lemmas ----
proof fn lemma_n_value(s: Seq<char>)
    ensures n_value(s) <= s.len(), n_cont(s) <= s.len(), n_value(s) > 0 ==> s.len() > 0 && tval_c(s[0])
    decreases s.len()
{
    lemma_run(ft(), s);
    let a = run(ft(), s);
    if a > 0 { lemma_n_value(s.skip(a as int)); assert(ft()(s[0])); }
    lemma_n_fws(s);
    let b = n_fws(s);
    if b > 0 { lemma_n_value(s.skip(b as int)); }
}
proof fn lemma_p_spec(s: Seq<char>)
    ensures p_spec(s) matches Some((r, t)) ==> r.len() < s.len(), p_name_eq(s) matches Some((r, t)) ==> r.len() < s.len(),
{
    let s1 = after_fws(s);
    lemma_n_fws(s);
    lemma_run(fa(), s1);
    let n = n_name(s1) as int;
    lemma_n_fws(s1.skip(n));
    if let Some((r, name)) = p_name_eq(s) {
        lemma_n_fws(r);
        let v = after_fws(r);
        lemma_n_value(v);
        lemma_n_fws(v.skip(n_value(v) as int));
    }
}

// ------------------------------------------------- the parser is the grammar ----
// soundness: what is consumed has the form
proof fn lemma_value_sound(s: Seq<char>)
    ensures n_value(s) > 0 ==> tag_value_some(s.take(n_value(s) as int)),
    decreases s.len()
{
    lemma_n_value(s);
    lemma_run(ft(), s);
    let a = run(ft(), s) as int;
    if a > 0 {
        let t = s.skip(a);
        lemma_n_fws(t);
        lemma_n_value(t);
        let b = n_fws(t) as int;
        let v = s.take(n_value(s) as int);
        assert forall|i: int| 0 <= i < a implies tval_c(#[trigger] s[i]) by { assert(ft()(s[i])); }
        if n_cont(t) > 0 {
            let u = t.skip(b);
            lemma_n_value(u);
            lemma_value_sound(u);
            let c = n_value(u) as int;
            assert(v.take(a) =~= s.take(a));
            assert(v.subrange(a, a + b) =~= t.take(b));
            assert(v.skip(a + b) =~= u.take(c));
            assert(all_tval(v.take(a)));
        } else {
            assert(v =~= s.take(a));
            assert(all_tval(v));
        }
    }
}
proof fn lemma_name_sound(s: Seq<char>)
    ensures n_name(s) > 0 ==> n_name(s) <= s.len() && tag_name_ok(s.take(n_name(s) as int)),
{
    lemma_run(fa(), s);
    if n_name(s) > 0 {
        let n = n_name(s) as int;
        assert forall|i: int| 0 <= i < n implies alnum_c(#[trigger] s.take(n)[i]) by { assert(fa()(s[i])); }
    }
}
proof fn lemma_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == a + (b + c)
{
    assert((a + b) + c =~= a + (b + c));
}
proof fn lemma_cut(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures s == s.take(n) + s.skip(n)
{
    assert(s =~= s.take(n) + s.skip(n));
}
proof fn lemma_name_eq_sound(s: Seq<char>) -> (w: (Seq<char>, Seq<char>))
    ensures p_name_eq(s) matches Some((r, name)) ==> s == w.0 + (name + (w.1 + (seq!['='] + r))) && opt_fws(w.0) && opt_fws(w.1) && tag_name_ok(name),
{
    lemma_n_fws(s);
    let s1 = after_fws(s);
    lemma_name_sound(s1);
    let n = n_name(s1) as int;
    let t = s1.skip(n);
    lemma_n_fws(t);
    let w1 = s.take(n_fws(s) as int);
    let w2 = t.take(n_fws(t) as int);
    if let Some((r, name)) = p_name_eq(s) {
        let s2 = after_fws(t);
        lemma_cut(s, n_fws(s) as int);
        lemma_cut(s1, n);
        lemma_cut(t, n_fws(t) as int);
        lemma_cut(s2, 1);
        assert(s2.take(1) =~= seq!['=']);
    }
    (w1, w2)
}
proof fn lemma_spec_sound(s: Seq<char>) -> (x: Seq<char>)
    ensures p_spec(s) matches Some((r, t)) ==> s =~= x + r && tag_spec_ok(x, t),
{
    let (w1, w2) = lemma_name_eq_sound(s);
    if let Some((r, name)) = p_name_eq(s) {
        lemma_n_fws(r);
        let w3 = r.take(n_fws(r) as int);
        let v = after_fws(r);
        assert(r =~= w3 + v);
        lemma_value_sound(v);
        lemma_n_value(v);
        let n = n_value(v) as int;
        let u = v.skip(n);
        lemma_n_fws(u);
        let w4 = if n > 0 { u.take(n_fws(u) as int) } else { Seq::<char>::empty() };
        let value = v.take(n);
        let (rest, t) = p_spec(s)->0;
        assert(n == 0 ==> value =~= seq![]);
        assert(v == value + (w4 + rest)) by {
            lemma_cut(v, n);
            if n > 0 { lemma_cut(u, n_fws(u) as int); } else { assert(u =~= v); assert(w4 + rest =~= rest); }
        }
        lemma_cut(r, n_fws(r) as int);
        let e = seq!['='];
        let x4 = value + w4;
        let x3 = w3 + x4;
        let x2 = e + x3;
        let x1 = w2 + x2;
        let x0 = name + x1;
        let x = w1 + x0;
        lemma_assoc(value, w4, rest);
        lemma_assoc(w3, x4, rest);
        lemma_assoc(e, x3, rest);
        lemma_assoc(w2, x2, rest);
        lemma_assoc(name, x1, rest);
        lemma_assoc(w1, x0, rest);
        assert(tag_spec_as(x, t.name, t.value, w1, w2, w3, w4));
        x
    } else { s }
}
// completeness: what has the form is consumed
proof fn lemma_value_complete(v: Seq<char>, w: Seq<char>, y: Seq<char>)
    requires tag_value_some(v), opt_fws(w), y.len() == 0 || y[0] == ';',
    ensures n_value(v + w + y) == v.len(), v.len() > 0 && tval_c(v[0]),
    decreases v.len()
{
    let s = v + w + y;
    lemma_opt_fws_head(w);
    if v.len() > 0 && all_tval(v) {
        assert forall|i: int| 0 <= i < v.len() implies ft()(#[trigger] s[i]) by { assert(s[i] == v[i]); }
        lemma_run_is(ft(), s, v.len() as int);
        let t = s.skip(v.len() as int);
        assert(t =~= w + y);
        lemma_fws_then(w, y);
        lemma_run_is(ft(), y, 0);
        assert(n_value(y) == 0);
        assert(n_cont(t) == 0);
    } else {
        let (i, j) = choose|i: int, j: int| 0 < i < j < v.len() && all_tval(v.take(i)) && is_fws(#[trigger] v.subrange(i, j)) && tag_value_some(v.skip(j));
        let f = v.subrange(i, j);
        let z = v.skip(j);
        lemma_value_complete(z, w, y);
        lemma_opt_fws_head(f);
        assert(v[i] == f[0]);
        assert forall|k: int| 0 <= k < i implies ft()(#[trigger] s[k]) by { assert(s[k] == v.take(i)[k]); }
        lemma_run_is(ft(), s, i);
        assert(v.take(i)[0] == v[0]);
        let t = s.skip(i);
        assert(t =~= f + (z + w + y));
        lemma_fws_then(f, z + w + y);
    }
}
proof fn lemma_name_eq_complete(w1: Seq<char>, name: Seq<char>, w2: Seq<char>, r: Seq<char>)
    requires opt_fws(w1), opt_fws(w2), tag_name_ok(name)
    ensures p_name_eq(w1 + (name + (w2 + (seq!['='] + r)))) == Some((r, name))
{
    let ze = seq!['='] + r;
    let z1 = w2 + ze;
    let z0 = name + z1;
    let s = w1 + z0;
    assert(z0[0] == name[0]);
    assert(alnum_c(name[0]));
    lemma_fws_then(w1, z0);
    lemma_opt_fws_head(w2);
    let n = name.len() as int;
    assert(ze[0] == '=');
    assert forall|i: int| 0 <= i < n implies fa()(#[trigger] z0[i]) by { assert(z0[i] == name[i]); }
    assert(z0[n] == z1[0]);
    assert(z1[0] == if w2.len() > 0 { w2[0] } else { '=' });
    lemma_run_is(fa(), z0, n);
    assert(z0.skip(n) =~= z1);
    assert(z0.take(n) =~= name);
    lemma_fws_then(w2, ze);
    assert(ze.skip(1) =~= r);
}
proof fn lemma_spec_complete(x: Seq<char>, t: Tag, y: Seq<char>)
    requires tag_spec_ok(x, t), y.len() == 0 || y[0] == ';',
    ensures p_spec(x + y) == Some((y, t)),
{
    let (w1, w2, w3, w4) = choose|w1: Seq<char>, w2: Seq<char>, w3: Seq<char>, w4: Seq<char>| #[trigger] tag_spec_as(x, t.name, t.value, w1, w2, w3, w4);
    let s = x + y;
    let z4 = w4 + y;
    let z3 = t.value + z4;
    let z2 = w3 + z3;
    let e = seq!['='];
    assert(s == w1 + (t.name + (w2 + (e + z2)))) by {
        let x4 = t.value + w4;
        let x3 = w3 + x4;
        let x2 = e + x3;
        let x1 = w2 + x2;
        let x0 = t.name + x1;
        lemma_assoc(t.value, w4, y);
        lemma_assoc(w3, x4, y);
        lemma_assoc(e, x3, y);
        lemma_assoc(w2, x2, y);
        lemma_assoc(t.name, x1, y);
        lemma_assoc(w1, x0, y);
    }
    lemma_name_eq_complete(w1, t.name, w2, z2);
    lemma_rest_complete(t.value, w3, w4, y);
    assert(t.value.len() == 0 ==> t.value =~= seq![]);
}
proof fn lemma_rest_complete(v: Seq<char>, w3: Seq<char>, w4: Seq<char>, y: Seq<char>)
    requires opt_fws(w3), opt_fws(w4), tag_value_ok(v), v.len() == 0 ==> w4.len() == 0, y.len() == 0 || y[0] == ';',
    ensures ({
        let s = w3 + (v + (w4 + y));
        let a = after_fws(s);
        &&& n_value(a) == v.len()
        &&& v.len() > 0 ==> a.take(v.len() as int) == v && after_fws(a.skip(v.len() as int)) == y
        &&& v.len() == 0 ==> a == y
    }),
{
    let z4 = w4 + y;
    let z3 = v + z4;
    if v.len() == 0 {
        assert(z3 =~= y);
        lemma_fws_then(w3, z3);
        lemma_run_is(ft(), y, 0);
        assert(n_value(y) == 0);
    } else {
        lemma_assoc(v, w4, y);
        lemma_value_complete(v, w4, y);
        assert(z3[0] == v[0]);
        lemma_fws_then(w3, z3);
        let m = v.len() as int;
        assert(z3.skip(m) =~= z4);
        assert(z3.take(m) =~= v);
        lemma_fws_then(w4, y);
    }
}
/// What is left over may be one final semicolon.
pub open spec fn left(r: Seq<char>) -> Seq<char> { if r.len() > 0 && r[0] == ';' { r.skip(1) } else { r } }
proof fn lemma_list_sound(s: Seq<char>)
    ensures p_list(s) matches Some((r, tags)) ==> (r.len() == 0 ==> tag_list_ok(s, tags)),
    decreases s.len()
{
    lemma_p_spec(s);
    if let Some((s1, t)) = p_spec(s) {
        let x = lemma_spec_sound(s);
        let n = x.len() as int;
        let (r, ts) = p_more(s1);
        let tags = seq![t] + ts;
        if left(r).len() == 0 {
            if s1.len() > 0 && s1[0] == ';' && p_spec(s1.skip(1)) is Some {
                let s2 = s1.skip(1);
                lemma_p_spec(s2);
                lemma_list_sound(s2);
                assert(p_list(s2)->0 == (left(r), ts));
                assert(s.take(n) =~= x);
                assert(s.skip(n + 1) =~= s2);
                assert(tags.skip(1) =~= ts);
                assert(ts.len() > 0);
                assert(tag_spec_ok(s.take(n), tags[0]) && s[n] == ';');
            } else {
                assert(ts =~= seq![]);
                assert(r == s1);
                if s1.len() > 0 { assert(s1.skip(1).len() == 0); assert(s1.len() == 1); assert(s.drop_last() =~= x); }
                else { assert(s =~= x); }
            }
        }
    }
}
proof fn lemma_nothing()
    ensures p_spec(Seq::<char>::empty()) is None, p_more(Seq::<char>::empty()) == (Seq::<char>::empty(), Seq::<Tag>::empty()),
        p_more(seq![';']) == (seq![';'], Seq::<Tag>::empty()),
{
    let e = Seq::<char>::empty();
    assert(p_name_eq(e) is None) by { lemma_n_fws(e); lemma_run(fa(), after_fws(e)); }
    assert(p_spec(e) is None);
    assert(seq![';'].skip(1) =~= e);
}
proof fn lemma_last_complete(s: Seq<char>, t: Tag)
    requires tag_spec_ok(s, t) || (s.len() > 0 && s.last() == ';' && tag_spec_ok(s.drop_last(), t))
    ensures p_list(s) == Some((Seq::<char>::empty(), seq![t]))
{
    hide(p_spec); hide(p_more); hide(tag_spec_ok);
    let e = Seq::<char>::empty();
    lemma_nothing();
    assert(seq![t] + Seq::<Tag>::empty() =~= seq![t]);
    if tag_spec_ok(s, t) {
        lemma_spec_complete(s, t, e);
        assert(s + e =~= s);
    } else {
        let x = s.drop_last();
        lemma_spec_complete(x, t, seq![';']);
        assert(x + seq![';'] =~= s);
        assert(seq![';'].skip(1) =~= e);
    }
}
proof fn lemma_first_complete(s: Seq<char>, n: int, t: Tag, ts: Seq<Tag>)
    requires 0 <= n < s.len(), s[n] == ';', tag_spec_ok(s.take(n), t), p_list(s.skip(n + 1)) == Some((Seq::<char>::empty(), ts))
    ensures p_list(s) == Some((Seq::<char>::empty(), seq![t] + ts))
{
    hide(p_spec); hide(tag_spec_ok);
    let y = s.skip(n);
    let s2 = s.skip(n + 1);
    lemma_spec_complete(s.take(n), t, y);
    assert(s.take(n) + y =~= s);
    assert(y.skip(1) =~= s2);
    lemma_p_spec(s2);
}
proof fn lemma_list_complete(s: Seq<char>, tags: Seq<Tag>)
    requires tag_list_ok(s, tags)
    ensures p_list(s) == Some((Seq::<char>::empty(), tags)),
    decreases tags.len()
{
    hide(p_list); hide(tag_spec_ok);
    if tags.len() == 1 {
        lemma_last_complete(s, tags[0]);
        assert(tags =~= seq![tags[0]]);
    } else {
        let n = choose|n: int| 0 <= n < s.len() && s[n] == ';' && #[trigger] tag_spec_ok(s.take(n), tags[0]) && tag_list_ok(s.skip(n + 1), tags.skip(1));
        lemma_list_complete(s.skip(n + 1), tags.skip(1));
        lemma_first_complete(s, n, tags[0], tags.skip(1));
        assert(seq![tags[0]] + tags.skip(1) =~= tags);
    }
}
/// Accepted exactly when it has the form of a tag list.
pub proof fn theorem_tag_list(s: Seq<char>, tags: Seq<Tag>)
    ensures p_list(s) == Some((Seq::<char>::empty(), tags)) <==> tag_list_ok(s, tags)
{
    lemma_list_sound(s);
    if tag_list_ok(s, tags) { lemma_list_complete(s, tags); }
}
pub proof fn theorem_tag_value(s: Seq<char>)
    ensures (n_value(s) > 0 && n_value(s) == s.len()) <==> tag_value_some(s)
{
    lemma_value_sound(s);
    assert(s.take(s.len() as int) =~= s);
    let e = Seq::<char>::empty();
    assert(s + e + e =~= s);
    if tag_value_some(s) { lemma_value_complete(s, e, e); }
}
pub proof fn theorem_tag_name(s: Seq<char>)
    ensures (n_name(s) > 0 && n_name(s) == s.len()) <==> tag_name_ok(s)
{
    lemma_name_sound(s);
    assert(s.take(s.len() as int) =~= s);
    if tag_name_ok(s) {
        assert forall|i: int| 0 <= i < s.len() implies fa()(#[trigger] s[i]) by {}
        lemma_run_is(fa(), s, s.len() as int);
    }
}
