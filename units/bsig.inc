// ---- trusted: Cow<str> as an owned string, str::match_indices, ranges of strings ----
#[verifier::external_body]
pub fn v_string(s: &str) -> (r: String) ensures r@ == s@ { s.into() }
/// `s.match_indices(c)`: from left to right, the byte position of every `c`.
#[verifier::external_body]
pub struct VMatchIdx { s: String }
impl VMatchIdx {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn pat(&self) -> char;
    /// What is before this is done.
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn v_new(s: &str, c: char) -> (r: Self) ensures r.text() == s@, r.pat() == c, r.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, Ghost<int>)>)
        requires 0 <= old(self).pos() <= old(self).text().len(),
        ensures final(self).text() == old(self).text(), final(self).pat() == old(self).pat(),
            ({ let i = first_c(old(self).text().skip(old(self).pos()), old(self).pat());
               match r {
                   Some((n, _)) => i >= 0 && n == ulen(old(self).text().take(old(self).pos() + i)) && final(self).pos() == old(self).pos() + i + 1,
                   None => i < 0 && final(self).pos() == old(self).pos(),
               } }),
    { unimplemented!() }
}
/// `&s[a..b]`
#[verifier::external_body]
pub fn v_str_range(s: &str, a: usize, b: usize) -> (r: &str)
    requires a <= b, boundary(s@, a as nat), boundary(s@, b as nat),
    ensures forall|j: int, k: int| 0 <= j <= k <= s@.len() && a == ulen(#[trigger] s@.take(j)) && b == ulen(#[trigger] s@.take(k)) ==> r@ == s@.subrange(j, k),
{ &s[a..b] }
/// `s.drain(a..b)`
#[verifier::external_body]
pub fn v_drain(s: &mut String, a: usize, b: usize)
    requires a <= b, boundary(old(s)@, a as nat), boundary(old(s)@, b as nat),
    ensures forall|j: int, k: int| 0 <= j <= k <= old(s)@.len() && a == ulen(#[trigger] old(s)@.take(j)) && b == ulen(#[trigger] old(s)@.take(k)) ==> final(s)@ == old(s)@.take(j) + old(s)@.skip(k),
{ s.drain(a..b); }
// ---- end of trusted ----
// ================= RFC 6376, 3.7: "with the value of the b= tag deleted" =================
/// Where the value of the b tag begins and ends, "including all surrounding
/// whitespace": from after the equals sign to the next semicolon or the end.
pub open spec fn b_start(seg: Seq<char>) -> Option<int> {
    match p_name_eq(seg) { Some((rest, name)) => if name == "b"@ { Some(seg.len() - rest.len()) } else { None }, None => None }
}
pub open spec fn b_value(s: Seq<char>) -> Option<(int, int)>
    decreases s.len()
{
    let i = first_c(s, ';');
    let seg = if 0 <= i && i < s.len() { s.take(i) } else { s };
    match b_start(seg) {
        Some(n) => Some((n, seg.len() as int)),
        None => if 0 <= i && i < s.len() { shifted(b_value(s.skip(i + 1)), i + 1) } else { None },
    }
}
pub open spec fn shifted(o: Option<(int, int)>, n: int) -> Option<(int, int)> { match o { Some((a, b)) => Some((a + n, b + n)), None => None } }
pub open spec fn without_b(s: Seq<char>) -> Seq<char> { match b_value(s) { Some((a, b)) => s.take(a) + s.skip(b), None => s } }
proof fn lemma_b_start(seg: Seq<char>)
    ensures b_start(seg) matches Some(n) ==> 0 < n <= seg.len() && seg[n - 1] == '=' && p_name_eq(seg) == Some((seg.skip(n), "b"@)),
{
    lemma_p_spec(seg);
    let s1 = after_fws(seg);
    lemma_n_fws(seg);
    lemma_run(fa(), s1);
    let n = n_name(s1) as int;
    lemma_n_fws(s1.skip(n));
    let s2 = after_fws(s1.skip(n));
    if let Some(k) = b_start(seg) {
        assert(s2 =~= seg.skip(k - 1));
        assert(s2.skip(1) =~= seg.skip(k));
        assert(s2[0] == seg[k - 1]);
    }
}
proof fn lemma_b_value(s: Seq<char>)
    ensures b_value(s) matches Some((a, b)) ==> 0 < a <= b <= s.len() && s[a - 1] == '=' && (b == s.len() || s[b] == ';'),
    decreases s.len()
{
    let i = first_c(s, ';');
    lemma_first_c(s, ';');
    let seg = if 0 <= i && i < s.len() { s.take(i) } else { s };
    lemma_b_start(seg);
    if 0 <= i && i < s.len() { lemma_b_value(s.skip(i + 1)); }
}
/// The byte length of a tail.
proof fn lemma_tail_len(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures ulen(s) - ulen(s.skip(n)) == ulen(s.take(n)), ulen(s.skip(n)) <= ulen(s),
{
    assert(s =~= s.take(n) + s.skip(n));
    lemma_ulen_concat(s.take(n), s.skip(n));
}
@@fn verifier/verify.rs::make_original_dkim_sig::b_tag_prefix_len as b_tag_prefix_len
@ret r
@replace tag_list::strip_tag_name_and_equals => strip_tag_name_and_equals
@replace .filter(|(_, $i_n)| $e) => .filter(|v_p: &(&str, &str)| -> (v_r: bool) ensures v_r == (v_p.1@ == "b"@) { let $i_n = &v_p.1; $e })
@replace $i_a.len() => v_slen($i_a)
@spec
    ensures match r { Some(n) => b_start(s@) matches Some(k) && n == ulen(s@.take(k)), None => b_start(s@) is None },
@head
    broadcast use axiom_str_ext;
    proof { lemma_b_start(s@); if let Some(k) = b_start(s@) { lemma_tail_len(s@, k); } }
@@end
@@fn verifier/verify.rs::make_original_dkim_sig
@ret r
@loops 1
@replace Cow<'_, str> => String
@replace Cow::from(value) => v_string(value)
@replace let mut ms = val.match_indices(';'); => let mut ms = VMatchIdx::v_new(&val, ';');
@replace &val[$a..i] => v_str_range(&val, $a, i)
@replace &val[last_i..] => v_str_from(&val, last_i)
@replace val.to_mut().drain($a..i); => v_drain(&mut val, $a, i);
@replace value[..$a].into() => v_string(v_str_to(value, $a))
@replace val.len() => v_slen(&val)
@spec
    ensures r@ == without_b(value@),
@head
    let ghost v = value@;
    let ghost mut l = 0int;
    proof {
        axiom_str_len(value);
        assert(v.skip(0) =~= v);
        assert(v.take(0) =~= Seq::<char>::empty());
        lemma_ulen_concat(Seq::<char>::empty(), Seq::<char>::empty());
        assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
        assert(v.take(v.len() as int) =~= v);
    }
@loop 0 spec
        invariant_except_break
            val@ == v, v == value@, ms.text() == v, ms.pat() == ';', ms.pos() == l, 0 <= l <= v.len(), last_i == ulen(v.take(l)),
            b_value(v) == shifted(b_value(v.skip(l)), l), ulen(v) <= usize::MAX, v.take(v.len() as int) == v,
        ensures val@ == without_b(v),
        decreases v.len() - l,
@loop 0 head
            let ghost k = first_c(v.skip(l), ';');
            proof { lemma_seg(v, l); }
@after last_i = i + 1;
                proof { l = l + k + 1; }
@@end
proof fn lemma_place(v: Seq<char>, l: int, n: int)
    requires 0 <= l, 0 <= n, l + n <= v.len()
    ensures ulen(v.take(l + n)) == ulen(v.take(l)) + ulen(v.subrange(l, l + n)), boundary(v, ulen(v.take(l + n))), ulen(v.take(l + n)) <= ulen(v),
{
    assert(v.take(l + n) =~= v.take(l) + v.subrange(l, l + n));
    lemma_ulen_concat(v.take(l), v.subrange(l, l + n));
    lemma_tail_len(v, l + n);
}
proof fn lemma_semi(v: Seq<char>, i: int)
    requires 0 <= i < v.len(), is_ascii_c(v[i])
    ensures ulen(v.take(i + 1)) == ulen(v.take(i)) + 1
{
    assert(v.take(i + 1) =~= v.take(i) + seq![v[i]]);
    lemma_ulen_concat(v.take(i), seq![v[i]]);
    vstd::utf8::is_ascii_chars_encode_utf8(seq![v[i]]);
}

/// All that one turn of the loop needs.
pub open spec fn segm(v: Seq<char>, l: int) -> Seq<char> { let rest = v.skip(l); let k = first_c(rest, ';'); if 0 <= k { rest.take(k) } else { rest } }
proof fn lemma_at(v: Seq<char>, p: int)
    requires 0 <= p <= v.len()
    ensures boundary(v, ulen(v.take(p))), ulen(v.take(p)) <= ulen(v),
        forall|j: int| 0 <= j <= v.len() && ulen(#[trigger] v.take(j)) == ulen(v.take(p)) ==> j == p,
{
    lemma_place(v, p, 0);
    assert forall|j: int| 0 <= j <= v.len() && ulen(#[trigger] v.take(j)) == ulen(v.take(p)) implies j == p by { lemma_boundary(v, j, p); }
}
proof fn lemma_seg(v: Seq<char>, l: int)
    requires 0 <= l <= v.len()
    ensures
        ({ let rest = v.skip(l); let k = first_c(rest, ';'); let seg = segm(v, l); let e = l + seg.len();
           &&& -1 <= k < rest.len()
           &&& l <= e <= v.len()
           &&& k >= 0 ==> e == l + k && ulen(v.take(l + k + 1)) == ulen(v.take(e)) + 1 && ulen(v.take(l + k + 1)) <= ulen(v) && (b_start(seg) is None ==> b_value(rest) == shifted(b_value(v.skip(l + k + 1)), k + 1))
           &&& k < 0 ==> e == v.len() && (b_start(seg) is None ==> b_value(rest) is None)
           &&& v.subrange(l, e) == seg && v.skip(l) == rest
           &&& ulen(v.take(l)) <= ulen(v.take(e)) <= ulen(v)
           &&& boundary(v, ulen(v.take(l))) && boundary(v, ulen(v.take(e)))
           &&& forall|j: int| 0 <= j <= v.len() && ulen(#[trigger] v.take(j)) == ulen(v.take(l)) ==> j == l
           &&& forall|j: int| 0 <= j <= v.len() && ulen(#[trigger] v.take(j)) == ulen(v.take(e)) ==> j == e
           &&& match b_start(seg) {
                   Some(n) => l < l + n <= e && b_value(rest) == Some((n, seg.len() as int)) && boundary(v, ulen(v.take(l + n)))
                       && ulen(v.take(l + n)) == ulen(v.take(l)) + ulen(seg.take(n)) && ulen(v.take(l + n)) <= ulen(v.take(e))
                       && (forall|j: int| 0 <= j <= v.len() && ulen(#[trigger] v.take(j)) == ulen(v.take(l + n)) ==> j == l + n),
                   None => true,
               } }),
{
    let rest = v.skip(l); let k = first_c(rest, ';'); let seg = segm(v, l); let e = l + seg.len();
    lemma_first_c(rest, ';');
    lemma_b_start(seg);
    lemma_at(v, l);
    lemma_at(v, e);
    assert(v.subrange(l, e) =~= seg);
    lemma_place(v, l, seg.len() as int);
    if k >= 0 {
        assert(v[l + k] == ';');
        lemma_semi(v, l + k);
        lemma_at(v, l + k + 1);
        assert(rest.skip(k + 1) =~= v.skip(l + k + 1));
    }
    if let Some(n) = b_start(seg) {
        lemma_at(v, l + n);
        lemma_place(v, l, n);
        lemma_place(v, l + n, seg.len() - n);
        assert(seg.take(n) =~= v.subrange(l, l + n));
    }
}
