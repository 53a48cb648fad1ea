@@method count v_count
use CanonicalizationAlgorithm::*;
// ================= trusted: more of core::str, base64ct =================
/// An assumption on machine sizes: no string takes more than an eighth of the
/// address space (so that the length of a line, which is the sum of a few such
/// lengths, is within range).
pub open spec fn max_len() -> int { usize::MAX as int / 8 }
pub axiom fn axiom_size(s: &str) ensures ulen(s@) <= max_len();
pub axiom fn axiom_size_string(s: &String) ensures ulen(s@) <= max_len();
pub trait VNchars { spec fn vnc(&self) -> nat; fn v_nchars(&self) -> (r: usize) ensures r == self.vnc(); }
impl VNchars for str {
    open spec fn vnc(&self) -> nat { self@.len() }
    #[verifier::external_body]
    fn v_nchars(&self) -> (r: usize) { self.chars().count() }
}
/// `s.char_indices().nth(n)`
#[verifier::external_body]
pub fn v_nth_char(s: &str, n: usize) -> (r: Option<(usize, char)>)
    ensures match r { Some((k, c)) => n < s@.len() && c == s@[n as int] && k == ulen(s@.take(n as int)), None => n >= s@.len() }
{ s.char_indices().nth(n) }
/// Base64 with padding: the characters, and what they decode to.
pub open spec fn b64_c(c: char) -> bool { is_alpha_c(c) || is_digit_c(c) || c == '+' || c == '/' || c == '=' }
pub open spec fn b64_text(s: Seq<char>, b: Seq<u8>) -> bool {
    b64(s) == Some(b) && (forall|i: int| 0 <= i < s.len() ==> b64_c(#[trigger] s[i])) && s.len() == (b.len() + 2) / 3 * 4
}
#[verifier::external_body]
pub fn v_b64_encode(b: &[u8]) -> (r: String) ensures b64_text(r@, b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_dec_string(n: u64) -> (r: String) ensures r@.len() > 0, digits(r@), dec(r@) == n { n.to_string() }
/// The two forms of a valid name are valid names, and name the same.
pub axiom fn axiom_idna_forms(s: Seq<char>, top: bool)
    requires name_valid(s, top)
    ensures name_valid(idna_u(s), top), name_valid(idna_a(s)->0, top), a_form(idna_u(s)) == a_form(s), a_form(idna_a(s)->0) == a_form(s);
/// ASCII characters are kept (but for case), those of a valid name are those of its labels.
pub axiom fn axiom_idna_chars(s: Seq<char>, top: bool)
    requires name_valid(s, top)
    ensures s.len() > 0, forall|i: int| 0 <= i < s.len() && is_ascii_c(#[trigger] s[i]) ==> ldhu(s[i]) || s[i] == '.';
/// `s.sort_by(|a, b| order(a, b))`
#[verifier::external_body]
pub fn v_sort_by<'a>(v: &mut Vec<&'a str>, o: &VOrder)
    requires o.total()
    ensures str_views(final(v)@).to_multiset() == str_views(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len(), sorted_by(*o, str_views(final(v)@)),
{ unimplemented!() }
pub open spec fn sorted_by(o: VOrder, s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> o.le(#[trigger] s[i], #[trigger] s[j]) }
impl VOrder {
    /// A comparator that is a total preorder.
    pub open spec fn total(&self) -> bool {
        &&& forall|a: Seq<char>, b: Seq<char>| #[trigger] self.le(a, b) || self.le(b, a)
        &&& forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] self.le(a, b) && #[trigger] self.le(b, c) ==> self.le(a, c)
    }
}
/// `s.rsplit("\r\n")`: the part after the last CRLF first.
#[verifier::external_body]
pub struct VRsplitCrlf<'a> { s: std::str::RSplit<'a, &'a str> }
impl<'a> VRsplitCrlf<'a> {
    pub uninterp spec fn rest(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn v_new(s: &'a str) -> (r: Self) ensures r.rest() == Some(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            Some(l) => old(self).rest() matches Some(s) && if last_crlf(s) < 0 { l@ == s && final(self).rest() is None } else { l@ == s.skip(last_crlf(s) + 2) && final(self).rest() == Some(s.take(last_crlf(s))) },
            None => old(self).rest() is None && final(self).rest() is None,
        }
    { unimplemented!() }
}
pub open spec fn last_crlf(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() < 2 { -1 } else if s[s.len() - 2] == '\r' && s[s.len() - 1] == '\n' { s.len() - 2 } else { last_crlf(s.drop_last()) }
}
pub trait VInsertStr { spec fn vis(&self) -> Seq<char>; fn v_insert_str(&mut self, n: usize, t: &str)
    requires boundary(old(self).vis(), n as nat),
    ensures exists|k: int| 0 <= k <= old(self).vis().len() && n == ulen(#[trigger] old(self).vis().take(k)) && final(self).vis() == old(self).vis().take(k) + t@ + old(self).vis().skip(k); }
impl VInsertStr for String {
    open spec fn vis(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_insert_str(&mut self, n: usize, t: &str) { self.insert_str(n, t) }
}
impl VInto<usize> for VNonZero {
    open spec fn vinto(&self, t: usize) -> bool { t == self.n() }
    #[verifier::external_body]
    fn v_into(self) -> (r: usize) { unimplemented!() }
}
// ---- end of trusted ----
/// The names of fields, with a look at the next.
pub struct VNames<'a> { s: &'a [FieldName], k: usize }
impl<'a> VNames<'a> {
    pub closed spec fn rest(&self) -> Seq<FieldName> { self.s@.skip(self.k as int) }
    pub closed spec fn wf(&self) -> bool { self.k <= self.s@.len() }
    pub fn v_new(s: &'a [FieldName]) -> (r: Self) ensures r.rest() == s@, r.wf() { proof { assert(s@.skip(0) =~= s@); } VNames { s, k: 0 } }
    pub fn peek(&mut self) -> (r: Option<&'a FieldName>)
        requires old(self).wf(),
        ensures *final(self) == *old(self), match r { Some(f) => old(self).rest().len() > 0 && *f == old(self).rest()[0], None => old(self).rest().len() == 0 },
    { if self.k < self.s.len() { Some(&self.s[self.k]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a str>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { Some(f) => old(self).rest().len() > 0 && f@ == old(self).rest()[0].0@ && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() },
    {
        if self.k < self.s.len() {
            let r = self.s[self.k].v_as_ref();
            proof { assert(self.s@.skip(self.k as int).skip(1) =~= self.s@.skip(self.k + 1)); }
            self.k = self.k + 1;
            Some(r)
        } else { None }
    }
}
// ================= Folding =================
/// A line break and the indentation.
pub open spec fn nl(ind: Seq<char>) -> Seq<char> { crlf_c() + ind }
pub open spec fn indent_ok(ind: Seq<char>) -> bool { ind.len() > 0 && all_wsp(ind) }
/// `t` is `s` with line breaks between characters: never two next to each
/// other, nor one at the end. `first`: one may come first.
pub open spec fn spread(t: Seq<char>, s: Seq<char>, ind: Seq<char>, first: bool) -> bool
    decreases s.len(), (if first { 1nat } else { 0nat })
{
    t == s || exists|n: int, u: Seq<char>| #[trigger] spread_at(t, s, ind, n, u) && (if first { 0int } else { 1int }) <= n && spread(u, s.skip(n), ind, false)
}
pub open spec fn spread_at(t: Seq<char>, s: Seq<char>, ind: Seq<char>, n: int, u: Seq<char>) -> bool { 0 <= n < s.len() && t == s.take(n) + nl(ind) + u }
proof fn lemma_spread_self(s: Seq<char>, ind: Seq<char>, first: bool) ensures spread(s, s, ind, first) {}
proof fn lemma_spread_nl(t: Seq<char>, s: Seq<char>, ind: Seq<char>)
    requires spread(t, s, ind, false), s.len() > 0
    ensures spread(nl(ind) + t, s, ind, true)
{
    assert(s.skip(0) =~= s);
    assert(nl(ind) + t =~= s.take(0) + nl(ind) + t);
    assert(spread_at(nl(ind) + t, s, ind, 0, t));
}
proof fn lemma_spread_more(t: Seq<char>, s: Seq<char>, ind: Seq<char>)
    requires spread(t, s, ind, false)
    ensures spread(t, s, ind, true)
{
    if t != s {
        let (n, u) = choose|n: int, u: Seq<char>| #[trigger] spread_at(t, s, ind, n, u) && 1 <= n && spread(u, s.skip(n), ind, false);
        assert(spread_at(t, s, ind, n, u));
    }
}
proof fn lemma_spread_concat(t: Seq<char>, s: Seq<char>, t2: Seq<char>, s2: Seq<char>, ind: Seq<char>, first: bool)
    requires spread(t, s, ind, first), spread(t2, s2, ind, true), first || s.len() > 0
    ensures spread(t + t2, s + s2, ind, first)
    decreases s.len(), (if first { 1nat } else { 0nat })
{
    if t == s {
        if t2 == s2 { }
        else {
            let (n, u) = choose|n: int, u: Seq<char>| #[trigger] spread_at(t2, s2, ind, n, u) && 0 <= n && spread(u, s2.skip(n), ind, false);
            let m = s.len() + n;
            assert((s + s2).skip(m) =~= s2.skip(n));
            assert((s + s2).take(m) =~= s + s2.take(n));
            assert(t + t2 =~= (s + s2).take(m) + nl(ind) + u);
            assert(spread_at(t + t2, s + s2, ind, m, u));
        }
    } else {
        let (n, u) = choose|n: int, u: Seq<char>| #[trigger] spread_at(t, s, ind, n, u) && (if first { 0int } else { 1int }) <= n && spread(u, s.skip(n), ind, false);
        lemma_spread_concat(u, s.skip(n), t2, s2, ind, false);
        assert((s + s2).skip(n) =~= s.skip(n) + s2);
        assert((s + s2).take(n) =~= s.take(n));
        assert(t + t2 =~= (s + s2).take(n) + nl(ind) + (u + t2));
        assert(spread_at(t + t2, s + s2, ind, n, u + t2));
    }
}
proof fn lemma_wsp_len(ind: Seq<char>)
    requires all_wsp(ind)
    ensures ulen(ind) == ind.len()
{
    assert forall|i: int| 0 <= i < ind.len() implies is_ascii_c(#[trigger] ind[i]) by { assert(wspc(ind[i])); }
    vstd::utf8::is_ascii_chars_encode_utf8(ind);
}
proof fn lemma_tag_ascii(s: Seq<char>)
    requires tag_name_ok(s)
    ensures ulen(s) == s.len(), forall|i: int| 0 <= i < s.len() ==> is_ascii_c(#[trigger] s[i])
{
    assert forall|i: int| 0 <= i < s.len() implies is_ascii_c(#[trigger] s[i]) by { assert(alnum_c(s[i])); }
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
// ================= C14: the parts of a produced field =================
@@item signer/format.rs::Fmt
@attr
#[derive(Clone, Copy)]
@@end
impl<'a> Fmt<'a> { pub open spec fn ok(&self) -> bool { indent_ok(self.indent@) } }
/// What the cursor is ahead of the text (the field name before it, and the
/// signature value that is not there yet).
pub open spec fn ahead(i: usize, out: Seq<char>) -> int { i - out.len() }
pub open spec fn fair(i: usize, out: Seq<char>) -> bool { ahead(i, out) <= 3 * max_len() + 3 }
pub open spec fn ws_for(ws: Seq<char>, ind: Seq<char>) -> bool { ws == seq![' '] || ws == nl(ind) }
@@fn signer/format.rs::advance_i
@replace indent.len() => v_slen(indent)
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), len <= max_len() + 2,
    ensures final(out)@ == old(out)@ || final(out)@ == old(out)@ + nl(fmt.indent@),
        *final(i) >= len, ahead(*final(i), final(out)@) <= ahead(*old(i), old(out)@) + len,
@head
    proof { axiom_size_string(out); axiom_size(fmt.indent); lemma_ulen_pos(out@); lemma_wsp_len(fmt.indent@); reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_c()); }
@tail
    proof { assert(out@ == old(out)@ || out@ =~= old(out)@ + nl(fmt.indent@)); }
@@end
@@fn signer/format.rs::advance_i_initial
@replace indent.len() => v_slen(indent)
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), len <= 3 * max_len(),
    ensures exists|ws: Seq<char>| ws_for(ws, fmt.indent@) && final(out)@ == #[trigger] (old(out)@ + ws),
        *final(i) >= len, ahead(*final(i), final(out)@) <= ahead(*old(i), old(out)@) + len,
@head
    proof { axiom_size_string(out); axiom_size(fmt.indent); lemma_ulen_pos(out@); lemma_wsp_len(fmt.indent@); reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_c()); }
@tail
    proof { assert(out@ =~= old(out)@ + seq![' '] || out@ =~= old(out)@ + nl(fmt.indent@)); }
@@end
/// White space, name, "=", body.
pub struct Piece { pub ws: Seq<char>, pub name: Seq<char>, pub body: Seq<char> }
pub open spec fn piece(p: Piece) -> Seq<char> { p.ws + p.name + seq!['='] + p.body }
pub open spec fn semi(last: bool) -> Seq<char> { if last { Seq::<char>::empty() } else { seq![';'] } }
/// From `o` to `n`, this piece was written.
pub open spec fn wrote(fmt: Fmt, o: Seq<char>, n: Seq<char>, p: Piece) -> bool {
    ws_for(p.ws, fmt.indent@) && n == o + piece(p) + semi(fmt.last)
}
/// The cursor does not run ahead.
pub open spec fn steady(i0: usize, o: Seq<char>, i: usize, n: Seq<char>) -> bool { ahead(i, n) <= ahead(i0, o) }
@@fn signer/format.rs::format_chunks_into_string
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@replace $i_s.chars().count() => $i_s.v_nchars()
@replace s.char_indices().nth($e) => v_nth_char(s, $e)
@replace s.len() => v_slen(s)
@replace indent.len() => v_slen(indent)
@replace let first_chunk; => 
@replace let chunk; => 
@replace (first_chunk, s) = s.split_at($e); => let v_n: usize = $e; let v_p = s.v_split_at(v_n); proof { lemma_split(s@, v_n as nat, if first_chunk_len < s@.len() { first_chunk_len as int } else { s@.len() as int }, v_p.0@, v_p.1@); } let first_chunk = v_p.0; s = v_p.1; proof { done = first_chunk@; assert(done + s@ == s0); }
@replace (chunk, s) = s.split_at($e); => let v_n: usize = $e; let v_p = s.v_split_at(v_n); proof { lemma_split(s@, v_n as nat, if chunk_width < s@.len() { chunk_width as int } else { s@.len() as int }, v_p.0@, v_p.1@); } let chunk = v_p.0; s = v_p.1;
@replace let chunks = iter::from_fn(|| { $e }); for chunk in chunks { $b } =>
let ghost mut t: Seq<char> = done;
proof { lemma_spread_self(t, fmt.indent@, true); }
loop
    invariant
        out@ == out0 + t, spread(t, done, fmt.indent@, true), done + s@ == s0,
        steady(i0, out0, *i, out@),
    ensures s@.len() == 0,
    decreases s@.len(),
{
    v_probe!();
    let ghost s1 = s@;
    let ghost out1 = out@;
    proof { axiom_size(s); lemma_ulen_pos(s@); assert(s@.take(s@.len() as int) =~= s@); }
    let v_c: Option<&str> = { $e };
    match v_c {
        None => break,
        Some(chunk) => {
            proof { assert(s1 == chunk@ + s@ && chunk@.len() > 0); axiom_size(chunk); lemma_ulen_pos(chunk@); }
            $b
            proof {
                lemma_chunk(out0, t, out1, out@, done, s0, chunk@, s@, fmt.indent@);
                t = t + (nl(fmt.indent@) + chunk@);
                done = done + chunk@;
            }
        }
    }
}
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|t: Seq<char>| spread(t, s@, fmt.indent@, true) && final(out)@ == #[trigger] (old(out)@ + t),
        steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    hide(spread);
    let ghost s0 = s@;
    let ghost out0 = out@;
    let ghost i0 = *i;
    let ghost mut done = Seq::<char>::empty();
    proof { assert(done + s@ =~= s@); axiom_size_string(out); axiom_size(fmt.indent); axiom_size(s); lemma_ulen_pos(s@); lemma_ulen_pos(out@); lemma_wsp_len(fmt.indent@); reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_c()); assert(s@.take(s@.len() as int) =~= s@); assert(out@ + Seq::<char>::empty() =~= out@); }
@tail
    proof { assert(done + s@ =~= done); assert(out@ == out0 + t); }
@@end
proof fn lemma_chunk(out0: Seq<char>, t: Seq<char>, out1: Seq<char>, out2: Seq<char>, done: Seq<char>, s0: Seq<char>, chunk: Seq<char>, s: Seq<char>, ind: Seq<char>)
    requires out1 == out0 + t, spread(t, done, ind, true), done + (chunk + s) == s0, out2 == out1 + crlf_c() + ind + chunk, chunk.len() > 0,
    ensures out2 == out0 + (t + (nl(ind) + chunk)), spread(t + (nl(ind) + chunk), done + chunk, ind, true), (done + chunk) + s == s0,
        out2.len() == out1.len() + 2 + ind.len() + chunk.len(),
{
    lemma_spread_self(chunk, ind, false);
    lemma_spread_nl(chunk, chunk, ind);
    lemma_spread_concat(t, done, nl(ind) + chunk, chunk, ind, true);
    assert(out2 =~= out0 + (t + (nl(ind) + chunk)));
    assert((done + chunk) + s =~= s0);
}
proof fn lemma_split(s: Seq<char>, n: nat, k: int, a: Seq<char>, b: Seq<char>)
    requires 0 <= k <= s.len(), n == ulen(s.take(k)), exists|k: int| 0 <= k <= s.len() && n == ulen(#[trigger] s.take(k)) && a == s.take(k) && b == s.skip(k),
    ensures s == a + b, a.len() == k, a == s.take(k), b == s.skip(k),
{
    let j = choose|k: int| 0 <= k <= s.len() && n == ulen(#[trigger] s.take(k)) && a == s.take(k) && b == s.skip(k);
    lemma_boundary(s, j, k);
    assert(s =~= a + b);
}
@@fn signer/format.rs::format_tag
@replace name.len() => v_slen(name)
@replace name.is_ascii() => name.v_is_ascii()
@replace $i_s.chars().count() => $i_s.v_nchars()
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), tag_name_ok(name@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == name@ && p.body == value@,
        steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { axiom_size(name); axiom_size(value); lemma_ulen_pos(value@); lemma_tag_ascii(name@); reveal_strlit("="); }
@tail
    proof {
        let ws = choose|ws: Seq<char>| ws_for(ws, fmt.indent@) && out1 == #[trigger] (old(out)@ + ws);
        let p = Piece { ws, name: name@, body: value@ };
        assert("="@ =~= seq!['=']);
        assert(out@ =~= old(out)@ + piece(p) + semi(fmt.last));
        assert(wrote(fmt, old(out)@, out@, p));
    }
@after advance_i_initial(out, i, taglen, fmt);
    let ghost out1 = out@;
@@end

// ---- the single tags ----
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ascii_c(#[trigger] s[i]) }
/// No white space, and no semicolon.
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && all_tval(s) }
/// The same name, in the form asked for.
pub open spec fn named(b: Seq<char>, n: Seq<char>, top: bool, ascii: bool) -> bool { name_valid(b, top) && a_form(b) == a_form(n) && (ascii ==> all_ascii(b)) }
proof fn lemma_name_plain(b: Seq<char>, top: bool)
    requires name_valid(b, top)
    ensures plain(b), !b.contains('@'), !b.contains(';'), !b.contains('|'), !b.contains(':'), !b.contains('=')
{
    axiom_idna_chars(b, top);
    assert forall|i: int| 0 <= i < b.len() implies tval_c(#[trigger] b[i]) by {}
}
proof fn lemma_named(b: Seq<char>, n: Seq<char>, x: Seq<char>, top: bool, ascii: bool)
    requires name_valid(n, top), x == (if ascii { idna_a(n)->0 } else { idna_u(n) }), b == (if lower(n) == lower(x) { n } else { x })
    ensures named(b, n, top, ascii), plain(b)
{
    axiom_idna_forms(n, top);
    axiom_idna_ascii(n);
    lemma_name_plain(b, top);
    if ascii && b == n {
        assert forall|i: int| 0 <= i < b.len() implies is_ascii_c(#[trigger] b[i]) by { assert(lower(n).len() == n.len() && lower(x).len() == x.len()); assert(lower(n)[i] == lower(x)[i]); assert(is_ascii_c(x[i])); assert(lower(x)[i] == lower(n)[i]); }
    }
}
@@fn signer/format.rs::select_str_form
@ret r
@replace AsRef<str> => VAsStr
@spec
    ensures r@ == (if lower(orig.vstr()) == lower(xformed@) { orig.vstr() } else { xformed@ }),
@@end
@@fn signer/format.rs::format_tag_v
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "v"@ && plain(p.body) && p.body == "1"@, steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("v"); reveal_strlit("1"); }
@@end
@@fn signer/format.rs::format_tag_d
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), domain_ok(*domain),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "d"@ && plain(p.body) && named(p.body, domain.0@, true, fmt.ascii), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    let ghost n = domain.0@;
    proof { reveal_strlit("d"); }
@tail
    proof { lemma_named(domain@, n, xdomain@, true, fmt.ascii); }
@@end
@@fn signer/format.rs::format_tag_s
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), selector_ok(*selector),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "s"@ && plain(p.body) && named(p.body, selector.0@, false, fmt.ascii), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    let ghost n = selector.0@;
    proof { reveal_strlit("s"); }
@tail
    proof { lemma_named(selector@, n, xselector@, false, fmt.ascii); }
@@end
/// The encoded local part, "@", the domain.
pub open spec fn id_body(b: Seq<char>, id: Identity, ascii: bool, e: Seq<char>, d: Seq<char>) -> bool {
    b == e + seq!['@'] + d && named(d, id.domain.0@, true, ascii)
    && match id.local_part { Some(l) => written(e, None, ascii) == Some(utf8(l@)), None => e.len() == 0 }
}
proof fn lemma_written_plain(e: Seq<char>, special: Option<char>, ascii: bool)
    requires written(e, special, ascii) is Some
    ensures all_tval(e), ascii ==> all_ascii(e), special matches Some(c) ==> (c == '|' ==> !e.contains(c)),
    decreases e.len()
{
    if e.len() > 0 {
        let n: int = if e[0] == '=' { 3 } else { 1 };
        lemma_written_plain(e.skip(n), special, ascii);
        assert forall|i: int| 0 <= i < e.len() implies tval_c(#[trigger] e[i]) && (ascii ==> is_ascii_c(e[i])) && (special == Some('|') ==> e[i] != '|') by {
            if i >= n { assert(e[i] == e.skip(n)[i - n]); if e[i] == '|' { assert(e.skip(n).contains('|')); } }
        }
    }
}
@@fn signer/format.rs::format_tag_i
@replace quoted_printable::encode_ascii_only => encode_ascii_only
@replace quoted_printable::encode => encode
@replace let encode = if fmt.ascii { $a } else { $b }; => let encode = |v_x: &[u8], v_c: Option<char>| -> (v_r: String) ensures written(v_r@, v_c, fmt.ascii) == Some(v_x@) { if fmt.ascii { $a(v_x, v_c) } else { $b(v_x, v_c) } };
@replace encode(l.as_bytes(), None) => { let v_r = encode(l.v_bytes(), None); proof { e = v_r@; } v_r }
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), domain_ok(identity.domain),
    ensures exists|p: Piece, e: Seq<char>, d: Seq<char>| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "i"@ && plain(p.body) && #[trigger] id_body(p.body, *identity, fmt.ascii, e, d), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    let ghost id = *identity;
    let ghost mut e = Seq::<char>::empty();
    proof { reveal_strlit("i"); reveal_strlit("@"); }
@before format_tag(out, i, fmt, "i", &identity);
    proof {
        lemma_named(d@, domain.0@, xdomain@, true, fmt.ascii);
        assert("@"@ =~= seq!['@']);
        if id.local_part is Some { lemma_written_plain(e, None, fmt.ascii); }
        assert(identity@ =~= e + seq!['@'] + d@);
        assert(id_body(identity@, id, fmt.ascii, e, d@));
        assert forall|i: int| 0 <= i < identity@.len() implies tval_c(#[trigger] identity@[i]) by {
            if i < e.len() { assert(identity@[i] == e[i]); } else if i > e.len() { assert(identity@[i] == d@[i - e.len() - 1]); }
        }
    }
@@end
@@fn signer/format.rs::format_tag_a
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "a"@ && plain(p.body) && sig_alg(p.body) == Some(algorithm), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("a"); reveal_strlit("rsa-sha256"); reveal_strlit("ed25519-sha256"); }
@@end
@@fn signer/format.rs::format_tag_c
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures (canonicalization.header is Simple && canonicalization.body is Simple && final(out)@ == old(out)@)
        || exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "c"@ && plain(p.body) && canon_of(p.body) == Some(canonicalization),
        steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("c"); lemma_canon_texts(); }
@@end
@@fn signer/format.rs::format_tag_l
@replace $i_n.to_string() => v_dec_string($i_n)
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "l"@ && plain(p.body) && number(p.body) == Some(body_length), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("l"); }
@@end
@@fn signer/format.rs::format_tag_t
@replace $i_n.to_string() => v_dec_string($i_n)
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "t"@ && plain(p.body) && number(p.body) == Some(timestamp), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("t"); }
@@end
@@fn signer/format.rs::format_tag_x
@replace $i_n.to_string() => v_dec_string($i_n)
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "x"@ && plain(p.body) && number(p.body) == Some(expiration), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    proof { reveal_strlit("x"); }
@@end
proof fn lemma_canon_texts()
    ensures
        canon_of("simple/relaxed"@) == Some(Canonicalization { header: Simple, body: Relaxed }), plain("simple/relaxed"@),
        canon_of("relaxed"@) == Some(Canonicalization { header: Relaxed, body: Simple }), plain("relaxed"@),
        canon_of("relaxed/relaxed"@) == Some(Canonicalization { header: Relaxed, body: Relaxed }), plain("relaxed/relaxed"@),
{
    reveal_strlit("simple/relaxed"); reveal_strlit("relaxed"); reveal_strlit("relaxed/relaxed"); reveal_strlit("simple");
    let (a, b, c) = ("simple/relaxed"@, "relaxed"@, "relaxed/relaxed"@);
    lemma_first_c(a, '/'); lemma_first_c(b, '/'); lemma_first_c(c, '/');
    assert(a[6] == '/' && c[7] == '/');
    assert(a.take(6) =~= "simple"@ && a.skip(7) =~= "relaxed"@ && c.take(7) =~= "relaxed"@ && c.skip(8) =~= "relaxed"@);
    assert(lower("simple"@).len() == 6 && lower("relaxed"@).len() == 7);
}
// ---- h= ----
pub open spec fn name_seqs(v: Seq<FieldName>) -> Seq<Seq<char>> { v.map_values(|n: FieldName| n.0@) }
/// The names with colons between, and line breaks after some colons.
pub open spec fn h_body(t: Seq<char>, ns: Seq<Seq<char>>, ind: Seq<char>) -> bool
    decreases ns.len()
{
    ns.len() > 0 && if ns.len() == 1 { t == ns[0] } else { exists|u: Seq<char>, w: Seq<char>| #[trigger] h_step(t, u, w, ns.last(), ind) && h_body(u, ns.drop_last(), ind) }
}
pub open spec fn h_step(t: Seq<char>, u: Seq<char>, w: Seq<char>, n: Seq<char>, ind: Seq<char>) -> bool { t == u + seq![':'] + w + n && (w.len() == 0 || w == nl(ind)) }
proof fn lemma_h_step(u: Seq<char>, w: Seq<char>, ns: Seq<Seq<char>>, n: Seq<char>, ind: Seq<char>)
    requires h_body(u, ns, ind), w.len() == 0 || w == nl(ind)
    ensures h_body(u + seq![':'] + w + n, ns.push(n), ind)
{
    let m = ns.push(n);
    assert(m.drop_last() =~= ns && m.last() == n);
    assert(h_step(u + seq![':'] + w + n, u, w, n, ind));
}
/// After `pre`, the names `ns` are written.
pub open spec fn h_state(out: Seq<char>, pre: Seq<char>, ns: Seq<Seq<char>>, ind: Seq<char>) -> bool {
    exists|b: Seq<char>| #[trigger] h_body(b, ns, ind) && out == pre + b
}
proof fn lemma_h_start(pre: Seq<char>, n: Seq<char>, ind: Seq<char>)
    ensures h_state(pre + n, pre, seq![n], ind)
{
    assert(h_body(n, seq![n], ind));
}
proof fn lemma_h_next(pre: Seq<char>, ns: Seq<Seq<char>>, n: Seq<char>, out1: Seq<char>, out: Seq<char>, ind: Seq<char>)
    requires h_state(out1, pre, ns, ind), out == out1.push(':') + n || out == out1.push(':') + crlf_c() + ind + n
    ensures h_state(out, pre, ns.push(n), ind)
{
    let u = choose|b: Seq<char>| #[trigger] h_body(b, ns, ind) && out1 == pre + b;
    let w: Seq<char> = if out == out1.push(':') + n { Seq::<char>::empty() } else { nl(ind) };
    lemma_h_step(u, w, ns, n, ind);
    let body = u + seq![':'] + w + n;
    assert(out =~= pre + body);
}
@@fn signer/format.rs::format_tag_h
@dropasserts
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@replace let mut names = value.iter().map(|f| f.as_ref()).peekable(); => let mut names = VNames::v_new(value);
@replace $i_s.chars().count() => $i_s.v_nchars()
@replace while let Some(name) = names.next() { $b } =>
let ghost mut k: int = 1;
let ghost ns = name_seqs(value@);
proof {
    assert(ns.take(1) =~= seq![first_name@]); assert(ns.skip(1) =~= name_seqs(names.rest()));
    assert(out@ =~= pre + first_name@);
    lemma_h_start(pre, first_name@, fmt.indent@);
}
loop
    invariant
        names.wf(), 1 <= k <= ns.len(), name_seqs(names.rest()) == ns.skip(k),
        h_state(out@, pre, ns.take(k), fmt.indent@),
        ahead(*i, out@) <= ahead(*old(i), old(out)@) + if names.rest().len() == 0 && last { 0int } else { 1int },
    ensures k == ns.len(), names.rest().len() == 0,
    decreases ns.len() - k,
{
    v_probe!();
    let ghost rest1 = names.rest();
    proof { assert(name_seqs(names.rest()).len() == names.rest().len()); axiom_size_string(out); lemma_ulen_pos(out@); }
    match names.next() {
        None => break,
        Some(name) => {
            let ghost out1;
            proof {
                out1 = out@;
                axiom_size(name); lemma_ulen_pos(name@);
                assert(name_seqs(rest1)[0] == name@);
                assert(ns.skip(k)[0] == ns[k]);
                assert(ns.skip(k + 1) =~= ns.skip(k).skip(1));
                assert(name_seqs(names.rest()) =~= name_seqs(rest1).skip(1));
                assert(ns.take(k + 1) =~= ns.take(k).push(name@));
            }
            $b
            proof {
                assert(out@ =~= out1.push(':') + name@ || out@ =~= out1.push(':') + crlf_c() + fmt.indent@ + name@);
                lemma_h_next(pre, ns.take(k), name@, out1, out@, fmt.indent@);
                k = k + 1;
            }
        }
    }
}
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), value@.len() > 0,
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "h"@ && h_body(p.body, name_seqs(value@), fmt.indent@), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    hide(h_body);
    hide(h_state);
    proof { reveal_strlit("h"); reveal_strlit("h="); }
@after let first_name = names.next().unwrap();
    proof { axiom_size(first_name); lemma_ulen_pos(first_name@); }
@after advance_i_initial(out, i, taglen, fmt);
    let ghost ws = choose|ws: Seq<char>| ws_for(ws, fmt.indent@) && out@ == #[trigger] (old(out)@ + ws);
    let ghost pre = out@ + "h="@;
    proof { assert("h="@ =~= "h"@ + seq!['=']); }
@before if !last { $b }
    let ghost out4 = out@;
    proof { axiom_size_string(out); lemma_ulen_pos(out@); }
@tail
    proof {
        reveal(h_state);
        assert(ns.take(ns.len() as int) =~= ns);
        let body = choose|b: Seq<char>| #[trigger] h_body(b, ns, fmt.indent@) && out4 == pre + b;
        let q = Piece { ws, name: "h"@, body };
        assert(out@ =~= old(out)@ + piece(q) + semi(fmt.last));
        assert(wrote(fmt, old(out)@, out@, q));
    }
@@end

// ---- bh= and b= ----
@@fn util.rs::encode_base64
@ret r
@replace encode_base64<T: AsRef<[u8]>>(input: T) => encode_base64(input: &[u8])
@replace Base64::encode_string(input.as_ref()) => v_b64_encode(input)
@spec
    ensures b64_text(r@, input@),
@@end
/// A base64 text, with line breaks.
pub open spec fn b64_body(t: Seq<char>, b: Seq<u8>, s: Seq<char>, ind: Seq<char>) -> bool { b64_text(s, b) && spread(t, s, ind, true) }
@@fn signer/format.rs::format_tag_bh
@replace util::encode_base64 => encode_base64
@spec
    requires fmt.ok(), fair(*old(i), old(out)@),
    ensures exists|p: Piece, s: Seq<char>| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "bh"@ && #[trigger] b64_body(p.body, value@, s, fmt.indent@), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    hide(spread);
    proof { reveal_strlit("bh"); reveal_strlit("bh="); assert("bh="@ =~= "bh"@ + seq!['=']); }
@after advance_i_initial(out, i, taglen, fmt);
    let ghost ws = choose|ws: Seq<char>| ws_for(ws, fmt.indent@) && out@ == #[trigger] (old(out)@ + ws);
@before format_chunks_into_string(out, i, fmt, &value);
    let ghost out1 = out@;
@after format_chunks_into_string(out, i, fmt, &value);
    let ghost t = choose|t: Seq<char>| spread(t, value@, fmt.indent@, true) && out@ == #[trigger] (out1 + t);
    proof { axiom_size_string(out); lemma_ulen_pos(out@); }
@tail
    proof {
        let p = Piece { ws, name: "bh"@, body: t };
        assert(out@ =~= old(out)@ + piece(p) + semi(fmt.last));
        assert(wrote(fmt, old(out)@, out@, p));
        assert(b64_body(t, value0, value@, fmt.indent@));
    }
@before let value = util::encode_base64(value);
    let ghost value0 = value@;
@@end
@@fn signer/format.rs::format_tag_name_b
@replace indent.len() => v_slen(indent)
@replace out.len() => v_slen(out)
@spec
    requires fmt.ok(), ahead(*old(i), old(out)@) <= max_len() + 2, b_tag_len <= max_len(),
    ensures exists|p: Piece| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "b"@ && p.body.len() == 0
            && (*final(insertion_i) matches Some(n) && n == ulen(old(out)@ + p.ws + "b"@ + seq!['='])),
        fair(*final(i), final(out)@),
@head
    proof { reveal_strlit("b"); reveal_strlit("b="); assert("b="@ =~= "b"@ + seq!['=']); axiom_size(fmt.indent); }
@after advance_i_initial(out, i, taglen, fmt);
    let ghost ws = choose|ws: Seq<char>| ws_for(ws, fmt.indent@) && out@ == #[trigger] (old(out)@ + ws);
@after let mut final_chunk_len = (b_tag_len - remaining_len) % chunk_len;
    proof {
        let x = (b_tag_len - remaining_len) as nat;
        if x < chunk_len { vstd::arithmetic::div_mod::lemma_small_mod(x, chunk_len as nat); }
        vstd::arithmetic::div_mod::lemma_mod_bound(x as int, chunk_len as int);
        vstd::arithmetic::div_mod::lemma_mod_decreases(x, chunk_len as nat);
    }
@before let remaining_len = width.saturating_sub(*i);
    proof { assert(out@ =~= old(out)@ + ws + "b"@ + seq!['=']); axiom_size_string(out); lemma_ulen_pos(out@); }
@tail
    proof {
        let p = Piece { ws, name: "b"@, body: Seq::<char>::empty() };
        assert(out@ =~= old(out)@ + piece(p) + semi(fmt.last));
        assert(wrote(fmt, old(out)@, out@, p));
    }
@@end
// ---- z= ----
/// A copied field, name and value encoded.
pub open spec fn z_entry(e: (Seq<char>, Seq<char>), c: (FieldName, Box<[u8]>), ascii: bool) -> bool {
    written(e.0, Some('|'), false) == Some(utf8(c.0.0@)) && written(e.1, Some('|'), ascii) == Some(c.1@)
}
pub open spec fn z_entries(es: Seq<(Seq<char>, Seq<char>)>, cs: Seq<(FieldName, Box<[u8]>)>, ascii: bool) -> bool {
    es.len() == cs.len() && forall|i: int| 0 <= i < es.len() ==> z_entry(#[trigger] es[i], cs[i], ascii)
}
pub open spec fn z_one(e: (Seq<char>, Seq<char>)) -> Seq<char> { e.0 + seq![':'] + e.1 }
pub open spec fn z_text(es: Seq<(Seq<char>, Seq<char>)>) -> Seq<char>
    decreases es.len()
{
    if es.len() == 0 { Seq::<char>::empty() } else if es.len() == 1 { z_one(es[0]) } else { z_text(es.drop_last()) + seq!['|'] + z_one(es.last()) }
}
pub open spec fn z_body(t: Seq<char>, es: Seq<(Seq<char>, Seq<char>)>, cs: Seq<(FieldName, Box<[u8]>)>, ind: Seq<char>, ascii: bool) -> bool {
    z_entries(es, cs, ascii) && spread(t, z_text(es), ind, true)
}
/// `w` or a line break and `w`
pub open spec fn maybe_nl(t: Seq<char>, w: Seq<char>, ind: Seq<char>) -> bool { t == w || t == nl(ind) + w }
proof fn lemma_maybe_nl(t: Seq<char>, w: Seq<char>, ind: Seq<char>)
    requires maybe_nl(t, w, ind), w.len() > 0
    ensures spread(t, w, ind, true)
{
    lemma_spread_self(w, ind, false);
    lemma_spread_self(w, ind, true);
    lemma_spread_nl(w, w, ind);
}
proof fn lemma_z_first(t3: Seq<char>, e: (Seq<char>, Seq<char>), ind: Seq<char>)
    requires spread(t3, e.1, ind, true)
    ensures spread(e.0 + seq![':'] + t3, z_text(seq![e]), ind, true)
{
    lemma_spread_self(e.0 + seq![':'], ind, true);
    lemma_spread_concat(e.0 + seq![':'], e.0 + seq![':'], t3, e.1, ind, true);
}
proof fn lemma_z_step(u: Seq<char>, es: Seq<(Seq<char>, Seq<char>)>, e: (Seq<char>, Seq<char>), t1: Seq<char>, t2: Seq<char>, t3: Seq<char>, ind: Seq<char>)
    requires es.len() > 0, spread(u, z_text(es), ind, true), maybe_nl(t1, seq!['|'], ind), maybe_nl(t2, e.0 + seq![':'], ind), spread(t3, e.1, ind, true)
    ensures spread(u + t1 + t2 + t3, z_text(es.push(e)), ind, true)
{
    let m = es.push(e);
    assert(m.drop_last() =~= es && m.last() == e);
    lemma_maybe_nl(t1, seq!['|'], ind);
    lemma_maybe_nl(t2, e.0 + seq![':'], ind);
    lemma_spread_concat(u, z_text(es), t1, seq!['|'], ind, true);
    lemma_spread_concat(u + t1, z_text(es) + seq!['|'], t2, e.0 + seq![':'], ind, true);
    lemma_spread_concat(u + t1 + t2, z_text(es) + seq!['|'] + (e.0 + seq![':']), t3, e.1, ind, true);
    assert(z_text(es) + seq!['|'] + (e.0 + seq![':']) + e.1 =~= z_text(m));
}
/// After `pre`, the entries `es` are written.
pub open spec fn z_state(out: Seq<char>, pre: Seq<char>, es: Seq<(Seq<char>, Seq<char>)>, ind: Seq<char>) -> bool {
    exists|b: Seq<char>| #[trigger] spread(b, z_text(es), ind, true) && out == pre + b
}
pub open spec fn z_value(out: Seq<char>, pre: Seq<char>, v: Seq<char>, ind: Seq<char>) -> bool {
    exists|t: Seq<char>| #[trigger] spread(t, v, ind, true) && out == pre + t
}
proof fn lemma_z_start(out: Seq<char>, pre: Seq<char>, b: Seq<char>, e: (Seq<char>, Seq<char>), ind: Seq<char>)
    requires b == pre + e.0 + seq![':'], z_value(out, b, e.1, ind)
    ensures z_state(out, pre, seq![e], ind)
{
    let t = choose|t: Seq<char>| #[trigger] spread(t, e.1, ind, true) && out == b + t;
    lemma_z_first(t, e, ind);
    let body = e.0 + seq![':'] + t;
    assert(spread(body, z_text(seq![e]), ind, true));
    assert(out =~= pre + body);
}
proof fn lemma_z_next(pre: Seq<char>, es: Seq<(Seq<char>, Seq<char>)>, e: (Seq<char>, Seq<char>), out1: Seq<char>, a: Seq<char>, b: Seq<char>, out: Seq<char>, ind: Seq<char>)
    requires
        es.len() > 0, z_state(out1, pre, es, ind), z_value(out, b, e.1, ind),
        a == out1.push('|') || a == (out1 + crlf_c() + ind).push('|'),
        b == a + e.0 + seq![':'] || b == a + crlf_c() + ind + e.0 + seq![':'],
    ensures z_state(out, pre, es.push(e), ind)
{
    hide(spread);
    hide(z_text);
    let body = choose|b: Seq<char>| #[trigger] spread(b, z_text(es), ind, true) && out1 == pre + b;
    let t3 = choose|t: Seq<char>| #[trigger] spread(t, e.1, ind, true) && out == b + t;
    let bar = seq!['|'];
    let t1 = if a == out1.push('|') { bar } else { nl(ind) + bar };
    assert(a =~= out1 + t1);
    let en = e.0 + seq![':'];
    let t2 = if b == a + e.0 + seq![':'] { en } else { nl(ind) + en };
    assert(b =~= a + t2);
    lemma_z_step(body, es, e, t1, t2, t3, ind);
    assert(out =~= pre + (body + t1 + t2 + t3));
}
@@fn signer/format.rs::format_tag_z
@dropasserts
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@replace quoted_printable::encode_ascii_only => encode_ascii_only
@replace quoted_printable::encode => encode
@replace indent.len() => v_slen(indent)
@replace $i_s.chars().count() => $i_s.v_nchars()
@replace name.as_bytes() => name.v_bytes()
@replace let format_field_value = |value| { let encode = if ascii { quoted_printable::encode_ascii_only } else { quoted_printable::encode }; encode(value, $c) }; => let format_field_value = |value: &Box<[u8]>| -> (v_r: String) ensures written(v_r@, Some('|'), ascii) == Some(value@) { if ascii { encode_ascii_only(value, $c) } else { encode(value, $c) } };
@replace let mut iter = value.iter().map(|(f, v)| { let name: &str = f.as_ref(); ($x, v) }); let (first_name, val) = iter.next().unwrap(); =>
let v_enc = |name: &str| -> (v_r: String) ensures written(v_r@, Some('|'), false) == Some(utf8(name@)) { $x };
let (f, v) = &value[0];
let first_name = v_enc(f.v_as_ref());
let val = v;
let ghost mut v_e = Seq::<char>::empty();
let ghost mut v_b = Seq::<char>::empty();
proof { axiom_size_string(&first_name); lemma_ulen_pos(first_name@); }
@replace let val = format_field_value(val); => let val = format_field_value(val); proof { v_e = val@; v_b = out@; }
@replace for (name, val) in iter { $b } =>
let ghost mut es = seq![(first_name@, val@)];
proof {
    assert(v_b =~= pre + first_name@ + seq![':']);
    assert(z_value(out@, v_b, v_e, fmt.indent@));
    lemma_z_start(out@, pre, v_b, es[0], fmt.indent@);
}
let mut v_k: usize = 1;
while v_k < value.len()
    invariant
        1 <= v_k <= value@.len(), es.len() == v_k,
        forall|j: int| 0 <= j < es.len() ==> z_entry(#[trigger] es[j], value@[j], ascii),
        z_state(out@, pre, es, fmt.indent@),
        steady(*old(i), old(out)@, *i, out@),
    decreases value@.len() - v_k,
{
    v_probe!();
    let (f, v) = &value[v_k];
    let name = v_enc(f.v_as_ref());
    let val = v;
    let ghost out1 = out@;
    let ghost nm = name@;
    let ghost vl = val@;
    proof { axiom_size_string(&name); lemma_ulen_pos(name@); axiom_size_string(out); lemma_ulen_pos(out@); }
    v_k = v_k + 1;
    let ghost mut v_a = out@;
    $b
    proof {
        assert(z_value(out@, v_b, v_e, fmt.indent@));
        lemma_z_next(pre, es, (nm, v_e), out1, v_a, v_b, out@, fmt.indent@);
        es = es.push((nm, v_e));
    }
}
@spec
    requires fmt.ok(), fair(*old(i), old(out)@), value@.len() > 0,
    ensures exists|p: Piece, es: Seq<(Seq<char>, Seq<char>)>| #[trigger] wrote(fmt, old(out)@, final(out)@, p) && p.name == "z"@ && #[trigger] z_body(p.body, es, value@, fmt.indent@, fmt.ascii), steady(*old(i), old(out)@, *final(i), final(out)@),
@head
    hide(spread);
    hide(z_text);
    hide(z_state);
    hide(written);
    hide(utf8);
    proof { reveal_strlit("z"); reveal_strlit("z="); reveal_strlit(":"); reveal_strlit("\r\n"); assert("z="@ =~= "z"@ + seq!['=']); assert(":"@ =~= seq![':']); assert("\r\n"@ =~= crlf_c()); axiom_size(fmt.indent); lemma_wsp_len(fmt.indent@); }
@after advance_i_initial(out, i, taglen, fmt);
    let ghost ws = choose|ws: Seq<char>| ws_for(ws, fmt.indent@) && out@ == #[trigger] (old(out)@ + ws);
    let ghost pre = out@ + "z="@;
@before let namelen = name.chars().count() + 1;
    proof { v_a = out@; axiom_size_string(out); lemma_ulen_pos(out@); }
@before if !last { $b }
    let ghost out4 = out@;
    proof { axiom_size_string(out); lemma_ulen_pos(out@); }
@tail
    proof {
        reveal(z_state);
        let body = choose|b: Seq<char>| #[trigger] spread(b, z_text(es), fmt.indent@, true) && out4 == pre + b;
        let p = Piece { ws, name: "z"@, body };
        assert(out@ =~= old(out)@ + piece(p) + semi(fmt.last));
        assert(wrote(fmt, old(out)@, out@, p));
        assert(z_body(body, es, value@, fmt.indent@, fmt.ascii));
    }
@@end
// ---- the signature value ----
/// `t` is put in at byte `n`.
pub open spec fn put_in(o: Seq<char>, n: usize, t: Seq<char>, r: Seq<char>, k: int) -> bool {
    0 <= k <= o.len() && n == ulen(o.take(k)) && r == o.take(k) + t + o.skip(k)
}
@@fn signer/format.rs::insert_signature_data
@attr
#[verifier::loop_isolation(false)]
@replace util::encode_base64 => encode_base64
@replace &formatted_header[..$e] => v_str_to(formatted_header, $e)
@replace formatted_header.len() => v_slen(formatted_header)
@replace header_name.len() => v_slen(header_name)
@replace $i_s.rsplit("\r\n") => VRsplitCrlf::v_new($i_s)
@replace $i_s.chars().count() => $i_s.v_nchars()
@replace String::with_capacity(s.len()) => String::new()
@replace formatted_header.insert_str($a) => formatted_header.v_insert_str($a)
@spec
    requires indent_ok(indent@), boundary(old(formatted_header)@, insertion_index as nat),
    ensures exists|s: Seq<char>, t: Seq<char>, k: int| #[trigger] b64_body(t, signature_data@, s, indent@) && #[trigger] put_in(old(formatted_header)@, insertion_index, t, final(formatted_header)@, k),
@head
    hide(spread);
    let ghost f0 = formatted_header@;
    proof { axiom_size_string(formatted_header); axiom_size(header_name); lemma_boundary_len(f0, insertion_index as nat); }
@before let mut it = formatted_header_pre.rsplit("\r\n");
    proof { axiom_size(formatted_header_pre); lemma_ulen_pos(formatted_header_pre@); }
@before let mut len = if it.next().is_some() { $a } else { $b };
    proof { axiom_size(last_line); lemma_ulen_pos(last_line@); }
@before formatted_header.insert_str(insertion_index, &result);
    let ghost t = choose|t: Seq<char>| spread(t, s@, indent@, true) && result@ == #[trigger] (Seq::<char>::empty() + t);
    proof { assert(result@ =~= t); assert(b64_body(t, signature_data@, s@, indent@)); }
@tail
    proof {
        let k = choose|k: int| 0 <= k <= f0.len() && insertion_index == ulen(#[trigger] f0.take(k)) && formatted_header@ == f0.take(k) + t + f0.skip(k);
        assert(put_in(f0, insertion_index, t, formatted_header@, k));
    }
@@end
proof fn lemma_boundary_len(s: Seq<char>, n: nat)
    requires boundary(s, n)
    ensures n <= ulen(s)
{
    let k = choose|k: int| 0 <= k <= s.len() && n == ulen(#[trigger] s.take(k));
    assert(s =~= s.take(k) + s.skip(k));
    vstd::utf8::encode_utf8_concat(s.take(k), s.skip(k));
}
// ---- which tags ----
@@item signer/format.rs::UnsignedDkimSignature
@@end
pub open spec fn if_tag(s: Seq<Seq<char>>, b: bool, n: Seq<char>) -> Seq<Seq<char>> { if b { s.push(n) } else { s } }
pub open spec fn ext_names(t: Seq<(Box<str>, Box<str>)>) -> Seq<Seq<char>> { t.map_values(|e: (Box<str>, Box<str>)| e.0@) }
/// The tags to be written.
pub open spec fn out_tags(sig: UnsignedDkimSignature) -> Seq<Seq<char>> { own_tags(sig) + ext_names(sig.ext_tags@) }
pub open spec fn own_tags(sig: UnsignedDkimSignature) -> Seq<Seq<char>> {
    let s = if_tag(Seq::<Seq<char>>::empty().push("v"@).push("d"@), sig.identity is Some, "i"@).push("s"@).push("a"@);
    let s = if_tag(s, !(sig.canonicalization.header is Simple && sig.canonicalization.body is Simple), "c"@);
    let s = if_tag(if_tag(if_tag(s, sig.body_length is Some, "l"@), sig.timestamp is Some, "t"@), sig.expiration is Some, "x"@).push("h"@).push("bh"@).push("b"@);
    if_tag(s, sig.copied_headers@.len() > 0, "z"@)
}
proof fn lemma_no_views(v: Seq<&str>)
    requires v.len() == 0
    ensures str_views(v) == Seq::<Seq<char>>::empty()
{ assert(str_views(v) =~= Seq::<Seq<char>>::empty()); }
fn v_push_name<'a>(v: &mut Vec<&'a str>, x: &'a str)
    ensures str_views(final(v)@) == str_views(old(v)@).push(x@), final(v)@.len() == old(v)@.len() + 1,
{
    v.push(x);
    proof { assert(str_views(v@) =~= str_views(old(v)@).push(x@)); }
}
@@fn signer/format.rs::compute_tag_names
@replace names.push($x) => v_push_name(&mut names, $x)
@ret r
@attr
#[verifier::loop_isolation(false)]
@replace Option<&(dyn Fn(&str, &str) -> Ordering + Send + Sync)> => Option<&VOrder>
@replace let mut names = Vec::with_capacity(16); => let mut names = Vec::<&'a str>::new(); proof { lemma_no_views(names@); }
@replace sig.identity.is_some().then(|| $x) => (if sig.identity.is_some() { $x })
@replace sig.body_length.is_some().then(|| $x) => (if sig.body_length.is_some() { $x })
@replace sig.timestamp.is_some().then(|| $x) => (if sig.timestamp.is_some() { $x })
@replace sig.expiration.is_some().then(|| $x) => (if sig.expiration.is_some() { $x })
@replace for (t, _) in sig.ext_tags.iter() { $b } =>
let ghost base = str_views(names@);
proof { assert(base == own_tags(*sig)); assert(ext_names(sig.ext_tags@.take(0)) =~= Seq::<Seq<char>>::empty()); assert(base + Seq::<Seq<char>>::empty() =~= base); }
let mut v_k: usize = 0;
while v_k < sig.ext_tags.len()
    invariant v_k <= sig.ext_tags@.len(), str_views(names@) == base + ext_names(sig.ext_tags@.take(v_k as int)), names@.len() == str_views(names@).len(),
    decreases sig.ext_tags@.len() - v_k,
{
    v_probe!();
    let t: &str = &sig.ext_tags[v_k].0;
    $b
    proof {
        assert(ext_names(sig.ext_tags@.take(v_k + 1)) =~= ext_names(sig.ext_tags@.take(v_k as int)).push(t@));
        assert(str_views(names@) =~= base + ext_names(sig.ext_tags@.take(v_k + 1)));
    }
    v_k = v_k + 1;
}
proof { assert(sig.ext_tags@.take(sig.ext_tags@.len() as int) =~= sig.ext_tags@); assert(str_views(names@) == out_tags(*sig)); }
@replace names.sort_by(|a, b| tag_order(a, b)) => v_sort_by(&mut names, tag_order)
@spec
    requires tag_order matches Some(o) ==> o.total(),
    ensures str_views(r@).to_multiset() == out_tags(*sig).to_multiset(), r@.len() == out_tags(*sig).len(), match tag_order { None => str_views(r@) == out_tags(*sig), Some(o) => sorted_by(*o, str_views(r@)) },
@head
    hide(str_views);
@@end
// ---- the value of a field ----
pub open spec fn ext_fine(t: Seq<(Box<str>, Box<str>)>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> tag_name_ok((#[trigger] t[i]).0@) && tag_value_ok(t[i].1@) && !own_tag(t[i].0@)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@
}
/// What a request makes: valid names, some signed fields, distinct further tags.
pub open spec fn made(sig: UnsignedDkimSignature) -> bool {
    domain_ok(sig.domain) && selector_ok(sig.selector) && (sig.identity matches Some(i) ==> domain_ok(i.domain))
    && sig.signed_headers@.len() > 0 && ext_fine(sig.ext_tags@)
}
pub open spec fn z_said(b: Seq<char>, cs: Seq<(FieldName, Box<[u8]>)>, ind: Seq<char>, ascii: bool) -> bool { exists|es: Seq<(Seq<char>, Seq<char>)>| #[trigger] z_body(b, es, cs, ind, ascii) }
pub open spec fn bh_said(b: Seq<char>, h: Seq<u8>, ind: Seq<char>) -> bool { exists|s: Seq<char>| #[trigger] b64_body(b, h, s, ind) }
pub open spec fn i_said(b: Seq<char>, id: Identity, ascii: bool) -> bool { exists|e: Seq<char>, d: Seq<char>| #[trigger] id_body(b, id, ascii, e, d) }
pub open spec fn ext_said(n: Seq<char>, b: Seq<char>, t: Seq<(Box<str>, Box<str>)>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == n && t[i].1@ == b }
/// The text of a tag says what the signature has.
pub open spec fn said(n: Seq<char>, b: Seq<char>, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool) -> bool {
    if n == "v"@ { b == "1"@ }
    else if n == "a"@ { sig_alg(b) == Some(sig.algorithm) && plain(b) }
    else if n == "b"@ { b.len() == 0 }
    else if n == "bh"@ { bh_said(b, sig.body_hash@, ind) }
    else if n == "c"@ { canon_of(b) == Some(sig.canonicalization) && plain(b) }
    else if n == "d"@ { named(b, sig.domain.0@, true, ascii) && plain(b) }
    else if n == "h"@ { h_body(b, name_seqs(sig.signed_headers@), ind) }
    else if n == "i"@ { sig.identity matches Some(id) && i_said(b, id, ascii) && plain(b) }
    else if n == "l"@ { number(b) == sig.body_length && sig.body_length is Some && plain(b) }
    else if n == "s"@ { named(b, sig.selector.0@, false, ascii) && plain(b) }
    else if n == "t"@ { number(b) == sig.timestamp && sig.timestamp is Some && plain(b) }
    else if n == "x"@ { number(b) == sig.expiration && sig.expiration is Some && plain(b) }
    else if n == "z"@ { z_said(b, sig.copied_headers@, ind, ascii) }
    else { ext_said(n, b, sig.ext_tags@) }
}
/// The pieces, each with a semicolon.
pub open spec fn closed_pieces(ps: Seq<Piece>) -> Seq<char>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::<char>::empty() } else { closed_pieces(ps.drop_last()) + piece(ps.last()) + seq![';'] }
}
/// The pieces with semicolons between.
pub open spec fn joined(ps: Seq<Piece>) -> Seq<char> { if ps.len() == 0 { Seq::<char>::empty() } else { closed_pieces(ps.drop_last()) + piece(ps.last()) } }
pub open spec fn piece_names(ps: Seq<Piece>) -> Seq<Seq<char>> { ps.map_values(|p: Piece| p.name) }
pub open spec fn all_said(ps: Seq<Piece>, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> ws_for((#[trigger] ps[i]).ws, ind) && said(ps[i].name, ps[i].body, sig, ind, ascii)
}
/// The tags are in the order asked for.
pub open spec fn in_order(ns: Seq<Seq<char>>, sig: UnsignedDkimSignature, o: Option<VOrder>) -> bool {
    ns.to_multiset() == out_tags(sig).to_multiset() && match o { None => ns == out_tags(sig), Some(o) => sorted_by(o, ns) }
}
/// The pieces of the field value; `n` is the place right after "b=".
pub open spec fn formatted(t: Seq<char>, n: usize, ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat) -> bool {
    &&& t == joined(ps) && in_order(piece_names(ps), sig, f.tag_order) && all_said(ps, sig, f.indentation@, f.ascii_only)
    &&& exists|m: int| #[trigger] b_here(ps, m, n)
}
pub open spec fn formatted_as(t: Seq<char>, n: usize, sig: UnsignedDkimSignature, f: OutputFormat) -> bool { exists|ps: Seq<Piece>| #[trigger] formatted(t, n, ps, sig, f) }
pub open spec fn b_here(ps: Seq<Piece>, m: int, n: usize) -> bool {
    0 <= m < ps.len() && ps[m].name == "b"@ && n == ulen(closed_pieces(ps.take(m)) + ps[m].ws + "b"@ + seq!['='])
}
fn v_find<'a, T, F: Fn(&T) -> bool>(s: &'a [T], Ghost(p): Ghost<spec_fn(T) -> bool>, f: F) -> (r: Option<&'a T>)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures match r { Some(x) => exists|i: int| 0 <= i < s@.len() && *x == #[trigger] s@[i] && p(s@[i]), None => forall|i: int| 0 <= i < s@.len() ==> !p(#[trigger] s@[i]) },
{
    let mut k: usize = 0;
    while k < s.len()
        invariant k <= s@.len(), forall|i: int| 0 <= i < k ==> !p(#[trigger] s@[i]),
            forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
        decreases s@.len() - k,
    {
        if f(&s[k]) { return Some(&s[k]); }
        k = k + 1;
    }
    None
}
pub open spec fn named_tag(n: Seq<char>) -> spec_fn((Box<str>, Box<str>)) -> bool { |e: (Box<str>, Box<str>)| e.0@ == n }
proof fn lemma_if_tag(s: Seq<Seq<char>>, b: bool, n: Seq<char>)
    requires s.no_duplicates(), !s.contains(n)
    ensures if_tag(s, b, n).no_duplicates(), forall|x: Seq<char>| #[trigger] if_tag(s, b, n).contains(x) <==> s.contains(x) || (b && x == n)
{
    let t = if_tag(s, b, n);
    if b {
        assert forall|x: Seq<char>| #[trigger] t.contains(x) implies s.contains(x) || x == n by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < s.len() { assert(s[i] == x); } }
        assert forall|x: Seq<char>| s.contains(x) || x == n implies #[trigger] t.contains(x) by {
            if x == n { assert(t[s.len() as int] == x); } else { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
        }
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
            if i == s.len() { assert(s.contains(s[j])); } else if j == s.len() { assert(s.contains(s[i])); }
        }
    }
}
/// Which of its own tags a signature has.
pub open spec fn has_tag(sig: UnsignedDkimSignature, n: Seq<char>) -> bool {
    n == "v"@ || n == "d"@ || (n == "i"@ && sig.identity is Some) || n == "s"@ || n == "a"@ || (n == "c"@ && !(sig.canonicalization.header is Simple && sig.canonicalization.body is Simple))
    || (n == "l"@ && sig.body_length is Some) || (n == "t"@ && sig.timestamp is Some) || (n == "x"@ && sig.expiration is Some) || n == "h"@ || n == "bh"@ || n == "b"@ || (n == "z"@ && sig.copied_headers@.len() > 0)
}
proof fn lemma_no_dup_own(sig: UnsignedDkimSignature)
    ensures own_tags(sig).no_duplicates(), forall|n: Seq<char>| #[trigger] own_tags(sig).contains(n) <==> has_tag(sig, n)
{
    hide(if_tag);
    reveal_strlit("v"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("bh"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("h"); reveal_strlit("i"); reveal_strlit("l"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("x"); reveal_strlit("z");
    assert("v"@.len() == 1 && "v"@[0] == 'v'); assert("a"@.len() == 1 && "a"@[0] == 'a'); assert("b"@.len() == 1 && "b"@[0] == 'b'); assert("bh"@.len() == 2 && "bh"@[0] == 'b'); assert("c"@.len() == 1 && "c"@[0] == 'c'); assert("d"@.len() == 1 && "d"@[0] == 'd'); assert("h"@.len() == 1 && "h"@[0] == 'h'); assert("i"@.len() == 1 && "i"@[0] == 'i'); assert("l"@.len() == 1 && "l"@[0] == 'l'); assert("s"@.len() == 1 && "s"@[0] == 's'); assert("t"@.len() == 1 && "t"@[0] == 't'); assert("x"@.len() == 1 && "x"@[0] == 'x'); assert("z"@.len() == 1 && "z"@[0] == 'z');
    let e = Seq::<Seq<char>>::empty();
    lemma_if_tag(e, true, "v"@);
    let s1 = if_tag(e, true, "v"@);
    lemma_if_tag(s1, true, "d"@);
    let s2 = if_tag(s1, true, "d"@);
    lemma_if_tag(s2, sig.identity is Some, "i"@);
    let s3 = if_tag(s2, sig.identity is Some, "i"@);
    lemma_if_tag(s3, true, "s"@);
    let s4 = if_tag(s3, true, "s"@);
    lemma_if_tag(s4, true, "a"@);
    let s5 = if_tag(s4, true, "a"@);
    let c = !(sig.canonicalization.header is Simple && sig.canonicalization.body is Simple);
    lemma_if_tag(s5, c, "c"@);
    let s6 = if_tag(s5, c, "c"@);
    lemma_if_tag(s6, sig.body_length is Some, "l"@);
    let s7 = if_tag(s6, sig.body_length is Some, "l"@);
    lemma_if_tag(s7, sig.timestamp is Some, "t"@);
    let s8 = if_tag(s7, sig.timestamp is Some, "t"@);
    lemma_if_tag(s8, sig.expiration is Some, "x"@);
    let s9 = if_tag(s8, sig.expiration is Some, "x"@);
    lemma_if_tag(s9, true, "h"@);
    let s10 = if_tag(s9, true, "h"@);
    lemma_if_tag(s10, true, "bh"@);
    let s11 = if_tag(s10, true, "bh"@);
    lemma_if_tag(s11, true, "b"@);
    let s12 = if_tag(s11, true, "b"@);
    lemma_if_tag(s12, sig.copied_headers@.len() > 0, "z"@);
    let s13 = if_tag(s12, sig.copied_headers@.len() > 0, "z"@);
    assert(s13 == own_tags(sig)) by { reveal(if_tag); }
}
proof fn lemma_out_tags(sig: UnsignedDkimSignature)
    requires ext_fine(sig.ext_tags@)
    ensures out_tags(sig).no_duplicates(), forall|n: Seq<char>| #[trigger] out_tags(sig).contains(n) <==> has_tag(sig, n) || ext_names(sig.ext_tags@).contains(n),
        forall|n: Seq<char>| #[trigger] ext_names(sig.ext_tags@).contains(n) ==> !own_tag(n),
{
    lemma_no_dup_own(sig);
    let a = own_tags(sig);
    let b = ext_names(sig.ext_tags@);
    let t = a + b;
    assert forall|n: Seq<char>| #[trigger] b.contains(n) implies !own_tag(n) by { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(sig.ext_tags@[i].0@ == n); }
    assert forall|n: Seq<char>| #[trigger] t.contains(n) <==> has_tag(sig, n) || b.contains(n) by {
        if t.contains(n) { let i = choose|i: int| 0 <= i < t.len() && t[i] == n; if i < a.len() { assert(a[i] == n); assert(a.contains(n)); } else { assert(b[i - a.len()] == n); } }
        if has_tag(sig, n) { assert(a.contains(n)); let i = choose|i: int| 0 <= i < a.len() && a[i] == n; assert(t[i] == n); }
        if b.contains(n) { let i = choose|i: int| 0 <= i < b.len() && b[i] == n; assert(t[a.len() + i] == n); }
    }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by {
        if j < a.len() { assert(a[i] != a[j]); }
        else if i < a.len() { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        else { assert(sig.ext_tags@[i - a.len()].0@ != sig.ext_tags@[j - a.len()].0@); }
    }
}
proof fn lemma_permuted(ns: Seq<Seq<char>>, t: Seq<Seq<char>>)
    requires ns.to_multiset() == t.to_multiset(), t.no_duplicates()
    ensures ns.no_duplicates(), forall|n: Seq<char>| #[trigger] ns.contains(n) <==> t.contains(n)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    t.lemma_multiset_has_no_duplicates();
    ns.lemma_multiset_has_no_duplicates_conv();
    assert forall|n: Seq<char>| #[trigger] ns.contains(n) <==> t.contains(n) by {
        assert(ns.contains(n) <==> ns.to_multiset().count(n) > 0);
        assert(t.contains(n) <==> t.to_multiset().count(n) > 0);
    }
}
proof fn lemma_closed_push(ps: Seq<Piece>, p: Piece)
    ensures closed_pieces(ps.push(p)) == closed_pieces(ps) + piece(p) + seq![';'], joined(ps.push(p)) == closed_pieces(ps) + piece(p)
{
    assert(ps.push(p).drop_last() =~= ps);
}
/// The text so far.
pub open spec fn so_far(out: Seq<char>, ps: Seq<Piece>, last: bool) -> bool { out == if last { joined(ps) } else { closed_pieces(ps) } }
pub open spec fn is_next(names: Seq<&str>, ps: Seq<Piece>, k: int) -> bool { ps.len() == k && k <= names.len() && forall|j: int| 0 <= j < k ==> (#[trigger] ps[j]).name == names[j]@ }
proof fn lemma_wrote(fmt: Fmt, o: Seq<char>, n: Seq<char>, ps: Seq<Piece>, p: Piece)
    requires wrote(fmt, o, n, p), o == closed_pieces(ps)
    ensures so_far(n, ps.push(p), fmt.last)
{
    lemma_closed_push(ps, p);
    assert(n =~= closed_pieces(ps) + piece(p) + semi(fmt.last));
    if fmt.last { assert(n =~= closed_pieces(ps) + piece(p)); }
}
proof fn lemma_literals() ensures ("v"@.len() == 1 && "v"@[0] == 'v') && ("a"@.len() == 1 && "a"@[0] == 'a') && ("b"@.len() == 1 && "b"@[0] == 'b') && ("bh"@.len() == 2 && "bh"@[0] == 'b') && ("c"@.len() == 1 && "c"@[0] == 'c') && ("d"@.len() == 1 && "d"@[0] == 'd') && ("h"@.len() == 1 && "h"@[0] == 'h') && ("i"@.len() == 1 && "i"@[0] == 'i') && ("l"@.len() == 1 && "l"@[0] == 'l') && ("s"@.len() == 1 && "s"@[0] == 's') && ("t"@.len() == 1 && "t"@[0] == 't') && ("x"@.len() == 1 && "x"@[0] == 'x') && ("z"@.len() == 1 && "z"@[0] == 'z')
{ reveal_strlit("v"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("bh"); reveal_strlit("c"); reveal_strlit("d"); reveal_strlit("h"); reveal_strlit("i"); reveal_strlit("l"); reveal_strlit("s"); reveal_strlit("t"); reveal_strlit("x"); reveal_strlit("z"); }
/// A piece was written that says what it should.
pub open spec fn done(fmt: Fmt, o: Seq<char>, n: Seq<char>, name: Seq<char>, sig: UnsignedDkimSignature) -> bool {
    exists|p: Piece| #[trigger] wrote(fmt, o, n, p) && p.name == name && said(name, p.body, sig, fmt.indent@, fmt.ascii)
}
pub open spec fn done_b(fmt: Fmt, o: Seq<char>, n: Seq<char>, ins: Option<usize>) -> bool {
    exists|p: Piece| #[trigger] wrote(fmt, o, n, p) && p.name == "b"@ && p.body.len() == 0 && (ins matches Some(k) && k == ulen(o + p.ws + "b"@ + seq!['=']))
}
pub open spec fn done_next(fmt: Fmt, o: Seq<char>, n: Seq<char>, name: Seq<char>, sig: UnsignedDkimSignature, ins0: Option<usize>, ins: Option<usize>) -> bool {
    if name == "b"@ { done_b(fmt, o, n, ins) } else { ins == ins0 && done(fmt, o, n, name, sig) }
}
fn v_tag_a(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: SigningAlgorithm, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), x == sig.algorithm
    ensures done(fmt, old(out)@, final(out)@, "a"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_a(out, i, fmt, x); }
fn v_tag_bh(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &[u8], Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), x@ == sig.body_hash@
    ensures done(fmt, old(out)@, final(out)@, "bh"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_bh(out, i, fmt, x); }
fn v_tag_c(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: Canonicalization, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), x == sig.canonicalization, !(x.header is Simple && x.body is Simple)
    ensures done(fmt, old(out)@, final(out)@, "c"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_c(out, i, fmt, x); }
fn v_tag_d(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &DomainName, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), *x == sig.domain, domain_ok(*x)
    ensures done(fmt, old(out)@, final(out)@, "d"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_d(out, i, fmt, x); }
fn v_tag_h(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &[FieldName], Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), x@ == sig.signed_headers@, x@.len() > 0
    ensures done(fmt, old(out)@, final(out)@, "h"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_h(out, i, fmt, x); }
fn v_tag_i(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &Identity, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), sig.identity == Some(*x), domain_ok(x.domain)
    ensures done(fmt, old(out)@, final(out)@, "i"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_i(out, i, fmt, x); }
fn v_tag_l(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: u64, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), sig.body_length == Some(x)
    ensures done(fmt, old(out)@, final(out)@, "l"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_l(out, i, fmt, x); }
fn v_tag_s(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &Selector, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), *x == sig.selector, selector_ok(*x)
    ensures done(fmt, old(out)@, final(out)@, "s"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_s(out, i, fmt, x); }
fn v_tag_t(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: u64, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), sig.timestamp == Some(x)
    ensures done(fmt, old(out)@, final(out)@, "t"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_t(out, i, fmt, x); }
fn v_tag_v(out: &mut String, i: &mut usize, fmt: Fmt<'_>, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), true
    ensures done(fmt, old(out)@, final(out)@, "v"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_v(out, i, fmt); }
fn v_tag_x(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: u64, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), sig.expiration == Some(x)
    ensures done(fmt, old(out)@, final(out)@, "x"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_x(out, i, fmt, x); }
fn v_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, x: &[(FieldName, Box<[u8]>)], Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), x@ == sig.copied_headers@, x@.len() > 0
    ensures done(fmt, old(out)@, final(out)@, "z"@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain); proof { lemma_literals(); } format_tag_z(out, i, fmt, x); }
fn v_tag_b(out: &mut String, i: &mut usize, fmt: Fmt<'_>, n: usize, ins: &mut Option<usize>)
    requires fmt.ok(), ahead(*old(i), old(out)@) <= max_len() + 2, n <= max_len(),
    ensures done_b(fmt, old(out)@, final(out)@, *final(ins)), *final(ins) is Some, fair(*final(i), final(out)@),
{ hide(wrote); format_tag_name_b(out, i, fmt, n, ins); }
fn v_tag_ext(out: &mut String, i: &mut usize, fmt: Fmt<'_>, t: &str, v: &str, Ghost(sig): Ghost<UnsignedDkimSignature>)
    requires fmt.ok(), fair(*old(i), old(out)@), tag_name_ok(t@), !own_tag(t@), ext_said(t@, v@, sig.ext_tags@),
    ensures done(fmt, old(out)@, final(out)@, t@, sig), steady(*old(i), old(out)@, *final(i), final(out)@),
{ hide(wrote); proof { lemma_literals(); } format_tag(out, i, fmt, t, v); }
pub open spec fn ins_so_far(ps: Seq<Piece>, ins: Option<usize>) -> bool {
    match ins { None => forall|j: int| 0 <= j < ps.len() ==> (#[trigger] ps[j]).name != "b"@, Some(n) => exists|m: int| #[trigger] b_here(ps, m, n) }
}
proof fn lemma_next_piece(fmt: Fmt, o: Seq<char>, n: Seq<char>, ps: Seq<Piece>, name: Seq<char>, sig: UnsignedDkimSignature, ins0: Option<usize>, ins: Option<usize>) -> (p: Piece)
    requires
        done_next(fmt, o, n, name, sig, ins0, ins), o == closed_pieces(ps), all_said(ps, sig, fmt.indent@, fmt.ascii),
        ins_so_far(ps, ins0),
    ensures p.name == name, so_far(n, ps.push(p), fmt.last), all_said(ps.push(p), sig, fmt.indent@, fmt.ascii), ins_so_far(ps.push(p), ins)
{
    hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain);
    lemma_literals();
    let p = if name == "b"@ {
        choose|p: Piece| #[trigger] wrote(fmt, o, n, p) && p.name == "b"@ && p.body.len() == 0 && (ins matches Some(k) && k == ulen(o + p.ws + "b"@ + seq!['=']))
    } else {
        choose|p: Piece| #[trigger] wrote(fmt, o, n, p) && p.name == name && said(name, p.body, sig, fmt.indent@, fmt.ascii)
    };
    lemma_wrote(fmt, o, n, ps, p);
    let q = ps.push(p);
    assert forall|i: int| 0 <= i < q.len() implies ws_for((#[trigger] q[i]).ws, fmt.indent@) && said(q[i].name, q[i].body, sig, fmt.indent@, fmt.ascii) by { if i < ps.len() { assert(q[i] == ps[i]); } }
    if name == "b"@ {
        assert(q.take(ps.len() as int) =~= ps);
        assert(b_here(q, ps.len() as int, ins->0));
    } else {
        match ins {
            None => { assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).name != "b"@ by { if j < ps.len() { assert(q[j] == ps[j]); } } }
            Some(k) => {
                let m = choose|m: int| #[trigger] b_here(ps, m, k);
                assert(q.take(m) =~= ps.take(m));
                assert(b_here(q, m, k));
            }
        }
    }
    p
}
/// The next tag is one of its own that the signature has, or one of its further tags.
pub open spec fn choice(sig: UnsignedDkimSignature, n: Seq<char>) -> bool {
    &&& n == "i"@ ==> sig.identity is Some
    &&& n == "c"@ ==> !(sig.canonicalization.header is Simple && sig.canonicalization.body is Simple)
    &&& n == "l"@ ==> sig.body_length is Some
    &&& n == "t"@ ==> sig.timestamp is Some
    &&& n == "x"@ ==> sig.expiration is Some
    &&& n == "z"@ ==> sig.copied_headers@.len() > 0
    &&& !own_tag(n) ==> n != "b"@ && tag_name_ok(n) && exists|i: int| 0 <= i < sig.ext_tags@.len() && named_tag(n)(#[trigger] sig.ext_tags@[i])
}
proof fn lemma_own_str(s: &str) ensures s@ == "b"@ ==> s == "b", own_tag(s@) <==> (s == "v" || s == "a" || s == "b" || s == "bh" || s == "c" || s == "d" || s == "h" || s == "i" || s == "l" || s == "s" || s == "t" || s == "x" || s == "z")
{ broadcast use axiom_str_ext; }
proof fn lemma_some_tags(sig: UnsignedDkimSignature) ensures out_tags(sig).len() > 0 { }
proof fn lemma_choice(names: Seq<&str>, ps: Seq<Piece>, k: int, sig: UnsignedDkimSignature, ins: Option<usize>)
    requires 0 <= k < names.len(), str_views(names).to_multiset() == out_tags(sig).to_multiset(), ext_fine(sig.ext_tags@), is_next(names, ps, k), ins_so_far(ps, ins)
    ensures choice(sig, names[k]@), names[k]@ == "b"@ ==> ins is None, "a"@ != "b"@
{
    hide(in_order);
    let ns = str_views(names);
    let n = names[k]@;
    lemma_out_tags(sig);
    lemma_permuted(ns, out_tags(sig));
    lemma_literals();
    assert(ns[k] == n);
    assert(ns.contains(n));
    assert(out_tags(sig).contains(n));
    if ext_names(sig.ext_tags@).contains(n) {
        let e = choose|e: int| 0 <= e < sig.ext_tags@.len() && ext_names(sig.ext_tags@)[e] == n;
        assert(named_tag(n)(sig.ext_tags@[e]));
    }
    if n == "b"@ && ins is Some {
        let m = choose|m: int| #[trigger] b_here(ps, m, ins->0);
        assert(ps[m].name == names[m]@);
        assert(ns[m] == ns[k]);
    }
}
/// All that is known between two tags.
pub open spec fn between(out: Seq<char>, names: Seq<&str>, ps: Seq<Piece>, k: int, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool, ins: Option<usize>) -> bool {
    0 <= k <= names.len() && is_next(names, ps, k) && all_said(ps, sig, ind, ascii) && so_far(out, ps, k == names.len()) && ins_so_far(ps, ins)
}
/// The names are the right ones.
pub open spec fn right_names(names: Seq<&str>, sig: UnsignedDkimSignature, o: Option<VOrder>) -> bool { in_order(str_views(names), sig, o) && ext_fine(sig.ext_tags@) }
proof fn lemma_between_start(names: Seq<&str>, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool)
    requires names.len() > 0
    ensures between(Seq::<char>::empty(), names, Seq::<Piece>::empty(), 0, sig, ind, ascii, None)
{ }
proof fn lemma_between_choice(out: Seq<char>, names: Seq<&str>, ps: Seq<Piece>, k: int, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool, ins: Option<usize>, o: Option<VOrder>)
    requires between(out, names, ps, k, sig, ind, ascii, ins), right_names(names, sig, o), k < names.len()
    ensures choice(sig, names[k]@), names[k]@ == "b"@ ==> ins is None, "a"@ != "b"@
{ lemma_choice(names, ps, k, sig, ins); }
proof fn lemma_between_next(fmt: Fmt, out: Seq<char>, n: Seq<char>, names: Seq<&str>, ps: Seq<Piece>, k: int, sig: UnsignedDkimSignature, ins0: Option<usize>, ins: Option<usize>) -> (p: Piece)
    requires between(out, names, ps, k, sig, fmt.indent@, fmt.ascii, ins0), k < names.len(), done_next(fmt, out, n, names[k]@, sig, ins0, ins), fmt.last == (k == names.len() - 1)
    ensures between(n, names, ps.push(p), k + 1, sig, fmt.indent@, fmt.ascii, ins)
{
    let p = lemma_next_piece(fmt, out, n, ps, names[k]@, sig, ins0, ins);
    assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] ps.push(p)[j]).name == names[j]@ by { if j < k { assert(ps.push(p)[j] == ps[j]); } }
    p
}
proof fn lemma_between_end(out: Seq<char>, names: Seq<&str>, ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat, ins: Option<usize>)
    requires between(out, names, ps, names.len() as int, sig, f.indentation@, f.ascii_only, ins), right_names(names, sig, f.tag_order)
    ensures ins is Some, formatted(out, ins->0, ps, sig, f)
{
    let ns = str_views(names);
    assert(piece_names(ps) =~= ns);
    lemma_out_tags(sig); lemma_permuted(ns, out_tags(sig));
    assert(has_tag(sig, "b"@));
    assert(out_tags(sig).contains("b"@));
    assert(ns.contains("b"@));
    let j = choose|j: int| 0 <= j < ns.len() && ns[j] == "b"@;
    assert(ps[j].name == "b"@);
}
@@fn signer/format.rs::format_without_signature
@attr
#[verifier::rlimit(60)]
@ret r
@replace format.header_name.len() => v_slen(&format.header_name)
@replace format_tag_a(out, i, fmt, $x) => v_tag_a(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_bh(out, i, fmt, $x) => v_tag_bh(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_c(out, i, fmt, $x) => v_tag_c(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_d(out, i, fmt, $x) => v_tag_d(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_h(out, i, fmt, $x) => v_tag_h(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_i(out, i, fmt, $x) => v_tag_i(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_l(out, i, fmt, $x) => v_tag_l(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_s(out, i, fmt, $x) => v_tag_s(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_t(out, i, fmt, $x) => v_tag_t(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_x(out, i, fmt, $x) => v_tag_x(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_z(out, i, fmt, $x) => v_tag_z(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_v(out, i, fmt) => v_tag_v(out, i, fmt, Ghost(*sig))
@replace format_tag(out, i, fmt, $x) => v_tag_ext(out, i, fmt, $x, Ghost(*sig))
@replace format_tag_name_b($x) => v_tag_b($x)
@replace format.tag_order.as_deref() => format.tag_order.v_as_ref()
@replace sig.ext_tags.iter().find(|(t, _)| t.as_ref() == tag_name).unwrap() => v_find(&sig.ext_tags, Ghost(named_tag(tag_name@)), |v_e: &(Box<str>, Box<str>)| -> (v_b: bool) ensures v_b == named_tag(tag_name@)(*v_e) { let t: &str = &v_e.0; t == tag_name }).unwrap()
@replace for (index, tag_name) in tag_names.into_iter().enumerate() { $b } =>
let ghost mut ps = Seq::<Piece>::empty();
let mut index: usize = 0;
proof { assert(right_names(tag_names@, *sig, format.tag_order)) by { reveal(right_names); reveal(in_order); } assert(out@ =~= Seq::<char>::empty()); lemma_between_start(tag_names@, *sig, indent@, ascii); }
while index < tag_names.len()
    invariant
        made(*sig), indent_ok(format.indentation@), b_tag_len <= max_len(), indent@ == format.indentation@, ascii == format.ascii_only,
        right_names(tag_names@, *sig, format.tag_order), last_index == tag_names@.len() - 1, index <= tag_names@.len(),
        between(out@, tag_names@, ps, index as int, *sig, indent@, ascii, insertion_i),
        fair(*i, out@), after_borrow(output) == *final(out),
        insertion_i is None ==> ahead(*i, out@) <= max_len() + 2,
    decreases tag_names@.len() - index,
{
    v_probe!();
    let tag_name = tag_names[index];
    let ghost o = out@;
    let ghost ins0 = insertion_i;
    proof {
        lemma_own_str(tag_name);
        lemma_between_choice(out@, tag_names@, ps, index as int, *sig, indent@, ascii, insertion_i, format.tag_order);
    }
    $b
    proof {
        let p = lemma_between_next(fmt, o, out@, tag_names@, ps, index as int, *sig, ins0, insertion_i);
        ps = ps.push(p);
    }
    index = index + 1;
}
proof {
    lemma_between_end(out@, tag_names@, ps, *sig, *format, insertion_i);
}
let ghost done_text = out@;
@spec
    requires made(*sig), indent_ok(format.indentation@), b_tag_len <= max_len(), format.tag_order matches Some(o) ==> o.total(),
    ensures formatted_as(r.0@, r.1, *sig, *format),
@head
    hide(done);
    hide(done_b);
    hide(between);
    hide(right_names);
    hide(formatted);
    hide(out_tags);
    hide(str_views);
    hide(own_tag);
    hide(domain_ok);
    hide(selector_ok);
    proof { axiom_size_string(&format.header_name); }
@before let last_index = tag_names.len().checked_sub(1).unwrap();
    proof { lemma_some_tags(*sig); }
@tail
    proof { assert(output@ == done_text); assert(formatted(output@, insertion_i->0, ps, *sig, *format)); assert(formatted_as(output@, insertion_i->0, *sig, *format)); }
@@end
