@@method is_ascii_hexdigit v_is_ascii_hexdigit
@@method extend v_extend
@@method bytes v_bytes
// ================= RFC 6376, 2.11: DKIM-Quoted-Printable =================
/// dkim-safe-char (with UTF-8), less what the caller wants encoded
pub open spec fn safe_c(c: char, special: Option<char>, ascii: bool) -> bool {
    &&& ('!' <= c && c <= '~' && c != ';' && c != '=') || (!ascii && !is_ascii_c(c))
    &&& special != Some(c)
}
pub open spec fn dkim_safe_c(c: char) -> bool { safe_c(c, None, false) }
pub open spec fn upper_hex_c(c: char) -> bool { is_digit_c(c) || ('A' <= c && c <= 'F') }
pub open spec fn hex_val(b: u8) -> u8 {
    if b <= 0x39 { (b - 0x30) as u8 } else if b <= 0x46 { (b - 0x37) as u8 } else { (b - 0x57) as u8 }
}
pub open spec fn is_hex_b(b: u8) -> bool { (0x30 <= b <= 0x39) || (0x41 <= b <= 0x46) || (0x61 <= b <= 0x66) }
pub open spec fn octet(a: char, b: char) -> u8 { (hex_val(a as u8) * 16 + hex_val(b as u8)) as u8 }
pub open spec fn prep(x: Seq<u8>, r: Option<Seq<u8>>) -> Option<Seq<u8>> { match r { Some(y) => Some(x + y), None => None } }
/// What may be written: safe characters and upper-case escapes, nothing else;
/// the bytes they stand for.
pub open spec fn written(e: Seq<char>, special: Option<char>, ascii: bool) -> Option<Seq<u8>>
    decreases e.len()
{
    if e.len() == 0 { Some(Seq::<u8>::empty()) }
    else if e[0] == '=' {
        if e.len() >= 3 && upper_hex_c(e[1]) && upper_hex_c(e[2]) { prep(seq![octet(e[1], e[2])], written(e.skip(3), special, ascii)) } else { None }
    }
    else if safe_c(e[0], special, ascii) { prep(utf8(one(e[0])), written(e.skip(1), special, ascii)) }
    else { None }
}
/// A hexadecimal digit, FWS before it allowed.
pub open spec fn hex1(s: Seq<char>) -> Option<(Seq<char>, u8)> {
    let t = after_fws(s);
    if t.len() > 0 && is_hex_c(t[0]) { Some((t.skip(1), t[0] as u8)) } else { None }
}
pub open spec fn hex2(s: Seq<char>) -> Option<(Seq<char>, u8)> {
    match hex1(s) {
        None => None,
        Some((s, a)) => match hex1(s) { None => None, Some((s, b)) => Some((s, (hex_val(a) * 16 + hex_val(b)) as u8)) },
    }
}
/// *(FWS / hex-octet / dkim-safe-char): the bytes it stands for.
pub open spec fn qp(s: Seq<char>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::<u8>::empty()) }
    else if s[0] == '=' {
        match hex2(s.skip(1)) {
            Some((r, b)) => if r.len() < s.len() { prep(seq![b], qp(r)) } else { None },
            None => None,
        }
    }
    else if dkim_safe_c(s[0]) { prep(utf8(one(s[0])), qp(s.skip(1))) }
    else if 0 < n_fws(s) <= s.len() && n_fws(after_fws(s)) == 0 { qp(after_fws(s)) }
    else { None }
}
/// RFC 2045 qp-section over safe characters and white space.
pub open spec fn qp_section(s: Seq<char>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::<u8>::empty()) }
    else if s[0] == '=' {
        if s.len() >= 3 && is_hex_c(s[1]) && is_hex_c(s[2]) { prep(seq![octet(s[1], s[2])], qp_section(s.skip(3))) } else { None }
    }
    else if dkim_safe_c(s[0]) || wspc(s[0]) { prep(utf8(one(s[0])), qp_section(s.skip(1))) }
    else { None }
}
// ---------------------------------------------------------------- lemmas ----
/// What is written decodes to what it stands for.
proof fn lemma_written_qp(e: Seq<char>, special: Option<char>, ascii: bool)
    ensures written(e, special, ascii) matches Some(b) ==> qp(e) == Some(b)
    decreases e.len()
{
    if e.len() > 0 {
        if e[0] == '=' {
            if e.len() >= 3 {
                let s = e.skip(1);
                lemma_written_qp(e.skip(3), special, ascii);
                if upper_hex_c(e[1]) && upper_hex_c(e[2]) {
                    lemma_run_is(fw(), s, 0);
                    assert(n_fws(s) == 0) by { assert(s.skip(0) =~= s); }
                    assert(after_fws(s) =~= s);
                    let t = s.skip(1);
                    assert(t[0] == e[2]);
                    lemma_run_is(fw(), t, 0);
                    assert(n_fws(t) == 0) by { assert(t.skip(0) =~= t); }
                    assert(after_fws(t) =~= t);
                    assert(t.skip(1) =~= e.skip(3));
                }
            }
        } else {
            lemma_written_qp(e.skip(1), special, ascii);
        }
    }
}
proof fn lemma_written_concat(a: Seq<char>, b: Seq<char>, special: Option<char>, ascii: bool)
    requires written(a, special, ascii) is Some
    ensures written(a + b, special, ascii) == prep(written(a, special, ascii)->0, written(b, special, ascii))
    decreases a.len()
{
    let w = written(b, special, ascii);
    if a.len() == 0 {
        assert(a + b =~= b);
        if w is Some { assert(Seq::<u8>::empty() + w->0 =~= w->0); }
    } else {
        let k = if a[0] == '=' { 3int } else { 1int };
        let h = if a[0] == '=' { seq![octet(a[1], a[2])] } else { utf8(one(a[0])) };
        lemma_written_concat(a.skip(k), b, special, ascii);
        assert((a + b).skip(k) =~= a.skip(k) + b);
        if w is Some { assert(h + (written(a.skip(k), special, ascii)->0 + w->0) =~= (h + written(a.skip(k), special, ascii)->0) + w->0); }
    }
}
proof fn lemma_qp_run(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> dkim_safe_c(#[trigger] s[i])
    ensures qp(s) == prep(utf8(s.take(k)), qp(s.skip(k)))
    decreases k
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        assert(s.take(0) =~= Seq::<char>::empty());
        vstd::utf8::encode_utf8_concat(s.take(0), s.take(0));
        assert(s.take(0) + s.take(0) =~= s.take(0));
        assert(utf8(s.take(0)).len() == 0);
        if let Some(x) = qp(s) { assert(utf8(s.take(0)) + x =~= x); }
    } else {
        let t = s.skip(1);
        lemma_qp_run(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
        assert(s.take(k) =~= one(s[0]) + t.take(k - 1));
        lemma_ulen_concat(one(s[0]), t.take(k - 1));
        if let Some(x) = qp(s.skip(k)) { assert(utf8(one(s[0])) + (utf8(t.take(k - 1)) + x) =~= (utf8(one(s[0])) + utf8(t.take(k - 1))) + x); }
    }
}
proof fn lemma_ascii_head(s: Seq<char>)
    requires s.len() > 0, is_ascii_c(s[0])
    ensures utf8(s).len() > 0, utf8(s)[0] == s[0] as u8
{
    let a = one(s[0]);
    assert(s =~= a + s.skip(1));
    lemma_ulen_concat(a, s.skip(1));
    vstd::utf8::is_ascii_chars_encode_utf8(a);
    assert(utf8(a)[0] == a[0] as u8);
}
pub open spec fn hex_digit(n: u8) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x37 + n) as u8 as char } }
/// `write!(s, "={b:02X}")`
#[verifier::external_body]
pub fn v_push_hex(s: &mut String, b: u8)
    ensures final(s)@ == old(s)@ + seq!['=', hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)]
{ unimplemented!() }
proof fn lemma_hex(b: u8)
    ensures upper_hex_c(hex_digit((b / 16) as u8)), upper_hex_c(hex_digit((b % 16) as u8)),
        octet(hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)) == b
{
    let h = (b / 16) as u8;
    let l = (b % 16) as u8;
    assert(h < 16 && l < 16);
    assert(h * 16 + l == b);
}
@@fn quoted_printable.rs::is_dkim_safe_char
@ret r
@spec
    ensures r == dkim_safe_c(c),
@@end
@@fn quoted_printable.rs::is_dkim_safe_char_ascii_only
@ret r
@spec
    ensures r == safe_c(c, None, true),
@@end
@@fn quoted_printable.rs::is_hexdig
@ret r
@spec
    ensures r == is_hex_c(c),
@@end
@@fn quoted_printable.rs::u8_from_digits::to_u8 as to_u8
@ret r
@spec
    requires is_hex_b(c)
    ensures r == hex_val(c), r < 16
@@end
@@fn quoted_printable.rs::u8_from_digits
@ret r
@spec
    requires is_hex_b(c1), is_hex_b(c2)
    ensures r == (hex_val(c1) * 16 + hex_val(c2)) as u8
@@end
@@fn quoted_printable.rs::strip_hex_octet::strip_hexdig as strip_hexdig
@ret r
@spec
    ensures match r { Some((t, b)) => hex1(s@) == Some((t@, b)) && is_hex_b(b), None => hex1(s@) is None },
@head
    proof { lemma_after_fws(); lemma_skips(); let t = after_fws(s@); if t.len() > 0 && is_ascii_c(t[0]) { lemma_ascii_head(t); } assert(t.len() > 0 ==> t.take(1)[0] == t[0]); }
@@end
@@fn quoted_printable.rs::strip_hex_octet
@ret r
@spec
    ensures match r { Some((t, b)) => hex2(s@) == Some((t@, b)), None => hex2(s@) is None },
@@end
@@item quoted_printable.rs::QuotedPrintableError
@@end
@@item quoted_printable.rs::decode::State
@@end
@@fn quoted_printable.rs::decode::strip_dkim_safe_chars as strip_dkim_safe_chars
@ret r
@replace .map(|s| $e) => .map(|s: &str| -> (v_r: &str) ensures v_r@ == s@.skip(run(fs(), s@) as int) { $e })
@spec
    ensures match r { Some(t) => run(fs(), input@) > 0 && t@ =~= input@.skip(run(fs(), input@) as int), None => run(fs(), input@) == 0 },
@head
    proof { lemma_skips(); lemma_trim_all(fs()); lemma_run(fs(), input@); if input@.len() > 0 { lemma_run(fs(), input@.skip(1)); } }
@@end
pub open spec fn fs() -> spec_fn(char) -> bool { |c: char| dkim_safe_c(c) }
/// What one step at `s` does (the state machine of `decode`).
proof fn lemma_step_eq(s: Seq<char>, r: Seq<u8>)
    requires s.len() > 0, s[0] == '='
    ensures
        (hex2(s.skip(1)) matches Some((t, b)) ==> t.len() < s.len() && prep(r, qp(s)) == prep(r.push(b), qp(t))),
        (hex2(s.skip(1)) is None ==> qp(s) is None),
        run(fs(), s) == 0, n_fws(s) == 0,
{
    lemma_run(fs(), s);
    if run(fs(), s) > 0 { assert(fs()(s[0])); }
    lemma_run_is(fw(), s, 0);
    assert(s.skip(0) =~= s);
    lemma_n_fws(s.skip(1));
    lemma_hex1(s.skip(1));
    if let Some((t, b)) = hex2(s.skip(1)) {
        lemma_hex1((hex1(s.skip(1))->0).0);
        if let Some(x) = qp(t) { assert(r + (seq![b] + x) =~= r.push(b) + x); }
    }
}
proof fn lemma_step_safe(s: Seq<char>, r: Seq<u8>)
    requires s.len() > 0, run(fs(), s) > 0
    ensures
        s[0] != '=', n_fws(s) == 0, run(fs(), s) <= s.len(),
        prep(r, qp(s)) == prep(r + utf8(s.take(run(fs(), s) as int)), qp(s.skip(run(fs(), s) as int))),
        ulen(s.take(run(fs(), s) as int)) + ulen(s.skip(run(fs(), s) as int)) == ulen(s),
{
    lemma_run(fs(), s);
    let k = run(fs(), s) as int;
    lemma_qp_run(s, k);
    assert(fs()(s[0]));
    lemma_run_is(fw(), s, 0);
    assert(s.skip(0) =~= s);
    if let Some(x) = qp(s.skip(k)) { assert(r + (utf8(s.take(k)) + x) =~= (r + utf8(s.take(k))) + x); }
    lemma_cut_c(s, k);
    lemma_ulen_concat(s.take(k), s.skip(k));
}
proof fn lemma_step_fws(s: Seq<char>)
    requires s.len() > 0, run(fs(), s) == 0, s[0] != '='
    ensures
        n_fws(s) > 0 ==> after_fws(s).len() < s.len() && qp(s) == if n_fws(after_fws(s)) > 0 { None } else { qp(after_fws(s)) },
        n_fws(s) == 0 ==> qp(s) is None,
{
    lemma_n_fws(s);
    lemma_run(fs(), s);
    assert(!fs()(s[0]));
}
proof fn lemma_step(s: Seq<char>, r: Seq<u8>)
    requires s.len() > 0
    ensures
        s[0] == '=' ==> (hex2(s.skip(1)) matches Some((t, b)) ==> t.len() < s.len() && prep(r, qp(s)) == prep(r.push(b), qp(t)))
            && (hex2(s.skip(1)) is None ==> qp(s) is None),
        s[0] == '=' ==> run(fs(), s) == 0 && n_fws(s) == 0,
        run(fs(), s) > 0 ==> n_fws(s) == 0 && run(fs(), s) <= s.len() && prep(r, qp(s)) == prep(r + utf8(s.take(run(fs(), s) as int)), qp(s.skip(run(fs(), s) as int)))
            && ulen(s.take(run(fs(), s) as int)) + ulen(s.skip(run(fs(), s) as int)) == ulen(s),
        run(fs(), s) == 0 && s[0] != '=' && n_fws(s) > 0 ==> after_fws(s).len() < s.len() && qp(s) == if n_fws(after_fws(s)) > 0 { None } else { qp(after_fws(s)) },
        run(fs(), s) == 0 && s[0] != '=' && n_fws(s) == 0 ==> qp(s) is None,
{
    hide(qp); hide(run); hide(n_fws); hide(hex2); hide(prep); hide(utf8);
    if s[0] == '=' { lemma_step_eq(s, r); }
    else if run(fs(), s) > 0 { lemma_step_safe(s, r); }
    else { lemma_step_fws(s); }
}
proof fn lemma_cut_c(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures s == s.take(n) + s.skip(n)
{
    assert(s =~= s.take(n) + s.skip(n));
}
proof fn lemma_hex1(s: Seq<char>)
    ensures hex1(s) matches Some((t, b)) ==> t.len() < s.len()
{
    lemma_n_fws(s);
}
proof fn lemma_take1()
    ensures forall|s: Seq<char>| s.len() > 0 ==> (#[trigger] s.take(1))[0] == s[0] && s.take(1).len() == 1
{
}
@@fn quoted_printable.rs::decode
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@loops 1
@spec
    ensures match r { Ok(v) => qp(s@) == Some(v@), Err(_) => qp(s@) is None },
@head
    let ghost s0 = s@;
@loop 0 spec
        invariant_except_break
            qp(s0) == prep(result@, if state is Fws && n_fws(s@) > 0 { None } else { qp(s@) }),
        ensures
            s@.len() == 0 ==> qp(s0) == Some(result@), s@.len() > 0 ==> qp(s0) is None,
        decreases s@.len(),
@loop 0 head
        let ghost s1 = s@; let ghost r1 = result@;
        proof {
            lemma_take1();
            lemma_run(fs(), s@);
            if s@.len() > 0 {
                lemma_step(s@, result@);
                assert(s@.skip(s@.len() - s@.skip(run(fs(), s@) as int).len()) == s@.skip(run(fs(), s@) as int));
            } else { lemma_run_is(fw(), s@, 0); assert(n_fws(s@) == 0); assert(prep(result@, qp(s@))->0 =~= result@); }
        }
@@end
// ---- trusted: UTF-8 in core::str ----
#[verifier::external_body]
#[derive(Debug)]
pub struct VUtf8Error { n: usize }
impl VUtf8Error {
    pub uninterp spec fn upto(&self) -> nat;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.upto() { unimplemented!() }
}
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| b == #[trigger] utf8(s) }
#[verifier::external_body]
pub fn v_from_utf8(b: &[u8]) -> (r: Result<&str, VUtf8Error>)
    ensures match r { Ok(s) => utf8(s@) == b@, Err(e) => !is_utf8(b@) && e.upto() < b@.len() && is_utf8(b@.take(e.upto() as int)) },
{ unimplemented!() }
#[verifier::external_body]
pub fn v_char_bytes(c: char) -> (r: Vec<u8>) ensures r@ == utf8(one(c)) { unimplemented!() }
/// `char::encode_utf8(..).bytes()`
#[verifier::external_body]
pub fn v_u8_from_char(c: char) -> (r: u8) requires (c as u32) < 256, ensures r == c as u8 { unimplemented!() }
/// `str::chars`
#[verifier::external_body]
pub struct VChars<'a> { c: std::str::Chars<'a> }
impl<'a> View for VChars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> VChars<'a> {
    #[verifier::external_body]
    pub fn v_new(s: &'a str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
// ----
@@fn util.rs::next_utf8_chunk
@ret r
@replace str::from_utf8($x) => v_from_utf8($x)
@spec
    ensures r matches Some(s) ==> s@.len() > 0 && ulen(s@) <= input@.len() && utf8(s@) == input@.take(ulen(s@) as int)
        && (ulen(s@) < input@.len() ==> !is_utf8(input@)),
        r is None ==> input@.len() == 0 || !is_utf8(input@),
@head
    proof {
        assert(input@.take(input@.len() as int) =~= input@);
        assert forall|s: Seq<char>| #[trigger] utf8(s) == utf8(s) implies (s.len() == 0 <==> utf8(s).len() == 0) by { lemma_ulen_pos(s); lemma_utf8_empty(); if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
        assert forall|n: int, s: Seq<char>| 0 <= n <= input@.len() && #[trigger] utf8(s) == #[trigger] input@.take(n) implies ulen(s) == n by {}
    }
@@end
proof fn lemma_utf8_empty()
    ensures utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    let e = Seq::<char>::empty();
    lemma_ulen_concat(e, e);
    assert(e + e =~= e);
    assert(utf8(e) =~= Seq::<u8>::empty());
}
@@fn quoted_printable.rs::encode_internal::encode_byte as encode_byte
@replace write!(s, "={b:02X}").unwrap() => v_push_hex(s, b)
@spec
    ensures final(s)@ == old(s)@ + seq!['=', hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)]
@@end
proof fn lemma_hex_written(r: Seq<char>, b: u8, special: Option<char>, ascii: bool)
    requires written(r, special, ascii) is Some
    ensures written(r + seq!['=', hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)], special, ascii) == Some(written(r, special, ascii)->0.push(b))
{
    lemma_hex(b);
    let e = seq!['=', hex_digit((b / 16) as u8), hex_digit((b % 16) as u8)];
    lemma_written_concat(r, e, special, ascii);
    assert(e.skip(3) =~= Seq::<char>::empty());
    assert(written(Seq::<char>::empty(), special, ascii) == Some(Seq::<u8>::empty()));
    assert(seq![b] + Seq::<u8>::empty() =~= seq![b]);
    assert(written(e, special, ascii) == Some(seq![b]));
    assert(written(r, special, ascii)->0 + seq![b] =~= written(r, special, ascii)->0.push(b));
}
proof fn lemma_char_written(r: Seq<char>, c: char, special: Option<char>, ascii: bool)
    requires written(r, special, ascii) is Some, safe_c(c, special, ascii)
    ensures written(r.push(c), special, ascii) == Some(written(r, special, ascii)->0 + utf8(one(c)))
{
    let e = one(c);
    lemma_written_concat(r, e, special, ascii);
    assert(e.skip(1) =~= Seq::<char>::empty());
    assert(written(Seq::<char>::empty(), special, ascii) == Some(Seq::<u8>::empty()));
    assert(written(e, special, ascii) == Some(utf8(one(c))));
    assert(utf8(one(c)) + Seq::<u8>::empty() =~= utf8(one(c)));
    assert(r + e =~= r.push(c));
}
@@fn quoted_printable.rs::encode_internal
@ret r
@loops 3
@replace chunk.chars() => v_chars_vec(chunk)
@replace c.encode_utf8(&mut buf).bytes() => v_char_bytes(c)
@replace util::next_utf8_chunk => next_utf8_chunk
@replace |c| { let f = if $x { $i_a } else { $i_b }; f(c) && $z } => |c: char| -> (v_r: bool) ensures v_r == safe_c(c, special_char, ascii_only) { (if $x { $i_a(c) } else { $i_b(c) }) && $z }
@replace &bytes[chunk.len()..] => v_tail(bytes, v_slen(chunk))
@replace &bytes[1..] => v_tail(bytes, 1)
@spec
    ensures written(r@, special_char, ascii_only) == Some(bytes@), qp(r@) == Some(bytes@),
@head
    let ghost b0 = bytes@;
@loop 0 spec
        invariant
            forall|c: char| #[trigger] is_dkim_safe.requires((c,)),
            forall|c: char, r: bool| #[trigger] is_dkim_safe.ensures((c,), r) ==> r == safe_c(c, special_char, ascii_only),
            bytes@.len() <= b0.len(), bytes@ == b0.skip(b0.len() - bytes@.len()),
            written(result@, special_char, ascii_only) == Some(b0.take(b0.len() - bytes@.len())),
        decreases bytes@.len(),
@loop 1 index copy
@loop 1 spec
            invariant
                forall|c: char| #[trigger] is_dkim_safe.requires((c,)),
                forall|c: char, r: bool| #[trigger] is_dkim_safe.ensures((c,), r) ==> r == safe_c(c, special_char, ascii_only),
                v_i1 <= v_seq1@.len(), v_seq1@ == chunk@, bytes@.len() <= b0.len(),
                written(result@, special_char, ascii_only) == Some(b0.take(b0.len() - bytes@.len()) + utf8(chunk@.take(v_i1 as int))),
            decreases v_seq1@.len() - v_i1,
@loop 1 head
                let ghost w1 = b0.take(b0.len() - bytes@.len()) + utf8(chunk@.take(v_i1 as int));
                let ghost w0 = b0.take(b0.len() - bytes@.len());
                let ghost c0 = chunk@[v_i1 as int];
                proof {
                    let i = v_i1 as int;
                    assert(chunk@.take(i + 1) =~= chunk@.take(i) + one(c0));
                    lemma_ulen_concat(chunk@.take(i), one(c0));
                    assert(w0 + (utf8(chunk@.take(i)) + utf8(one(c0))) =~= w1 + utf8(one(c0)));
                    if safe_c(c0, special_char, ascii_only) { lemma_char_written(result@, c0, special_char, ascii_only); }
                }
@loop 2 index copy
@loop 2 spec
                    invariant
                        v_i2 <= v_seq2@.len(), v_seq2@ == utf8(one(c0)),
                        written(result@, special_char, ascii_only) == Some(w1 + utf8(one(c0)).take(v_i2 as int)),
                    decreases v_seq2@.len() - v_i2,
@loop 2 head
                    proof {
                        let i = v_i2 as int;
                        lemma_hex_written(result@, v_seq2@[i], special_char, ascii_only);
                        assert((w1 + utf8(one(c0)).take(i)).push(v_seq2@[i]) =~= w1 + utf8(one(c0)).take(i + 1));
                    }
@loop 0 head
        let ghost d0 = b0.len() - bytes@.len(); let ghost bs = bytes@;
        proof {
            lemma_hex_written(result@, bytes@[0], special_char, ascii_only);
            lemma_utf8_empty();
            assert(b0.take(d0) + Seq::<u8>::empty() =~= b0.take(d0));
            assert forall|s: Seq<char>| true implies #[trigger] s.take(0) == Seq::<char>::empty() by { assert(s.take(0) =~= Seq::<char>::empty()); }
            assert forall|s: Seq<char>| true implies #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); }
            assert forall|n: int| 0 <= n <= bytes@.len() implies #[trigger] bytes@.skip(n) == b0.skip(d0 + n) by { assert(bytes@.skip(n) =~= b0.skip(d0 + n)); }
            assert(b0.take(d0).push(bytes@[0]) =~= b0.take(d0 + 1));
        }
@loop 0 tail
        proof { assert(b0.take(d0) + bs.take(bs.len() - bytes@.len()) =~= b0.take(b0.len() - bytes@.len())); }
@tail
    proof { assert(b0.take(b0.len() as int) =~= b0); lemma_written_qp(result@, special_char, ascii_only); }
@@end
@@fn quoted_printable.rs::encode
@ret r
@spec
    ensures written(r@, encode_dkim_safe_char, false) == Some(bytes@), qp(r@) == Some(bytes@),
@@end
@@fn quoted_printable.rs::encode_ascii_only
@ret r
@spec
    ensures written(r@, encode_dkim_safe_char, true) == Some(bytes@), qp(r@) == Some(bytes@),
@@end
proof fn lemma_section_step(s: Seq<char>, r: Seq<u8>)
    requires s.len() > 0
    ensures
        s[0] == '=' && s.len() >= 3 && is_hex_c(s[1]) && is_hex_c(s[2]) ==>
            prep(r, qp_section(s)) == prep(r.push(octet(s[1], s[2])), qp_section(s.skip(1).skip(1).skip(1))),
        s[0] != '=' && (dkim_safe_c(s[0]) || wspc(s[0])) ==> prep(r, qp_section(s)) == prep(r + utf8(one(s[0])), qp_section(s.skip(1))),
{
    assert(s.len() >= 3 ==> s.skip(1).skip(1).skip(1) =~= s.skip(3));
    let h = if s[0] == '=' { seq![octet(s[1], s[2])] } else { utf8(one(s[0])) };
    let x = if s[0] == '=' { qp_section(s.skip(3)) } else { qp_section(s.skip(1)) };
    if let Some(y) = x { assert(r + (h + y) =~= (r + h) + y); }
    assert(r.push(octet(s[1], s[2])) =~= r + seq![octet(s[1], s[2])]);
}
@@fn quoted_printable.rs::decode_qp_section
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@ret r
@loops 1
@replace s.chars() => VChars::v_new(s)
@replace c.encode_utf8(&mut buf).bytes() => v_char_bytes(c)
@replace u8::try_from($x).unwrap() => v_u8_from_char($x)
@replace .filter(|&c| is_hexdig(c)) => .filter(|v_c: &char| -> (v_r: bool) ensures v_r == is_hex_c(*v_c) { let c = *v_c; is_hexdig(c) })
@spec
    ensures match r { Ok(v) => qp_section(s@) == Some(v@), Err(_) => qp_section(s@) is None },
@loop 0 spec
        invariant
            qp_section(s@) == prep(result@, qp_section(chars@)),
        decreases chars@.len(),
@loop 0 head
        proof {
            let t = one(c) + chars@;
            lemma_section_step(t, result@);
            assert(t.skip(1) =~= chars@);
            assert forall|s: Seq<char>| s.len() > 0 && s[0] == c && #[trigger] s.skip(1) == chars@ implies s == t by { assert(s =~= one(s[0]) + s.skip(1)); }
        }
@tail
    proof { assert(result@ + Seq::<u8>::empty() =~= result@); }
@@end
/// No semicolon, space, control or unwanted character in what is written.
pub proof fn theorem_written_chars(e: Seq<char>, special: Option<char>, ascii: bool)
    requires written(e, special, ascii) is Some
    ensures forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i] == '=' || upper_hex_c(e[i]) || safe_c(e[i], special, ascii)),
    decreases e.len()
{
    if e.len() > 0 {
        let k = if e[0] == '=' { 3int } else { 1int };
        theorem_written_chars(e.skip(k), special, ascii);
        assert forall|i: int| 0 <= i < e.len() implies (#[trigger] e[i] == '=' || upper_hex_c(e[i]) || safe_c(e[i], special, ascii)) by {
            if i >= k { assert(e[i] == e.skip(k)[i - k]); }
        }
    }
}
