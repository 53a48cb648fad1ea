@@method as_ref v_as_ref
@@method bytes v_bytes
@@method extend v_extend
@@method to_ascii_lowercase v_to_ascii_lowercase
@@method eq_ignore_ascii_case v_eq_ignore_ascii_case
@@method is_ascii_graphic v_is_ascii_graphic
@@method is_ascii_control v_is_ascii_control
@@method starts_with v_starts_with
@@include header_types.inc
// ---- trusted slice, string and iterator wrappers ----
pub trait VCtl { spec fn vb(&self) -> u8; fn v_is_ascii_control(&self) -> (r: bool) ensures r == ctl(self.vb()); }
impl VCtl for u8 {
    open spec fn vb(&self) -> u8 { *self }
    #[verifier::external_body]
    fn v_is_ascii_control(&self) -> (r: bool) { self.is_ascii_control() }
}
/// `s.iter().any(f)`, `s.iter().all(f)`
#[verifier::external_body]
pub fn v_any<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|x: &u8| #[trigger] f.requires((x,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_all<F: Fn(&u8) -> bool>(s: &[u8], f: F) -> (r: bool)
    requires forall|x: &u8| #[trigger] f.requires((x,)),
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((&#[trigger] s@[i],), false),
{ unimplemented!() }
/// `s.windows(n).position(f)`
#[verifier::external_body]
pub fn v_windows_position<F: Fn(&[u8]) -> bool>(s: &[u8], n: usize, f: F) -> (r: Option<usize>)
    requires n > 0, forall|x: &[u8]| x@.len() == n ==> #[trigger] f.requires((x,)),
    ensures match r {
        Some(i) => i + n <= s@.len() && (exists|w: &[u8]| w@ == s@.subrange(i as int, i + n) && #[trigger] f.ensures((w,), true))
            && forall|j: int| 0 <= j < i ==> exists|w: &[u8]| w@ == #[trigger] s@.subrange(j, j + n) && f.ensures((w,), false),
        None => forall|j: int| 0 <= j && j + n <= s@.len() ==> exists|w: &[u8]| w@ == #[trigger] s@.subrange(j, j + n) && f.ensures((w,), false),
    },
{ unimplemented!() }
/// `slice == byte string`
#[verifier::external_body]
pub fn v_eq_bytes<const N: usize>(a: &[u8], b: &[u8; N]) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub trait VStartsBytes { spec fn vsb(&self) -> Seq<u8>; fn v_starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) ensures r == (self.vsb().len() >= N && (forall|i: int| 0 <= i < N ==> #[trigger] self.vsb()[i] == p@[i])); }
impl VStartsBytes for [u8] {
    open spec fn vsb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_starts_with<const N: usize>(&self, p: &[u8; N]) -> (r: bool) { self.starts_with(p) }
}
#[verifier::external_body]
pub fn v_string_box(s: String) -> (r: Box<str>) ensures r@ == s@ { s.into() }
#[verifier::external_body]
pub fn v_box_slice(s: &[u8]) -> (r: Box<[u8]>) ensures r@ == s@ { s.into() }
#[verifier::external_body]
pub fn v_box_bytes(s: Vec<u8>) -> (r: Box<[u8]>) ensures r@ == s@ { s.into() }
/// `str::lines`: at LF, one CR before it dropped; no last empty line.
pub open spec fn first_lf(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s[0] == '\n' { 0 } else { let i = first_lf(s.skip(1)); if i < 0 { -1 } else { i + 1 } }
}
pub open spec fn drop_cr(l: Seq<char>) -> Seq<char> { if l.len() > 0 && l.last() == '\r' { l.drop_last() } else { l } }
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    let i = first_lf(s);
    if s.len() == 0 { seq![] }
    else if i < 0 || i >= s.len() { seq![s] }
    else { seq![drop_cr(s.take(i))] + lines_of(s.skip(i + 1)) }
}
#[verifier::external_body]
pub struct VLines<'a> { l: std::str::Lines<'a> }
impl<'a> View for VLines<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> VLines<'a> {
    #[verifier::external_body]
    pub fn v_new(s: &'a str) -> (r: Self) ensures r@ == lines_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    /// The lines not yet taken.
    #[verifier::external_body]
    pub fn v_rest(self) -> (r: Vec<&'a str>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i] { unimplemented!() }
}
/// `vec.into_iter()`
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIntoIter<T> { v: std::vec::IntoIter<T> }
impl<T> View for VIntoIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
#[verifier::external_body]
pub fn v_into_iter<T>(v: Vec<T>) -> (r: VIntoIter<T>) ensures r@ == v@ { unimplemented!() }
impl<T> VIntoIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
#[verifier::external_body]
pub fn v_mem_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
impl VIntoBytes for &[u8; 2] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn v_slice_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { s.to_vec() }
// ================= RFC 5322, 2.2: header fields =================
pub open spec fn ctl(b: u8) -> bool { b < 32 || b == 127 }
/// Printable ASCII without colon, at least one.
pub open spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_graphic_c(#[trigger] s[i]) && s[i] != ':' }
pub open spec fn at_crlf(v: Seq<u8>, i: int) -> bool { 0 <= i && i + 1 < v.len() && v[i] == 13 && v[i + 1] == 10 }
pub open spec fn no_ctl(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> (!ctl(#[trigger] v[i]) || v[i] == 9) }
pub open spec fn all_wsp_b(v: Seq<u8>) -> bool { forall|i: int| 0 <= i < v.len() ==> wsp(#[trigger] v[i]) }
/// The position of the first CRLF, or -1.
pub open spec fn first_crlf(v: Seq<u8>) -> int
    decreases v.len()
{
    if v.len() < 2 { -1 } else if v[0] == 13 && v[1] == 10 { 0 } else { let i = first_crlf(v.skip(1)); if i < 0 { -1 } else { i + 1 } }
}
/// The lines between the CRLFs.
pub open spec fn cut_lines(v: Seq<u8>) -> Seq<Seq<u8>>
    decreases v.len()
{
    let i = first_crlf(v);
    if i < 0 || i + 2 > v.len() { seq![v] } else { seq![v.take(i)] + cut_lines(v.skip(i + 2)) }
}
pub open spec fn first_line_ok(l: Seq<u8>) -> bool { no_ctl(l) }
pub open spec fn cont_line_ok(l: Seq<u8>) -> bool { no_ctl(l) && l.len() > 0 && wsp(l[0]) && !all_wsp_b(l) }
/// No control characters but tab and CRLF; every line after a CRLF begins with
/// white space and is not only white space.
pub open spec fn body_ok(v: Seq<u8>) -> bool {
    let ls = cut_lines(v);
    forall|i: int| 0 <= i < ls.len() ==> if i == 0 { first_line_ok(#[trigger] ls[i]) } else { cont_line_ok(ls[i]) }
}
proof fn lemma_first_crlf(v: Seq<u8>)
    ensures first_crlf(v) >= 0 ==> at_crlf(v, first_crlf(v)), first_crlf(v) >= -1,
        forall|j: int| at_crlf(v, j) ==> first_crlf(v) >= 0 && first_crlf(v) <= j,
    decreases v.len()
{
    if v.len() >= 2 {
        lemma_first_crlf(v.skip(1));
        assert forall|j: int| at_crlf(v, j) implies first_crlf(v) >= 0 && first_crlf(v) <= j by {
            if j > 0 { assert(at_crlf(v.skip(1), j - 1)); }
        }
    }
}
proof fn lemma_first_crlf_is(v: Seq<u8>, i: int)
    requires at_crlf(v, i), forall|j: int| 0 <= j < i ==> !at_crlf(v, j)
    ensures first_crlf(v) == i
{
    lemma_first_crlf(v);
}
proof fn lemma_no_crlf(v: Seq<u8>)
    requires forall|j: int| !at_crlf(v, j)
    ensures first_crlf(v) == -1
{
    lemma_first_crlf(v);
}
impl FieldName {
@@fn header.rs::FieldName::new
@ret r
@replace impl Into<Box<str>> => Box<str>
@replace value.into() => value
@replace value.chars().all(|$i_c| $e) => v_chars_all(&value, |$i_c: char| -> (v_r: bool) ensures v_r == (is_graphic_c($i_c) && $i_c != ':') { $e })
@spec
    ensures match r { Ok(n) => n.0@ == value@ && name_ok(value@), Err(_) => !name_ok(value@) },
@@end
}
pub open spec fn crlf_b() -> Seq<u8> { seq![13u8, 10u8] }
/// What the iterator gives when it has taken chunks `o` and `v` is left.
proof fn lemma_split_step(o: Seq<&[u8]>, v: Seq<u8>, i: int, v0: Seq<u8>, n: &[u8])
    requires v_seqs(o) + cut_lines(v) == cut_lines(v0), first_crlf(v) == i,
        i >= 0 ==> i + 2 <= v.len() && n@ == v.take(i), i < 0 ==> n@ == v,
    ensures i >= 0 ==> v_seqs(o.push(n)) + cut_lines(v.skip(i + 2)) == cut_lines(v0),
        i < 0 ==> v_seqs(o.push(n)) == cut_lines(v0)
{
    assert(v_seqs(o.push(n)) =~= v_seqs(o).push(n@));
    if i >= 0 {
        assert(v_seqs(o).push(n@) + cut_lines(v.skip(i + 2)) =~= v_seqs(o) + (seq![v.take(i)] + cut_lines(v.skip(i + 2))));
    } else {
        assert(v_seqs(o).push(n@) =~= v_seqs(o) + seq![v]);
    }
}
proof fn lemma_windows(v: Seq<u8>)
    ensures forall|j: int| 0 <= j && j + 2 <= v.len() ==> ((#[trigger] v.subrange(j, j + 2) == crlf_b()) <==> at_crlf(v, j))
{
    assert forall|j: int| 0 <= j && j + 2 <= v.len() implies ((#[trigger] v.subrange(j, j + 2) == crlf_b()) <==> at_crlf(v, j)) by {
        let w = v.subrange(j, j + 2);
        if at_crlf(v, j) { assert(w =~= crlf_b()); }
        if w == crlf_b() { assert(w[0] == 13 && w[1] == 10); }
    }
}
@@fn header.rs::split_crlf
@ret r
@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
@replace impl Iterator<Item = &[u8]> => Vec<&[u8]>
@replace $i_v.windows($n).position(|$i_b| $e) => v_windows_position($i_v, $n, |$i_b: &[u8]| -> (v_r: bool) ensures v_r == ($i_b@ == crlf_b()) { $e })
@replace b == b"\r\n" => v_eq_bytes(b, &[13u8, 10u8])
@replace &rest[2..] => v_tail(rest, 2)
@replace iter::from_fn(move || { $b }) =>
{
    // the items of the iterator, collected
    let mut v_out: Vec<&[u8]> = Vec::new();
    loop
        invariant
            v_seqs(v_out@) + (if done { Seq::<Seq<u8>>::empty() } else { cut_lines(value@) }) == cut_lines(v0),
        ensures v_seqs(v_out@) == cut_lines(v0),
        decreases (if done { 0 } else { value@.len() + 1 }),
    {
        v_probe!();
        let ghost v_old = value@;
        let ghost o_old = v_out@;
        let ghost d_old = done;
        let v_n: Option<&[u8]> = { $b };
        proof {
            lemma_windows(v_old);
            lemma_first_crlf(v_old);
            if let Some(n) = v_n {
                let i = if done { -1int } else { n@.len() as int };
                assert(!d_old);
                if !done {
                    assert(v_old.subrange(i, i + 2) == crlf_b());
                    assert forall|j: int| 0 <= j < i implies !at_crlf(v_old, j) by { assert(v_old.subrange(j, j + 2) != crlf_b()); }
                    lemma_first_crlf_is(v_old, i);
                    assert(value@ =~= v_old.skip(i + 2));
                } else {
                    assert forall|j: int| !at_crlf(v_old, j) by { if at_crlf(v_old, j) { assert(v_old.subrange(j, j + 2) != crlf_b()); } }
                    lemma_no_crlf(v_old);
                }
                lemma_split_step(o_old, v_old, i, v0, n);
                assert(v_seqs(o_old.push(n)) + Seq::<Seq<u8>>::empty() =~= v_seqs(o_old.push(n)));
            } else {
                assert(v_seqs(o_old) + Seq::<Seq<u8>>::empty() =~= v_seqs(o_old));
            }
        }
        match v_n { Some(v_x) => v_out.push(v_x), None => break }
    }
    v_out
}
@spec
    ensures v_seqs(r@) == cut_lines(value@),
@head
    let ghost v0 = value@;
    proof { assert(v_seqs(Seq::<&[u8]>::empty()) + cut_lines(v0) =~= cut_lines(v0)); }
@@end
pub open spec fn v_seqs(v: Seq<&[u8]>) -> Seq<Seq<u8>> { v.map_values(|s: &[u8]| s@) }
impl FieldBody {
@@fn header.rs::FieldBody::new
@head
    let ghost v0 = value@;
@ret r
@replace impl Into<Box<[u8]>> => Box<[u8]>
@replace value.into() => value
@replace line.iter().any(|$i_b| $e) => v_any(line, |$i_b: &u8| -> (v_r: bool) ensures v_r == (ctl(*$i_b) && *$i_b != 9) { $e })
@replace line.iter().all(|$i_b| $e) => v_all(line, |$i_b: &u8| -> (v_r: bool) ensures v_r == wsp(*$i_b) { $e })
@spec
    ensures match r { Ok(n) => n.0@ == value@ && body_ok(value@), Err(_) => !body_ok(value@) },
@attr
#[verifier::loop_isolation(false)]
@loop 0 index copy
@loop 0 head
                proof {
                    assert(v_seq0[v_i0 as int]@ == cut_lines(value@)[v_i0 as int]);
                }
@loop 0 spec
        invariant
            value@ == v0, v_i0 <= v_seq0@.len(), v_seqs(v_seq0@) == cut_lines(value@),
            forall|k: int| 0 <= k < v_i0 ==> if k == 0 { first_line_ok(#[trigger] cut_lines(value@)[k]) } else { cont_line_ok(cut_lines(value@)[k]) },
        decreases v_seq0@.len() - v_i0,
@@end
}

/// A field body has no control character but tab and the CR LF of folding,
/// and every CRLF in it is followed by white space: what relaxed
/// canonicalization presumes (`folded_ok`).
proof fn theorem_field_body(v: Seq<u8>)
    requires body_ok(v)
    ensures folded_ok(v), forall|i: int| 0 <= i < v.len() && ctl(#[trigger] v[i]) ==> v[i] == 9 || v[i] == 13 || v[i] == 10
{
    let ls = cut_lines(v);
    assert forall|k: int| 0 <= k < ls.len() implies no_ctl(#[trigger] ls[k]) && (k > 0 ==> ls[k].len() > 0 && wsp(ls[k][0])) by {}
    lemma_folded(v, true);
}
proof fn lemma_folded(v: Seq<u8>, first: bool)
    requires forall|k: int| 0 <= k < cut_lines(v).len() ==> no_ctl(#[trigger] cut_lines(v)[k]) && (k > 0 || !first ==> cut_lines(v)[k].len() > 0 && wsp(cut_lines(v)[k][0]))
    ensures folded_ok(v), !first ==> v.len() > 0 && wsp(v[0]),
        forall|i: int| 0 <= i < v.len() && ctl(#[trigger] v[i]) ==> v[i] == 9 || v[i] == 13 || v[i] == 10
    decreases v.len()
{
    lemma_first_crlf(v);
    let i = first_crlf(v);
    if i < 0 || i + 2 > v.len() {
        assert(cut_lines(v)[0] == v);
    } else {
        let a = v.take(i);
        let r = v.skip(i + 2);
        assert(cut_lines(v) == seq![a] + cut_lines(r));
        assert(cut_lines(v)[0] == a);
        assert forall|k: int| 0 <= k < cut_lines(r).len() implies no_ctl(#[trigger] cut_lines(r)[k]) && cut_lines(r)[k].len() > 0 && wsp(cut_lines(r)[k][0]) by {
            assert(cut_lines(r)[k] == cut_lines(v)[k + 1]);
        }
        lemma_folded(r, false);
        if !first { assert(a.len() > 0 && a[0] == v[0]); }
        assert forall|j: int| 0 <= j < v.len() implies
            (#[trigger] v[j] == 13 ==> j + 2 < v.len() && v[j + 1] == 10 && wsp(v[j + 2])) && (v[j] == 10 ==> j > 0 && v[j - 1] == 13)
            && (ctl(v[j]) ==> v[j] == 9 || v[j] == 13 || v[j] == 10) by {
            if j < i { assert(v[j] == a[j]); }
            else if j >= i + 2 {
                let m = j - i - 2;
                assert(v[j] == r[m]);
                if r[m] == 13 { assert(r[m + 1] == v[j + 1] && r[m + 2] == v[j + 2]); }
                if r[m] == 10 { assert(r[m - 1] == v[j - 1]); }
            } else { assert(v[i + 2] == r[0]); }
        }
    }
}
// ================= The header section =================
pub open spec fn is_cont(l: Seq<char>) -> bool { l.len() > 0 && (l[0] == ' ' || l[0] == '\t') }
/// The name and body of a line: cut at the first colon.
pub open spec fn first_colon(l: Seq<char>) -> int
    decreases l.len()
{
    if l.len() == 0 { -1 } else if l[0] == ':' { 0 } else { let i = first_colon(l.skip(1)); if i < 0 { -1 } else { i + 1 } }
}
pub open spec fn line_name(l: Seq<char>) -> Seq<char> { if first_colon(l) < 0 { seq![] } else { l.take(first_colon(l)) } }
pub open spec fn line_body(l: Seq<char>) -> Seq<u8> { if first_colon(l) < 0 { seq![] } else { utf8(l.skip(first_colon(l) + 1)) } }
/// The number of continuation lines at the start.
pub open spec fn n_fold(ls: Seq<Seq<char>>) -> nat
    decreases ls.len()
{
    if ls.len() > 0 && is_cont(ls[0]) { 1 + n_fold(ls.skip(1)) } else { 0 }
}
pub open spec fn join(ls: Seq<Seq<char>>, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 || ls.len() == 0 { seq![] } else { crlf_b() + utf8(ls[0]) + join(ls.skip(1), (n - 1) as nat) }
}
/// A field is a line and the continuation lines after it, with the line breaks.
pub open spec fn fields(ls: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<u8>)>
    decreases ls.len()
{
    if ls.len() == 0 { seq![] }
    else { more(line_name(ls[0]), line_body(ls[0]), ls.skip(1)) }
}
/// The fields when the current one is (name, body) and the lines `ls` follow.
pub open spec fn more(name: Seq<char>, body: Seq<u8>, ls: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<u8>)>
    decreases ls.len()
{
    if ls.len() == 0 { seq![(name, body)] }
    else if is_cont(ls[0]) { more(name, body + (crlf_b() + utf8(ls[0])), ls.skip(1)) }
    else { seq![(name, body)] + more(line_name(ls[0]), line_body(ls[0]), ls.skip(1)) }
}
pub open spec fn field_ok(f: (Seq<char>, Seq<u8>)) -> bool { name_ok(f.0) && body_ok(f.1) }
pub open spec fn fields_ok(fs: Seq<(Seq<char>, Seq<u8>)>) -> bool { fs.len() > 0 && forall|i: int| 0 <= i < fs.len() ==> field_ok(#[trigger] fs[i]) }
pub open spec fn hview(h: Seq<HeaderField>) -> Seq<(Seq<char>, Seq<u8>)> { h.map_values(|f: HeaderField| (f.0.0@, f.1.0@)) }
/// "more" is: the field with all continuation lines that follow, then the
/// fields of the rest.
proof fn theorem_fields(name: Seq<char>, body: Seq<u8>, ls: Seq<Seq<char>>)
    ensures n_fold(ls) <= ls.len(),
        more(name, body, ls) =~= seq![(name, body + join(ls, n_fold(ls)))] + fields(ls.skip(n_fold(ls) as int)),
    decreases ls.len()
{
    if ls.len() == 0 {
        assert(body + join(ls, 0) =~= body);
        assert(fields(ls.skip(0)) =~= seq![]);
    } else if is_cont(ls[0]) {
        theorem_fields(name, body + (crlf_b() + utf8(ls[0])), ls.skip(1));
        let n = n_fold(ls.skip(1));
        assert(ls.skip(1).skip(n as int) =~= ls.skip(n_fold(ls) as int));
        assert(body + (crlf_b() + utf8(ls[0])) + join(ls.skip(1), n) =~= body + join(ls, n_fold(ls)));
    } else {
        assert(body + join(ls, 0) =~= body);
        assert(ls.skip(0) =~= ls);
    }
}
proof fn lemma_first_colon(a: Seq<char>, b: Seq<char>)
    requires !a.contains(':')
    ensures first_colon(a + seq![':'] + b) == a.len(), first_colon(a) == -1
    decreases a.len()
{
    let s = a + seq![':'] + b;
    if a.len() == 0 {
        assert(s[0] == ':');
    } else {
        assert(s[0] == a[0]);
        assert(a.contains(a[0]));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies a.skip(1)[i] != ':' by { assert(a.contains(a[i + 1])); }
        assert(s.skip(1) =~= a.skip(1) + seq![':'] + b);
        lemma_first_colon(a.skip(1), b);
    }
}
pub open spec fn sview(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
proof fn lemma_more(name: Seq<char>, body: Seq<u8>, ls: Seq<Seq<char>>)
    ensures more(name, body, ls).len() > 0, more(name, body, ls)[0].0 == name,
        ls.len() == 0 || !is_cont(ls[0]) ==> more(name, body, ls)[0] == (name, body),
    decreases ls.len()
{
    if ls.len() > 0 && is_cont(ls[0]) { lemma_more(name, body + (crlf_b() + utf8(ls[0])), ls.skip(1)); }
}
proof fn lemma_push(h: Seq<(Seq<char>, Seq<u8>)>, m: (Seq<char>, Seq<u8>), r: Seq<(Seq<char>, Seq<u8>)>)
    ensures h.push(m) + r == h + (seq![m] + r)
{
    assert(h.push(m) + r =~= h + (seq![m] + r));
}
/// A continuation line has no field name.
proof fn lemma_cont_name(l: Seq<char>)
    requires is_cont(l)
    ensures !name_ok(line_name(l))
{
    lemma_colon_range(l);
    let i = first_colon(l);
    if i >= 0 {
        if i == 0 { assert(line_name(l).len() == 0); } else { assert(line_name(l)[0] == l[0]); assert(!is_graphic_c(line_name(l)[0])); }
    }
}
proof fn lemma_colon_range(l: Seq<char>)
    ensures -1 <= first_colon(l) < l.len()
    decreases l.len()
{
    if l.len() > 0 { lemma_colon_range(l.skip(1)); }
}
@@fn header.rs::is_continuation_line
@ret r
@head
    proof { if s@.len() > 0 { assert(s@.take(1)[0] == s@[0]); } }
@spec
    ensures r == is_cont(s@),
@@end
@@fn header.rs::split_header_field
@ret r
@replace s.split_once($c) => v_split_once(s, $c)
@replace FieldName::new(name) => FieldName::new(v_box_str(name))
@replace value.bytes().collect() => v_slice_vec(value.v_bytes())
@head
    proof {
        assert forall|a: Seq<char>, b: Seq<char>| s@ == #[trigger] (a + seq![':'] + b) && !a.contains(':') implies line_name(s@) == a && line_body(s@) == utf8(b) by {
            lemma_first_colon(a, b);
            assert(s@.take(a.len() as int) =~= a);
            assert(s@.skip(a.len() as int + 1) =~= b);
        }
        if !s@.contains(':') { lemma_first_colon(s@, Seq::<char>::empty()); }
    }
@spec
    ensures match r {
        Ok(nb) => name_ok(line_name(s@)) && nb.0.0@ == line_name(s@) && nb.1@ == line_body(s@),
        Err(_) => !name_ok(line_name(s@)),
    },
@@end
impl HeaderFields {
@@fn header.rs::HeaderFields::new
@ret r
@replace impl Into<Vec<HeaderField>> => Vec<HeaderField>
@replace value.into() => value
@spec
    ensures match r { Ok(h) => h.0@ == value@ && value@.len() > 0, Err(_) => value@.len() == 0 },
@@end
@@fn header.rs::HeaderFields::from_vec
@ret r
@replace $i_v.into_iter().map(|(name, value)| { $b }).collect::<Result<_, _>>()? =>
{
    let mut v_it = v_into_iter($i_v);
    let mut v_out: Vec<HeaderField> = Vec::new();
    while let Some((name, value)) = v_it.next()
        invariant
            v_out@.len() + v_it@.len() == v0.len(), v_it@ =~= v0.skip(v_out@.len() as int),
            forall|k: int| 0 <= k < v_out@.len() ==> field_ok(#[trigger] vview(v0)[k]) && hview(v_out@)[k] == vview(v0)[k],
        decreases v_it@.len(),
    {
        v_probe!();
        let ghost o_old = v_out@;
        proof { assert((name, value) == v0[v_out@.len() as int]); assert(vview(v0)[v_out@.len() as int] == (name@, value@)); }
        let v_n: Result<HeaderField, HeaderFieldError> = { $b };
        match v_n {
            Ok(v_x) => {
                v_out.push(v_x);
                proof {
                    assert forall|k: int| 0 <= k < v_out@.len() implies field_ok(#[trigger] vview(v0)[k]) && hview(v_out@)[k] == vview(v0)[k] by {
                        if k < o_old.len() { assert(hview(o_old)[k] == vview(v0)[k]); assert(v_out@[k] == o_old[k]); }
                    }
                }
            }
            Err(v_e) => return Err(v_e),
        }
    }
    proof { assert(hview(v_out@) =~= vview(v0)); assert(v_out@.len() == vview(v0).len()); }
    v_out
}
@replace FieldName::new(name) => FieldName::new(v_string_box(name))
@replace FieldBody::new(value) => FieldBody::new(v_box_bytes(value))
@attr
#[verifier::loop_isolation(false)]
@head
    let ghost v0 = value@;
@spec
    ensures match r { Ok(h) => fields_ok(vview(value@)) && hview(h.0@) == vview(value@), Err(_) => !fields_ok(vview(value@)) },
@@end
@@fn header.rs::HeaderFields<FromStr>::from_str
@ret r
@replace Self::Err => HeaderFieldError
@replace s.lines() => VLines::v_new(s)
@replace .filter(|$i_l| $e).ok_or => .filter(|v_l: &&str| -> (v_r: bool) ensures v_r == !is_cont(v_l@) { let $i_l = *v_l; $e }).ok_or
@replace mem::replace => v_mem_replace
@replace FieldBody::new(value) => FieldBody::new(v_box_bytes(value))
@attr
#[verifier::loop_isolation(false)]
@head
    let ghost ls = lines_of(s@);
    proof {
        if ls.len() > 0 {
            lemma_more(line_name(ls[0]), line_body(ls[0]), ls.skip(1));
            if is_cont(ls[0]) { lemma_cont_name(ls[0]); assert(fields(ls)[0].0 == line_name(ls[0])); assert(!field_ok(fields(ls)[0])); }
            if !name_ok(line_name(ls[0])) { assert(!field_ok(fields(ls)[0])); }
        }
    }
@loop 0 index copy $expr.v_rest()
@loop 0 before
        proof {
            assert(sview(v_seq0@).skip(0) =~= ls.skip(1));
            assert(hview(headers@) + fields(ls) =~= fields(ls));
        }
@loop 0 after
        proof {
            let rest = sview(v_seq0@).skip(v_i0 as int);
            assert(rest.len() == 0);
            lemma_more(name.0@, value@, rest);
            assert(fields(ls)[headers@.len() as int] == (name.0@, value@));
            assert(hview(headers@.push((name, FieldBody(arbitrary())))).len() == headers@.len() + 1);
            assert forall|b: FieldBody| b.0@ == value@ implies #[trigger] hview(headers@.push((name, b))) == fields(ls) by {
                assert(hview(headers@.push((name, b))) =~= hview(headers@).push((name.0@, value@)));
                assert(hview(headers@).push((name.0@, value@)) =~= hview(headers@) + more(name.0@, value@, rest));
            }
        }
@loop 0 spec
        invariant
            v_i0 <= v_seq0@.len(),
            hview(headers@) + more(name.0@, value@, sview(v_seq0@).skip(v_i0 as int)) == fields(ls),
            name_ok(name.0@),
            forall|k: int| 0 <= k < headers@.len() ==> field_ok(#[trigger] hview(headers@)[k]),
        decreases v_seq0@.len() - v_i0,
@loop 0 head
                let ghost h0 = headers@;
                let ghost m0 = (name.0@, value@);
                proof {
                    let l = v_seq0@[v_i0 as int]@;
                    let rest = sview(v_seq0@).skip(v_i0 as int);
                    let rest1 = sview(v_seq0@).skip(v_i0 as int + 1);
                    assert(rest[0] == l);
                    assert(rest.skip(1) =~= rest1);
                    lemma_more(m0.0, m0.1, rest);
                    lemma_more(line_name(l), line_body(l), rest1);
                    let n = h0.len() as int;
                    let fs = fields(ls);
                    assert(fs[n] == more(m0.0, m0.1, rest)[0]);
                    if !is_cont(l) {
                        assert(fs[n] == m0);
                        assert(fs[n + 1] == more(line_name(l), line_body(l), rest1)[0]);
                        if !name_ok(line_name(l)) { assert(!field_ok(fs[n + 1])); }
                        if !body_ok(m0.1) { assert(!field_ok(fs[n])); }
                    }
                }
@loop 0 tail
                proof {
                    if headers@.len() > h0.len() {
                        let l = v_seq0@[v_i0 as int - 1]@;
                        assert(hview(headers@) =~= hview(h0).push(m0));
                        lemma_push(hview(h0), m0, more(line_name(l), line_body(l), sview(v_seq0@).skip(v_i0 as int)));
                        assert forall|k: int| 0 <= k < headers@.len() implies field_ok(#[trigger] hview(headers@)[k]) by {
                            if k < h0.len() { assert(hview(h0)[k] == hview(headers@)[k]); }
                        }
                    } else {
                        let l = v_seq0@[v_i0 as int - 1]@;
                        assert(value@ =~= m0.1 + (crlf_b() + utf8(l)));
                    }
                }
@spec
    ensures match r { Ok(h) => fields_ok(fields(lines_of(s@))) && hview(h.0@) == fields(lines_of(s@)), Err(_) => !fields_ok(fields(lines_of(s@))) },
@@end
}
pub open spec fn vview(v: Seq<(String, Vec<u8>)>) -> Seq<(Seq<char>, Seq<u8>)> { v.map_values(|f: (String, Vec<u8>)| (f.0@, f.1@)) }
impl FieldName {
@@fn header.rs::FieldName<PartialEq<&str>>::eq as v_eq_str
@nopub
@ret r
@spec
    ensures r == (lower(self.0@) == lower(other@)),
@@end
@@fn header.rs::FieldName<Hash>::hash as v_hash_name
@nopub
@replace Hasher => VHasher
@replace .hash(state) => .v_hash(state)
@spec
    ensures final(state).fed() == old(state).fed().push(lower(self.0@)),
@@end
}
/// Names that compare equal hash alike, and only those are fed alike.
proof fn theorem_name_hash(a: FieldName, b: FieldName, f: Seq<Seq<char>>)
    ensures same_name(a, b) <==> f.push(lower(a.0@)) == f.push(lower(b.0@))
{
    assert(f.push(lower(a.0@)).last() == lower(a.0@));
    assert(f.push(lower(b.0@)).last() == lower(b.0@));
}
