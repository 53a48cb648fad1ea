// ---- trusted string wrappers (assumed contracts on core::str) ----
/// Patterns: a character, a string, a predicate on characters.
pub trait VPat: Sized {
    spec fn vlen(&self) -> nat;
    spec fn vpre(&self) -> bool;
    spec fn vyes(&self, x: Seq<char>) -> bool;
    spec fn vno(&self, x: Seq<char>) -> bool;
}
impl VPat for char {
    open spec fn vlen(&self) -> nat { 1 }
    open spec fn vpre(&self) -> bool { true }
    open spec fn vyes(&self, x: Seq<char>) -> bool { x =~= seq![*self] }
    open spec fn vno(&self, x: Seq<char>) -> bool { x.len() == 1 && x[0] != *self }
}
impl VPat for &str {
    open spec fn vlen(&self) -> nat { self@.len() }
    open spec fn vpre(&self) -> bool { true }
    open spec fn vyes(&self, x: Seq<char>) -> bool { x =~= self@ }
    open spec fn vno(&self, x: Seq<char>) -> bool { x.len() == self@.len() && x != self@ }
}
impl<F: Fn(char) -> bool> VPat for F {
    open spec fn vlen(&self) -> nat { 1 }
    open spec fn vpre(&self) -> bool { forall|c: char| self.requires((c,)) }
    open spec fn vyes(&self, x: Seq<char>) -> bool { x.len() == 1 && self.ensures((x[0],), true) }
    open spec fn vno(&self, x: Seq<char>) -> bool { x.len() == 1 && self.ensures((x[0],), false) }
}
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub trait VStrPat {
    spec fn vsp(&self) -> Seq<char>;
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        requires p.vpre(),
        ensures match r {
            Some(t) => p.vlen() <= self.vsp().len() && p.vyes(self.vsp().take(p.vlen() as int)) && t@ == self.vsp().skip(p.vlen() as int),
            None => self.vsp().len() < p.vlen() || p.vno(self.vsp().take(p.vlen() as int)),
        };
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        requires p.vpre(),
        ensures match r {
            Some(t) => p.vlen() <= self.vsp().len() && p.vyes(self.vsp().skip(self.vsp().len() - p.vlen())) && t@ == self.vsp().take(self.vsp().len() - p.vlen()),
            None => self.vsp().len() < p.vlen() || p.vno(self.vsp().skip(self.vsp().len() - p.vlen())),
        };
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool)
        requires p.vpre(),
        ensures r ==> p.vlen() <= self.vsp().len() && p.vyes(self.vsp().take(p.vlen() as int)),
            !r ==> self.vsp().len() < p.vlen() || p.vno(self.vsp().take(p.vlen() as int));
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool)
        requires p.vpre(),
        ensures r ==> p.vlen() <= self.vsp().len() && p.vyes(self.vsp().skip(self.vsp().len() - p.vlen())),
            !r ==> self.vsp().len() < p.vlen() || p.vno(self.vsp().skip(self.vsp().len() - p.vlen()));
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str)
        requires p.vpre(), p.vlen() == 1,
        ensures exists|n: int| 0 <= n <= self.vsp().len() && r@ == #[trigger] self.vsp().skip(n)
            && (forall|i: int| 0 <= i < n ==> p.vyes(one(#[trigger] self.vsp()[i])))
            && (n < self.vsp().len() ==> p.vno(one(self.vsp()[n])));
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str)
        requires p.vpre(), p.vlen() == 1,
        ensures exists|n: int| 0 <= n <= self.vsp().len() && r@ == #[trigger] self.vsp().take(n)
            && (forall|i: int| n <= i < self.vsp().len() ==> p.vyes(one(#[trigger] self.vsp()[i])))
            && (n > 0 ==> p.vno(one(self.vsp()[n - 1])));
}
impl VStrPat for str {
    open spec fn vsp(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn v_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
}
/// `<&str>::default()`
#[verifier::external_body]
pub fn v_default_str() -> (r: &'static str) ensures r@ == Seq::<char>::empty() { Default::default() }
/// The length in bytes.
pub open spec fn ulen(s: Seq<char>) -> nat { utf8(s).len() }
#[verifier::external_body]
pub fn v_slen(s: &str) -> (r: usize) ensures r == ulen(s@) { s.len() }
/// Nothing is longer than the address space.
pub axiom fn axiom_str_len(s: &str) ensures ulen(s@) <= isize::MAX;
/// `&s[..n]` and `&s[n..]`: `n` must be a character boundary.
pub open spec fn boundary(s: Seq<char>, n: nat) -> bool { exists|k: int| 0 <= k <= s.len() && n == ulen(#[trigger] s.take(k)) }
#[verifier::external_body]
pub fn v_str_to(s: &str, n: usize) -> (r: &str)
    requires boundary(s@, n as nat),
    ensures exists|k: int| 0 <= k <= s@.len() && n == ulen(#[trigger] s@.take(k)) && r@ == s@.take(k),
{ &s[..n] }
#[verifier::external_body]
pub fn v_str_from(s: &str, n: usize) -> (r: &str)
    requires boundary(s@, n as nat),
    ensures exists|k: int| 0 <= k <= s@.len() && n == ulen(#[trigger] s@.take(k)) && r@ == s@.skip(k),
{ &s[n..] }
pub proof fn lemma_ulen_concat(a: Seq<char>, b: Seq<char>)
    ensures ulen(a + b) == ulen(a) + ulen(b), utf8(a + b) == utf8(a) + utf8(b)
{
    vstd::utf8::encode_utf8_concat(a, b);
}
pub proof fn lemma_ulen_pos(a: Seq<char>)
    ensures a.len() <= ulen(a)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_ulen_pos(a.drop_last());
        assert(a =~= a.drop_last() + seq![a.last()]);
        lemma_ulen_concat(a.drop_last(), seq![a.last()]);
        vstd::utf8::encode_utf8_first_scalar(seq![a.last()]);
    }
}
/// A prefix is determined by its length in bytes.
pub proof fn lemma_boundary(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), ulen(s.take(i)) == ulen(s.take(j))
    ensures i == j
{
    if i < j { lemma_boundary_lt(s, i, j); }
    if j < i { lemma_boundary_lt(s, j, i); }
}
pub proof fn lemma_boundary_lt(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures ulen(s.take(i)) < ulen(s.take(j))
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lemma_ulen_concat(s.take(i), s.subrange(i, j));
    lemma_ulen_pos(s.subrange(i, j));
}
pub open spec fn is_alpha_c(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn is_digit_c(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_hex_c(c: char) -> bool { is_digit_c(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
pub open spec fn is_ascii_c(c: char) -> bool { (c as u32) < 128 }
pub open spec fn is_graphic_c(c: char) -> bool { '!' <= c && c <= '~' }
pub trait VChar {
    spec fn vc(&self) -> char;
    fn v_is_ascii_alphabetic(&self) -> (r: bool) ensures r == is_alpha_c(self.vc());
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (is_alpha_c(self.vc()) || is_digit_c(self.vc()));
    fn v_is_ascii_digit(&self) -> (r: bool) ensures r == is_digit_c(self.vc());
    fn v_is_ascii_hexdigit(&self) -> (r: bool) ensures r == is_hex_c(self.vc());
    fn v_is_ascii_graphic(&self) -> (r: bool) ensures r == is_graphic_c(self.vc());
}
impl VChar for char {
    open spec fn vc(&self) -> char { *self }
    #[verifier::external_body]
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_graphic(&self) -> (r: bool) { unimplemented!() }
}
impl VChar for u8 {
    open spec fn vc(&self) -> char { *self as char }
    #[verifier::external_body]
    fn v_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_ascii_graphic(&self) -> (r: bool) { unimplemented!() }
}
pub trait VIsAscii { spec fn vasc(&self) -> bool; fn v_is_ascii(&self) -> (r: bool) ensures r == self.vasc(); }
impl VIsAscii for char {
    open spec fn vasc(&self) -> bool { is_ascii_c(*self) }
    #[verifier::external_body]
    fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
}
impl VIsAscii for str {
    open spec fn vasc(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> is_ascii_c(#[trigger] self@[i]) }
    #[verifier::external_body]
    fn v_is_ascii(&self) -> (r: bool) { unimplemented!() }
}
/// `HashSet<&str>`
#[verifier::external_body]
pub struct VStrSet<'a> { s: std::collections::HashSet<&'a str> }
impl<'a> View for VStrSet<'a> { type V = ISet<Seq<char>>; uninterp spec fn view(&self) -> ISet<Seq<char>>; }
impl<'a> VStrSet<'a> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == ISet::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: &'a str) -> (r: bool) ensures r == !old(self)@.contains(x@), final(self)@ == old(self)@.insert(x@) { unimplemented!() }
}
/// `s.chars().all(f)`
#[verifier::external_body]
pub fn v_chars_all<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|x: char| #[trigger] f.requires((x,)),
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), false),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_box_str(s: &str) -> (r: Box<str>) ensures r@ == s@ { s.into() }
/// `str::split_once(char)`: cut at the first occurrence.
#[verifier::external_body]
pub fn v_split_once(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures match r {
        Some((a, b)) => s@ == a@ + seq![c] + b@ && !a@.contains(c),
        None => !s@.contains(c),
    },
{ s.split_once(c) }
#[verifier::external_body]
pub fn v_chars_vec(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// `Hasher`: what it is fed is what decides the hash.
pub trait VHasher { spec fn fed(&self) -> Seq<Seq<char>>; fn v_write(&mut self, s: &String) ensures final(self).fed() == old(self).fed().push(s@); }
pub trait VHash { spec fn vh(&self) -> Seq<char>; fn v_hash<H: VHasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed().push(self.vh()); }
impl VHash for String {
    open spec fn vh(&self) -> Seq<char> { self@ }
    fn v_hash<H: VHasher>(&self, state: &mut H) { state.v_write(self) }
}
/// `str::split(char)`: the pieces between the occurrences.
pub open spec fn first_c(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let i = first_c(s.skip(1), c); if i < 0 { -1 } else { i + 1 } }
}
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    let i = first_c(s, c);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.take(i)] + pieces(s.skip(i + 1), c) }
}
/// `s.split(c)`, collected.
#[verifier::external_body]
pub fn v_split_vec<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures str_views(r@) == pieces(s@, c) { unimplemented!() }
pub open spec fn str_views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
/// `Into`
pub trait VInto<T>: Sized { spec fn vinto(&self, t: T) -> bool; fn v_into(self) -> (r: T) ensures self.vinto(r); }
impl VInto<Box<str>> for &str {
    open spec fn vinto(&self, t: Box<str>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Box<str>) { unimplemented!() }
}
impl VInto<Box<str>> for String {
    open spec fn vinto(&self, t: Box<str>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Box<str>) { unimplemented!() }
}
impl<T> VInto<Box<[T]>> for Vec<T> {
    open spec fn vinto(&self, t: Box<[T]>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Box<[T]>) { unimplemented!() }
}
impl<T, const N: usize> VInto<Box<[T]>> for [T; N] {
    open spec fn vinto(&self, t: Box<[T]>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Box<[T]>) { unimplemented!() }
}
impl VInto<Box<[u8]>> for &[u8] {
    open spec fn vinto(&self, t: Box<[u8]>) -> bool { t@ == self@ }
    #[verifier::external_body]
    fn v_into(self) -> (r: Box<[u8]>) { unimplemented!() }
}
/// `s.chars().filter(f).collect::<String>()`
#[verifier::external_body]
pub fn v_filter_chars<F: Fn(&char) -> bool>(s: &str, Ghost(p): Ghost<spec_fn(char) -> bool>, f: F) -> (r: String)
    requires forall|c: char| #[trigger] f.requires((&c,)), forall|c: char, b: bool| #[trigger] f.ensures((&c,), b) ==> b == p(c),
    ensures r@ == s@.filter(p),
{ unimplemented!() }
/// `String::from_utf8_lossy`
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn v_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
/// `Box::<[T]>::default()`
#[verifier::external_body]
pub fn v_default_box<T>() -> (r: Box<[T]>) ensures r@ == Seq::<T>::empty() { Default::default() }
/// Strings are their characters.
pub broadcast axiom fn axiom_str_ext(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn digit_v(c: char) -> nat { (c as u32 - '0' as u32) as nat }
/// The number that decimal digits write.
pub open spec fn dec(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + digit_v(s.last()) }
}
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit_c(#[trigger] s[i]) }
/// `FromStr`, `str::parse`
pub trait VFromStr: Sized { type VErr; spec fn vparsed(s: Seq<char>, r: Result<Self, Self::VErr>) -> bool; fn v_from_str(s: &str) -> (r: Result<Self, Self::VErr>) ensures Self::vparsed(s@, r); }
pub trait VParse { spec fn vpv(&self) -> Seq<char>; fn v_parse<T: VFromStr>(&self) -> (r: Result<T, T::VErr>) ensures T::vparsed(self.vpv(), r); }
impl VParse for str {
    open spec fn vpv(&self) -> Seq<char> { self@ }
    fn v_parse<T: VFromStr>(&self) -> (r: Result<T, T::VErr>) { T::v_from_str(self) }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct VIntErr {}
impl VFromStr for u64 {
    type VErr = VIntErr;
    open spec fn vparsed(s: Seq<char>, r: Result<u64, VIntErr>) -> bool {
        digits(s) ==> match r { Ok(n) => s.len() > 0 && n == dec(s), Err(_) => s.len() == 0 || dec(s) > u64::MAX }
    }
    #[verifier::external_body]
    fn v_from_str(s: &str) -> (r: Result<u64, VIntErr>) { unimplemented!() }
}
// ---- end of trusted string wrappers ----
proof fn lemma_first_c(s: Seq<char>, c: char)
    ensures -1 <= first_c(s, c) < s.len(), first_c(s, c) >= 0 ==> s[first_c(s, c)] == c,
        forall|j: int| 0 <= j < s.len() && (first_c(s, c) < 0 || j < first_c(s, c)) ==> s[j] != c,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first_c(s.skip(1), c);
        assert forall|j: int| 0 <= j < s.len() && (first_c(s, c) < 0 || j < first_c(s, c)) implies s[j] != c by {
            if j > 0 { assert(s.skip(1)[j - 1] == s[j]); }
        }
    }
}
proof fn lemma_pieces(s: Seq<char>, c: char)
    ensures pieces(s, c).len() > 0, forall|i: int| 0 <= i < pieces(s, c).len() ==> !(#[trigger] pieces(s, c)[i]).contains(c)
    decreases s.len()
{
    lemma_first_c(s, c);
    let i = first_c(s, c);
    if i >= 0 && i < s.len() {
        lemma_pieces(s.skip(i + 1), c);
        assert forall|k: int| 0 <= k < pieces(s, c).len() implies !(#[trigger] pieces(s, c)[k]).contains(c) by {
            if k > 0 { assert(pieces(s, c)[k] == pieces(s.skip(i + 1), c)[k - 1]); }
        }
    }
}
