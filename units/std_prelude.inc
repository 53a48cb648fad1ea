// ---- trusted std wrappers (assumed contracts on the standard library) ----
pub trait VIntoBytes { spec fn vbytes(&self) -> Seq<u8>; }
impl VIntoBytes for [u8; 2] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl VIntoBytes for &[u8] { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl VIntoBytes for Vec<u8> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }
impl VIntoBytes for &Vec<u8> { open spec fn vbytes(&self) -> Seq<u8> { self@ } }

/// `Vec::<u8>::extend` for the iterables the code under test passes.
pub trait VExtend: Sized {
    spec fn vb(&self) -> Seq<u8>;
    fn v_extend<I: VIntoBytes>(&mut self, i: I)
        ensures final(self).vb() == old(self).vb() + i.vbytes();
}
impl VExtend for Vec<u8> {
    open spec fn vb(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_extend<I: VIntoBytes>(&mut self, i: I) { unimplemented!() }
}

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(),
        forall|i: int| 0 <= i < s@.len() ==> vstd::pervasive::cloned(s@[i], #[trigger] r@[i]);

/// `assert!(e)`: the obligation is that `e` holds.
pub fn v_runtime_assert(b: bool)
    requires b,
{
}

pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, p: P) -> (r: Option<T>)
    requires o matches Some(x) ==> p.requires((&x,)),
    ensures match o {
        None => r is None,
        Some(x) => (r == o && p.ensures((&x,), true)) || (r is None && p.ensures((&x,), false)),
    };
pub assume_specification<T> [Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    ensures r == if a is Some { a } else { b };
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r {
        None => s@.len() == 0,
        Some((l, rest)) => s@.len() > 0 && *l == s@.last() && rest@ == s@.take(s@.len() - 1),
    };

/// `AsRef<str>` / `AsRef<[u8]>` of the types in this unit.
pub trait VAsStr { spec fn vstr(&self) -> Seq<char>; fn v_as_ref(&self) -> (r: &str) ensures r@ == self.vstr(); }
pub trait VAsBytes { spec fn vby(&self) -> Seq<u8>; fn v_as_ref(&self) -> (r: &[u8]) ensures r@ == self.vby(); }
impl VAsStr for &str { open spec fn vstr(&self) -> Seq<char> { self@ } fn v_as_ref(&self) -> (r: &str) { *self } }
impl VAsBytes for &[u8] { open spec fn vby(&self) -> Seq<u8> { self@ } fn v_as_ref(&self) -> (r: &[u8]) { *self } }
impl VAsBytes for &str {
    open spec fn vby(&self) -> Seq<u8> { utf8(self@) }
    fn v_as_ref(&self) -> (r: &[u8]) { self.as_bytes() }
}

pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn lower_c(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u8) + 32u8) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_c(c)) }

/// The bytes of a string, `str::bytes`, as a slice.
pub trait VStr {
    spec fn vs(&self) -> Seq<char>;
    fn v_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.vs());
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self.vs());
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.vs()) == lower(o@));
}
impl VStr for str {
    open spec fn vs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_bytes(&self) -> (r: &[u8]) { self.as_bytes() }
    #[verifier::external_body]
    fn v_to_ascii_lowercase(&self) -> (r: String) { self.to_ascii_lowercase() }
    #[verifier::external_body]
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { self.eq_ignore_ascii_case(o) }
}
/// `&b[n..]`
#[verifier::external_body]
pub fn v_tail(b: &[u8], n: usize) -> (r: &[u8]) requires n <= b@.len(), ensures r@ == b@.skip(n as int) { &b[n..] }
// ---- end of trusted std wrappers ----
