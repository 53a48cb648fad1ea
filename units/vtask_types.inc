// ================= trusted: time, I/O errors, small std wrappers =================
pub struct VDuration { pub secs: u64, pub nanos: u32 }
impl VDuration {
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { self.secs }
}
impl Clone for VDuration { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VDuration {}
#[verifier::external_body]
pub struct VSystemTime { t: u8 }
impl Clone for VSystemTime { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for VSystemTime {}
#[verifier::external_body]
pub struct VSystemTimeError { t: u8 }
impl VSystemTime {
    /// Nanoseconds since the epoch.
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn now() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn epoch() -> (r: Self) ensures r.ns() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(&self, o: VSystemTime) -> (r: Result<VDuration, VSystemTimeError>)
        ensures match r { Ok(d) => self.ns() >= o.ns() && d.secs == (self.ns() - o.ns()) / 1_000_000_000, Err(_) => self.ns() < o.ns() }
    { unimplemented!() }
}
/// The seconds of a `SystemTime` are an `i64`.
pub axiom fn axiom_time(t: VSystemTime) ensures t.ns() < 0x8000_0000_0000_0000 * 1_000_000_000;
pub trait VUnwrapOrZero { spec fn vsecs(&self) -> u64; fn v_unwrap_or_default(self) -> (r: VDuration) ensures r.secs == self.vsecs(); }
impl VUnwrapOrZero for Result<VDuration, VSystemTimeError> {
    open spec fn vsecs(&self) -> u64 { match *self { Ok(d) => d.secs, Err(_) => 0 } }
    fn v_unwrap_or_default(self) -> (r: VDuration) { match self { Ok(d) => d, Err(_) => VDuration { secs: 0, nanos: 0 } } }
}
#[allow(dead_code)]
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum ErrorKind { NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported, UnexpectedEof, OutOfMemory, Other }
/// Stands for `io::Error`.
#[verifier::external_body]
pub struct VIoError { e: u8 }
impl VIoError {
    pub uninterp spec fn k(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
}
/// `[FieldName]::contains`
#[verifier::external_body]
pub fn v_contains_name(s: &[FieldName], n: &FieldName) -> (r: bool) ensures r == has_name(s@, *n) { unimplemented!() }
pub open spec fn has_name(s: Seq<FieldName>, n: FieldName) -> bool { exists|i: int| 0 <= i < s.len() && same_name(#[trigger] s[i], n) }
/// `[HashAlgorithm]::contains`
#[verifier::external_body]
pub fn v_contains_alg(s: &[HashAlgorithm], a: &HashAlgorithm) -> (r: bool) ensures r == s@.contains(*a) { unimplemented!() }
/// `s.iter().filter(f).count()`
#[verifier::external_body]
pub fn v_count_by<T, F: Fn(&T) -> bool>(s: &[T], Ghost(p): Ghost<spec_fn(T) -> bool>, f: F) -> (r: usize)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures r == s@.filter(p).len(),
{ unimplemented!() }
/// The positions, from the start, of the elements that satisfy `p`.
pub open spec fn places<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<int>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { let r = places(s.drop_last(), p); if p(s.last()) { r.push(s.len() - 1) } else { r } }
}
pub open spec fn first_n<T>(s: Seq<T>, n: usize) -> Seq<T> { if s.len() <= n { s } else { s.take(n as int) } }
/// `s.iter().enumerate().filter(f).take(n)`, collected.
#[verifier::external_body]
pub fn v_find_first<T, F: Fn(&T) -> bool>(s: &[T], Ghost(p): Ghost<spec_fn(T) -> bool>, f: F, n: usize) -> (r: Vec<(usize, &T)>)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures r@.len() == first_n(places(s@, p), n).len(),
        forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == first_n(places(s@, p), n)[k] && *r@[k].1 == s@[r@[k].0 as int],
{ unimplemented!() }
/// `v.into_iter().map(f).collect()`
#[verifier::external_body]
pub fn v_map_vec<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|x: A| #[trigger] f.requires((x,)),
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]),
{ unimplemented!() }
/// `clone` of an error.
#[verifier::external_body]
pub fn v_clone_err(e: &VerificationError) -> (r: VerificationError) ensures r == *e { unimplemented!() }
pub trait VOptRef<T> { spec fn vo(&self) -> Option<T>; fn v_as_ref(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vo() == Some(*x), None => self.vo() is None }; }
impl<T> VOptRef<T> for Option<T> {
    open spec fn vo(&self) -> Option<T> { *self }
    fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } }
}
/// `&mut v[i]`
#[verifier::external_body]
pub fn v_vec_mut<'a, T>(v: &'a mut Vec<T>, i: usize) -> (r: &'a mut T)
    requires i < old(v)@.len(),
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ &mut v[i] }
// ---- end of trusted ----
@@item verifier/mod.rs::Config
@replace Duration => VDuration
@replace SystemTime => VSystemTime
@@end
@@item verifier/header.rs::VerifyStatus
@@end
@@item verifier/header.rs::VerifyTask
@@end
@@item verifier/header.rs::HeaderVerifier
@@end
@@item verifier/header.rs::CachedDkimKeyRecord
@replace io::Result<String> => Result<String, VIoError>
@@end
@@item verifier/query.rs::QueryResult
@replace io::Result<Vec<io::Result<String>>> => Result<Vec<Result<String, VIoError>>, VIoError>
@@end
@@item signature.rs::DKIM_SIGNATURE_NAME
@replace &str => &'static str
@@end
