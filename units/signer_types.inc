// ================= trusted: tag order, collections, small std wrappers =================
/// Stands for the comparator `Box<dyn Fn(&str, &str) -> Ordering + Send + Sync>`.
#[verifier::external_body]
pub struct VOrder { o: u8 }
impl VOrder {
    /// The first does not come after the second.
    pub uninterp spec fn le(&self, a: Seq<char>, b: Seq<char>) -> bool;
}
/// `AsRef<SigningKey>`
pub trait VAsKey { spec fn vkey(&self) -> crypto::SigningKey; fn v_as_ref(&self) -> (r: &crypto::SigningKey) ensures *r == self.vkey(); }
/// `HashSet<FieldName>`: field names are compared and hashed ignoring case (C15, C16).
#[verifier::external_body]
pub struct VNameSet { s: u8 }
impl View for VNameSet { type V = Seq<FieldName>; uninterp spec fn view(&self) -> Seq<FieldName>; }
#[verifier::external_body]
pub fn v_name_set(v: Vec<FieldName>) -> (r: VNameSet) ensures r@ == v@ { unimplemented!() }
impl VNameSet {
    #[verifier::external_body]
    pub fn contains(&self, n: &FieldName) -> (r: bool) ensures r == has_name(self@, *n) { unimplemented!() }
}
/// `s.iter().any(f)`
#[verifier::external_body]
pub fn v_any_by<T, F: Fn(&T) -> bool>(s: &[T], Ghost(p): Ghost<spec_fn(T) -> bool>, f: F) -> (r: bool)
    requires forall|x: T| #[trigger] f.requires((&x,)), forall|x: T, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures r == exists|i: int| 0 <= i < s@.len() && p(#[trigger] s@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_any_char<F: Fn(char) -> bool>(s: &str, Ghost(p): Ghost<spec_fn(char) -> bool>, f: F) -> (r: bool)
    requires forall|x: char| #[trigger] f.requires((x,)), forall|x: char, b: bool| #[trigger] f.ensures((x,), b) ==> b == p(x),
    ensures r == exists|i: int| 0 <= i < s@.len() && p(#[trigger] s@[i]),
{ unimplemented!() }
pub open spec fn ref_vals<T>(v: Seq<&T>) -> Seq<T> { v.map_values(|x: &T| *x) }
/// `s.iter().rev().filter_map(..)`, collected.
#[verifier::external_body]
pub fn v_rev_names<'a, F: Fn(&FieldName) -> bool>(s: &'a [HeaderField], Ghost(p): Ghost<spec_fn(FieldName) -> bool>, f: F) -> (r: Vec<&'a FieldName>)
    requires forall|x: FieldName| #[trigger] f.requires((&x,)), forall|x: FieldName, b: bool| #[trigger] f.ensures((&x,), b) ==> b == p(x),
    ensures ref_vals(r@) == names_up(s@).filter(p),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_is_empty_str(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn v_try_usize(n: u64) -> (r: Result<usize, VIntConvErr>) ensures match r { Ok(m) => m == n, Err(_) => n > usize::MAX } { unimplemented!() }
pub struct VIntConvErr { e: u8 }
// ---- end of trusted ----
/// The field names from the bottom up.
pub open spec fn names_up(hs: Seq<HeaderField>) -> Seq<FieldName> { hs.map_values(|f: HeaderField| f.0).reverse() }

@@item signer/mod.rs::BodyLength
@attr
#[derive(Clone, Copy)]
@@end
@@item signer/mod.rs::Timestamp
@attr
#[derive(Clone, Copy)]
@@end
@@item signer/mod.rs::HeaderSelection
@@end
@@item signer/mod.rs::RequestError
@@end
@@item signer/mod.rs::OutputFormat
@replace Box<dyn Fn(&str, &str) -> Ordering + Send + Sync> => VOrder
@replace NonZeroUsize => VNonZero
@@end
@@item signer/mod.rs::SignRequest
@replace Duration => VDuration
@@end
@@item signer/mod.rs::SigningError
@@end
@@item signer/mod.rs::SigningOutput
@@end
@@item signer/mod.rs::SignerTask
@@end
@@item signer/mod.rs::Signer
@@end
/// Stands for `NonZeroUsize`.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VNonZero { n: u8 }
impl VNonZero { pub uninterp spec fn n(&self) -> nat; }
pub axiom fn axiom_nonzero(x: VNonZero) ensures 0 < x.n() <= usize::MAX;
