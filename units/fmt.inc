// ---- trusted: `format!` and `write!` to a `String`, one append per piece ----
/// `Display`
pub trait VDisp { spec fn vd(&self) -> Seq<char>; }
impl VDisp for str { open spec fn vd(&self) -> Seq<char> { self@ } }
impl VDisp for String { open spec fn vd(&self) -> Seq<char> { self@ } }
impl VDisp for Box<str> { open spec fn vd(&self) -> Seq<char> { self@ } }
impl<T: VDisp + ?Sized> VDisp for &T { open spec fn vd(&self) -> Seq<char> { (**self).vd() } }
#[derive(Debug)]
pub struct VFmtError { e: u8 }
pub trait VPut {
    spec fn vput(&self) -> Seq<char>;
    fn v_put(&mut self, s: &str) ensures final(self).vput() == old(self).vput() + s@;
    fn v_put_d<D: VDisp + ?Sized>(&mut self, d: &D) ensures final(self).vput() == old(self).vput() + d.vd();
}
impl VPut for String {
    open spec fn vput(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_put(&mut self, s: &str) { self.push_str(s) }
    #[verifier::external_body]
    fn v_put_d<D: VDisp + ?Sized>(&mut self, d: &D) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_new_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn v_fmt_ok() -> (r: Result<(), VFmtError>) ensures r is Ok { Ok(()) }
// ---- end of trusted ----
