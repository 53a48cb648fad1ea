@@method as_ref v_as_ref
@@method to_ascii_lowercase v_to_ascii_lowercase
@@method eq_ignore_ascii_case v_eq_ignore_ascii_case
@@method is_ascii_graphic v_is_ascii_graphic
@@method is_ascii_alphanumeric v_is_ascii_alphanumeric
@@method is_ascii_digit v_is_ascii_digit
@@method is_ascii v_is_ascii
@@method starts_with v_starts_with
@@method ends_with v_ends_with
@@method strip_prefix v_strip_prefix
@@method strip_suffix v_strip_suffix
@@include names_types.inc
// ---- trusted: the idna crate, and more of core::str ----
/// The A-label form (IDNA ToASCII), and whether the U-label form is without error.
pub uninterp spec fn idna_a(s: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn idna_u_ok(s: Seq<char>) -> bool;
pub uninterp spec fn idna_u(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
#[derive(Debug)]
pub struct VIdnaErrors {}
#[verifier::external_body]
pub fn v_domain_to_ascii(s: &str) -> (r: Result<String, VIdnaErrors>)
    ensures match r { Ok(t) => idna_a(s@) == Some(t@), Err(_) => idna_a(s@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn v_domain_to_unicode(s: &str) -> (r: (String, Result<(), VIdnaErrors>))
    ensures r.0@ == idna_u(s@), r.1 is Ok == idna_u_ok(s@)
{ unimplemented!() }
/// The A-label form is ASCII.
pub broadcast axiom fn axiom_idna_ascii(s: Seq<char>)
    ensures (#[trigger] idna_a(s)) matches Some(t) ==> forall|i: int| 0 <= i < t.len() ==> is_ascii_c(#[trigger] t[i]);
/// IDNA maps the two cases of an ASCII letter alike.
pub axiom fn axiom_idna_case(a: Seq<char>, b: Seq<char>)
    requires lower(a) == lower(b)
    ensures idna_a(a) == idna_a(b);
pub trait VSplitAt { spec fn vsa(&self) -> Seq<char>; fn v_split_at(&self, n: usize) -> (r: (&str, &str))
    requires boundary(self.vsa(), n as nat),
    ensures exists|k: int| 0 <= k <= self.vsa().len() && n == ulen(#[trigger] self.vsa().take(k)) && r.0@ == self.vsa().take(k) && r.1@ == self.vsa().skip(k); }
impl VSplitAt for str {
    open spec fn vsa(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split_at(&self, n: usize) -> (r: (&str, &str)) { self.split_at(n) }
}
/// `s.split(c).rev()`: the pieces, last first.
#[verifier::external_body]
pub struct VRevSplit<'a> { s: std::iter::Rev<std::str::Split<'a, char>> }
impl<'a> View for VRevSplit<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> VRevSplit<'a> {
    #[verifier::external_body]
    pub fn v_new(s: &'a str, c: char) -> (r: Self) ensures r@ == pieces(s@, c).reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(c) => old(self)@.len() > 0 && c@ == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(&'a str) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: &'a str| old(self)@.contains(x@) ==> #[trigger] f.requires((x,)),
        ensures r ==> forall|i: int| 0 <= i < old(self)@.len() ==> exists|x: &'a str| x@ == #[trigger] old(self)@[i] && f.ensures((x,), true),
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && exists|x: &'a str| x@ == #[trigger] old(self)@[i] && f.ensures((x,), false),
    { unimplemented!() }
}
pub trait VContains { spec fn vct(&self) -> Seq<char>; fn v_contains_c(&self, c: char) -> (r: bool) ensures r == self.vct().contains(c); }
impl VContains for str {
    open spec fn vct(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_contains_c(&self, c: char) -> (r: bool) { self.contains(c) }
}
/// `str::rsplit_once(char)`: cut at the last occurrence.
#[verifier::external_body]
pub fn v_rsplit_once(s: &str, c: char) -> (r: Option<(&str, &str)>)
    ensures match r {
        Some((a, b)) => s@ == a@ + seq![c] + b@ && !b@.contains(c),
        None => !s@.contains(c),
    },
{ s.rsplit_once(c) }
// ================= Names: RFC 5321 2.3.5, RFC 1035, RFC 5891 =================
pub open spec fn ldhu(c: char) -> bool { is_alpha_c(c) || is_digit_c(c) || c == '-' || c == '_' }
pub open spec fn label_ok(l: Seq<char>) -> bool {
    1 <= ulen(l) <= 63 && l[0] != '-' && l.last() != '-' && forall|i: int| 0 <= i < l.len() ==> ldhu(#[trigger] l[i])
}
pub open spec fn all_digits(l: Seq<char>) -> bool { forall|i: int| 0 <= i < l.len() ==> is_digit_c(#[trigger] l[i]) }
/// `top`: the top label must not be all digits.
pub open spec fn dns_ok(s: Seq<char>, top: bool) -> bool {
    let ls = pieces(s, '.');
    1 <= ulen(s) <= 253 && (forall|i: int| 0 <= i < ls.len() ==> label_ok(#[trigger] ls[i])) && (top ==> !all_digits(ls.last()))
}
pub open spec fn name_valid(s: Seq<char>, top: bool) -> bool { (idna_a(s) matches Some(t) && dns_ok(t, top)) && idna_u_ok(s) }
@@fn signature.rs::has_valid_domain_len
@ret r
@replace s.len() => v_slen(s)
@spec
    ensures r == (1 <= ulen(s@) <= 253),
@@end
@@fn signature.rs::has_valid_label_len
@ret r
@replace s.len() => v_slen(s)
@spec
    ensures r == (1 <= ulen(s@) <= 63),
@@end
@@fn signature.rs::is_label
@ret r
@replace s.contains('.') => s.v_contains_c('.')
@replace s.chars().all(|$i_c: char| $e) => v_chars_all(s, |$i_c: char| -> (v_r: bool) ensures v_r == ldhu($i_c) { $e })
@spec
    requires !s@.contains('.'),
    ensures r == label_ok(s@),
@head
    proof {
        lemma_ulen_pos(s@);
        if s@.len() > 0 { assert(s@.take(1)[0] == s@[0]); assert(s@.skip(s@.len() - 1)[0] == s@.last()); }
        else { assert(s@ =~= Seq::<char>::empty()); lemma_ulen_empty(); }
    }
@@end
@@fn signature.rs::is_valid_dns_name
@ret r
@replace s.split('.').rev() => VRevSplit::v_new(s, '.')
@replace final_label.chars().all(|$i_c| $e) => v_chars_all(final_label, |$i_c: char| -> (v_r: bool) ensures v_r == is_digit_c($i_c) { $e })
@spec
    ensures r == dns_ok(s@, check_tld),
@head
    proof {
        lemma_pieces(s@, '.');
        let ps = pieces(s@, '.');
        let rv = ps.reverse();
        assert(rv[0] == ps.last());
        assert forall|x: Seq<char>| rv.skip(1).contains(x) implies !x.contains('.') by {
            let i = choose|i: int| 0 <= i < rv.skip(1).len() && rv.skip(1)[i] == x;
            assert(rv.skip(1)[i] == ps[ps.len() - 2 - i]);
        }
        assert forall|i: int| 0 <= i < ps.len() - 1 implies #[trigger] ps[i] == rv.skip(1)[ps.len() - 2 - i] by {}
        assert forall|i: int| 0 <= i < rv.skip(1).len() implies #[trigger] rv.skip(1)[i] == ps[ps.len() - 2 - i] by {}
    }
@@end
@@fn signature.rs::is_valid_domain_string
@ret r
@replace idna::domain_to_ascii => v_domain_to_ascii
@replace idna::domain_to_unicode => v_domain_to_unicode
@spec
    ensures r == name_valid(s@, check_tld),
@@end
@@fn signature.rs::is_valid_domain_name
@ret r
@spec
    ensures r == name_valid(s@, true),
@@end
@@fn signature.rs::is_valid_selector
@ret r
@spec
    ensures r == name_valid(s@, false),
@@end
pub open spec fn domain_ok(d: DomainName) -> bool { name_valid(d.0@, true) }
pub open spec fn selector_ok(d: Selector) -> bool { name_valid(d.0@, false) }
/// "the same as, or a subdomain of": on the A-label forms.
pub open spec fn a_form(s: Seq<char>) -> Seq<char> { lower(idna_a(s)->0) }
pub open spec fn at_or_below(a: Seq<char>, b: Seq<char>) -> bool {
    a == b || (a.len() > b.len() && a.skip(a.len() - b.len()) == b && a[a.len() - b.len() - 1] == '.')
}
proof fn lemma_ulen_empty() ensures ulen(Seq::<char>::empty()) == 0, utf8(Seq::<char>::empty()) == Seq::<u8>::empty()
{
    vstd::utf8::encode_utf8_concat(Seq::<char>::empty(), Seq::<char>::empty());
    assert(Seq::<char>::empty() + Seq::<char>::empty() =~= Seq::<char>::empty());
}
proof fn lemma_ascii_len(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_ascii_c(#[trigger] s[i])
    ensures ulen(s) == s.len(), forall|k: int| 0 <= k <= s.len() ==> ulen(#[trigger] s.take(k)) == k
{
    vstd::utf8::is_ascii_chars_encode_utf8(s);
    assert forall|k: int| 0 <= k <= s.len() implies ulen(#[trigger] s.take(k)) == k by { vstd::utf8::is_ascii_chars_encode_utf8(s.take(k)); }
}
impl VAsStr for DomainName {
    open spec fn vstr(&self) -> Seq<char> { self.0@ }
@@fn signature.rs::DomainName::as_ref as v_as_ref
@nopub
@ret r
@@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for DomainName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &DomainName) -> bool { lower(self.0@) == lower(other.0@) }
}
impl PartialEq for DomainName {
@@fn signature.rs::DomainName<PartialEq>::eq
@nopub
@ret r
@@end
}
impl VFromStr for DomainName {
    type VErr = ParseDomainError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, ParseDomainError>) -> bool {
        match r { Ok(d) => d.0@ == s && name_valid(s, true), Err(_) => !name_valid(s, true) }
    }
@@fn signature.rs::DomainName<FromStr>::from_str as v_from_str
@nopub
@ret r
@replace s.into() => v_box_str(s)
@replace Self::Err => Self::VErr
@@end
}
impl DomainName {
@@fn signature.rs::DomainName::new
@ret r
@replace impl Into<Box<str>> => Box<str>
@replace s.into() => s
@spec
    ensures match r { Ok(d) => d.0@ == s@ && domain_ok(d), Err(_) => !name_valid(s@, true) },
@@end
@@fn signature.rs::DomainName::to_ascii
@ret r
@replace idna::domain_to_ascii => v_domain_to_ascii
@spec
    requires domain_ok(*self),
    ensures idna_a(self.0@) == Some(r@),
@@end
@@fn signature.rs::DomainName::to_unicode
@ret r
@replace idna::domain_to_unicode => v_domain_to_unicode
@spec
    ensures r@ == idna_u(self.0@),
@@end
@@fn signature.rs::DomainName<Hash>::hash as v_hash_domain
@nopub
@replace Hasher => VHasher
@replace .hash(state) => .v_hash(state)
@spec
    ensures final(state).fed() == old(state).fed().push(lower(self.0@)),
@@end
@@fn signature.rs::DomainName::eq_or_subdomain_of
@ret r
@replace $i_n.len() => v_slen(&$i_n)
@replace $i_n.split_at($e) => $i_n.v_split_at($e)
@spec
    requires domain_ok(*self), domain_ok(*other),
    ensures r == at_or_below(a_form(self.0@), a_form(other.0@)),
@head
    proof {
        broadcast use axiom_idna_ascii;
        let (a, b) = (idna_a(self.0@)->0, idna_a(other.0@)->0);
        lemma_ascii_len(a);
        lemma_ascii_len(b);
        if lower(self.0@) == lower(other.0@) { axiom_idna_case(self.0@, other.0@); }
        let n = a.len() - b.len();
        assert forall|k: int| 0 <= k <= a.len() && ulen(#[trigger] a.take(k)) == n implies k == n by {}
        if n >= 0 {
            assert(boundary(a, n as nat)) by { assert(ulen(a.take(n)) == n); }
            assert(lower(a.skip(n)) =~= lower(a).skip(n));
            assert(a.take(n).len() == 0 ==> a.skip(n) =~= a);
            if n > 0 {
                assert(a.take(n).skip(n - 1)[0] == a[n - 1]);
                assert(lower(a)[n - 1] == lower_c(a[n - 1]));
            }
            assert(a.take(n) =~= Seq::<char>::empty() <==> n == 0);
            if n == 0 { assert(lower(a).skip(0) =~= lower(a)); }
        } else { assert(lower(a).len() != lower(b).len()); }
    }
@@end
}
impl VAsStr for Selector {
    open spec fn vstr(&self) -> Seq<char> { self.0@ }
@@fn signature.rs::Selector::as_ref as v_as_ref
@nopub
@ret r
@@end
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Selector {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Selector) -> bool { lower(self.0@) == lower(other.0@) }
}
impl PartialEq for Selector {
@@fn signature.rs::Selector<PartialEq>::eq
@nopub
@ret r
@@end
}
impl VFromStr for Selector {
    type VErr = ParseDomainError;
    open spec fn vparsed(s: Seq<char>, r: Result<Self, ParseDomainError>) -> bool {
        match r { Ok(d) => d.0@ == s && name_valid(s, false), Err(_) => !name_valid(s, false) }
    }
@@fn signature.rs::Selector<FromStr>::from_str as v_from_str
@nopub
@ret r
@replace s.into() => v_box_str(s)
@replace Self::Err => Self::VErr
@@end
}
impl Selector {
@@fn signature.rs::Selector::new
@ret r
@replace impl Into<Box<str>> => Box<str>
@replace s.into() => s
@spec
    ensures match r { Ok(d) => d.0@ == s@ && selector_ok(d), Err(_) => !name_valid(s@, false) },
@@end
@@fn signature.rs::Selector::to_ascii
@ret r
@replace idna::domain_to_ascii => v_domain_to_ascii
@spec
    requires selector_ok(*self),
    ensures idna_a(self.0@) == Some(r@),
@@end
@@fn signature.rs::Selector::to_unicode
@ret r
@replace idna::domain_to_unicode => v_domain_to_unicode
@spec
    ensures r@ == idna_u(self.0@),
@@end
@@fn signature.rs::Selector<Hash>::hash as v_hash_selector
@nopub
@replace Hasher => VHasher
@replace .hash(state) => .v_hash(state)
@spec
    ensures final(state).fed() == old(state).fed().push(lower(self.0@)),
@@end
}
// ================= RFC 5321, 4.1.2 and RFC 6531, 3.3: local parts =================
pub open spec fn qtext(c: char) -> bool { (' ' <= c && c <= '~' && c != '"' && c != '\\') || !is_ascii_c(c) }
/// *QcontentSMTP: quoted pairs and text.
pub open spec fn qcontent(s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { true }
    else if s[0] == '\\' { s.len() >= 2 && ' ' <= s[1] && s[1] <= '~' && qcontent(s.skip(2)) }
    else { qtext(s[0]) && qcontent(s.skip(1)) }
}
pub open spec fn quoted_ok(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '"' && s.last() == '"' && qcontent(s.subrange(1, s.len() - 1)) }
pub open spec fn atext(c: char) -> bool {
    is_alpha_c(c) || is_digit_c(c) || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\'' || c == '*' || c == '+' || c == '-'
    || c == '/' || c == '=' || c == '?' || c == '^' || c == '_' || c == '`' || c == '{' || c == '|' || c == '}' || c == '~' || !is_ascii_c(c)
}
/// Atoms of one or more atext, with dots between.
pub open spec fn dot_ok(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] != '.' && s.last() != '.'
    && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '.' || atext(s[i]))
    && (forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] s[i] != '.' || s[i + 1] != '.')
}
pub open spec fn local_ok(s: Seq<char>) -> bool { ulen(s) <= 64 && (quoted_ok(s) || dot_ok(s)) }
/// The state of the reader: inside a quoted pair or not.
pub open spec fn qrest(quoted: bool, s: Seq<char>) -> bool {
    if quoted { s.len() >= 1 && ' ' <= s[0] && s[0] <= '~' && qcontent(s.skip(1)) } else { qcontent(s) }
}
@@fn signature.rs::is_quoted_string::is_qtext_smtp as is_qtext_smtp
@ret r
@spec
    ensures r == qtext(c),
@@end
@@fn signature.rs::is_quoted_string
@ret r
@replace .and_then(|s| $e) => .and_then(|s: &str| -> (v_r: Option<&str>) ensures match v_r { Some(t) => s@.len() > 0 && s@.last() == '"' && t@ == s@.drop_last(), None => s@.len() == 0 || s@.last() != '"' } { proof { if s@.len() > 0 { assert(s@.skip(s@.len() - 1)[0] == s@.last()); } } $e })
@spec
    ensures r == quoted_ok(s@),
@head
    let ghost s0 = s@;
    proof { if s0.len() > 0 { assert(s0.take(1)[0] == s0[0]); if s0.len() > 1 { assert(s0.skip(1).drop_last() =~= s0.subrange(1, s0.len() - 1)); } } }
@attr
#[verifier::loop_isolation(false)]
@loop 0 before
        proof { assert(v_seq0@.skip(0) =~= v_seq0@); }
@replace s.chars() => v_chars_vec(s)
@loop 0 index copy
@loop 0 spec
        invariant
            v_i0 <= v_seq0@.len(), v_seq0@ == s@, s@ == s0.subrange(1, s0.len() - 1), s0.len() >= 2, s0[0] == '"', s0.last() == '"',
            qrest(quoted, s@.skip(v_i0 as int)) == qcontent(s@),
        decreases v_seq0@.len() - v_i0,
@loop 0 head
        proof {
            let t = s@.skip(v_i0 as int);
            assert(t.skip(1) =~= s@.skip(v_i0 as int + 1));
            if t.len() > 1 { assert(t.skip(2) =~= t.skip(1).skip(1)); assert(t[1] == t.skip(1)[0]); }
        }
@@end
@@fn signature.rs::is_dot_string::is_atext as is_atext
@ret r
@spec
    ensures r == atext(c),
@@end
@@fn signature.rs::is_dot_string
@ret r
@replace s.chars() => v_chars_vec(s)
@loop 0 index copy
@loop 0 spec
        invariant
            v_i0 <= v_seq0@.len(), v_seq0@ == s@,
            dot == (v_i0 == 0 || s@[v_i0 - 1] == '.'),
            v_i0 > 0 ==> s@[0] != '.',
            forall|i: int| 0 <= i < v_i0 ==> #[trigger] s@[i] == '.' || atext(s@[i]),
            forall|i: int| 0 <= i < v_i0 - 1 ==> #[trigger] s@[i] != '.' || s@[i + 1] != '.',
        decreases v_seq0@.len() - v_i0,
@spec
    ensures r == dot_ok(s@),
@@end
@@fn signature.rs::is_local_part
@ret r
@replace s.len() => v_slen(s)
@spec
    ensures r == local_ok(s@),
@head
    proof { lemma_ulen_pos(s@); if s@.len() > 0 { assert(s@.take(1)[0] == s@[0]); } }
@@end
/// [ local-part ] "@" domain-name
pub open spec fn identity_parts(s: Seq<char>, l: Seq<char>, d: Seq<char>) -> bool {
    s == l + seq!['@'] + d && !d.contains('@') && (l.len() == 0 || local_ok(l)) && name_valid(d, true)
}
pub open spec fn identity_ok(i: Identity) -> bool { domain_ok(i.domain) && (i.local_part matches Some(l) ==> l@.len() > 0 && local_ok(l@)) }
impl Identity {
@@fn signature.rs::Identity::new
@ret r
@replace s.rsplit_once('@') => v_rsplit_once(s, '@')
@replace domain.parse() => domain.v_parse::<DomainName>()
@replace .map_err(|_| $e) => .map_err(|v_u| $e)
@replace local_part.map(Into::into) => v_map_box(local_part)
@spec
    ensures match r {
        Ok(i) => identity_ok(i) && identity_parts(s@, match i.local_part { Some(l) => l@, None => seq![] }, i.domain.0@),
        Err(_) => forall|l: Seq<char>, d: Seq<char>| !#[trigger] identity_parts(s@, l, d),
    },
@head
    proof {
        assert forall|l: Seq<char>, d: Seq<char>, l2: Seq<char>, d2: Seq<char>| s@ == #[trigger] (l + seq!['@'] + d) && !d.contains('@') && s@ == #[trigger] (l2 + seq!['@'] + d2) && !d2.contains('@') implies l == l2 && d == d2 by { lemma_last_at(s@, l, d, l2, d2); }
        assert forall|l: Seq<char>, d: Seq<char>| s@ == #[trigger] (l + seq!['@'] + d) implies s@.contains('@') by { assert(s@[l.len() as int] == '@'); }
    }
@@end
@@fn signature.rs::Identity::from_domain
@ret r
@spec
    ensures r.local_part is None, r.domain == domain,
@@end
}
#[verifier::external_body]
pub fn v_map_box(o: Option<&str>) -> (r: Option<Box<str>>)
    ensures match o { Some(s) => r is Some && r->0@ == s@, None => r is None }
{ o.map(Into::into) }
proof fn lemma_last_at(s: Seq<char>, l: Seq<char>, d: Seq<char>, l2: Seq<char>, d2: Seq<char>)
    requires s == l + seq!['@'] + d, !d.contains('@'), s == l2 + seq!['@'] + d2, !d2.contains('@')
    ensures l == l2, d == d2
{
    assert(s[l.len() as int] == '@' && s[l2.len() as int] == '@');
    if l.len() < l2.len() { assert(d[l2.len() - l.len() - 1] == '@'); }
    assert(s.len() == l.len() + 1 + d.len());
    assert(s.len() == l2.len() + 1 + d2.len());
    if l2.len() < l.len() { assert((l2 + seq!['@'] + d2)[l.len() as int] == d2[l.len() - l2.len() - 1]); assert(d2[l.len() - l2.len() - 1] == '@'); }
    assert(l =~= s.take(l.len() as int) && l2 =~= s.take(l.len() as int));
    assert(d =~= s.skip(l.len() as int + 1) && d2 =~= s.skip(l.len() as int + 1));
}
/// A domain is at or below itself; the relation is transitive on the A-label forms.
proof fn theorem_subdomain(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures at_or_below(a, a), at_or_below(a, b) && at_or_below(b, c) ==> at_or_below(a, c), at_or_below(a, b) && at_or_below(b, a) ==> a == b
{
    if at_or_below(a, b) && at_or_below(b, c) && a != b && b != c {
        assert(a.skip(a.len() - c.len()) =~= b.skip(b.len() - c.len()));
        assert(a[a.len() - c.len() - 1] == b[b.len() - c.len() - 1]);
    }
}
