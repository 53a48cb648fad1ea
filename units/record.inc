@@method into v_into
@@method as_ref v_as_ref
@@method eq_ignore_ascii_case v_eq_ignore_ascii_case
impl HashAlgorithm {
@@fn crypto/mod.rs::HashAlgorithm::all
@ret r
@spec
    ensures r@ == all_hashes(),
@@end
}
// ================= RFC 6376, 3.6.1 =================
pub open spec fn all_hashes() -> Seq<HashAlgorithm> { seq![HashAlgorithm::Sha256] }
pub open spec fn hashes(l: Seq<Seq<char>>) -> Seq<HashAlgorithm>
    decreases l.len()
{
    if l.len() == 0 { seq![] }
    else { let r = hashes(l.drop_last()); if eq_ic(l.last(), "sha256"@) { r.push(HashAlgorithm::Sha256) } else { r } }
}
pub open spec fn services(l: Seq<Seq<char>>) -> Seq<ServiceType>
    decreases l.len()
{
    if l.len() == 0 { seq![] }
    else {
        let r = services(l.drop_last());
        if l.last() == "*"@ { r.push(ServiceType::Any) } else if eq_ic(l.last(), "email"@) { r.push(ServiceType::Email) } else { r }
    }
}
pub open spec fn flags_of(l: Seq<Seq<char>>) -> Seq<SelectorFlag>
    decreases l.len()
{
    if l.len() == 0 { seq![] }
    else {
        let r = flags_of(l.drop_last());
        if eq_ic(l.last(), "y"@) { r.push(SelectorFlag::Testing) } else if eq_ic(l.last(), "s"@) { r.push(SelectorFlag::NoSubdomains) } else { r }
    }
}
/// The rule that a tag violates, if any.
pub open spec fn rec_tag_err(i: int, t: Tag) -> Option<DkimKeyRecordError> {
    let v = t.value;
    if t.name == "v"@ {
        if i != 0 { Some(DkimKeyRecordError::MisplacedVersionTag) }
        else if v != "DKIM1"@ { Some(DkimKeyRecordError::IncompatibleVersion) }
        else { None }
    } else if t.name == "h"@ {
        if has_empty(items(v)) { Some(DkimKeyRecordError::InvalidHashAlgorithm) }
        else if hashes(items(v)).len() == 0 { Some(DkimKeyRecordError::NoSupportedHashAlgorithms) }
        else { None }
    } else if t.name == "k"@ {
        if eq_ic(v, "rsa"@) || eq_ic(v, "ed25519"@) { None } else { Some(DkimKeyRecordError::UnsupportedKeyType) }
    } else if t.name == "n"@ {
        if qp_section(v) is None { Some(DkimKeyRecordError::InvalidQuotedPrintable) } else { None }
    } else if t.name == "p"@ {
        if b64(no_ws(v)) is None { Some(DkimKeyRecordError::InvalidBase64) } else { None }
    } else if t.name == "s"@ {
        if has_empty(items(v)) { Some(DkimKeyRecordError::InvalidServiceType) }
        else if services(items(v)).len() == 0 { Some(DkimKeyRecordError::NoSupportedServiceTypes) }
        else { None }
    } else if t.name == "t"@ {
        if has_empty(items(v)) { Some(DkimKeyRecordError::InvalidFlag) } else { None }
    } else { None }
}
pub open spec fn rec_tags_ok(tags: Seq<Tag>, n: int) -> bool { forall|i: int| 0 <= i < n ==> rec_tag_err(i, #[trigger] tags[i]) is None }
/// A rule that the record violates.
pub open spec fn rec_violates(tags: Seq<Tag>, e: DkimKeyRecordError) -> bool {
    (exists|i: int| 0 <= i < tags.len() && rec_tag_err(i, #[trigger] tags[i]) == Some(e))
    || (e is MissingKeyTag && lookup(tags, "p"@) is None)
}
/// None.
pub open spec fn rec_ok(tags: Seq<Tag>) -> bool { rec_tags_ok(tags, tags.len() as int) && lookup(tags, "p"@) is Some }
proof fn theorem_rec_ok(tags: Seq<Tag>)
    ensures rec_ok(tags) <==> forall|e: DkimKeyRecordError| !rec_violates(tags, e)
{
    if !rec_tags_ok(tags, tags.len() as int) {
        let i = choose|i: int| 0 <= i < tags.len() && !(rec_tag_err(i, #[trigger] tags[i]) is None);
        assert(rec_violates(tags, rec_tag_err(i, tags[i])->0));
    }
    if lookup(tags, "p"@) is None { assert(rec_violates(tags, DkimKeyRecordError::MissingKeyTag)); }
}
pub open spec fn rec_known() -> ISet<Seq<char>> {
    ISet::new(|n: Seq<char>| n == "v"@ || n == "h"@ || n == "k"@ || n == "n"@ || n == "p"@ || n == "s"@ || n == "t"@)
}
pub open spec fn key_type_of(v: Seq<char>) -> KeyType { if eq_ic(v, "rsa"@) { KeyType::Rsa } else { KeyType::Ed25519 } }
/// What the record says.
pub open spec fn rec_data(tags: Seq<Tag>, r: DkimKeyRecord) -> bool {
    &&& r.hash_algorithms@ == match lookup(tags, "h"@) { Some(v) => hashes(items(v)), None => all_hashes() }
    &&& r.key_type == match lookup(tags, "k"@) { Some(v) => key_type_of(v), None => KeyType::Rsa }
    &&& match lookup(tags, "n"@) { Some(v) => r.notes matches Some(n) && n@ == lossy(qp_section(v)->0), None => r.notes is None }
    &&& r.key_data@ == b64(no_ws(lookup(tags, "p"@)->0))->0
    &&& r.service_types@ == match lookup(tags, "s"@) { Some(v) => services(items(v)), None => seq![ServiceType::Any] }
    &&& r.flags@ == match lookup(tags, "t"@) { Some(v) => flags_of(items(v)), None => seq![] }
    &&& ext_view(r.ext_tags@) == others(tags, rec_known())
}
proof fn lemma_lits()
    ensures "v"@ != "h"@, "v"@ != "k"@, "v"@ != "n"@, "v"@ != "p"@, "v"@ != "s"@, "v"@ != "t"@, "h"@ != "k"@, "h"@ != "n"@, "h"@ != "p"@, "h"@ != "s"@, "h"@ != "t"@, "k"@ != "n"@, "k"@ != "p"@, "k"@ != "s"@, "k"@ != "t"@, "n"@ != "p"@, "n"@ != "s"@, "n"@ != "t"@, "p"@ != "s"@, "p"@ != "t"@, "s"@ != "t"@,
{
    reveal_strlit("v"); assert("v"@[0] == 'v'); reveal_strlit("h"); assert("h"@[0] == 'h'); reveal_strlit("k"); assert("k"@[0] == 'k'); reveal_strlit("n"); assert("n"@[0] == 'n'); reveal_strlit("p"); assert("p"@[0] == 'p'); reveal_strlit("s"); assert("s"@[0] == 's'); reveal_strlit("t"); assert("t"@[0] == 't');
}
/// `[T]::contains`
#[verifier::external_body]
pub fn v_contains_flag(s: &[SelectorFlag], f: SelectorFlag) -> (r: bool) ensures r == exists|i: int| 0 <= i < s@.len() && s@[i] == f { unimplemented!() }
impl DkimKeyRecord {
@@fn record.rs::DkimKeyRecord::from_tag_list
@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(60)]
@ret r
@loops 4
@replace let mut hash_algorithms = None; => let mut hash_algorithms: Option<Box<[HashAlgorithm]>> = None;
@replace let mut key_type = None; => let mut key_type: Option<KeyType> = None;
@replace let mut notes = None; => let mut notes: Option<Box<str>> = None;
@replace let mut key_data = None; => let mut key_data: Option<Box<[u8]>> = None;
@replace let mut service_types = None; => let mut service_types: Option<Box<[ServiceType]>> = None;
@replace let mut flags = None; => let mut flags: Option<Box<[SelectorFlag]>> = None;
@replace let mut ext_tags = vec![]; => let mut ext_tags: Vec<(Box<str>, Box<str>)> = vec![];
@replace tag_list::parse_colon_separated_value => parse_colon_separated_value
@replace tag_list::parse_qp_section_value => parse_qp_section_value
@replace tag_list::parse_base64_value => parse_base64_value
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: DkimKeyRecordError) ensures v_e == $e { $e })
@replace String::from_utf8_lossy => v_lossy
@replace $i_x.unwrap_or_else(|| $e) => (match $i_x { Some(v_x) => v_x, None => $e })
@replace $i_x.unwrap_or_default() => (match $i_x { Some(v_x) => v_x, None => v_default_box() })
@spec
    requires values_ok(tags_of(tag_list.0@)), distinct_names(tags_of(tag_list.0@)),
    ensures match r { Ok(r) => rec_ok(tags_of(tag_list.0@)) && rec_data(tags_of(tag_list.0@), r), Err(e) => rec_violates(tags_of(tag_list.0@), e) },
@head
    hide(lookup); hide(others); hide(items); hide(qp_section); hide(lower);
    broadcast use axiom_str_ext;
    let ghost tags = tags_of(tag_list.0@);
    proof { lemma_lits(); assert(tags.take(0) =~= seq![]); assert(tags.take(tags.len() as int) =~= tags); lemma_lookup_none(); }
@loop 0 index
@loop 0 spec
    invariant
        v_i0 <= v_seq0@.len(), v_seq0@ == tag_list.0@,
        rec_tags_ok(tags, v_i0 as int),
        match lookup(tags.take(v_i0 as int), "h"@) { Some(v) => hash_algorithms matches Some(x) && x@ == hashes(items(v)), None => hash_algorithms is None },
        match lookup(tags.take(v_i0 as int), "k"@) { Some(v) => key_type matches Some(x) && x == key_type_of(v), None => key_type is None },
        match lookup(tags.take(v_i0 as int), "n"@) { Some(v) => notes matches Some(x) && x@ == lossy(qp_section(v)->0), None => notes is None },
        match lookup(tags.take(v_i0 as int), "p"@) { Some(v) => key_data matches Some(x) && x@ == b64(no_ws(v))->0, None => key_data is None },
        match lookup(tags.take(v_i0 as int), "s"@) { Some(v) => service_types matches Some(x) && x@ == services(items(v)), None => service_types is None },
        match lookup(tags.take(v_i0 as int), "t"@) { Some(v) => flags matches Some(x) && x@ == flags_of(items(v)), None => flags is None },
        ext_view(ext_tags@) == others(tags.take(v_i0 as int), rec_known()),
    decreases v_seq0@.len() - v_i0,
@loop 0 head
    let ghost gi = v_i0 as int;
    let ghost ext0 = ext_view(ext_tags@);
    proof {
        lemma_take_next(tags, gi);
        assert(tags[gi] == tag_of(v_seq0@[gi]));
        assert forall|v: Seq<char>| true implies #[trigger] items(v).take(0) == Seq::<Seq<char>>::empty() by { assert(items(v).take(0) =~= seq![]); }
    }
@loop 0 tail
    proof { assert(ext_view(ext_tags@) =~= if rec_known().contains(tags[gi].name) { ext0 } else { ext0.push((tags[gi].name, tags[gi].value)) }); }
@loop 1 index copy
@loop 1 spec
    invariant
        v_i1 <= v_seq1@.len(), str_views(v_seq1@) == items(value@), algs@ == hashes(items(value@).take(v_i1 as int)),
        forall|j: int| 0 <= j < v_i1 ==> (#[trigger] items(value@)[j]).len() > 0,
    decreases v_seq1@.len() - v_i1,
@loop 1 head
    proof { assert(str_views(v_seq1@).len() == v_seq1@.len()); assert(str_views(v_seq1@)[v_i1 as int] == v_seq1@[v_i1 as int]@); lemma_take_item(items(value@), v_i1 as int); }
@loop 1 after
    proof { assert(str_views(v_seq1@).len() == v_seq1@.len()); assert(items(value@).take(v_i1 as int) =~= items(value@)); }
@loop 2 index copy
@loop 2 spec
    invariant
        v_i2 <= v_seq2@.len(), str_views(v_seq2@) == items(value@), st@ == services(items(value@).take(v_i2 as int)),
        forall|j: int| 0 <= j < v_i2 ==> (#[trigger] items(value@)[j]).len() > 0,
    decreases v_seq2@.len() - v_i2,
@loop 2 head
    proof { assert(str_views(v_seq2@).len() == v_seq2@.len()); assert(str_views(v_seq2@)[v_i2 as int] == v_seq2@[v_i2 as int]@); lemma_take_item(items(value@), v_i2 as int); }
@loop 2 after
    proof { assert(str_views(v_seq2@).len() == v_seq2@.len()); assert(items(value@).take(v_i2 as int) =~= items(value@)); }
@loop 3 index copy
@loop 3 spec
    invariant
        v_i3 <= v_seq3@.len(), str_views(v_seq3@) == items(value@), fs@ == flags_of(items(value@).take(v_i3 as int)),
        forall|j: int| 0 <= j < v_i3 ==> (#[trigger] items(value@)[j]).len() > 0,
    decreases v_seq3@.len() - v_i3,
@loop 3 head
    proof { assert(str_views(v_seq3@).len() == v_seq3@.len()); assert(str_views(v_seq3@)[v_i3 as int] == v_seq3@[v_i3 as int]@); lemma_take_item(items(value@), v_i3 as int); }
@loop 3 after
    proof { assert(str_views(v_seq3@).len() == v_seq3@.len()); assert(items(value@).take(v_i3 as int) =~= items(value@)); }
@tail
    proof { assert(service_types@ =~= match lookup(tags, "s"@) { Some(v) => services(items(v)), None => seq![ServiceType::Any] }); }
@@end
@@fn record.rs::DkimKeyRecord::is_testing
@ret r
@replace $x.contains(&$i_a::$i_b) => v_contains_flag(&$x, $i_a::$i_b)
@spec
    ensures r == exists|i: int| 0 <= i < self.flags@.len() && self.flags@[i] == SelectorFlag::Testing,
@@end
@@fn record.rs::DkimKeyRecord<FromStr>::from_str
@ret r
@replace .map_err(|_| $e)? => .map_err(|v_u| -> (v_e: DkimKeyRecordError) ensures v_e == $e { $e })?
@replace Self::Err => DkimKeyRecordError
@spec
    ensures match r {
        Ok(r) => exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) && distinct_names(tags) && rec_ok(tags) && rec_data(tags, r),
        Err(e) => (e is TagListFormat && forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) ==> !distinct_names(tags))
            || exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) && distinct_names(tags) && rec_violates(tags, e),
    },
@head
    proof {
        assert forall|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) implies values_ok(tags) by { lemma_values_ok(s@, tags); }
        assert forall|a: Seq<Tag>, b: Seq<Tag>| #[trigger] tag_list_ok(s@, a) && #[trigger] tag_list_ok(s@, b) implies a == b by { theorem_tag_list(s@, a); theorem_tag_list(s@, b); }
    }
@@end
}
