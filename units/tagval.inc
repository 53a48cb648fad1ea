// ================= values of tags =================
/// FWS around an item is not part of it.
pub open spec fn trim(s: Seq<char>) -> Seq<char> { let t = after_fws(s); t.take(t.len() - rn_fws(t)) }
pub open spec fn items(v: Seq<char>) -> Seq<Seq<char>> { pieces(v, ':').map_values(|s: Seq<char>| trim(s)) }
pub open spec fn no_ws(v: Seq<char>) -> Seq<char> { v.filter(|c: char| !(c == ' ' || c == '\t' || c == '\r' || c == '\n')) }
/// Case-insensitively equal.
pub open spec fn eq_ic(a: Seq<char>, b: Seq<char>) -> bool { lower(a) == lower(b) }
// ---- trusted: the base64ct crate ----
pub uninterp spec fn b64(s: Seq<char>) -> Option<Seq<u8>>;
#[verifier::external_body]
#[derive(Debug)]
pub struct VB64Err {}
#[verifier::external_body]
pub fn v_b64_decode_vec(s: &str) -> (r: Result<Vec<u8>, VB64Err>)
    ensures match r { Ok(v) => b64(s@) == Some(v@), Err(_) => b64(s@) is None }
{ unimplemented!() }
// ----
@@item util.rs::Base64Error
@@end
@@fn util.rs::decode_base64
@ret r
@replace Base64::decode_vec => v_b64_decode_vec
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: Base64Error) { $e })
@spec
    ensures match r { Ok(v) => b64(input@) == Some(v@), Err(_) => b64(input@) is None },
@@end
@@fn tag_list.rs::trim_surrounding_fws
@ret r
@spec
    ensures r@ == trim(s@),
@head
    proof {
        lemma_after_fws();
        assert forall|t: Seq<char>| true implies #[trigger] rn_fws(t) <= t.len() by { lemma_rn_fws(t); }
        assert forall|t: Seq<char>| true implies #[trigger] t.take(t.len() - 0) == t by { assert(t.take(t.len() as int) =~= t); }
    }
@@end
proof fn lemma_rn_fws(s: Seq<char>) ensures rn_fws(s) <= s.len()
{
    lemma_rrun(fw(), s);
    let a = rn_wsp(s);
    let t = s.take(s.len() - a);
    if t.len() >= 2 { lemma_rrun(fw(), t.take(t.len() - 2)); }
}
@@fn tag_list.rs::parse_colon_separated_value
@ret r
@replace $i_v.split(':').map($i_f).collect() =>
{
    let v_p = v_split_vec($i_v, ':');
    let mut v_r: Vec<&str> = Vec::new();
    let mut v_i: usize = 0;
    while v_i < v_p.len()
        invariant v_i <= v_p@.len(), str_views(v_p@) == pieces($i_v@, ':'), str_views(v_r@) == items($i_v@).take(v_i as int),
        decreases v_p@.len() - v_i,
    {
        v_probe!();
        let ghost v_g = v_r@;
        proof { assert(str_views(v_p@)[v_i as int] == v_p@[v_i as int]@); assert(str_views(v_p@).len() == v_p@.len()); }
        v_r.push($i_f(v_p[v_i]));
        proof {
            assert(str_views(v_r@) =~= str_views(v_g).push(v_r@.last()@));
            assert(items($i_v@).take(v_i as int + 1) =~= items($i_v@).take(v_i as int).push(items($i_v@)[v_i as int]));
        }
        v_i += 1;
    }
    proof { assert(str_views(v_p@).len() == v_p@.len()); assert(items($i_v@).take(v_i as int) =~= items($i_v@)); }
    v_r
}
@spec
    requires tag_value_ok(value@),
    ensures str_views(r@) == items(value@),
@head
    proof { assert(items(value@).take(0) =~= str_views(Seq::<&str>::empty())); }
@@end
@@fn tag_list.rs::parse_base64_value
@ret r
@replace value .chars() .filter(|$i_c| $e) .collect() => v_filter_chars(value, Ghost(|c: char| !(c == ' ' || c == '\t' || c == '\r' || c == '\n')), |v_c: &char| -> (v_b: bool) ensures v_b == !(*v_c == ' ' || *v_c == '\t' || *v_c == '\r' || *v_c == '\n') { let $i_c = *v_c; $e })
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: ParseTagListError) { $e })
@replace util::decode_base64 => decode_base64
@spec
    requires tag_value_ok(value@),
    ensures match r { Ok(v) => b64(no_ws(value@)) == Some(v@), Err(_) => b64(no_ws(value@)) is None },
@@end
@@fn tag_list.rs::parse_qp_section_value
@ret r
@replace quoted_printable::decode_qp_section => decode_qp_section
@replace .map_err(|_| $e) => .map_err(|v_u| -> (v_e: ParseTagListError) { $e })
@spec
    requires tag_value_ok(value@),
    ensures match r { Ok(v) => qp_section(value@) == Some(v@), Err(_) => qp_section(value@) is None },
@@end
/// The values in a list of tags are tag values.
pub open spec fn values_ok(tags: Seq<Tag>) -> bool { forall|i: int| 0 <= i < tags.len() ==> tag_value_ok(#[trigger] tags[i].value) }
pub proof fn lemma_values_ok(s: Seq<char>, tags: Seq<Tag>)
    requires tag_list_ok(s, tags)
    ensures values_ok(tags), tags.len() > 0,
    decreases tags.len()
{
    if tags.len() > 1 {
        let n = choose|n: int| 0 <= n < s.len() && s[n] == ';' && #[trigger] tag_spec_ok(s.take(n), tags[0]) && tag_list_ok(s.skip(n + 1), tags.skip(1));
        lemma_values_ok(s.skip(n + 1), tags.skip(1));
        assert forall|i: int| 0 <= i < tags.len() implies tag_value_ok(#[trigger] tags[i].value) by {
            if i > 0 { assert(tags.skip(1)[i - 1] == tags[i]); }
        }
    }
}
impl<'a> TagList<'a> {
@@fn tag_list.rs::TagList::as_ref as v_as_ref
@nopub
@ret r
@spec
    ensures r@ == self.0@,
@@end
}
/// The value of the tag of that name.
pub open spec fn lookup(tags: Seq<Tag>, name: Seq<char>) -> Option<Seq<char>>
    decreases tags.len()
{
    if tags.len() == 0 { None } else if tags.last().name == name { Some(tags.last().value) } else { lookup(tags.drop_last(), name) }
}
/// With distinct names: there is such a tag exactly when it is found.
pub proof fn theorem_lookup(tags: Seq<Tag>, name: Seq<char>)
    requires distinct_names(tags)
    ensures lookup(tags, name) matches Some(v) ==> exists|i: int| 0 <= i < tags.len() && #[trigger] tags[i] == (Tag { name, value: v }),
        forall|i: int| 0 <= i < tags.len() && #[trigger] tags[i].name == name ==> lookup(tags, name) == Some(tags[i].value),
    decreases tags.len()
{
    if tags.len() > 0 {
        let t = tags.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i].name != t[j].name by { assert(tags[i].name != tags[j].name); }
        theorem_lookup(t, name);
        assert forall|i: int| 0 <= i < tags.len() && #[trigger] tags[i].name == name implies lookup(tags, name) == Some(tags[i].value) by {
            if i < tags.len() - 1 { assert(t[i] == tags[i]); assert(tags.last().name != name); }
        }
        if let Some(v) = lookup(tags, name) {
            if tags.last().name == name { assert(tags[tags.len() - 1] == (Tag { name, value: v })); }
            else { let i = choose|i: int| 0 <= i < t.len() && #[trigger] t[i] == (Tag { name, value: v }); assert(tags[i] == t[i]); }
        }
    }
}
/// The other tags, in order.
pub open spec fn others(tags: Seq<Tag>, known: ISet<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)>
    decreases tags.len()
{
    if tags.len() == 0 { seq![] }
    else { let r = others(tags.drop_last(), known); if known.contains(tags.last().name) { r } else { r.push((tags.last().name, tags.last().value)) } }
}
pub open spec fn ext_view(e: Seq<(Box<str>, Box<str>)>) -> Seq<(Seq<char>, Seq<char>)> { e.map_values(|p: (Box<str>, Box<str>)| (p.0@, p.1@)) }
/// `tags.take(i + 1)` and `tags.take(i)`.
proof fn lemma_take_next(tags: Seq<Tag>, i: int)
    requires 0 <= i < tags.len()
    ensures
        forall|n: Seq<char>| #[trigger] lookup(tags.take(i + 1), n) == if tags[i].name == n { Some(tags[i].value) } else { lookup(tags.take(i), n) },
        forall|k: ISet<Seq<char>>| #[trigger] others(tags.take(i + 1), k) == if k.contains(tags[i].name) { others(tags.take(i), k) } else { others(tags.take(i), k).push((tags[i].name, tags[i].value)) },
{
    assert(tags.take(i + 1).drop_last() =~= tags.take(i));
}
pub proof fn lemma_lookup_none()
    ensures forall|n: Seq<char>| #[trigger] lookup(Seq::<Tag>::empty(), n) is None, forall|k: ISet<Seq<char>>| #[trigger] others(Seq::<Tag>::empty(), k) == Seq::<(Seq<char>, Seq<char>)>::empty(),
{}
proof fn lemma_take_item(l: Seq<Seq<char>>, i: int)
    requires 0 <= i < l.len()
    ensures l.take(i + 1).last() == l[i], l.take(i + 1).drop_last() == l.take(i), l.take(i + 1).len() == i + 1,
{
    assert(l.take(i + 1).drop_last() =~= l.take(i));
}
pub open spec fn has_empty(l: Seq<Seq<char>>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).len() == 0 }
