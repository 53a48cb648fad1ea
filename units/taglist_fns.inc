@@item tag_list.rs::ParseTagListError
@@end
@@item tag_list.rs::TagSpec
@@end
@@item tag_list.rs::TagList
@@end
impl<'a> Clone for TagSpec<'a> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<'a> Copy for TagSpec<'a> {}
pub open spec fn tag_of(t: TagSpec) -> Tag { Tag { name: t.name@, value: t.value@ } }
pub open spec fn tags_of(t: Seq<TagSpec>) -> Seq<Tag> { t.map_values(|t: TagSpec| tag_of(t)) }
@@fn tag_list.rs::is_alpha
@ret r
@spec
    ensures r == is_alpha_c(c),
@@end
@@fn tag_list.rs::is_alphanum
@ret r
@spec
    ensures r == alnum_c(c),
@@end
@@fn tag_list.rs::is_tval_char
@ret r
@spec
    ensures r == tval_c(c),
@@end
@@fn tag_list.rs::strip_tag_name
@ret r
@spec
    ensures match r {
        Some((s, name)) => n_name(value@) > 0 && s@ =~= value@.skip(n_name(value@) as int) && name@ =~= value@.take(n_name(value@) as int),
        None => n_name(value@) == 0,
    },
@head
    proof { lemma_skips(); lemma_trim_all(fa()); lemma_run(fa(), value@); if value@.len() > 0 { lemma_run(fa(), value@.skip(1)); } }
@@end
@@fn tag_list.rs::strip_tag_name_and_equals
@ret r
@spec
    ensures match r {
        Some((s, name)) => p_name_eq(val@) == Some((s@, name@)),
        None => p_name_eq(val@) is None,
    },
@head
    proof {
        lemma_skips(); lemma_after_fws();
        lemma_run(fa(), after_fws(val@));
    }
@@end
@@fn tag_list.rs::strip_tag_value::strip_tval as strip_tval
@ret r
@replace .map(|s| $e) => .map(|s: &str| -> (v_r: &str) ensures v_r@ == s@.skip(run(ft(), s@) as int) { $e })
@spec
    ensures match r { Some(t) => run(ft(), s@) > 0 && t@ =~= s@.skip(run(ft(), s@) as int), None => run(ft(), s@) == 0 },
@head
    proof { lemma_trim_all(ft()); lemma_run(ft(), s@); if s@.len() > 0 { lemma_run(ft(), s@.skip(1)); } }
@@end
@@fn tag_list.rs::strip_tag_value
@ret r
@loops 1
@spec
    ensures match r {
        Some((s, v)) => n_value(value@) > 0 && s@ =~= value@.skip(n_value(value@) as int) && v@ =~= value@.take(n_value(value@) as int),
        None => n_value(value@) == 0,
    },
@head
    proof { lemma_skips(); lemma_run(ft(), value@); lemma_n_value(value@); }
@loop 0 spec
        invariant_except_break
            s@.len() <= value@.len(), s@ =~= value@.skip(value@.len() - s@.len()), s@.len() < value@.len(),
            n_value(value@) == value@.len() - s@.len() + n_cont(s@),
        ensures s@.len() <= value@.len(), s@ =~= value@.skip(value@.len() - s@.len()), n_value(value@) == value@.len() - s@.len(), n_value(value@) > 0,
        decreases s@.len(),
@loop 0 head
        proof { lemma_n_fws(s@); let b = n_fws(s@) as int; lemma_run(ft(), s@.skip(b)); lemma_n_value(s@); lemma_n_value(s@.skip(b)); }
@@end
@@fn tag_list.rs::strip_tag_spec
@ret r
@replace Default::default() => v_default_str()
@spec
    ensures match r {
        Some((s, t)) => p_spec(val@) == Some((s@, tag_of(t))),
        None => p_spec(val@) is None,
    },
@head
    proof { lemma_after_fws(); if let Some((r, n)) = p_name_eq(val@) { lemma_n_value(after_fws(r)); } }
@@end
pub open spec fn names_of(t: Seq<Tag>) -> ISet<Seq<char>> { ISet::new(|n: Seq<char>| exists|i: int| 0 <= i < t.len() && #[trigger] t[i].name == n) }
proof fn lemma_name_added(t: Seq<Tag>, n: int)
    requires 0 <= n < t.len()
    ensures names_of(t.take(n + 1)) =~= names_of(t.take(n)).insert(t[n].name),
        distinct_names(t.take(n)) && !names_of(t.take(n)).contains(t[n].name) ==> distinct_names(t.take(n + 1)),
        names_of(t.take(n)).contains(t[n].name) ==> !distinct_names(t),
{
    let a = t.take(n);
    let b = t.take(n + 1);
    assert forall|x: Seq<char>| names_of(b).contains(x) implies names_of(a).insert(t[n].name).contains(x) by {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i].name == x;
        if i < n { assert(a[i].name == x); }
    }
    assert forall|x: Seq<char>| names_of(a).insert(t[n].name).contains(x) implies names_of(b).contains(x) by {
        if names_of(a).contains(x) {
            let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].name == x;
            assert(b[i].name == x);
        } else { assert(b[n].name == x); }
    }
    if distinct_names(a) && !names_of(a).contains(t[n].name) {
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies b[i].name != b[j].name by {
            assert(a[i].name == b[i].name);
            if j < n { assert(a[j].name == b[j].name); }
        }
    }
    if names_of(a).contains(t[n].name) {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i].name == t[n].name;
        assert(t[i].name == t[n].name);
    }
}
@@fn tag_list.rs::strip_tag_list
@ret r
@loops 1
@replace .and_then(strip_tag_spec) => .and_then(|v_s: &str| -> (v_r: Option<(&str, TagSpec<'_>)>) ensures match v_r { Some((s, t)) => p_spec(v_s@) == Some((s@, tag_of(t))), None => p_spec(v_s@) is None } { strip_tag_spec(v_s) })
@spec
    ensures match r {
        Some((s, tags)) => p_list(val@) == Some((s@, tags_of(tags@))),
        None => p_list(val@) is None,
    },
@loop 0 spec
        invariant_except_break
            ({ let (r, ts) = p_more(s@); p_list(val@) == Some((left(r), tags_of(tags@) + ts)) }),
        ensures
            p_list(val@) == Some((left(s@), tags_of(tags@))),
        decreases s@.len(),
@head
    proof { assert forall|s: Seq<char>| s.len() > 0 implies (#[trigger] s.take(1))[0] == s[0] by {} }
@before let mut tags
    let ghost t0 = tag_of(t);
@before while
    proof { assert(tags_of(tags@) =~= seq![t0]); }
@loop 0 head
        let ghost g_tags = tags_of(tags@);
        proof { lemma_p_spec(s@.skip(1)); assert(s@.take(1)[0] == s@[0]); }
@loop 0 tail
        proof { assert(tags_of(tags@) =~= g_tags.push(tag_of(t))); assert(g_tags + (seq![tag_of(t)] + p_more(s@).1) =~= tags_of(tags@) + p_more(s@).1); }
@@end
impl<'a> TagList<'a> {
@@fn tag_list.rs::TagList::from_str
@ret r
@replace HashSet::new() => VStrSet::new()
@replace $i_v.iter().any(|$i_t| $e) =>
{
    proof { theorem_tag_list(s@, tags_of($i_v@)); }
    let mut v_any = false;
    let mut v_i: usize = 0;
    while v_i < $i_v.len()
        invariant
            v_i <= $i_v@.len(), !v_any ==> names_seen@ =~= names_of(tags_of($i_v@).take(v_i as int)),
            !v_any ==> distinct_names(tags_of($i_v@).take(v_i as int)),
            v_any ==> !distinct_names(tags_of($i_v@)),
        ensures !v_any ==> v_i == $i_v@.len(),
        decreases $i_v@.len() - v_i,
    {
        v_probe!();
        proof { lemma_name_added(tags_of($i_v@), v_i as int); }
        let $i_t = &$i_v[v_i];
        if $e { v_any = true; break; }
        v_i += 1;
    }
    v_any
}
@spec
    ensures match r {
        Ok(l) => tag_list_ok(s@, tags_of(l.0@)) && distinct_names(tags_of(l.0@)),
        Err(ParseTagListError::DuplicateTag) => exists|tags: Seq<Tag>| #[trigger] tag_list_ok(s@, tags) && !distinct_names(tags),
        Err(ParseTagListError::Syntax) => forall|tags: Seq<Tag>| !#[trigger] tag_list_ok(s@, tags),
    },
@head
    proof {
        assert forall|tags: Seq<Tag>| true implies (#[trigger] tag_list_ok(s@, tags) <==> p_list(s@) == Some((Seq::<char>::empty(), tags))) by { theorem_tag_list(s@, tags); }
        assert(names_of(Seq::<Tag>::empty()) =~= ISet::empty());
        assert forall|x: Seq<char>| x.len() == 0 implies x == Seq::<char>::empty() by { assert(x =~= Seq::<char>::empty()); }
        assert forall|l: Seq<TagSpec>| true implies #[trigger] tags_of(l).take(l.len() as int) == tags_of(l) by { assert(tags_of(l).take(l.len() as int) =~= tags_of(l)); }
        assert forall|l: Seq<Tag>| true implies #[trigger] l.take(0) == Seq::<Tag>::empty() by { assert(l.take(0) =~= Seq::<Tag>::empty()); }
    }
@@end
}
@@fn tag_list.rs::is_tag_name
@ret r
@spec
    ensures r == tag_name_ok(s@),
@head
    proof { theorem_tag_name(s@); lemma_run(fa(), s@); }
@@end
@@fn tag_list.rs::is_tag_value
@ret r
@spec
    ensures r == tag_value_ok(s@),
@head
    proof { theorem_tag_value(s@); lemma_n_value(s@); }
@@end
