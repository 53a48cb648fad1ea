// ================= C14, C05: a produced value is a tag list, and a field body =================
// ---- UTF-8: the bytes of a character beyond ASCII ----
proof fn lemma_or(x: u8) ensures (0xC0u8 | x) >= 128, (0xE0u8 | x) >= 128, (0xF0u8 | x) >= 128, (0x80u8 | x) >= 128
{ assert((0xC0u8 | x) >= 128) by (bit_vector); assert((0xE0u8 | x) >= 128) by (bit_vector); assert((0xF0u8 | x) >= 128) by (bit_vector); assert((0x80u8 | x) >= 128) by (bit_vector); }
proof fn lemma_high_parts(x: u32)
    ensures vstd::utf8::leading_byte_width_2(x) >= 128, vstd::utf8::leading_byte_width_3(x) >= 128, vstd::utf8::leading_byte_width_4(x) >= 128,
        vstd::utf8::last_continuation_byte(x) >= 128, vstd::utf8::second_last_continuation_byte(x) >= 128, vstd::utf8::third_last_continuation_byte(x) >= 128,
{
    lemma_or(((x >> 6) & 0x1F) as u8);
    lemma_or(((x >> 12) & 0x0F) as u8);
    lemma_or(((x >> 18) & 0x07) as u8);
    lemma_or((x & 0x3F) as u8);
    lemma_or(((x >> 6) & 0x3F) as u8);
    lemma_or(((x >> 12) & 0x3F) as u8);
}
proof fn lemma_high(c: char)
    requires !is_ascii_c(c)
    ensures forall|i: int| 0 <= i < utf8(seq![c]).len() ==> #[trigger] utf8(seq![c])[i] >= 128
{
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty());
    assert(utf8(seq![c]) =~= vstd::utf8::encode_scalar(c as u32));
    lemma_high_parts(c as u32);
    let s = vstd::utf8::encode_scalar(c as u32);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] >= 128 by { }
}
// ---- concatenation of field bodies ----
pub open spec fn vis_b(b: u8) -> bool { b > 32 && b != 127 }
pub open spec fn all_vis_b(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> vis_b(#[trigger] s[i]) }
proof fn lemma_body_simple(s: Seq<u8>)
    requires no_ctl(s)
    ensures body_ok(s), first_crlf(s) < 0, cut_lines(s) == seq![s]
{
    lemma_body_step(s);
    if first_crlf(s) >= 0 { assert(ctl(s[first_crlf(s)])); }
}
proof fn lemma_cont_line(a: Seq<u8>, x: Seq<u8>)
    requires cont_line_ok(a), no_ctl(x)
    ensures cont_line_ok(a + x)
{
    let i = choose|i: int| 0 <= i < a.len() && !wsp(#[trigger] a[i]);
    assert((a + x)[i] == a[i]);
    assert((a + x)[0] == a[0]);
}
proof fn lemma_body_concat(a: Seq<u8>, b: Seq<u8>)
    requires body_ok(a), body_ok(b)
    ensures body_ok(a + b), cont_ok(a) ==> cont_ok(a + b)
    decreases a.len()
{
    let v = a + b;
    lemma_body_step(a); lemma_body_step(b); lemma_body_step(v);
    let i = first_crlf(a);
    let j = first_crlf(v);
    let k = first_crlf(b);
    if i >= 0 {
        lemma_body_concat(a.skip(i + 2), b);
        assert(at_crlf(v, i)) by { assert(v[i] == a[i] && v[i + 1] == a[i + 1]); }
        assert(at_crlf(a, j)) by { assert(v[j] == a[j] && v[j + 1] == a[j + 1]); }
        assert(v.take(i) =~= a.take(i));
        assert(v.skip(i + 2) =~= a.skip(i + 2) + b);
    } else {
        assert(cut_lines(a) == seq![a]);
        if k >= 0 { assert(at_crlf(v, k + a.len())) by { assert(v[k + a.len()] == b[k] && v[k + a.len() + 1] == b[k + 1]); } }
        if j >= 0 {
            if j < a.len() { assert(v[j] == a[j]); assert(ctl(a[j])); }
            assert(at_crlf(b, j - a.len())) by { assert(v[j] == b[j - a.len()] && v[j + 1] == b[j + 1 - a.len()]); }
            assert(v.take(j) =~= a + b.take(k));
            assert(v.skip(j + 2) =~= b.skip(k + 2));
            if cont_ok(a) { lemma_cont_line(a, b.take(k)); }
        } else {
            if cont_ok(a) { lemma_cont_line(a, b); }
        }
    }
}
proof fn lemma_body_nl(w: Seq<u8>, x: Seq<u8>)
    requires w.len() > 0, all_wsp_b(w), body_ok(x), x.len() > 0, vis_b(x[0])
    ensures body_ok(seq![13u8, 10u8] + (w + x))
{
    let y = w + x;
    let v = seq![13u8, 10u8] + y;
    lemma_body_simple(w);
    lemma_body_concat(w, x);
    lemma_body_step(y);
    lemma_body_step(v);
    let i = first_crlf(y);
    if i >= 0 { if i <= w.len() { if i < w.len() { assert(y[i] == w[i]); } else { assert(y[i] == x[0]); } } }
    let l = cut_lines(y)[0];
    assert(l == if i >= 0 { y.take(i) } else { y });
    assert(l[w.len() as int] == x[0]);
    assert(l[0] == w[0]);
    assert(cont_line_ok(l));
    assert(at_crlf(v, 0));
    assert(v.skip(2) =~= y);
}
// ---- the same for text ----
/// A text that can stand in a field body.
pub open spec fn flows(t: Seq<char>) -> bool { body_ok(utf8(t)) }
pub open spec fn vis_c(c: char) -> bool { ('!' <= c && c <= '~') || !is_ascii_c(c) }
pub open spec fn all_vis(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> vis_c(#[trigger] s[i]) }
proof fn lemma_vis_char(c: char)
    requires vis_c(c)
    ensures utf8(seq![c]).len() > 0, all_vis_b(utf8(seq![c]))
{
    lemma_ulen_pos(seq![c]);
    if is_ascii_c(c) { vstd::utf8::is_ascii_chars_encode_utf8(seq![c]); } else { lemma_high(c); }
}
proof fn lemma_vis_bytes(s: Seq<char>)
    requires all_vis(s)
    ensures all_vis_b(utf8(s))
    decreases s.len()
{
    if s.len() == 0 { lemma_ulen_empty(); assert(s =~= Seq::<char>::empty()); }
    else {
        let r = s.skip(1);
        assert(s =~= seq![s[0]] + r);
        vstd::utf8::encode_utf8_concat(seq![s[0]], r);
        lemma_vis_char(s[0]);
        assert forall|i: int| 0 <= i < r.len() implies vis_c(#[trigger] r[i]) by { assert(r[i] == s[i + 1]); }
        lemma_vis_bytes(r);
        let a = utf8(seq![s[0]]);
        assert forall|i: int| 0 <= i < utf8(s).len() implies vis_b(#[trigger] utf8(s)[i]) by { if i < a.len() { assert(utf8(s)[i] == a[i]); } else { assert(utf8(s)[i] == utf8(r)[i - a.len()]); } }
    }
}
proof fn lemma_flows_vis(s: Seq<char>)
    requires all_vis(s)
    ensures flows(s)
{
    lemma_vis_bytes(s);
    lemma_body_simple(utf8(s));
}
proof fn lemma_flows_concat(a: Seq<char>, b: Seq<char>)
    requires flows(a), flows(b)
    ensures flows(a + b)
{
    vstd::utf8::encode_utf8_concat(a, b);
    lemma_body_concat(utf8(a), utf8(b));
}
proof fn lemma_wsp_bytes(w: Seq<char>)
    requires all_wsp(w)
    ensures all_wsp_b(utf8(w)), utf8(w).len() == w.len()
{
    assert forall|i: int| 0 <= i < w.len() implies is_ascii_c(#[trigger] w[i]) by { assert(wspc(w[i])); }
    vstd::utf8::is_ascii_chars_encode_utf8(w);
    assert forall|i: int| 0 <= i < utf8(w).len() implies wsp(#[trigger] utf8(w)[i]) by { assert(wspc(w[i])); }
}
proof fn lemma_flows_nl(w: Seq<char>, x: Seq<char>)
    requires w.len() > 0, all_wsp(w), flows(x), x.len() > 0, vis_c(x[0])
    ensures flows(nl(w) + x)
{
    lemma_wsp_bytes(w);
    let r = x.skip(1);
    assert(x =~= seq![x[0]] + r);
    vstd::utf8::encode_utf8_concat(seq![x[0]], r);
    lemma_vis_char(x[0]);
    assert(utf8(x)[0] == utf8(seq![x[0]])[0]);
    lemma_body_nl(utf8(w), utf8(x));
    vstd::utf8::is_ascii_chars_encode_utf8(crlf_c());
    assert(utf8(crlf_c()) =~= seq![13u8, 10u8]);
    assert(nl(w) + x =~= crlf_c() + (w + x));
    vstd::utf8::encode_utf8_concat(crlf_c(), w + x);
    vstd::utf8::encode_utf8_concat(w, x);
}
proof fn lemma_flows_wsp(w: Seq<char>)
    requires all_wsp(w)
    ensures flows(w)
{
    lemma_wsp_bytes(w);
    lemma_body_simple(utf8(w));
}
proof fn lemma_fws_parts(w: Seq<char>) -> (r: (Seq<char>, Seq<char>))
    requires is_fws(w), !all_wsp(w)
    ensures w == r.0 + nl(r.1), all_wsp(r.0), all_wsp(r.1), r.1.len() > 0
{
    let n = choose|n: int| 0 <= n && n + 2 < w.len() && all_wsp(w.take(n)) && #[trigger] w.subrange(n, n + 2) =~= crlf_c() && all_wsp(w.skip(n + 2));
    assert(w =~= w.take(n) + (crlf_c() + w.skip(n + 2))) by { assert(w.subrange(n, n + 2) == crlf_c()); assert(w =~= w.take(n) + (w.subrange(n, n + 2) + w.skip(n + 2))); }
    (w.take(n), w.skip(n + 2))
}
proof fn lemma_flows_fws(w: Seq<char>, x: Seq<char>)
    requires opt_fws(w), flows(x), x.len() > 0, vis_c(x[0])
    ensures flows(w + x)
{
    hide(flows); hide(is_fws); hide(all_wsp); hide(vis_c);
    if w.len() == 0 { assert(w + x =~= x); }
    else if all_wsp(w) { lemma_flows_wsp(w); lemma_flows_concat(w, x); }
    else {
        let (a, q) = lemma_fws_parts(w);
        lemma_flows_nl(q, x);
        lemma_flows_wsp(a);
        lemma_flows_concat(a, nl(q) + x);
        lemma_assoc(a, nl(q), x);
    }
}
proof fn lemma_tval_vis(s: Seq<char>)
    requires all_tval(s)
    ensures all_vis(s)
{
    assert forall|i: int| 0 <= i < s.len() implies vis_c(#[trigger] s[i]) by { assert(tval_c(s[i])); }
}
proof fn lemma_flows_value(v: Seq<char>)
    requires tag_value_ok(v)
    ensures flows(v), v.len() > 0 ==> tval_c(v[0])
    decreases v.len()
{
    if v.len() == 0 { lemma_flows_vis(v); }
    else if all_tval(v) { lemma_tval_vis(v); lemma_flows_vis(v); }
    else {
        let (i, j) = choose|i: int, j: int| 0 < i < j < v.len() && all_tval(v.take(i)) && is_fws(#[trigger] v.subrange(i, j)) && tag_value_some(v.skip(j));
        let r = v.skip(j);
        lemma_flows_value(r);
        lemma_flows_fws(v.subrange(i, j), r);
        lemma_tval_vis(v.take(i));
        lemma_flows_vis(v.take(i));
        lemma_flows_concat(v.take(i), v.subrange(i, j) + r);
        assert(v =~= v.take(i) + (v.subrange(i, j) + r));
        assert(v[0] == v.take(i)[0]);
    }
}
// ---- values ----
proof fn lemma_nl_fws(ind: Seq<char>)
    requires indent_ok(ind)
    ensures is_fws(nl(ind))
{
    let s = nl(ind);
    let n = 0int;
    assert(s.take(n) =~= Seq::<char>::empty());
    assert(s.subrange(n, n + 2) =~= crlf_c());
    assert(s.skip(n + 2) =~= ind);
}
/// All of a then white space then a value.
proof fn lemma_value_fws(a: Seq<char>, w: Seq<char>, b: Seq<char>)
    requires tag_value_some(a), is_fws(w), tag_value_some(b)
    ensures tag_value_some(a + w + b)
    decreases a.len()
{
    let s = a + w + b;
    if a.len() > 0 && all_tval(a) {
        let (i, j) = (a.len() as int, (a.len() + w.len()) as int);
        assert(s.take(i) =~= a && s.subrange(i, j) =~= w && s.skip(j) =~= b);
        lemma_fws_len(w);
        lemma_value_len(b);
    } else {
        let (i, j) = choose|i: int, j: int| 0 < i < j < a.len() && all_tval(a.take(i)) && is_fws(#[trigger] a.subrange(i, j)) && tag_value_some(a.skip(j));
        lemma_value_fws(a.skip(j), w, b);
        assert(s.take(i) =~= a.take(i) && s.subrange(i, j) =~= a.subrange(i, j) && s.skip(j) =~= a.skip(j) + w + b);
    }
}
proof fn lemma_fws_len(w: Seq<char>) requires is_fws(w) ensures w.len() > 0 {}
proof fn lemma_value_len(b: Seq<char>) requires tag_value_some(b) ensures b.len() > 0 {}
proof fn lemma_value_more(a: Seq<char>, b: Seq<char>)
    requires tag_value_some(a), all_tval(b)
    ensures tag_value_some(a + b)
    decreases a.len()
{
    let s = a + b;
    if a.len() > 0 && all_tval(a) { assert(all_tval(s)); }
    else {
        let (i, j) = choose|i: int, j: int| 0 < i < j < a.len() && all_tval(a.take(i)) && is_fws(#[trigger] a.subrange(i, j)) && tag_value_some(a.skip(j));
        lemma_value_more(a.skip(j), b);
        assert(s.take(i) =~= a.take(i) && s.subrange(i, j) =~= a.subrange(i, j) && s.skip(j) =~= a.skip(j) + b);
    }
}
/// The text of a tag: its value, maybe on a new line.
pub open spec fn opens(b: Seq<char>, v: Seq<char>, ind: Seq<char>) -> bool { tag_value_ok(v) && (b == v || (v.len() > 0 && b == nl(ind) + v)) }
proof fn lemma_spread_value(t: Seq<char>, s: Seq<char>, ind: Seq<char>)
    requires spread(t, s, ind, false), s.len() > 0, all_tval(s), indent_ok(ind)
    ensures tag_value_some(t)
    decreases s.len()
{
    if t != s {
        let (n, u) = choose|n: int, u: Seq<char>| #[trigger] spread_at(t, s, ind, n, u) && 1 <= n && spread(u, s.skip(n), ind, false);
        assert forall|i: int| 0 <= i < s.skip(n).len() implies tval_c(#[trigger] s.skip(n)[i]) by { assert(s.skip(n)[i] == s[i + n]); }
        lemma_spread_value(u, s.skip(n), ind);
        lemma_nl_fws(ind);
        assert(all_tval(s.take(n)));
        lemma_value_fws(s.take(n), nl(ind), u);
    }
}
proof fn lemma_spread_opens(t: Seq<char>, s: Seq<char>, ind: Seq<char>) -> (v: Seq<char>)
    requires spread(t, s, ind, true), all_tval(s), indent_ok(ind)
    ensures opens(t, v, ind)
{
    if t == s { t }
    else {
        let (n, u) = choose|n: int, u: Seq<char>| #[trigger] spread_at(t, s, ind, n, u) && 0 <= n && spread(u, s.skip(n), ind, false);
        if n == 0 {
            assert(s.skip(0) =~= s);
            lemma_spread_value(u, s, ind);
            lemma_value_len(u);
            assert(t =~= nl(ind) + u);
            u
        } else {
            assert(spread_at(t, s, ind, n, u));
            assert(spread(t, s, ind, false));
            lemma_spread_value(t, s, ind);
            t
        }
    }
}
/// Field names that can stand in an h= tag.
pub open spec fn listable(ns: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> name_ok(#[trigger] ns[i]) && !ns[i].contains(';') }
proof fn lemma_name_tval(n: Seq<char>)
    requires name_ok(n), !n.contains(';')
    ensures all_tval(n), n.len() > 0
{
    assert forall|i: int| 0 <= i < n.len() implies tval_c(#[trigger] n[i]) by { assert(is_graphic_c(n[i])); assert(n.contains(n[i])); }
}
proof fn lemma_h_value(t: Seq<char>, ns: Seq<Seq<char>>, ind: Seq<char>)
    requires h_body(t, ns, ind), listable(ns), indent_ok(ind)
    ensures tag_value_some(t)
    decreases ns.len()
{
    lemma_name_tval(ns.last());
    if ns.len() > 1 {
        let n = ns.last();
        let (u, w) = choose|u: Seq<char>, w: Seq<char>| #[trigger] h_step(t, u, w, n, ind) && h_body(u, ns.drop_last(), ind);
        assert(listable(ns.drop_last())) by { assert forall|i: int| 0 <= i < ns.drop_last().len() implies name_ok(#[trigger] ns.drop_last()[i]) && !ns.drop_last()[i].contains(';') by { assert(ns.drop_last()[i] == ns[i]); } }
        lemma_h_value(u, ns.drop_last(), ind);
        lemma_value_more(u, seq![':']);
        let a = u + seq![':'];
        if w.len() == 0 { assert(t =~= a + n); lemma_value_more(a, n); }
        else { lemma_nl_fws(ind); lemma_value_fws(a, w, n); }
    }
}
proof fn lemma_z_plain(es: Seq<(Seq<char>, Seq<char>)>, cs: Seq<(FieldName, Box<[u8]>)>, ascii: bool)
    requires z_entries(es, cs, ascii)
    ensures all_tval(z_text(es))
    decreases es.len()
{
    if es.len() > 0 {
        let m = es.drop_last();
        let c = cs.drop_last();
        assert(z_entries(m, c, ascii)) by { assert forall|i: int| 0 <= i < m.len() implies z_entry(#[trigger] m[i], c[i], ascii) by { assert(m[i] == es[i]); } }
        lemma_z_plain(m, c, ascii);
        let e = es.last();
        assert(z_entry(es[es.len() - 1], cs[cs.len() - 1], ascii));
        lemma_written_plain(e.0, Some('|'), false);
        lemma_written_plain(e.1, Some('|'), ascii);
        assert(all_tval(z_one(e)));
        if es.len() > 1 { assert(z_text(es) == z_text(m) + seq!['|'] + z_one(e)); } else { assert(es[0] == e); }
    }
}
// ---- pieces ----
pub open spec fn open_body(b: Seq<char>, ind: Seq<char>) -> bool { exists|v: Seq<char>| #[trigger] opens(b, v, ind) }
pub open spec fn open_piece(p: Piece, ind: Seq<char>) -> bool { ws_for(p.ws, ind) && tag_name_ok(p.name) && open_body(p.body, ind) }
pub open spec fn open_pieces(ps: Seq<Piece>, ind: Seq<char>) -> bool { forall|i: int| 0 <= i < ps.len() ==> open_piece(#[trigger] ps[i], ind) }
proof fn lemma_ws_fws(ws: Seq<char>, ind: Seq<char>)
    requires ws_for(ws, ind), indent_ok(ind)
    ensures is_fws(ws)
{
    if ws == seq![' '] { assert(all_wsp(ws)); } else { lemma_nl_fws(ind); }
}
proof fn lemma_piece_parts(p: Piece, w3: Seq<char>, v: Seq<char>)
    requires p.body == w3 + v
    ensures piece(p) == p.ws + (p.name + (Seq::<char>::empty() + (seq!['='] + (w3 + (v + Seq::<char>::empty()))))), piece(p) == p.ws + (p.name + seq!['=']) + p.body
{
    assert(v + Seq::<char>::empty() =~= v);
    assert(Seq::<char>::empty() + (seq!['='] + p.body) =~= seq!['='] + p.body);
    assert(piece(p) =~= p.ws + (p.name + (seq!['='] + p.body)));
    assert(piece(p) =~= p.ws + (p.name + seq!['=']) + p.body);
}
proof fn lemma_name_flows(n: Seq<char>)
    requires tag_name_ok(n)
    ensures flows(n + seq!['=']), (n + seq!['=']).len() > 0, vis_c((n + seq!['='])[0])
{
    let s = n + seq!['='];
    assert forall|i: int| 0 <= i < s.len() implies vis_c(#[trigger] s[i]) by { if i < n.len() { assert(alnum_c(n[i])); } }
    lemma_flows_vis(s);
}
proof fn lemma_opens_flows(b: Seq<char>, v: Seq<char>, ind: Seq<char>)
    requires opens(b, v, ind), indent_ok(ind)
    ensures flows(b)
{
    lemma_flows_value(v);
    if b != v { lemma_nl_fws(ind); lemma_flows_fws(nl(ind), v); }
}
proof fn lemma_open_piece(p: Piece, v: Seq<char>, ind: Seq<char>)
    requires ws_for(p.ws, ind), tag_name_ok(p.name), opens(p.body, v, ind), indent_ok(ind)
    ensures tag_spec_ok(piece(p), Tag { name: p.name, value: v }), flows(piece(p))
{
    hide(flows); hide(is_fws); hide(all_wsp); hide(vis_c); hide(tag_name_ok); hide(tag_value_ok); hide(piece); hide(nl); hide(ws_for); hide(indent_ok);
    lemma_ws_fws(p.ws, ind);
    lemma_nl_fws(ind);
    let e = Seq::<char>::empty();
    let w3 = if p.body == v { e } else { nl(ind) };
    assert(e + v =~= v);
    lemma_piece_parts(p, w3, v);
    let t = Tag { name: p.name, value: v };
    assert(tag_spec_as(piece(p), t.name, t.value, p.ws, e, w3, e));
    assert(tag_spec_ok(piece(p), t));
    lemma_opens_flows(p.body, v, ind);
    lemma_name_flows(p.name);
    let n = p.name + seq!['='];
    lemma_flows_fws(p.ws, n);
    lemma_flows_concat(p.ws + n, p.body);
}
proof fn lemma_closed_concat(a: Seq<Piece>, b: Seq<Piece>)
    ensures closed_pieces(a + b) == closed_pieces(a) + closed_pieces(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(closed_pieces(a) + closed_pieces(b) =~= closed_pieces(a)); }
    else {
        lemma_closed_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(closed_pieces(a + b) =~= closed_pieces(a) + closed_pieces(b));
    }
}
/// What comes after the first pieces.
pub open spec fn after_pieces(ps: Seq<Piece>) -> Seq<char> { if ps.len() == 0 { Seq::<char>::empty() } else { seq![';'] + joined(ps) } }
proof fn lemma_joined_at(ps: Seq<Piece>, m: int)
    requires 0 <= m < ps.len()
    ensures joined(ps) == closed_pieces(ps.take(m)) + piece(ps[m]) + after_pieces(ps.skip(m + 1))
{
    let r = ps.skip(m + 1);
    let a = ps.take(m);
    if r.len() == 0 {
        assert(ps.drop_last() =~= a);
        assert(joined(ps) =~= closed_pieces(a) + piece(ps[m]) + after_pieces(r));
    } else {
        let mid = r.drop_last();
        assert(ps.drop_last() =~= a.push(ps[m]) + mid);
        lemma_closed_concat(a.push(ps[m]), mid);
        assert(a.push(ps[m]).drop_last() =~= a);
        assert(r.last() == ps.last());
        assert(joined(ps) =~= closed_pieces(a) + piece(ps[m]) + after_pieces(r));
    }
}
/// The tags of the pieces.
pub open spec fn piece_tags(ps: Seq<Piece>, tags: Seq<Tag>, ind: Seq<char>) -> bool {
    tags.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> (#[trigger] tags[i]).name == ps[i].name && opens(ps[i].body, tags[i].value, ind)
}
proof fn lemma_tags_exist(ps: Seq<Piece>, ind: Seq<char>) -> (tags: Seq<Tag>)
    requires open_pieces(ps, ind)
    ensures piece_tags(ps, tags, ind)
{
    let tags = Seq::new(ps.len(), |i: int| Tag { name: ps[i].name, value: choose|v: Seq<char>| #[trigger] opens(ps[i].body, v, ind) });
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] tags[i]).name == ps[i].name && opens(ps[i].body, tags[i].value, ind) by { assert(open_piece(ps[i], ind)); }
    tags
}
proof fn lemma_tag_list(ps: Seq<Piece>, tags: Seq<Tag>, ind: Seq<char>)
    requires ps.len() > 0, open_pieces(ps, ind), piece_tags(ps, tags, ind), indent_ok(ind)
    ensures tag_list_ok(joined(ps), tags), flows(joined(ps))
    decreases ps.len()
{
    let s = joined(ps);
    let p = ps[0];
    assert(open_piece(p, ind));
    assert(opens(p.body, tags[0].value, ind));
    lemma_open_piece(p, tags[0].value, ind);
    lemma_joined_at(ps, 0);
    assert(ps.take(0) =~= Seq::<Piece>::empty());
    let r = ps.skip(1);
    assert(s =~= piece(p) + after_pieces(r));
    assert(tags[0] == Tag { name: p.name, value: tags[0].value });
    if ps.len() == 1 { assert(s =~= piece(p)); }
    else {
        let tr = tags.skip(1);
        assert(open_pieces(r, ind)) by { assert forall|i: int| 0 <= i < r.len() implies open_piece(#[trigger] r[i], ind) by { assert(r[i] == ps[i + 1]); } }
        assert(piece_tags(r, tr, ind)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] tr[i]).name == r[i].name && opens(r[i].body, tr[i].value, ind) by { assert(tr[i] == tags[i + 1] && r[i] == ps[i + 1]); } }
        lemma_tag_list(r, tr, ind);
        let n = piece(p).len() as int;
        assert(s.take(n) =~= piece(p));
        assert(s[n] == ';');
        assert(s.skip(n + 1) =~= joined(r));
        assert(tag_spec_ok(s.take(n), tags[0]));
        assert forall|i: int| 0 <= i < seq![';'].len() implies vis_c(#[trigger] seq![';'][i]) by {}
        lemma_flows_vis(seq![';']);
        lemma_flows_concat(seq![';'], joined(r));
        lemma_flows_concat(piece(p), after_pieces(r));
    }
}
// ---- the pieces that the formatter writes ----
pub open spec fn sig_fine(sig: UnsignedDkimSignature) -> bool { made(sig) && listable(name_seqs(sig.signed_headers@)) }
proof fn lemma_own_names() ensures forall|n: Seq<char>| #[trigger] own_tag(n) ==> tag_name_ok(n)
{ lemma_literals(); reveal_strlit("bh"); }
proof fn lemma_name_of(ps: Seq<Piece>, sig: UnsignedDkimSignature, o: Option<VOrder>, i: int)
    requires in_order(piece_names(ps), sig, o), sig_fine(sig), 0 <= i < ps.len()
    ensures tag_name_ok(ps[i].name), has_tag(sig, ps[i].name) || ext_names(sig.ext_tags@).contains(ps[i].name)
{
    let ns = piece_names(ps);
    lemma_out_tags(sig);
    lemma_permuted(ns, out_tags(sig));
    assert(ns[i] == ps[i].name);
    assert(ns.contains(ps[i].name));
    lemma_own_names();
    assert(has_tag(sig, ps[i].name) ==> own_tag(ps[i].name));
    if !has_tag(sig, ps[i].name) {
        let k = choose|k: int| 0 <= k < ext_names(sig.ext_tags@).len() && ext_names(sig.ext_tags@)[k] == ps[i].name;
        assert(sig.ext_tags@[k].0@ == ps[i].name);
    }
}
proof fn lemma_plain_opens(b: Seq<char>, ind: Seq<char>)
    requires plain(b)
    ensures opens(b, b, ind)
{}
proof fn lemma_said_opens(n: Seq<char>, b: Seq<char>, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool)
    requires said(n, b, sig, ind, ascii), sig_fine(sig), indent_ok(ind)
    ensures open_body(b, ind)
{
    hide(h_body); hide(spread); hide(z_text); hide(written); hide(named); hide(plain);
    lemma_literals();
    if n == "v"@ { reveal_strlit("1"); assert(plain(b)) by { reveal(plain); } lemma_plain_opens(b, ind); }
    else if n == "b"@ { assert(opens(b, b, ind)); }
    else if n == "bh"@ {
        let s = choose|s: Seq<char>| #[trigger] b64_body(b, sig.body_hash@, s, ind);
        lemma_b64_opens(b, sig.body_hash@, s, ind);
    } else if n == "h"@ {
        lemma_h_value(b, name_seqs(sig.signed_headers@), ind);
        lemma_value_len(b);
        assert(opens(b, b, ind));
    } else if n == "z"@ {
        let es = choose|es: Seq<(Seq<char>, Seq<char>)>| #[trigger] z_body(b, es, sig.copied_headers@, ind, ascii);
        lemma_z_plain(es, sig.copied_headers@, ascii);
        let v = lemma_spread_opens(b, z_text(es), ind);
    } else if n == "a"@ || n == "c"@ || n == "d"@ || n == "i"@ || n == "l"@ || n == "s"@ || n == "t"@ || n == "x"@ {
        assert(plain(b));
        lemma_plain_opens(b, ind);
    } else {
        let i = choose|i: int| 0 <= i < sig.ext_tags@.len() && (#[trigger] sig.ext_tags@[i]).0@ == n && sig.ext_tags@[i].1@ == b;
        assert(opens(b, b, ind));
    }
}
proof fn lemma_b64_opens(t: Seq<char>, b: Seq<u8>, s: Seq<char>, ind: Seq<char>)
    requires b64_body(t, b, s, ind), indent_ok(ind)
    ensures open_body(t, ind)
{
    assert forall|i: int| 0 <= i < s.len() implies tval_c(#[trigger] s[i]) by { assert(b64_c(s[i])); }
    let v = lemma_spread_opens(t, s, ind);
}
proof fn lemma_formatted_open(ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat)
    requires in_order(piece_names(ps), sig, f.tag_order), all_said(ps, sig, f.indentation@, f.ascii_only), sig_fine(sig), indent_ok(f.indentation@)
    ensures open_pieces(ps, f.indentation@), ps.len() > 0, piece_names(ps).no_duplicates()
{
    hide(said);
    let ind = f.indentation@;
    lemma_out_tags(sig);
    lemma_permuted(piece_names(ps), out_tags(sig));
    assert(out_tags(sig).contains("v"@));
    assert(piece_names(ps).contains("v"@));
    assert forall|i: int| 0 <= i < ps.len() implies open_piece(#[trigger] ps[i], ind) by {
        lemma_name_of(ps, sig, f.tag_order, i);
        lemma_said_opens(ps[i].name, ps[i].body, sig, ind, f.ascii_only);
    }
}
/// The text that is hashed, and the one that is sent: pieces that open, the
/// second with a value for b.
pub open spec fn with_b(ps: Seq<Piece>, m: int, t: Seq<char>) -> Seq<Piece> { ps.update(m, Piece { ws: ps[m].ws, name: ps[m].name, body: t }) }
proof fn lemma_put(ps: Seq<Piece>, m: int, n: usize, t: Seq<char>, r: Seq<char>, k: int)
    requires b_here(ps, m, n), ps[m].body.len() == 0, put_in(joined(ps), n, t, r, k)
    ensures r == joined(with_b(ps, m, t))
{
    let o = joined(ps);
    let q = with_b(ps, m, t);
    lemma_joined_at(ps, m);
    lemma_joined_at(q, m);
    assert(q.take(m) =~= ps.take(m) && q.skip(m + 1) =~= ps.skip(m + 1));
    let x = closed_pieces(ps.take(m)) + ps[m].ws + "b"@ + seq!['='];
    let z = after_pieces(ps.skip(m + 1));
    assert(o =~= x + z);
    assert(o.take(x.len() as int) =~= x);
    lemma_boundary(o, k, x.len() as int);
    assert(o.skip(k) =~= z);
    assert(r =~= x + t + z);
    assert(joined(q) =~= x + t + z);
}

// ---- the theorem ----
/// A value that says what the signature has: pieces, one for each tag, in the
/// order asked for. `t`: the text for b.
pub open spec fn produced(v: Seq<char>, ps: Seq<Piece>, tags: Seq<Tag>, sig: UnsignedDkimSignature, f: OutputFormat, t: Seq<char>) -> bool {
    &&& v == joined(ps) && in_order(piece_names(ps), sig, f.tag_order)
    &&& forall|i: int| 0 <= i < ps.len() ==> said_b((#[trigger] ps[i]).name, ps[i].body, sig, f, t)
    &&& piece_tags(ps, tags, f.indentation@) && piece_names(ps).no_duplicates()
    &&& tag_list_ok(v, tags)
}
pub open spec fn said_b(n: Seq<char>, b: Seq<char>, sig: UnsignedDkimSignature, f: OutputFormat, t: Seq<char>) -> bool {
    if n == "b"@ { b == t } else { said(n, b, sig, f.indentation@, f.ascii_only) }
}
pub open spec fn is_produced(v: Seq<char>, sig: UnsignedDkimSignature, f: OutputFormat, t: Seq<char>) -> bool {
    exists|ps: Seq<Piece>, tags: Seq<Tag>| #[trigger] produced(v, ps, tags, sig, f, t)
}
/// What is hashed is a field body and a tag list, with an empty b.
proof fn theorem_hashed(v: Seq<char>, n: usize, sig: UnsignedDkimSignature, f: OutputFormat)
    requires formatted_as(v, n, sig, f), sig_fine(sig), indent_ok(f.indentation@)
    ensures flows(v), is_produced(v, sig, f, Seq::<char>::empty())
{
    let ps = choose|ps: Seq<Piece>| #[trigger] formatted(v, n, ps, sig, f);
    let e = Seq::<char>::empty();
    lemma_hashed(v, n, ps, sig, f);
}
proof fn lemma_hashed(v: Seq<char>, n: usize, ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat)
    requires formatted(v, n, ps, sig, f), sig_fine(sig), indent_ok(f.indentation@)
    ensures flows(v), is_produced(v, sig, f, Seq::<char>::empty())
{
    hide(flows); hide(tag_list_ok); hide(in_order); hide(sig_fine); hide(indent_ok); hide(joined); hide(piece_tags); hide(open_pieces);
    let ind = f.indentation@;
    let e = Seq::<char>::empty();
    lemma_formatted_open(ps, sig, f);
    let tags = lemma_tags_exist(ps, ind);
    lemma_tag_list(ps, tags, ind);
    assert forall|i: int| 0 <= i < ps.len() implies said_b((#[trigger] ps[i]).name, ps[i].body, sig, f, e) by {
        assert(said(ps[i].name, ps[i].body, sig, ind, f.ascii_only));
        if ps[i].name == "b"@ { lemma_b_empty(ps[i].body, sig, ind, f.ascii_only); assert(ps[i].body =~= e); }
    }
    assert(produced(v, ps, tags, sig, f, e));
}
proof fn lemma_b_empty(b: Seq<char>, sig: UnsignedDkimSignature, ind: Seq<char>, ascii: bool)
    requires said("b"@, b, sig, ind, ascii)
    ensures b.len() == 0
{ lemma_literals(); }
/// What is sent is a field body and the same tag list, with the signature.
proof fn theorem_sent(o: Seq<char>, n: usize, sig: UnsignedDkimSignature, f: OutputFormat, data: Seq<u8>, s: Seq<char>, t: Seq<char>, v: Seq<char>, k: int)
    requires formatted_as(o, n, sig, f), sig_fine(sig), indent_ok(f.indentation@), b64_body(t, data, s, f.indentation@), put_in(o, n, t, v, k)
    ensures flows(v), is_produced(v, sig, f, t)
{
    hide(flows); hide(put_in); hide(b64_body);
    let ps = choose|ps: Seq<Piece>| #[trigger] formatted(o, n, ps, sig, f);
    lemma_sent(o, n, ps, sig, f, data, s, t, v, k);
}
proof fn lemma_sent(o: Seq<char>, n: usize, ps: Seq<Piece>, sig: UnsignedDkimSignature, f: OutputFormat, data: Seq<u8>, s: Seq<char>, t: Seq<char>, v: Seq<char>, k: int)
    requires formatted(o, n, ps, sig, f), sig_fine(sig), indent_ok(f.indentation@), b64_body(t, data, s, f.indentation@), put_in(o, n, t, v, k)
    ensures flows(v), is_produced(v, sig, f, t)
{
    hide(flows); hide(tag_list_ok); hide(in_order); hide(sig_fine); hide(indent_ok); hide(joined); hide(piece_tags); hide(put_in); hide(b64_body); hide(open_body); hide(said); hide(ws_for); hide(tag_name_ok);
    let ind = f.indentation@;
    lemma_formatted_open(ps, sig, f);
    let m = choose|m: int| #[trigger] b_here(ps, m, n);
    assert(said(ps[m].name, ps[m].body, sig, ind, f.ascii_only));
    lemma_b_empty(ps[m].body, sig, ind, f.ascii_only);
    lemma_put(ps, m, n, t, v, k);
    let q = with_b(ps, m, t);
    assert(piece_names(q) =~= piece_names(ps)) by { assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i].name == ps[i].name by {} }
    lemma_b64_opens(t, data, s, ind);
    assert(open_pieces(q, ind)) by { assert forall|i: int| 0 <= i < q.len() implies open_piece(#[trigger] q[i], ind) by { assert(open_piece(ps[i], ind)); } }
    let tags = lemma_tags_exist(q, ind);
    lemma_tag_list(q, tags, ind);
    assert forall|i: int| 0 <= i < q.len() implies said_b((#[trigger] q[i]).name, q[i].body, sig, f, t) by {
        if i != m {
            assert(said(ps[i].name, ps[i].body, sig, ind, f.ascii_only));
            assert(piece_names(ps)[i] == ps[i].name && piece_names(ps)[m] == ps[m].name);
            assert(q[i] == ps[i]);
        }
    }
    assert(produced(v, q, tags, sig, f, t));
}
