@@item parse.rs::CRLF as PARSE_CRLF
@replace &str => &'static str
@@end
@@fn parse.rs::strip_suffix
@ret r
@replace &s[..$e] => v_str_to(s, $e)
@replace s.ends_with(suffix) => s.v_ends_with(suffix)
@replace s.len() => v_slen(s)
@replace suffix.len() => v_slen(suffix)
@spec
    requires suffix@.len() <= s@.len(), s@.skip(s@.len() - suffix@.len()) == suffix@,
    ensures r@ == s@.take(s@.len() - suffix@.len()),
@head
    proof {
        let k = s@.len() - suffix@.len();
        assert(s@ =~= s@.take(k) + suffix@);
        lemma_ulen_concat(s@.take(k), suffix@);
        assert forall|j: int| 0 <= j <= s@.len() && #[trigger] ulen(s@.take(j)) == ulen(s@.take(k)) implies j == k by { lemma_boundary(s@, j, k); }
    }
@@end
@@fn parse.rs::is_wsp
@ret r
@spec
    ensures r == wspc(c),
@@end
@@fn parse.rs::strip_wsp
@ret r
@replace .map(|s| $e) => .map(|s: &str| -> (v_r: &str) ensures v_r@ == s@.skip(n_wsp(s@) as int) { $e })
@spec
    ensures match r { Some(t) => n_wsp(input@) > 0 && t@ =~= input@.skip(n_wsp(input@) as int), None => n_wsp(input@) == 0 },
@head
    proof { lemma_trim_all(fw()); lemma_run(fw(), input@);
      assert(run(fw(), input@) == if input@.len() > 0 && wspc(input@[0]) { 1 + run(fw(), input@.skip(1)) } else { 0 }); }
@@end
@@fn parse.rs::strip_fws
@replace CRLF => PARSE_CRLF
@ret r
@spec
    ensures match r { Some(t) => n_fws(input@) > 0 && t@ =~= input@.skip(n_fws(input@) as int), None => n_fws(input@) == 0 },
@head
    proof {
        reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_c());
        lemma_run(fw(), input@);
        lemma_skips();
        let t = input@.skip(n_wsp(input@) as int);
        lemma_run(fw(), t.skip(2));
        assert(t.len() >= 2 ==> (t.take(2) =~= crlf_c() <==> starts_crlf(t)));
    }
@@end
@@fn parse.rs::rstrip_wsp
@ret r
@replace .map(|s| $e) => .map(|s: &str| -> (v_r: &str) ensures v_r@ == s@.take(s@.len() - rn_wsp(s@)) { $e })
@spec
    ensures match r { Some(t) => rn_wsp(input@) > 0 && t@ =~= input@.take(input@.len() - rn_wsp(input@)), None => rn_wsp(input@) == 0 },
@head
    proof { lemma_rtrim_all(fw()); lemma_rrun(fw(), input@);
        if input@.len() > 0 { assert(input@.drop_last() =~= input@.take(input@.len() - 1)); assert(input@.skip(input@.len() - 1)[0] == input@.last()); } }
@@end
@@fn parse.rs::rstrip_fws
@replace CRLF => PARSE_CRLF
@ret r
@spec
    ensures match r { Some(t) => rn_fws(input@) > 0 && t@ =~= input@.take(input@.len() - rn_fws(input@)), None => rn_fws(input@) == 0 },
@head
    proof {
        reveal_strlit("\r\n"); assert("\r\n"@ =~= crlf_c());
        lemma_rrun(fw(), input@);
        let t = input@.take(input@.len() - rn_wsp(input@));
        if t.len() >= 2 { assert(t.skip(t.len() - 2)[0] == t[t.len() - 2]); assert(t.skip(t.len() - 2)[1] == t[t.len() - 1]);
            assert(t.skip(t.len() - 2) =~= crlf_c() <==> (t[t.len() - 2] == '\r' && t[t.len() - 1] == '\n')); }
        lemma_rrun(fw(), t.take(t.len() - 2));
    }
@@end
