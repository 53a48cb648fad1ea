// ================= RFC 6376, 3.4.3 and 3.4.4, on the whole body =================
pub open spec fn crlf() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn is_wsp_b(b: u8) -> bool { b == 32 || b == 9 }
pub open spec fn ends_crlf(s: Seq<u8>) -> bool {
    s.len() >= 2 && s[s.len() - 2] == 13 && s[s.len() - 1] == 10
}
/// All empty lines (and the terminator of the last line) at the end removed.
pub open spec fn strip_crlfs(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if ends_crlf(s) { strip_crlfs(s.take(s.len() - 2)) } else { s }
}
/// 3.4.3: `*CRLF` at the end of the body becomes a single CRLF.
pub open spec fn body_simple(b: Seq<u8>) -> Seq<u8> { strip_crlfs(b) + crlf() }

/// What byte `i` of `s` contributes after whitespace reduction: WSP runs become
/// one SP, and nothing at the end of a line or of the input.
pub open spec fn reduced_at(s: Seq<u8>, i: int) -> Seq<u8> {
    if !is_wsp_b(s[i]) {
        seq![s[i]]
    } else if i + 1 < s.len() && !is_wsp_b(s[i + 1])
        && !(s[i + 1] == 13 && i + 2 < s.len() && s[i + 2] == 10) {
        seq![32u8]
    } else {
        seq![]
    }
}
pub open spec fn reduced_upto(s: Seq<u8>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { seq![] } else { reduced_upto(s, n - 1) + reduced_at(s, n - 1) }
}
pub open spec fn reduced(s: Seq<u8>) -> Seq<u8> { reduced_upto(s, s.len() as int) }

/// The last line has no CRLF and consists of one or more WSP.  RFC 6376 does not
/// say what becomes of such a line; the code documents its choice (a CRLF).
pub open spec fn unterminated_blank_tail(s: Seq<u8>) -> bool {
    s.len() > 0 && is_wsp_b(s.last()) && (reduced(s).len() == 0 || ends_crlf(reduced(s)))
}
/// 3.4.4: reduce whitespace, drop empty lines at the end, final CRLF if non-empty.
pub open spec fn body_relaxed(b: Seq<u8>) -> Seq<u8> {
    let t = strip_crlfs(reduced(b));
    if t.len() == 0 { seq![] } else { t + crlf() }
}
pub open spec fn bcanon_of(kind: CanonicalizationAlgorithm, b: Seq<u8>) -> Seq<u8> {
    match kind {
        CanonicalizationAlgorithm::Simple => body_simple(b),
        CanonicalizationAlgorithm::Relaxed => if unterminated_blank_tail(b) {
            body_relaxed(b) + crlf()
        } else {
            body_relaxed(b)
        },
    }
}
