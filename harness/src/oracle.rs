//! Oracles written from RFC 6376, independent of the code under test.

fn lines(body: &[u8]) -> (Vec<&[u8]>, Option<&[u8]>) {
    // complete CRLF-terminated lines, and the unterminated rest if any
    let mut v = vec![];
    let mut start = 0;
    let mut i = 0;
    while i + 1 < body.len() {
        if body[i] == b'\r' && body[i + 1] == b'\n' {
            v.push(&body[start..i]);
            i += 2;
            start = i;
        } else {
            i += 1;
        }
    }
    (v, if start < body.len() { Some(&body[start..]) } else { None })
}

pub fn body_simple(body: &[u8]) -> Vec<u8> {
    let (mut ls, rest) = lines(body);
    if let Some(r) = rest {
        ls.push(r);
    }
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    if ls.is_empty() {
        return b"\r\n".to_vec();
    }
    let mut o = vec![];
    for l in ls {
        o.extend_from_slice(l);
        o.extend_from_slice(b"\r\n");
    }
    o
}

pub fn squeeze(l: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut it = l.iter().peekable();
    while let Some(&b) = it.next() {
        if b == b' ' || b == b'\t' {
            while matches!(it.peek(), Some(b' ' | b'\t')) {
                it.next();
            }
            if it.peek().is_some() {
                o.push(b' ');
            }
        } else {
            o.push(b);
        }
    }
    o
}

/// The last line is unterminated and made of WSP only: RFC 6376 is silent.
pub fn relaxed_unspecified(body: &[u8]) -> bool {
    matches!(lines(body).1, Some(r) if r.iter().all(|b| matches!(b, b' ' | b'\t')))
}

pub fn body_relaxed(body: &[u8]) -> Vec<u8> {
    let (ls, rest) = lines(body);
    let mut ls: Vec<Vec<u8>> = ls.into_iter().map(squeeze).collect();
    if let Some(r) = rest {
        ls.push(squeeze(r));
    }
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    let mut o = vec![];
    for l in ls {
        o.extend_from_slice(&l);
        o.extend_from_slice(b"\r\n");
    }
    o
}

// ---- header fields (RFC 6376 section 3.4.1, 3.4.2, 5.4.2) ----

/// Canonical form of one header field, without the final CRLF.
pub fn header_canon(relaxed: bool, name: &[u8], body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if !relaxed {
        o.extend_from_slice(name);
        o.push(b':');
        o.extend_from_slice(body);
        return o;
    }
    o.extend(name.iter().map(|c| c.to_ascii_lowercase()));
    o.push(b':');
    // unfold, then reduce white space
    let mut unfolded = vec![];
    let mut i = 0;
    while i < body.len() {
        if body[i..].starts_with(b"\r\n") {
            i += 2;
        } else {
            unfolded.push(body[i]);
            i += 1;
        }
    }
    let words: Vec<&[u8]> = unfolded.split(|b| *b == b' ' || *b == b'\t').filter(|w| !w.is_empty()).collect();
    o.extend(words.join(&b' '));
    o
}

/// The canonicalized header block of the selected fields (indexes of the
/// fields used are returned as well).
pub fn select(headers: &[(&[u8], &[u8])], names: &[&[u8]]) -> Vec<usize> {
    let mut r = vec![];
    for (i, n) in names.iter().enumerate() {
        let mention = names[..i].iter().filter(|m| m.eq_ignore_ascii_case(n)).count();
        let inst: Vec<usize> = (0..headers.len()).filter(|&k| headers[k].0.eq_ignore_ascii_case(n)).collect();
        if mention < inst.len() {
            r.push(inst[inst.len() - 1 - mention]);
        }
    }
    r
}

pub fn header_block(relaxed: bool, headers: &[(&[u8], &[u8])], names: &[&[u8]]) -> Vec<u8> {
    let mut o = vec![];
    for k in select(headers, names) {
        o.extend(header_canon(relaxed, headers[k].0, headers[k].1));
        o.extend_from_slice(b"\r\n");
    }
    o
}

/// RFC 5322 field name without obsolete syntax.
pub fn field_name_ok(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| (33..=126).contains(&b) && b != b':')
}

/// Field body: no control characters but TAB, folds only.
pub fn field_body_ok(b: &[u8]) -> bool {
    let mut lines: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && b.get(i + 1) == Some(&b'\n') {
            lines.push(vec![]);
            i += 2;
            continue;
        }
        if (b[i] < 32 && b[i] != 9) || b[i] == 127 {
            return false;
        }
        lines.last_mut().unwrap().push(b[i]);
        i += 1;
    }
    lines[1..].iter().all(|l| {
        matches!(l.first(), Some(b' ' | b'\t')) && l.iter().any(|c| *c != b' ' && *c != b'\t')
    })
}

/// Parses a header block: lines ended by LF or CRLF.
pub fn parse_header_block(s: &str) -> Option<Vec<(String, Vec<u8>)>> {
    let mut lines: Vec<&str> = s.split('\n').collect();
    if lines.last() == Some(&"") {
        lines.pop();
    }
    let n = lines.len();
    let ended = s.ends_with('\n');
    let lines: Vec<&str> = lines
        .into_iter()
        .enumerate()
        .map(|(i, l)| if i + 1 < n || ended { l.strip_suffix('\r').unwrap_or(l) } else { l })
        .collect();
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    for l in lines {
        if l.starts_with(' ') || l.starts_with('\t') {
            let f = out.last_mut()?;
            f.1.extend_from_slice(b"\r\n");
            f.1.extend_from_slice(l.as_bytes());
        } else {
            let k = l.find(':')?;
            out.push((l[..k].to_string(), l.as_bytes()[k + 1..].to_vec()));
        }
    }
    if out.is_empty() || !out.iter().all(|(n, b)| field_name_ok(n) && field_body_ok(b)) {
        return None;
    }
    Some(out)
}
