use crate::ctx::*;
use crate::{gen, oracle};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use viadkim::canonicalize::{canonicalize_header, canonicalize_headers};
use viadkim::header::{FieldBody, FieldName, HeaderFields};
use viadkim::signature::CanonicalizationAlgorithm as Canon;

const KINDS: [Canon; 2] = [Canon::Simple, Canon::Relaxed];

fn check_one(kind: Canon, pre: &[u8], name: &str, body: &[u8]) -> Res {
    if FieldName::new(name).is_err() || FieldBody::new(body).is_err() {
        return Res::Skip;
    }
    let mut buf = pre.to_vec();
    canonicalize_header(&mut buf, kind, name, body);
    let mut want = pre.to_vec();
    want.extend(oracle::header_canon(kind == Canon::Relaxed, name.as_bytes(), body));
    if buf != want {
        return Res::Bad(format!("got {} expected {}", esc(&buf), esc(&want)));
    }
    Res::Ok
}

pub fn c02(c: &mut Ctx) -> &'static str {
    let toks: [&[u8]; 7] = [b"a", b"B", b" ", b"\t", b"\r\n ", b"\r\n\t", b"\xff"];
    let max = if c.thorough { 7 } else { 5 };
    let mut len = 0;
    'o: for l in 0..=max {
        for code in 0..toks.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            if code % 512 == 0 && !c.time_left() {
                break 'o;
            }
            let body = gen::nth_tokens(&toks, l, code);
            for kind in KINDS {
                c.eval("canonical form of a field", || format!("{kind:?} A-b:{}", esc(&body)), || check_one(kind, b"p \t", "A-b", &body));
            }
        }
        len = l;
    }
    c.exhaustive.push(format!("all valid bodies of up to {len} tokens over {{a, B, SP, TAB, CRLF SP, CRLF TAB, 0xff}}"));
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let (n, b) = (gen::field_name(&mut r), gen::field_body(&mut r));
            let pre = gen::tokens(&mut r, &[b"x", b" ", b"\r\n"], 4);
            for kind in KINDS {
                c.eval("canonical form of a field", || format!("{kind:?} pre={} {n}:{}", esc(&pre), esc(&b)), || check_one(kind, &pre, &n, &b));
            }
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "every valid field body of up to N tokens, then random names and bodies with a non-empty output buffer; non-trivial: each distinct (algorithm, name, body)"
}

fn check_block(kind: Canon, h: &[(String, Vec<u8>)], names: &[String]) -> Res {
    let Ok(hf) = HeaderFields::from_vec(h.to_vec()) else { return Res::Skip };
    let Ok(sel) = names.iter().map(|n| FieldName::new(&**n)).collect::<Result<Vec<_>, _>>() else { return Res::Skip };
    let got = canonicalize_headers(kind, &hf, &sel);
    let hs: Vec<(&[u8], &[u8])> = h.iter().map(|(n, b)| (n.as_bytes(), &b[..])).collect();
    let ns: Vec<&[u8]> = names.iter().map(|n| n.as_bytes()).collect();
    let want = oracle::header_block(kind == Canon::Relaxed, &hs, &ns);
    if got != want {
        return Res::Bad(format!("got {} expected {}", esc(&got), esc(&want)));
    }
    Res::Ok
}

fn show(h: &[(String, Vec<u8>)]) -> String {
    h.iter().map(|(n, b)| format!("{n}:{}", esc(b))).collect::<Vec<_>>().join(" / ")
}

pub fn c03(c: &mut Ctx) -> &'static str {
    // exhaustive: headers and lists over {a, A, b}, bodies numbered
    let nm = ["a", "A", "b"];
    let (mh, ml) = if c.thorough { (5, 5) } else { (4, 4) };
    let mut done = String::new();
    'o: for hl in 1..=mh {
        for ll in 0..=ml {
            for hc in 0..3usize.pow(hl as u32) {
                for lc in 0..3usize.pow(ll as u32) {
                    if !c.mine() {
                        continue;
                    }
                    if lc % 64 == 0 && !c.time_left() {
                        break 'o;
                    }
                    let pick = |mut x: usize, n: usize| -> Vec<String> {
                        (0..n).map(|_| { let v = nm[x % 3].to_string(); x /= 3; v }).collect()
                    };
                    let h: Vec<_> = pick(hc, hl).into_iter().enumerate().map(|(i, n)| (n, vec![b'0' + i as u8])).collect();
                    let l = pick(lc, ll);
                    let kind = KINDS[(hc + lc) % 2];
                    c.eval("selected header block", || format!("{kind:?} {} list={l:?}", show(&h)), || check_block(kind, &h, &l));
                }
            }
            done = format!("all headers of up to {hl} fields and lists of up to {ll} names over {{a, A, b}}");
        }
    }
    c.exhaustive.push(done);
    while c.time_left() {
        for _ in 0..100 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let big = r.chance(1, 50);
            let h = gen::header(&mut r, if big { 300 } else { 12 });
            let mut l: Vec<String> = vec![];
            for _ in 0..r.range(0, if big { 300 } else { 14 }) {
                let n = if r.chance(3, 4) { r.pick(&h).0.clone() } else { gen::field_name(&mut r) };
                l.push(if r.chance(1, 3) { gen::case_flip(&mut r, &n) } else { n });
            }
            let kind = *r.pick(&KINDS);
            c.eval("selected header block", || format!("{kind:?} {} list={l:?}", show(&h)), || check_block(kind, &h, &l));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "every small header and list over {a, A, b} with distinguishable bodies, then random headers (to 300 fields) and lists; non-trivial: each distinct (algorithm, header, list)"
}

fn hash(x: &FieldName) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn check_name(s: &str) -> Res {
    match (FieldName::new(s), oracle::field_name_ok(s)) {
        (Ok(n), true) if n.as_ref() == s => Res::Ok,
        (Err(_), false) => Res::Ok,
        (g, w) => Res::Bad(format!("{g:?}, expected accepted: {w}")),
    }
}

fn check_fbody(b: &[u8]) -> Res {
    match (FieldBody::new(b), oracle::field_body_ok(b)) {
        (Ok(n), true) if n.as_ref() == b => Res::Ok,
        (Err(_), false) => Res::Ok,
        (g, w) => Res::Bad(format!("{g:?}, expected accepted: {w}")),
    }
}

fn check_pair(a: &str, b: &str) -> Res {
    let (Ok(x), Ok(y)) = (FieldName::new(a), FieldName::new(b)) else { return Res::Skip };
    let want = a.eq_ignore_ascii_case(b);
    if (x == y) != want || (x == b) != want || want && hash(&x) != hash(&y) {
        return Res::Bad(format!("equal: {}, to str: {}, same hash: {}; expected {want}", x == y, x == b, hash(&x) == hash(&y)));
    }
    Res::Ok
}

fn check_parse(s: &str) -> Res {
    let got = s.parse::<HeaderFields>().ok().map(|h| {
        h.as_ref().iter().map(|(n, b)| (n.as_ref().to_string(), b.as_ref().to_vec())).collect::<Vec<_>>()
    });
    let want = oracle::parse_header_block(s);
    if got != want {
        return Res::Bad(format!("got {got:?} expected {want:?}"));
    }
    Res::Ok
}

fn check_vec(h: &[(String, Vec<u8>)]) -> Res {
    let want = !h.is_empty() && h.iter().all(|(n, b)| oracle::field_name_ok(n) && oracle::field_body_ok(b));
    match HeaderFields::from_vec(h.to_vec()) {
        Ok(x) if want => {
            let got: Vec<_> = x.as_ref().iter().map(|(n, b)| (n.as_ref().to_string(), b.as_ref().to_vec())).collect();
            if got == h { Res::Ok } else { Res::Bad("fields altered".into()) }
        }
        Err(_) if !want => Res::Ok,
        Ok(_) => Res::Bad("accepted".into()),
        Err(_) => Res::Bad("refused".into()),
    }
}

pub fn c15(c: &mut Ctx) -> &'static str {
    for x in 0..=255u8 {
        for pos in 0..3 {
            if !c.mine() {
                continue;
            }
            let mut b = b"ab".to_vec();
            b.insert(pos, x);
            c.eval("field body", || esc(&b), || check_fbody(&b));
            let ch = char::from(x);
            let mut s = String::from("ab");
            s.insert(pos, ch);
            c.eval("field name", || esc(s.as_bytes()), || check_name(&s));
            let mut u = s.to_uppercase();
            c.eval("names compare ignoring case", || format!("{s} {u}"), || check_pair(&s, &u));
            u.push('x');
            c.eval("names compare ignoring case", || format!("{s} {u}"), || check_pair(&s, &u));
        }
    }
    let toks: [&[u8]; 7] = [b"a", b" ", b"\t", b"\r", b"\n", b"\r\n", b"\x00"];
    let lt: [&[u8]; 9] = [b"a", b":", b" ", b"\t", b"\n", b"\r\n", b"\r", b"B:", b"\xc3\xa4"];
    let max = if c.thorough { 7 } else { 5 };
    let mut len = 0;
    'o: for l in 0..=max {
        for code in 0..lt.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            if code % 512 == 0 && !c.time_left() {
                break 'o;
            }
            if code < toks.len().pow(l as u32) {
                let b = gen::nth_tokens(&toks, l, code);
                c.eval("field body", || esc(&b), || check_fbody(&b));
            }
            let s = String::from_utf8(gen::nth_tokens(&lt, l, code)).unwrap();
            c.eval("header block", || esc(s.as_bytes()), || check_parse(&s));
        }
        len = l;
    }
    c.exhaustive.push(format!("all field bodies and header blocks of up to {len} tokens; every byte in a name and body"));
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let b = if r.chance(1, 2) { gen::tokens(&mut r, &toks, 12) } else {
                let mut b = gen::field_body(&mut r);
                if r.chance(1, 2) {
                    let i = r.range(0, b.len());
                    let t = *r.pick(&toks);
                    b.splice(i..i, t.iter().copied());
                }
                b
            };
            c.eval("field body", || esc(&b), || check_fbody(&b));
            let mut h = gen::header(&mut r, 5);
            if r.chance(1, 3) {
                let k = r.below(h.len());
                h[k].1 = b.clone();
            }
            if r.chance(1, 6) {
                let k = r.below(h.len());
                h[k].0.push(*r.pick(&[' ', ':', 'é', '\n', ';']));
            }
            if r.chance(1, 20) {
                h.clear();
            }
            c.eval("header from parts", || show(&h), || check_vec(&h));
            let mut s = String::new();
            for (n, b) in &h {
                s.push_str(n);
                s.push(':');
                s.push_str(&String::from_utf8_lossy(b));
                s.push_str(r.pick(&["\n", "\r\n", "\r\n", ""]));
            }
            if r.chance(1, 2) {
                s = s.replace("\r\n", "\n");
            }
            c.eval("header block", || esc(s.as_bytes()), || check_parse(&s));
            let (x, y) = (gen::field_name(&mut r), gen::field_name(&mut r));
            c.eval("names compare ignoring case", || format!("{x} {y}"), || check_pair(&x, &y));
            let y = gen::case_flip(&mut r, &x);
            c.eval("names compare ignoring case", || format!("{x} {y}"), || check_pair(&x, &y));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "every byte inside names and bodies, all short token sequences as body and as header block, then random headers with single defects; non-trivial: each distinct input"
}
