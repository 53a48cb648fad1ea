//! Random and enumerated inputs shared by the executable contracts.
use crate::ctx::Rng;

pub const NAMES: [&str; 14] = [
    "From", "from", "To", "Cc", "Subject", "subject", "SUBJECT", "Date", "X-a", "x-A", "Received", "Message-ID", "b", "Bcc",
];

pub fn case_flip(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.chance(1, 3) { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
}

pub fn field_name(r: &mut Rng) -> String {
    if r.chance(3, 4) {
        let n = *r.pick(&NAMES);
        return if r.chance(1, 3) { case_flip(r, n) } else { n.to_string() };
    }
    let n = r.range(1, 12);
    (0..n)
        .map(|_| loop {
            let c = r.range(33, 126) as u8;
            if c != b':' {
                break c as char;
            }
        })
        .collect()
}

/// A valid field body.
pub fn field_body(r: &mut Rng) -> Vec<u8> {
    let toks: [&[u8]; 14] = [
        b"a", b"B", b" ", b"\t", b"  ", b"\r\n x", b"\r\n\ty", b" \r\n  z", b";", b"=", b":", b"\xe2\x82\xac", b"\xff", b"~",
    ];
    let mut o = vec![];
    if r.chance(3, 4) {
        o.push(b' ');
    }
    let n = *r.pick(&[0usize, 2, 6, 20]);
    for _ in 0..r.range(0, n) {
        let rep = if r.chance(1, 60) { r.range(10, 300) } else { 1 };
        let t = *r.pick(&toks);
        for _ in 0..rep {
            o.extend_from_slice(t);
        }
        if r.chance(1, 4) {
            let b = r.below(256) as u8;
            if b >= 32 && b != 127 {
                o.push(b);
            }
        }
    }
    o
}

pub fn header(r: &mut Rng, max: usize) -> Vec<(String, Vec<u8>)> {
    (0..r.range(1, max)).map(|_| (field_name(r), field_body(r))).collect()
}

/// Bytes from a small alphabet of tokens.
pub fn tokens(r: &mut Rng, toks: &[&[u8]], max: usize) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..r.range(0, max) {
        o.extend_from_slice(*r.pick(toks));
    }
    o
}

pub fn nth_tokens(toks: &[&[u8]], len: usize, mut code: usize) -> Vec<u8> {
    let mut o = vec![];
    for _ in 0..len {
        o.extend_from_slice(toks[code % toks.len()]);
        code /= toks.len();
    }
    o
}
