//! DKIM-Quoted-Printable (C13).
use crate::ctx::*;
use crate::gen;
use crate::orc::{self, V};
use viadkim::quoted_printable as qp;

fn check_encode(b: &[u8], sep: Option<char>, ascii: bool) -> Res {
    let e = if ascii { qp::encode_ascii_only(b, sep) } else { qp::encode(b, sep) };
    // output grammar: safe characters and upper-case escapes
    let cs: Vec<char> = e.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let ch = cs[i];
        if ch == '=' {
            let up = |c: Option<&char>| c.is_some_and(|c| c.is_ascii_digit() || ('A'..='F').contains(c));
            if !up(cs.get(i + 1)) || !up(cs.get(i + 2)) {
                return Res::Bad(format!("bad escape in {e:?}"));
            }
            i += 3;
            continue;
        }
        if !orc::qp_safe(ch) || Some(ch) == sep || ascii && !ch.is_ascii() {
            return Res::Bad(format!("unsafe character {ch:?} in {e:?}"));
        }
        i += 1;
    }
    // a safe character that need not be escaped is not escaped, except that the
    // encoder may escape more where the bytes are not UTF-8
    match qp::decode(&e) {
        Ok(d) if d == b => Res::Ok,
        d => Res::Bad(format!("encoded {e:?} decodes to {d:?}")),
    }
}

fn check_decode(s: &str) -> Res {
    match orc::qp(s) {
        V::Open => Res::Skip,
        V::Is(w) => {
            let g = qp::decode(s).ok();
            if g == w { Res::Ok } else { Res::Bad(format!("got {g:?} expected {w:?}")) }
        }
    }
}

fn seps() -> [Option<char>; 8] {
    [None, Some('|'), Some(':'), Some('a'), Some('G'), Some('\u{e9}'), Some('~'), Some('\u{10ffff}')]
}

pub fn c13(c: &mut Ctx) -> &'static str {
    for x in 0..=255u8 {
        for y in [None, Some(b'|'), Some(0x80), Some(0xa9), Some(b' '), Some(b'='), Some(0xc3)] {
            for sep in seps() {
                for a in [false, true] {
                    if !c.mine() {
                        continue;
                    }
                    let b: Vec<u8> = [x].into_iter().chain(y).collect();
                    c.eval("decode after encode", || format!("{sep:?} ascii={a} {}", esc(&b)), || check_encode(&b, sep, a));
                }
            }
        }
    }
    let toks: [&[u8]; 11] = [b"a", b"=", b"4", b"F", b"f", b" ", b"\r\n ", b"\r\n", b"\t", b";", "\u{e9}".as_bytes()];
    let max = if c.thorough { 6 } else { 5 };
    'o: for l in 0..=max {
        for code in 0..toks.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            if code % 512 == 0 && !c.time_left() {
                break 'o;
            }
            let s = String::from_utf8(gen::nth_tokens(&toks, l, code)).unwrap();
            c.eval("decoded text", || format!("{s:?}"), || check_decode(&s));
        }
        if l >= 3 {
            c.exhaustive.push(format!("decoding of all texts of up to {l} tokens over {{a = 4 F f SP CRLFSP CRLF TAB ; U+E9}}"));
        }
    }
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let b: Vec<u8> = if r.chance(1, 2) {
                gen::tokens(&mut r, &[b"a", b" ", b"=", b"\r\n", "\u{e9}".as_bytes(), "\u{10000}".as_bytes(), b"\xff", b"\xe2\x82", b"|", b";", b"\x7f", b"~"], 12)
            } else {
                (0..r.range(0, 40)).map(|_| r.below(256) as u8).collect()
            };
            let (sep, a) = (*r.pick(&seps()), r.chance(1, 2));
            c.eval("decode after encode", || format!("{sep:?} ascii={a} {}", esc(&b)), || check_encode(&b, sep, a));
            let e = qp::encode(&b, None);
            let mut cs: Vec<char> = e.chars().collect();
            for _ in 0..r.range(0, 4) {
                let i = r.below(cs.len() + 1);
                for ch in (*r.pick(&[" ", "\r\n ", "\t\r\n\t", "\r\n", "=", "é", ";", "\n", "a", "\x7f", "=4", "=zz", "=e"])).chars().rev() {
                    cs.insert(i, ch);
                }
            }
            let s: String = cs.into_iter().collect();
            c.eval("decoded text", || format!("{s:?}"), || check_decode(&s));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "all one- and two-byte strings with every listed option, all short texts, then random ones; non-trivial: each distinct (text, options)"
}
