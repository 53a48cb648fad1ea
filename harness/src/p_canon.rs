use crate::ctx::*;
use crate::oracle;
use viadkim::canonicalize::BodyCanonicalizer;
use viadkim::signature::CanonicalizationAlgorithm as Canon;

pub fn run_canon(kind: Canon, chunks: &[&[u8]]) -> Vec<u8> {
    let mut c = BodyCanonicalizer::new(kind);
    let mut o = vec![];
    for x in chunks {
        o.extend(c.canonicalize_chunk(x));
    }
    o.extend(c.finish());
    o
}

pub fn split_random<'a>(r: &mut Rng, b: &'a [u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if r.chance(1, 8) {
            v.push(&b[i..i]);
        }
        let max = *r.pick(&[1usize, 2, 3, 7, 50, 5000]);
        let n = r.range(1, max).min(b.len() - i);
        v.push(&b[i..i + n]);
        i += n;
    }
    v
}

fn check_body(kind: Canon, body: &[u8], chunks: &[&[u8]]) -> Res {
    let got = run_canon(kind, chunks);
    let whole = run_canon(kind, &[body]);
    if got != whole {
        return Res::Bad(format!("depends on chunking: {} vs whole {}", esc(&got), esc(&whole)));
    }
    let want = match kind {
        Canon::Simple => oracle::body_simple(body),
        Canon::Relaxed => {
            if oracle::relaxed_unspecified(body) {
                return Res::Ok;
            }
            oracle::body_relaxed(body)
        }
    };
    if got != want {
        return Res::Bad(format!("canonical form {} expected {}", esc(&got), esc(&want)));
    }
    Res::Ok
}

pub fn random_body(r: &mut Rng) -> Vec<u8> {
    let toks: [&[u8]; 12] = [b"a", b" ", b"\t", b"\r\n", b"\r", b"\n", b"\r\n\r\n", b"xyz", b" \r\n", b"\x00\xff", b".", b"  "];
    let mut o = vec![];
    let n = *r.pick(&[3usize, 8, 20, 60]);
    for _ in 0..r.below(n) {
        let t = *r.pick(&toks);
        if r.chance(1, 6) {
            o.push(r.below(256) as u8);
        }
        let rep = if r.chance(1, 40) { r.range(100, 3000) } else if r.chance(1, 10) { r.range(2, 6) } else { 1 };
        for _ in 0..rep {
            o.extend_from_slice(t);
        }
    }
    o
}

pub fn c01(c: &mut Ctx) -> &'static str {
    let alpha: [&[u8]; 6] = [b"a", b" ", b"\t", b"\r", b"\n", b"\r\n"];
    let max = if c.thorough { 8 } else { 6 };
    let mut len = 0;
    'outer: for l in 0..=max {
        for code in 0..alpha.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            if code % 1024 == 0 && !c.time_left() {
                break 'outer;
            }
            let mut body = vec![];
            let mut x = code;
            for _ in 0..l {
                body.extend_from_slice(alpha[x % alpha.len()]);
                x /= alpha.len();
            }
            let bytes: Vec<&[u8]> = body.chunks(1).collect();
            for kind in [Canon::Simple, Canon::Relaxed] {
                c.eval(
                    "body canonical form, byte by byte",
                    || format!("{kind:?} body={}", esc(&body)),
                    || check_body(kind, &body, &bytes),
                );
            }
            if !c.failures.is_empty() {
                break 'outer;
            }
        }
        len = l;
    }
    c.exhaustive.push(format!("all bodies of up to {len} tokens over {{a, SP, TAB, CR, LF, CRLF}}, in one-byte chunks"));
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let body = random_body(&mut r);
            let ch = split_random(&mut r, &body);
            for kind in [Canon::Simple, Canon::Relaxed] {
                c.eval(
                    "body canonical form, random chunks",
                    || format!("{kind:?} chunks={}", ch.iter().map(|x| esc(x)).collect::<Vec<_>>().join("|")),
                    || check_body(kind, &body, &ch),
                );
            }
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "every body of up to N tokens over {a, SP, TAB, CR, LF, CRLF}, then random bodies (runs of up to 3000 repeats, stray CR/LF, NUL/0xff) in random chunkings; non-trivial: each distinct (algorithm, body, chunking)"
}
