use crate::ctx::*;
use crate::oracle;
use crate::p_canon::{random_body, split_random};
use sha2::Digest;
use viadkim::crypto::HashAlgorithm;
use viadkim::message_hash::*;
use viadkim::signature::CanonicalizationAlgorithm as Canon;

type Key = (Option<usize>, HashAlgorithm, Canon);

pub fn digest(a: HashAlgorithm, b: &[u8]) -> Vec<u8> {
    match a {
        HashAlgorithm::Sha256 => sha2::Sha256::digest(b).to_vec(),
        #[cfg(feature = "sha1")]
        HashAlgorithm::Sha1 => sha1::Sha1::digest(b).to_vec(),
    }
}

pub fn algs() -> Vec<HashAlgorithm> {
    vec![
        HashAlgorithm::Sha256,
        #[cfg(feature = "sha1")]
        HashAlgorithm::Sha1,
    ]
}

pub fn canon_body(k: Canon, b: &[u8]) -> Vec<u8> {
    match k {
        Canon::Simple => oracle::body_simple(b),
        Canon::Relaxed => oracle::body_relaxed(b),
    }
}

fn expected(fail: bool, key: &Key, body: &[u8]) -> BodyHashResult {
    let c = canon_body(key.2, body);
    match key.0 {
        None => Ok((digest(key.1, &c).into(), c.len())),
        Some(n) if n > c.len() => Err(BodyHashError::InsufficientInput),
        Some(n) if n < c.len() && fail => Err(BodyHashError::InputTruncated),
        Some(n) => Ok((digest(key.1, &c[..n]).into(), n)),
    }
}

fn build(fail: bool, keys: &[Key]) -> BodyHasher {
    let mut b = BodyHasherBuilder::new(fail);
    for k in keys {
        b.register_canonicalization(k.0, k.1, k.2);
    }
    b.build()
}

fn check(fail: bool, keys: &[Key], body: &[u8], chunks: &[&[u8]], stop_when_done: bool) -> Res {
    if oracle::relaxed_unspecified(body) && keys.iter().any(|k| k.2 == Canon::Relaxed) {
        return Res::Skip;
    }
    let mut h = build(fail, keys);
    let mut done = keys.is_empty();
    for ch in chunks {
        let st = h.hash_chunk(ch);
        if done && st == BodyHasherStance::Interested {
            return Res::Bad("interested again after done".into());
        }
        done |= st == BodyHasherStance::Done;
        if done && stop_when_done {
            break;
        }
    }
    let r = h.finish();
    for k in keys {
        let want = expected(fail, k, body);
        match r.get(k) {
            Some(g) if *g == want => {}
            g => return Res::Bad(format!("{k:?}: got {g:?} expected {want:?}")),
        }
    }
    for l in [None, Some(0), Some(77_777)] {
        for k in [Canon::Simple, Canon::Relaxed] {
            let key = (l, HashAlgorithm::Sha256, k);
            if !keys.contains(&key) && r.get(&key).is_some() {
                return Res::Bad("answer to a request never made".into());
            }
        }
    }
    Res::Ok
}

fn show(fail: bool, keys: &[Key], ch: &[&[u8]], stop: bool) -> String {
    format!("fail_on_truncate={fail} keys={keys:?} stop_when_done={stop} chunks={}", ch.iter().map(|x| esc(x)).collect::<Vec<_>>().join("|"))
}

pub fn c04(c: &mut Ctx) -> &'static str {
    let bodies: [&[u8]; 9] = [b"", b"a", b"\r\n", b"a\r\n", b"a \r\n\r\n", b"a\r\nb", b" \t\r\na b\r\n\r\n\r\n", b"ab\r", b"a\r\n\r\nb\r\n"];
    for body in bodies {
        for n in 0..=body.len() + 3 {
            for fail in [false, true] {
                for stop in [false, true] {
                    for cut in 0..=body.len() {
                        if !c.mine() {
                            continue;
                        }
                        for alg in algs() {
                            let keys = [(Some(n), alg, Canon::Simple), (Some(n), alg, Canon::Relaxed), (None, alg, Canon::Simple)];
                            let ch = [&body[..cut], &body[cut..], b""];
                            for ks in [&keys[..1], &keys[1..2], &keys[..]] {
                                c.eval("body hash answers", || show(fail, ks, &ch, stop), || check(fail, ks, body, &ch, stop));
                            }
                        }
                    }
                }
            }
        }
    }
    c.exhaustive.push("9 small bodies, every length limit, every two-chunk cut, with and without stopping when done".into());
    while c.time_left() {
        for _ in 0..50 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let body = random_body(&mut r);
            let ch = split_random(&mut r, &body);
            let (ls, lr) = (oracle::body_simple(&body).len(), oracle::body_relaxed(&body).len());
            let mut keys: Vec<Key> = vec![];
            for _ in 0..r.range(1, 5) {
                let m = ls.max(lr) + 2;
                let n = *r.pick(&[0, 1, ls, lr, ls.saturating_sub(1), lr.saturating_sub(1), ls + 1, lr + 1, usize::MAX, 0x1_0000_0000]);
                let n = if r.chance(1, 2) { r.range(0, m) } else { n };
                let l = if r.chance(1, 4) { None } else { Some(n) };
                keys.push((l, *r.pick(&algs()), *r.pick(&[Canon::Simple, Canon::Relaxed])));
            }
            let (fail, stop) = (r.chance(1, 2), r.chance(1, 2));
            c.eval("body hash answers", || show(fail, &keys, &ch, stop), || check(fail, &keys, &body, &ch, stop));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "nine small bodies with every limit and cut, then random bodies, chunkings and request sets with limits around the canonical length; non-trivial: each distinct (requests, chunks, policy)"
}
