//! No panic, no overflow, no hang (C20): everything public, on junk.
use crate::ctx::*;
use crate::dk::{self, Ans, Dns, Focus};
use crate::{gen, p_sign, p_tags};
use std::sync::Arc;
use viadkim::crypto::{KeyType, SigningKey, VerifyingKey};
use viadkim::header::{FieldBody, FieldName, HeaderFields};
use viadkim::record::DkimKeyRecord;
use viadkim::signature::{Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector, SigningAlgorithm};

fn junk(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 => (0..r.range(0, 60)).map(|_| r.below(256) as u8).collect(),
        1 => gen::tokens(r, &[b"a", b"=", b";", b":", b"\r\n", b"\r\n ", b" ", b"\t", b"\xff", "é".as_bytes(), b"\x00", b"@", b"\"", b"\\", b".", b"-", b"xn--"], 30),
        2 => p_tags::random_sig(r).into_bytes(),
        3 => crate::p_names::random_name(r).into_bytes(),
        _ => {
            let mut v = p_tags::random_sig(r).into_bytes();
            for _ in 0..r.range(1, 6) {
                if v.is_empty() {
                    break;
                }
                let i = r.below(v.len());
                match r.below(3) {
                    0 => v[i] = r.below(256) as u8,
                    1 => drop(v.remove(i)),
                    _ => v.insert(i, *r.pick(b";=: \r\n\t\xc3\xa9|@")),
                }
            }
            v
        }
    }
}

fn parsers(b: &[u8], sep: Option<char>) -> Res {
    let _ = FieldBody::new(b);
    let _ = viadkim::quoted_printable::encode(b, sep);
    let _ = viadkim::quoted_printable::encode_ascii_only(b, sep);
    let s = String::from_utf8_lossy(b);
    let s = &*s;
    let _ = FieldName::new(s);
    let _ = s.parse::<HeaderFields>();
    let _ = s.parse::<DkimSignature>().map(|x| (format!("{x:?}"), x.domain.to_unicode(), x.domain.to_ascii()));
    let _ = s.parse::<DkimKeyRecord>().map(|x| format!("{x:?}"));
    let _ = DomainName::new(s).map(|d| (d.to_unicode(), d.to_string()));
    let _ = Selector::new(s).map(|d| (d.to_unicode(), d.to_string()));
    let _ = Identity::new(s).map(|d| format!("{d} {d:?}"));
    let _ = s.parse::<SigningAlgorithm>();
    let _ = s.parse::<Canonicalization>();
    let _ = s.parse::<CanonicalizationAlgorithm>();
    let _ = viadkim::quoted_printable::decode(s);
    let _ = SigningKey::from_pkcs8_pem(s);
    for t in [KeyType::Rsa, KeyType::Ed25519] {
        let _ = VerifyingKey::from_key_data(t, b).map(|k| (k.key_size(), k.validate_min_key_size()));
    }
    Res::Ok
}

fn wild_case(r: &mut Rng) -> dk::Case {
    let mut k = dk::case(r, *r.clone().pick(&[Focus::Multi, Focus::Key, Focus::Tamper, Focus::Policy]));
    let mut m = (*k.dns.map).clone();
    for (_, a) in m.iter_mut() {
        if r.chance(1, 3) {
            if let Ans::Txt(v) = a {
                for _ in 0..r.range(1, 5) {
                    v.push(if r.chance(1, 5) { Err(std::io::ErrorKind::Other) } else { Ok(junk(r)) });
                }
                // key bytes with a few bits changed
                let key = &dk::keys()[r.below(10)];
                let mut kd = key.publ[r.below(key.publ.len())].clone();
                for _ in 0..r.range(1, 3) {
                    let i = r.below(kd.len().min(40));
                    kd[i] = r.below(256) as u8;
                }
                let s = format!("k={};p={}", if r.chance(1, 2) { "rsa" } else { "ed25519" }, dk::b64(r, &kd, false));
                v.insert(0, Ok(s.into_bytes()));
            }
        }
    }
    k.dns = Dns { map: Arc::new(m), log: Default::default() };
    for _ in 0..r.range(0, 2) {
        let v = junk(r);
        if FieldBody::new(&v[..]).is_ok() {
            let i = r.below(k.f.len() + 1);
            k.f.insert(i, ("DKIM-Signature".into(), v));
        }
    }
    if r.chance(1, 4) {
        k.cfg.fixed_system_time = None;
    }
    k
}

pub fn c20(c: &mut Ctx) -> &'static str {
    while c.time_left() {
        for _ in 0..20 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            for _ in 0..20 {
                let b = junk(&mut r);
                let sep = *r.pick(&[None, Some('|'), Some('é')]);
                c.eval("parsing returns", || esc(&b), || parsers(&b, sep));
            }
            let mut key = dk::keys()[r.below(10)].publ[0].clone();
            for _ in 0..r.range(1, 4) {
                let i = r.below(key.len());
                key[i] = r.below(256) as u8;
            }
            c.eval("parsing returns", || esc(&key), || parsers(&key, None));
            let k = wild_case(&mut r);
            c.eval("verification returns", || k.show(), || {
                let ch = crate::p_canon::split_random(&mut Rng::new(k.cuts), &k.body);
                if let Some(v) = dk::verify(&k.f, &ch, &k.dns, &k.cfg, k.stop) {
                    for x in v {
                        let _ = (format!("{x:?}"), x.status.to_dkim_result());
                    }
                }
                Res::Ok
            });
            let (f, body, q) = p_sign::wild(&mut r);
            c.eval("signing returns", || p_sign::show(&f, &body, 0, &q), || {
                let ch = crate::p_canon::split_random(&mut Rng::new(k.cuts), &body);
                if let Ok(v) = p_sign::sign(&f, &ch, &q, k.stop) {
                    for o in v.into_iter().flatten() {
                        let _ = (o.format_header().to_string(), o.to_header_field(), format!("{o:?}"));
                    }
                }
                Res::Ok
            });
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "junk for every parser, junk among signatures, records and keys, unusual requests and formats; overflow checks and debug assertions on; non-trivial: each distinct input"
}
