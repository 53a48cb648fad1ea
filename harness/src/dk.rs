//! An independent DKIM verifier and signer (oracles), keys, mock resolver.
use crate::ctx::*;
use crate::orc::{self, V};
use crate::{gen, oracle};
use crate::p_hash::{canon_body, digest};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, SystemTime};
use viadkim::crypto::{HashAlgorithm, KeyType, SigningKey, VerificationError as CE};
use viadkim::header::{FieldName, HeaderFields};
use viadkim::record::{DkimKeyRecordError, SelectorFlag};
use viadkim::signature::{CanonicalizationAlgorithm as Canon, DkimSignatureError, DkimSignatureErrorKind as SE, SigningAlgorithm};
use viadkim::verifier::{Config, LookupTxt, PolicyError, VerificationError as VE, VerificationResult, VerificationStatus, Verifier};

// ------------------------------------------------------------------ keys --
pub struct Key {
    pub name: &'static str,
    pub sk: Arc<SigningKey>,
    pub ty: KeyType,
    /// admissible encodings of the public key in a record
    pub publ: Vec<Vec<u8>>,
    pub bits: usize,
}

macro_rules! pem {
    ($n:literal) => {
        ($n, include_str!(concat!("../keys/", $n, ".pem")))
    };
}

pub fn keys() -> &'static [Key] {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| {
        [
            pem!("eda"), pem!("edb"), pem!("rsa1024"), pem!("rsa1024b"), pem!("rsa2048"), pem!("rsa1025"), pem!("rsa1023"), pem!("rsa1017"),
            pem!("rsa768"), pem!("rsa512"),
        ]
        .into_iter()
        .map(|(name, p)| {
            let sk = Arc::new(SigningKey::from_pkcs8_pem(p).unwrap());
            match &*sk {
                SigningKey::Rsa(k) => {
                    use rsa::{pkcs1::EncodeRsaPublicKey, pkcs8::EncodePublicKey, traits::PublicKeyParts};
                    let p = k.to_public_key();
                    let publ = vec![p.to_public_key_der().unwrap().as_bytes().to_vec(), p.to_pkcs1_der().unwrap().as_bytes().to_vec()];
                    let bits = p.n().bits();
                    Key { name, ty: KeyType::Rsa, publ, bits, sk }
                }
                SigningKey::Ed25519(k) => {
                    let v = k.verifying_key();
                    use ed25519_dalek::pkcs8::EncodePublicKey;
                    let publ = vec![v.to_bytes().to_vec(), v.to_public_key_der().unwrap().as_bytes().to_vec()];
                    Key { name, ty: KeyType::Ed25519, publ, bits: 0, sk }
                }
            }
        })
        .collect()
    })
}

pub const GOOD_KEYS: usize = 6;

pub fn raw_sign(k: &Key, h: HashAlgorithm, dig: &[u8]) -> Option<Vec<u8>> {
    match &*k.sk {
        SigningKey::Rsa(p) => match h {
            HashAlgorithm::Sha256 => p.sign(rsa::Pkcs1v15Sign::new::<sha2::Sha256>(), dig).ok(),
            #[cfg(feature = "sha1")]
            HashAlgorithm::Sha1 => p.sign(rsa::Pkcs1v15Sign::new::<sha1::Sha1>(), dig).ok(),
        },
        SigningKey::Ed25519(p) => {
            use ed25519_dalek::Signer;
            Some(p.sign(dig).to_bytes().to_vec())
        }
    }
}

fn pub_rsa(b: &[u8]) -> Option<rsa::RsaPublicKey> {
    use rsa::{pkcs1::DecodeRsaPublicKey, pkcs8::DecodePublicKey};
    rsa::RsaPublicKey::from_public_key_der(b).ok().or_else(|| rsa::RsaPublicKey::from_pkcs1_der(b).ok())
}

fn pub_ed(b: &[u8]) -> Option<ed25519_dalek::VerifyingKey> {
    use ed25519_dalek::pkcs8::DecodePublicKey;
    let raw: Option<[u8; 32]> = b.try_into().ok();
    raw.and_then(|r| ed25519_dalek::VerifyingKey::from_bytes(&r).ok()).or_else(|| ed25519_dalek::VerifyingKey::from_public_key_der(b).ok())
}

pub fn parts(a: SigningAlgorithm) -> (KeyType, HashAlgorithm) {
    match a {
        SigningAlgorithm::RsaSha256 => (KeyType::Rsa, HashAlgorithm::Sha256),
        SigningAlgorithm::Ed25519Sha256 => (KeyType::Ed25519, HashAlgorithm::Sha256),
        #[cfg(feature = "sha1")]
        SigningAlgorithm::RsaSha1 => (KeyType::Rsa, HashAlgorithm::Sha1),
    }
}

// -------------------------------------------------------------- resolver --
#[derive(Clone, Debug)]
pub enum Ans {
    Txt(Vec<Result<Vec<u8>, io::ErrorKind>>),
    Err(io::ErrorKind),
    /// answers after that many milliseconds
    Slow(u64, Vec<Vec<u8>>),
}

#[derive(Clone, Default)]
pub struct Dns {
    pub map: Arc<HashMap<String, Ans>>,
    pub log: Arc<Mutex<Vec<String>>>,
}

impl LookupTxt for Dns {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, d: &str) -> Self::Query<'_> {
        self.log.lock().unwrap().push(d.to_string());
        let a = self.map.get(d).cloned().unwrap_or(Ans::Err(io::ErrorKind::NotFound));
        Box::pin(async move {
            match a {
                Ans::Txt(v) => Ok(v.into_iter().map(|x| x.map_err(|k| k.into())).collect()),
                Ans::Err(k) => Err(k.into()),
                Ans::Slow(ms, v) => {
                    tokio::time::sleep(Duration::from_millis(ms)).await;
                    Ok(v.into_iter().map(Ok).collect())
                }
            }
        })
    }
}

pub fn rt() -> &'static tokio::runtime::Runtime {
    static R: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    R.get_or_init(|| tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap())
}

pub type Fields = Vec<(String, Vec<u8>)>;

pub fn verify(f: &Fields, chunks: &[&[u8]], dns: &Dns, cfg: &Config, stop: bool) -> Option<Vec<VerificationResult>> {
    let h = HeaderFields::from_vec(f.clone()).unwrap();
    rt().block_on(async {
        let mut v = Verifier::verify_header(dns, &h, cfg).await?;
        for c in chunks {
            let st = v.process_body_chunk(c);
            if stop && st == viadkim::message_hash::BodyHasherStance::Done {
                break;
            }
        }
        Some(v.finish())
    })
}

// ---------------------------------------------------------------- oracle --
/// The signature field with the value of its b= tag removed.
pub fn without_b(value: &str) -> String {
    let segs: Vec<&str> = value.split(';').collect();
    let mut o: Vec<String> = vec![];
    let mut done = false;
    for s in segs {
        match s.split_once('=') {
            Some((n, _)) if !done && n.trim_matches([' ', '\t', '\r', '\n']) == "b" => {
                o.push(format!("{n}="));
                done = true;
            }
            _ => o.push(s.to_string()),
        }
    }
    o.join(";")
}

pub fn data_hash(h: HashAlgorithm, canon: Canon, f: &Fields, names: &[String], sig_name: &str, sig_without_b: &str) -> Vec<u8> {
    let hs: Vec<(&[u8], &[u8])> = f.iter().map(|(n, b)| (n.as_bytes(), &b[..])).collect();
    let ns: Vec<&[u8]> = names.iter().map(|n| n.as_bytes()).collect();
    let rel = canon == Canon::Relaxed;
    let mut x = oracle::header_block(rel, &hs, &ns);
    x.extend(oracle::header_canon(rel, sig_name.as_bytes(), sig_without_b.as_bytes()));
    digest(h, &x)
}

#[derive(Debug, Default, Clone)]
pub struct Exp {
    pub index: usize,
    /// reasons to fail; empty: success
    pub bad: HashSet<VE>,
    pub sig: Option<orc::Sig>,
    /// the record that decided (None: none usable; Some(None): not checked)
    pub rec: Option<orc::Rec>,
}

fn fmt_err(k: SE) -> VE {
    VE::DkimSignatureFormat(DkimSignatureError::new(k))
}

pub fn dname(s: &orc::Sig) -> String {
    format!("{}._domainkey.{}.", orc::a_label(&s.s), orc::a_label(&s.d))
}

/// Some(expected), or None where the outcome is left open.
pub fn expect(f: &Fields, body: &[u8], dns: &Dns, cfg: &Config) -> Option<(Vec<Exp>, HashSet<String>)> {
    let now = cfg.fixed_system_time.unwrap_or_else(SystemTime::now).duration_since(SystemTime::UNIX_EPOCH).map_or(0, |d| d.as_secs());
    let tol = cfg.time_tolerance.as_secs();
    let mut out = vec![];
    let mut lookups = HashSet::new();
    for (index, (name, value)) in f.iter().enumerate() {
        if !name.eq_ignore_ascii_case("DKIM-Signature") {
            continue;
        }
        if out.len() >= cfg.max_signatures {
            break;
        }
        let mut e = Exp { index, ..Default::default() };
        let Ok(v) = std::str::from_utf8(value) else {
            e.bad.insert(fmt_err(SE::Utf8Encoding));
            out.push(e);
            continue;
        };
        let s = match orc::signature(v) {
            V::Open => return None,
            V::Is(Err(set)) => {
                e.bad.extend(set.into_iter().map(fmt_err));
                out.push(e);
                continue;
            }
            V::Is(Ok(s)) => s,
        };
        e.sig = Some(s.clone());
        let pol = |p| VE::Policy(p);
        let n_signed = |n: &str| s.h.iter().filter(|x| x.eq_ignore_ascii_case(n)).count();
        for r in &cfg.headers_required_in_signature {
            if n_signed(r.as_ref()) == 0 {
                e.bad.insert(pol(PolicyError::RequiredHeaderNotSigned));
            }
        }
        for r in &cfg.headers_forbidden_to_be_unsigned {
            let r: &str = r.as_ref();
            if f.iter().filter(|(n, _)| n.eq_ignore_ascii_case(r)).count() > n_signed(r) {
                e.bad.insert(pol(PolicyError::UnsignedHeaderOccurrence));
            }
        }
        if let (Some(x), false) = (s.x, cfg.allow_expired) {
            if now as u128 >= (x as u128 + tol as u128).min(u64::MAX as u128) {
                e.bad.insert(pol(PolicyError::SignatureExpired));
            }
        }
        if let (Some(t), false) = (s.t, cfg.allow_timestamp_in_future) {
            if t.saturating_sub(tol) > now {
                e.bad.insert(pol(PolicyError::TimestampInFuture));
            }
        }
        let (kt, ha) = parts(s.alg);
        #[cfg(feature = "sha1")]
        if ha == HashAlgorithm::Sha1 && !cfg.allow_sha1 {
            e.bad.insert(pol(PolicyError::Sha1HashAlgorithm));
        }
        if !e.bad.is_empty() {
            out.push(e);
            continue;
        }
        let dn = dname(&s);
        lookups.insert(dn.clone());
        let txts = match dns.map.get(&dn) {
            None => { e.bad.insert(VE::NoKeyFound); vec![] }
            Some(Ans::Txt(t)) if t.is_empty() => { e.bad.insert(VE::NoKeyFound); vec![] }
            Some(Ans::Txt(t)) => t.clone(),
            Some(Ans::Slow(_, t)) => t.iter().cloned().map(Ok).collect(),
            Some(Ans::Err(k)) => {
                e.bad.insert(match k {
                    io::ErrorKind::NotFound => VE::NoKeyFound,
                    io::ErrorKind::InvalidInput => VE::InvalidKeyDomain,
                    io::ErrorKind::TimedOut => VE::Timeout,
                    _ => VE::KeyLookup,
                });
                vec![]
            }
        };
        if txts.len() > 3 {
            return None;
        }
        if !e.bad.is_empty() {
            out.push(e);
            continue;
        }
        // does the selection include the signature field itself?
        let ns: Vec<&[u8]> = s.h.iter().map(|n| n.as_bytes()).collect();
        let hs: Vec<(&[u8], &[u8])> = f.iter().map(|(n, b)| (n.as_bytes(), &b[..])).collect();
        if oracle::select(&hs, &ns).contains(&index) {
            return None;
        }
        let dh = data_hash(ha, s.c.0, f, &s.h, name, &without_b(v));
        for t in txts {
            e.bad.clear();
            e.rec = None;
            let Some(txt) = t.ok().and_then(|t| String::from_utf8(t).ok()) else {
                e.bad.insert(VE::KeyRecordFormat(DkimKeyRecordError::RecordFormat));
                continue;
            };
            let r = match orc::record(&txt) {
                V::Open => return None,
                V::Is(Err(set)) => {
                    e.bad.extend(set.into_iter().map(VE::KeyRecordFormat));
                    continue;
                }
                V::Is(Ok(r)) => r,
            };
            e.rec = Some(r.clone());
            if r.key_type != kt {
                e.bad.insert(VE::WrongKeyType);
            }
            if r.key.is_empty() {
                e.bad.insert(VE::KeyRevoked);
            }
            if !r.hashes.contains(&ha) {
                e.bad.insert(VE::DisallowedHashAlgorithm);
            }
            if let (true, Some((_, d))) = (r.flags.contains(&SelectorFlag::NoSubdomains), &s.i) {
                if orc::a_label(d) != orc::a_label(&s.d) {
                    e.bad.insert(VE::DomainMismatch);
                }
            }
            if e.bad.contains(&VE::WrongKeyType) || e.bad.contains(&VE::KeyRevoked) {
                continue;
            }
            let cf = |k| VE::VerificationFailure(k);
            let mut verified = false;
            match kt {
                KeyType::Rsa => match pub_rsa(&r.key) {
                    None => drop(e.bad.insert(cf(CE::InvalidKey))),
                    Some(k) => {
                        use rsa::traits::PublicKeyParts;
                        let bits = k.n().bits();
                        let floor = if cfg!(feature = "sha1") { 512 } else { 1024 };
                        if bits < floor {
                            e.bad.insert(cf(CE::InsufficientKeySize));
                        } else if bits < cfg.min_key_bits {
                            e.bad.insert(pol(PolicyError::KeyTooSmall));
                        } else {
                            verified = match ha {
                                HashAlgorithm::Sha256 => k.verify(rsa::Pkcs1v15Sign::new::<sha2::Sha256>(), &dh, &s.b).is_ok(),
                                #[cfg(feature = "sha1")]
                                HashAlgorithm::Sha1 => k.verify(rsa::Pkcs1v15Sign::new::<sha1::Sha1>(), &dh, &s.b).is_ok(),
                            };
                        }
                    }
                },
                KeyType::Ed25519 => match pub_ed(&r.key) {
                    None => drop(e.bad.insert(cf(CE::InvalidKey))),
                    Some(k) => {
                        use ed25519_dalek::Verifier;
                        verified = ed25519_dalek::Signature::from_slice(&s.b).is_ok_and(|g| k.verify(&dh, &g).is_ok());
                    }
                },
            }
            if e.bad.is_empty() && !verified {
                e.bad.insert(cf(CE::VerificationFailure));
            }
            if e.bad.is_empty() {
                break;
            }
        }
        if e.bad.is_empty() {
            if s.c.1 == Canon::Relaxed && oracle::relaxed_unspecified(body) {
                return None;
            }
            let cb = canon_body(s.c.1, body);
            let n = s.l.map_or(cb.len() as u64, |l| l);
            if n > cb.len() as u64 {
                e.bad.insert(VE::InsufficientContent);
            } else {
                if digest(ha, &cb[..n as usize]) != s.bh {
                    e.bad.insert(VE::BodyHashMismatch);
                }
                if (n as usize) < cb.len() && cfg.forbid_unsigned_content {
                    e.bad.insert(pol(PolicyError::UnsignedContent));
                }
            }
        }
        out.push(e);
    }
    Some((out, lookups))
}

pub fn check_verify(f: &Fields, body: &[u8], chunks: &[&[u8]], dns: &Dns, cfg: &Config, stop: bool) -> Res {
    let Some((want, lookups)) = expect(f, body, dns, cfg) else { return Res::Skip };
    dns.log.lock().unwrap().clear();
    let got = verify(f, chunks, dns, cfg, stop);
    let got = match got {
        None if want.is_empty() => return Res::Ok,
        None => return Res::Bad(format!("no results, expected {}", want.len())),
        Some(g) if want.is_empty() => return Res::Bad(format!("{} results, expected none", g.len())),
        Some(g) => g,
    };
    if got.len() != want.len() {
        return Res::Bad(format!("{} results, expected {}", got.len(), want.len()));
    }
    let mut log = dns.log.lock().unwrap().clone();
    log.sort();
    let mut wl: Vec<String> = lookups.into_iter().collect();
    wl.sort();
    if log != wl {
        return Res::Bad(format!("lookups {log:?} expected {wl:?}"));
    }
    for (g, w) in got.iter().zip(&want) {
        if g.index != w.index {
            return Res::Bad(format!("index {} expected {}", g.index, w.index));
        }
        let st = match &g.status {
            VerificationStatus::Success => None,
            VerificationStatus::Failure(VE::DkimSignatureFormat(e)) => Some(fmt_err(e.kind)),
            VerificationStatus::Failure(e) => Some(e.clone()),
        };
        let ok = match &st {
            None => w.bad.is_empty(),
            Some(e) => w.bad.contains(e),
        };
        if !ok {
            return Res::Bad(format!("signature at {}: {:?}, expected {}", g.index, g.status, if w.bad.is_empty() { "success".into() } else { format!("one of {:?}", w.bad) }));
        }
        match (&g.signature, &w.sig) {
            (None, None) => {}
            (Some(a), Some(b)) if crate::p_tags::same_sig(a, b).is_none() => {}
            (a, b) => return Res::Bad(format!("signature data {a:?} expected {b:?}")),
        }
        match (&g.key_record, &w.rec) {
            (None, None) => {}
            (Some(a), Some(b)) if a.key_data[..] == b.key[..] && a.key_type == b.key_type && a.flags[..] == b.flags[..] => {}
            (a, b) => return Res::Bad(format!("key record {a:?} expected {b:?}")),
        }
    }
    Res::Ok
}

// ------------------------------------------------------------ generators --
pub fn b64(r: &mut Rng, b: &[u8], fold: bool) -> String {
    use base64ct::Encoding;
    let s = base64ct::Base64::encode_string(b);
    if !fold {
        return s;
    }
    let mut o = String::new();
    for (i, ch) in s.chars().enumerate() {
        if r.chance(1, 20) && i > 0 {
            o.push_str(*r.pick(&[" ", "\r\n ", "\t", "\r\n\t "]));
        }
        o.push(ch);
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    Format,
    Tamper,
    Policy,
    Key,
    Multi,
}

const DOMS: [&str; 6] = ["example.com", "Example.com", "müller.example", "xn--mller-kva.example", "a.example.com", "é.org"];
const SELS: [&str; 4] = ["sel", "SEL", "é.x", "2023"];

const CUTS: [(&str, &str); 8] = [
    ("a.sel.example.com", "sel"),
    ("sel.example.com", "sel.a"),
    ("example.com", "sel.a.sel"),
    ("a.Sel.example.com", "SEL"),
    ("bc.example.com", "a"),
    ("c.example.com", "ab"),
    ("example.com", "a.bc"),
    ("example.com", "abc"),
];

fn fold(r: &mut Rng) -> &'static str {
    if r.chance(1, 3) { *r.pick(&[" ", "\r\n ", "\t", "  ", "\r\n\t", " \r\n "]) } else { "" }
}

pub struct Case {
    pub f: Fields,
    pub body: Vec<u8>,
    pub dns: Dns,
    pub cfg: Config,
    pub cuts: u64,
    pub stop: bool,
}

impl Case {
    pub fn show(&self) -> String {
        let mut d: Vec<String> = self.dns.map.iter().map(|(k, v)| match v {
            Ans::Txt(t) => format!("{k} -> {}", t.iter().map(|t| match t { Ok(t) => esc(t), Err(e) => format!("{e:?}") }).collect::<Vec<_>>().join(" | ")),
            o => format!("{k} -> {o:?}"),
        }).collect();
        d.sort();
        format!("header={} body={} dns={} cfg={:?} cuts={} stop={}", self.f.iter().map(|(n, b)| format!("{n}:{}", esc(b))).collect::<Vec<_>>().join(" / "), esc(&self.body), d.join(" ; "), self.cfg, self.cuts, self.stop)
    }
    pub fn run(&self) -> Res {
        let mut r = Rng::new(self.cuts);
        let ch = crate::p_canon::split_random(&mut r, &self.body);
        check_verify(&self.f, &self.body, &ch, &self.dns, &self.cfg, self.stop)
    }
}

pub fn random_cfg(r: &mut Rng, policy: bool, now: u64) -> Config {
    let mut c = Config {
        fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(now)),
        headers_forbidden_to_be_unsigned: vec![],
        ..Default::default()
    };
    let nm = |r: &mut Rng| FieldName::new(gen::field_name(r)).unwrap();
    let p = if policy { 3 } else { 12 };
    if r.chance(1, p) {
        c.headers_required_in_signature = (0..r.range(1, 2)).map(|_| nm(r)).collect();
    }
    if r.chance(1, p) {
        c.headers_forbidden_to_be_unsigned = (0..r.range(1, 3)).map(|_| nm(r)).collect();
    }
    if r.chance(1, p) {
        c.min_key_bits = *r.pick(&[0, 512, 1023, 1024, 1025, 2047, 2048, 2049, 1018, usize::MAX]);
    }
    c.allow_sha1 = !r.chance(1, p);
    c.forbid_unsigned_content = r.chance(1, p);
    c.allow_expired = r.chance(1, 2);
    c.allow_timestamp_in_future = r.chance(1, 2);
    c.time_tolerance = Duration::from_secs(*r.pick(&[0, 1, 300, u64::MAX]));
    if r.chance(1, 20) {
        c.max_signatures = r.range(0, 2);
    }
    c
}

/// A key record for a key: mostly right.
pub fn record_for(r: &mut Rng, k: &Key, bad: usize) -> Vec<u8> {
    let ty = match k.ty {
        KeyType::Rsa => "rsa",
        KeyType::Ed25519 => "ed25519",
    };
    let mut tags: Vec<String> = vec![];
    let other = if ty == "rsa" { "ed25519" } else { "rsa" };
    if r.chance(bad, 30) {
        tags.push(format!("k={other}"));
    } else if ty != "rsa" || r.chance(1, 2) {
        tags.push(format!("k={ty}"));
    }
    if r.chance(bad, 30) {
        tags.push(format!("h={}", *r.pick(&["sha1", "sha256:x", "sha1:sha256", "SHA256", "x", "sha256:"])));
    }
    if r.chance(bad, 25) || r.chance(1, 6) {
        tags.push(format!("t={}", *r.pick(&["s", "y", "y:s", "S", "x", "s:y"])));
    }
    if r.chance(bad, 40) {
        tags.push(format!("s={}", *r.pick(&["email", "*", "tlsrpt", "x:email"])));
    }
    let mut kd = k.publ[r.below(k.publ.len())].clone();
    if r.chance(bad, 40) {
        match r.below(4) {
            0 => kd.clear(),
            1 => drop(kd.pop()),
            2 => kd.push(0),
            _ => {
                let i = r.below(kd.len());
                kd[i] ^= 1 << r.below(8);
            }
        }
    }
    tags.push(format!("p={}", b64(r, &kd, bad > 0)));
    for i in (1..tags.len()).rev() {
        let j = r.below(i + 1);
        tags.swap(i, j);
    }
    if r.chance(1, 3) {
        tags.insert(0, (*r.pick(&["v=DKIM1", "v=DKIM1", "v=DKIM1", "v=DKIM1 ", "v=DKIM2"])).into());
    }
    let mut s = tags.join(*r.pick(&[";", "; ", " ;\t"]));
    if r.chance(bad, 60) {
        let i = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).nth(r.below(s.len())).unwrap_or(0);
        s.insert_str(i, *r.pick(&[";", "=", " ", "é", ":", "\n"]));
    }
    let mut b = s.into_bytes();
    if r.chance(bad, 200) {
        b.push(0xff);
    }
    b
}

pub fn case(r: &mut Rng, focus: Focus) -> Case {
    let mut f: Fields = gen::header(r, 7);
    if f.iter().any(|(n, _)| n.eq_ignore_ascii_case("dkim-signature")) {
        f.retain(|(n, _)| !n.eq_ignore_ascii_case("dkim-signature"));
    }
    f.push(((*r.pick(&["From", "from", "FROM"])).into(), gen::field_body(r)));
    if r.chance(1, 8) {
        f.push(("From".into(), gen::field_body(r)));
    }
    for i in (1..f.len()).rev() {
        let j = r.below(i + 1);
        f.swap(i, j);
    }
    let mut body = crate::p_canon::random_body(r);
    let now = *r.pick(&[0u64, 1000, 1_700_000_000, 1 << 40]);
    let cfg = random_cfg(r, focus == Focus::Policy, now);
    let mut dns: HashMap<String, Ans> = HashMap::new();
    let nsig = match focus {
        Focus::Multi => r.range(1, 4),
        _ => r.range(1, 100) / 95 + 1,
    };
    for _ in 0..nsig {
        add_sig(r, focus, &mut f, &body, &cfg, now, &mut dns);
    }
    // tampering
    let p = if focus == Focus::Tamper { 2 } else { 12 };
    if r.chance(1, p) {
        tamper(r, &mut f, &mut body);
    }
    if focus == Focus::Multi && r.chance(1, 4) {
        let v: &[u8] = *r.pick(&[&b""[..], b"\xff", b" v=1", b"a=;", b" v=1; a=rsa-sha256; b=QQ==; bh=QQ==; d=x.com; h=from; s=s"]);
        let i = r.below(f.len() + 1);
        f.insert(i, ((*r.pick(&["DKIM-Signature", "dkim-signature", "DKIM-signature", "DKIM-Signatures"])).into(), v.to_vec()));
    }
    f.retain(|(n, b)| oracle::field_name_ok(n) && oracle::field_body_ok(b));
    Case { f, body, dns: Dns { map: Arc::new(dns), log: Default::default() }, cfg, cuts: r.next(), stop: r.chance(1, 2) }
}

fn tamper(r: &mut Rng, f: &mut Fields, body: &mut Vec<u8>) {
    match r.below(6) {
        0 if !body.is_empty() => {
            let i = r.below(body.len());
            body[i] ^= 1 << r.below(8);
        }
        1 => {
            let i = r.below(body.len() + 1);
            body.insert(i, *r.pick(b"a \r\n\t"));
        }
        2 => {
            let i = r.below(f.len());
            let b = &mut f[i].1;
            if !b.is_empty() {
                let j = r.below(b.len());
                b[j] ^= 1 << r.below(7);
            }
        }
        3 => {
            let i = r.below(f.len());
            let b = &mut f[i].1;
            let j = r.below(b.len() + 1);
            b.insert(j, *r.pick(b"a =;\t"));
        }
        4 => {
            let i = r.below(f.len());
            let j = r.below(f.len());
            f.swap(i, j);
        }
        _ => {
            let i = r.below(f.len());
            let x = f[i].clone();
            let j = r.below(f.len() + 1);
            f.insert(j, x);
        }
    }
}

fn add_sig(r: &mut Rng, focus: Focus, f: &mut Fields, body: &[u8], cfg: &Config, now: u64, dns: &mut HashMap<String, Ans>) {
    let ks = keys();
    let k = &ks[if matches!(focus, Focus::Key | Focus::Policy) { r.below(ks.len()) } else { r.below(3) }];
    let alg = match k.ty {
        KeyType::Ed25519 => SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "sha1")]
        KeyType::Rsa if r.chance(1, 3) => SigningAlgorithm::RsaSha1,
        KeyType::Rsa => SigningAlgorithm::RsaSha256,
    };
    let (_, ha) = parts(alg);
    let canons = [Canon::Simple, Canon::Relaxed];
    let (ch, cb) = (*r.pick(&canons), *r.pick(&canons));
    let (mut d, mut s) = (*r.pick(&DOMS), *r.pick(&SELS));
    if focus == Focus::Multi && r.chance(1, 3) {
        // one text, cut into selector and domain in different places
        (d, s) = *r.pick(&CUTS);
    }
    // signed list
    let mut h: Vec<String> = vec![];
    for (n, _) in f.iter() {
        if n.contains(';') {
            continue;
        }
        if r.chance(2, 3) {
            h.push(if r.chance(1, 4) { gen::case_flip(r, n) } else { n.clone() });
        }
        if r.chance(1, 10) {
            h.push(gen::field_name(r));
        }
    }
    h.retain(|n| !n.contains(';') && !n.eq_ignore_ascii_case("dkim-signature"));
    if f.iter().any(|(n, _)| n.eq_ignore_ascii_case("dkim-signature")) && r.chance(1, 4) {
        h.push("DKIM-Signature".into());
    }
    let nfrom = f.iter().filter(|(n, _)| n.eq_ignore_ascii_case("from")).count();
    for _ in 0..(if focus == Focus::Policy { 1 } else { nfrom + r.below(2) }) {
        h.push("From".into());
    }
    for i in (1..h.len()).rev() {
        let j = r.below(i + 1);
        h.swap(i, j);
    }
    let c = canon_body(cb, body);
    let l = match r.below(4) {
        0 => Some(c.len() as u64),
        1 => Some(r.below(c.len() + 1) as u64),
        2 if r.chance(1, 4) => Some(*r.pick(&[c.len() as u64 + 1, u64::MAX, 0])),
        _ => None,
    };
    let mut bh = digest(ha, &c[..l.map_or(c.len(), |l| (l as usize).min(c.len()))]);
    if focus == Focus::Tamper && r.chance(1, 10) {
        let i = r.below(bh.len());
        bh[i] ^= 1 << r.below(8);
        if r.chance(1, 3) {
            bh.truncate(i.max(1));
        }
    }
    let near = |r: &mut Rng| -> u64 {
        let tol = cfg.time_tolerance.as_secs();
        let base = *r.pick(&[now, now.saturating_sub(tol), now.saturating_add(tol)]);
        match r.below(4) {
            0 => base.saturating_sub(1),
            1 => base,
            2 => base.saturating_add(1),
            _ => *r.pick(&[0, 1, u64::MAX, u64::MAX - 1]),
        }
    };
    let pt = if focus == Focus::Policy { 2 } else { 6 };
    let mut t = if r.chance(1, pt) { Some(near(r)) } else { None };
    let x = if r.chance(1, pt) { Some(near(r)) } else { None };
    if let (Some(a), Some(b)) = (t, x) {
        if b <= a {
            t = None;
        }
    }
    let i = if r.chance(1, if focus == Focus::Key { 2 } else { 5 }) {
        Some(match r.below(4) {
            0 => format!("@{d}"),
            1 => format!("me@{d}"),
            2 => format!("=6De@sub.{d}"),
            _ => format!("@{}", orc::a_label(d)),
        })
    } else {
        None
    };
    let mut tags: Vec<(String, String)> = vec![
        ("v".into(), "1".into()),
        ("a".into(), alg_name(alg).into()),
        ("d".into(), d.into()),
        ("s".into(), s.into()),
        ("bh".into(), b64(r, &bh, true)),
        ("h".into(), h.join(*r.pick(&[":", ":", " : ", ":\r\n "]))),
        ("b".into(), String::new()),
    ];
    let cn = |c| if c == Canon::Simple { "simple" } else { "relaxed" };
    if ch != Canon::Simple || cb != Canon::Simple || r.chance(1, 2) {
        tags.push(("c".into(), if cb == Canon::Simple && r.chance(1, 2) { cn(ch).into() } else { format!("{}/{}", cn(ch), cn(cb)) }));
    }
    let mut opt = |n: &str, v: Option<String>| {
        if let Some(v) = v {
            tags.push((n.into(), v));
        }
    };
    opt("l", l.map(|l| l.to_string()));
    opt("t", t.map(|l| l.to_string()));
    opt("x", x.map(|l| l.to_string()));
    opt("i", i);
    if r.chance(1, 3) {
        let n = *r.pick(&["r", "B", "bb", "b_", "bhx", "ab", "q", "z", "b2"]);
        let v = match n {
            "q" => "dns/txt",
            "z" => "From:b=3Dx|b:=62=3D",
            _ => *r.pick(&["b=x", "", "a b=c", "b", "b = y"]),
        };
        tags.push((n.into(), v.into()));
    }
    for i in (1..tags.len()).rev() {
        let j = r.below(i + 1);
        tags.swap(i, j);
    }
    // assembled in two parts around the value of b=
    let mut pre = String::new();
    let mut post = String::new();
    let mut seen_b = false;
    let last = tags.len() - 1;
    for (k, (n, v)) in tags.iter().enumerate() {
        let mut seg = String::new();
        seg.push_str(fold(r));
        seg.push_str(n);
        seg.push_str(fold(r));
        seg.push('=');
        if n == "b" {
            pre.push_str(&post);
            pre.push_str(&seg);
            post.clear();
            seen_b = true;
        } else {
            seg.push_str(fold(r));
            seg.push_str(v);
            seg.push_str(fold(r));
            post.push_str(&seg);
        }
        if k < last || r.chance(1, 2) {
            post.push(';');
        }
        if k == last && r.chance(1, 8) && post.ends_with(';') {
            // nothing may follow but white space is not allowed either
        }
    }
    let _ = seen_b;
    // white space only lines are impossible: every fold is followed by text or
    // preceded by it within the value; check and retry simply
    let name: String = (*r.pick(&["DKIM-Signature", "DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE"])).into();
    let empty = format!("{pre}{post}");
    let dh = data_hash(ha, ch, f, &h, &name, &empty);
    let mut sv = raw_sign(k, ha, &dh).unwrap_or_else(|| vec![1; 64]);
    if focus == Focus::Tamper && r.chance(1, 10) {
        let i = r.below(sv.len());
        sv[i] ^= 1 << r.below(8);
    }
    if focus == Focus::Tamper && r.chance(1, 30) {
        if r.chance(1, 2) { sv.push(0) } else { drop(sv.pop()) }
    }
    let value = format!("{pre}{}{}{}{post}", fold(r), b64(r, &sv, true), fold(r));
    if !oracle::field_body_ok(value.as_bytes()) {
        return;
    }
    // mostly prepended; in between changes nothing unless DKIM-Signature is signed
    let at = if r.chance(1, 4) { r.below(f.len() + 1) } else { 0 };
    f.insert(at, (name, value.into_bytes()));
    // key record
    let dn = format!("{}._domainkey.{}.", orc::a_label(s), orc::a_label(d));
    let bad = if focus == Focus::Key { 6 } else { usize::from(r.chance(1, 8)) };
    let mut recs: Vec<Result<Vec<u8>, io::ErrorKind>> = vec![Ok(record_for(r, k, bad))];
    if r.chance(1, if focus == Focus::Key { 3 } else { 12 }) {
        for _ in 0..r.range(1, 2) {
            let i = r.below(recs.len() + 1);
            let x = match r.below(6) {
                0 => Err(io::ErrorKind::InvalidData),
                1 => Ok(record_for(r, k, 10)),
                2 => Ok(b"v=DKIM1; p=".to_vec()),
                3 => Ok(b"junk".to_vec()),
                _ => {
                    let kk = &ks[r.below(ks.len())];
                    Ok(record_for(r, kk, bad))
                }
            };
            recs.insert(i, x);
        }
    }
    let a = if r.chance(1, if focus == Focus::Multi { 6 } else { 40 }) {
        match r.below(6) {
            0 => Ans::Txt(vec![]),
            n => Ans::Err([io::ErrorKind::NotFound, io::ErrorKind::InvalidInput, io::ErrorKind::TimedOut, io::ErrorKind::Other, io::ErrorKind::ConnectionRefused][n - 1]),
        }
    } else {
        Ans::Txt(recs)
    };
    match dns.entry(dn) {
        std::collections::hash_map::Entry::Vacant(v) => drop(v.insert(a)),
        std::collections::hash_map::Entry::Occupied(mut o) => {
            if let (Ans::Txt(old), Ans::Txt(new)) = (o.get_mut(), a) {
                if old.len() + new.len() <= 3 {
                    old.extend(new);
                }
            }
        }
    }
}

pub fn alg_name(a: SigningAlgorithm) -> &'static str {
    match a {
        SigningAlgorithm::RsaSha256 => "rsa-sha256",
        SigningAlgorithm::Ed25519Sha256 => "ed25519-sha256",
        #[cfg(feature = "sha1")]
        SigningAlgorithm::RsaSha1 => "rsa-sha1",
    }
}

pub fn run(c: &mut Ctx, contract: &str, focuses: &[Focus]) {
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    while c.time_left() {
        for _ in 0..20 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let fo = *r.pick(focuses);
            let k = case(&mut r, fo);
            if std::env::var_os("VH_STATS").is_some() {
                let o = match expect(&k.f, &k.body, &k.dns, &k.cfg) {
                    None => "open",
                    Some((v, _)) if v.is_empty() => "none",
                    Some((v, _)) if v[0].bad.is_empty() => "success",
                    Some((v, _)) => {
                        let x = v[0].bad.iter().next().unwrap();
                        match x {
                            VE::DkimSignatureFormat(_) => "format",
                            VE::KeyRecordFormat(_) => "record format",
                            VE::Policy(PolicyError::SignatureExpired) => "expired",
                            VE::Policy(PolicyError::TimestampInFuture) => "future",
                            VE::Policy(PolicyError::KeyTooSmall) => "small",
                            VE::Policy(PolicyError::UnsignedContent) => "unsigned content",
                            VE::Policy(PolicyError::UnsignedHeaderOccurrence) => "unsigned occ",
                            VE::Policy(PolicyError::RequiredHeaderNotSigned) => "required",
                            VE::VerificationFailure(CE::VerificationFailure) => "crypto",
                            VE::VerificationFailure(_) => "key",
                            VE::BodyHashMismatch => "body hash",
                            VE::InsufficientContent => "insufficient",
                            VE::DomainMismatch => "mismatch",
                            VE::WrongKeyType => "wrong type",
                            VE::KeyRevoked => "revoked",
                            VE::DisallowedHashAlgorithm => "hash alg",
                            _ => "other",
                        }
                    }
                };
                *stats.entry(o).or_insert(0) += 1;
            }
            c.eval(contract, || k.show(), || k.run());
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    if !stats.is_empty() {
        eprintln!("{stats:?}");
    }
}
