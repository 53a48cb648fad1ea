//! Oracles for tag lists, signatures, key records, names (RFC 6376, 8616, 8463,
//! 5321), written without looking at the structure of the code under test.
use std::collections::HashSet;
use viadkim::crypto::{HashAlgorithm, KeyType};
use viadkim::record::{DkimKeyRecordError as RE, SelectorFlag, ServiceType};
use viadkim::signature::{CanonicalizationAlgorithm as Canon, DkimSignatureErrorKind as SE, SigningAlgorithm};

/// Verdict of an oracle: sure, or the case is left open by the RFC.
#[derive(Clone, Debug, PartialEq)]
pub enum V<T> {
    Is(T),
    Open,
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

/// FWS = [*WSP CRLF] 1*WSP
pub fn fws(s: &str) -> bool {
    let wsp = |s: &str| s.chars().all(|c| c == ' ' || c == '\t');
    match s.split_once("\r\n") {
        None => !s.is_empty() && wsp(s),
        Some((a, b)) => wsp(a) && !b.is_empty() && wsp(b),
    }
}

fn fws_twice(s: &str) -> bool {
    (1..s.len()).any(|i| fws(&s[..i]) && fws(&s[i..]))
}

/// Cuts white space runs off both ends; None if a run is not folding white space.
pub fn trim_fws(s: &str) -> Option<&str> {
    let t = s.trim_matches(is_ws);
    if t.is_empty() {
        return if s.is_empty() || fws(s) { Some("") } else { None };
    }
    let i = s.find(t).unwrap();
    let (a, b) = (&s[..i], &s[i + t.len()..]);
    if (a.is_empty() || fws(a)) && (b.is_empty() || fws(b)) { Some(t) } else { None }
}

pub fn tval(c: char) -> bool {
    let n = c as u32;
    n >= 128 || (33..127).contains(&n) && c != ';'
}

pub fn tag_name(s: &str) -> bool {
    let b = s.as_bytes();
    !b.is_empty() && b[0].is_ascii_alphabetic() && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_')
}

/// A tag value (no surrounding white space); Open if it contains more than one
/// FWS in a row.
pub fn tag_value(s: &str) -> V<bool> {
    if s.is_empty() {
        return V::Is(true);
    }
    if s.starts_with(is_ws) || s.ends_with(is_ws) {
        return V::Is(false);
    }
    if !s.chars().all(|c| is_ws(c) || tval(c)) {
        return V::Is(false);
    }
    for run in s.split(tval).filter(|r| !r.is_empty()) {
        if !fws(run) {
            return if run.len() < 200 && multi_fws(run) { V::Open } else { V::Is(false) };
        }
    }
    V::Is(true)
}

fn multi_fws(run: &str) -> bool {
    (1..=run.len()).any(|i| fws(&run[..i]) && (i == run.len() || multi_fws(&run[i..])))
}

pub enum TagErr {
    Syntax,
    Duplicate,
}

pub type Tags<'a> = Vec<(&'a str, &'a str)>;

pub fn tag_list(s: &str) -> V<Result<Tags<'_>, TagErr>> {
    let mut segs: Vec<&str> = s.split(';').collect();
    if segs.len() > 1 && segs.last() == Some(&"") {
        segs.pop();
    }
    let mut out: Tags = vec![];
    let mut open = false;
    for g in segs {
        let Some((n, v)) = g.split_once('=') else { return V::Is(Err(TagErr::Syntax)) };
        let Some(n) = trim_fws(n) else { return V::Is(Err(TagErr::Syntax)) };
        if !tag_name(n) {
            return V::Is(Err(TagErr::Syntax));
        }
        let t = match trim_fws(v) {
            Some(t) => t,
            None if v.chars().all(is_ws) && v.len() < 200 && fws_twice(v) => {
                open = true;
                ""
            }
            None => return V::Is(Err(TagErr::Syntax)),
        };
        match tag_value(t) {
            V::Is(true) => {}
            V::Is(false) => return V::Is(Err(TagErr::Syntax)),
            V::Open => open = true,
        }
        out.push((n, t));
    }
    if open {
        return V::Open;
    }
    let mut seen = HashSet::new();
    if out.iter().any(|(n, _)| !seen.insert(*n)) {
        return V::Is(Err(TagErr::Duplicate));
    }
    V::Is(Ok(out))
}

/// RFC 4648 Base64 after removal of white space. Open: bits left over are not zero.
pub fn base64(s: &str) -> V<Option<Vec<u8>>> {
    let s: Vec<u8> = s.bytes().filter(|b| !matches!(b, b' ' | b'\t' | b'\r' | b'\n')).collect();
    if s.len() % 4 != 0 {
        return V::Is(None);
    }
    let mut out = vec![];
    let n = s.len() / 4;
    for (k, q) in s.chunks(4).enumerate() {
        let pad = q.iter().rev().take_while(|b| **b == b'=').count();
        if pad > 2 || pad > 0 && k + 1 != n {
            return V::Is(None);
        }
        let mut x = 0u32;
        for b in &q[..4 - pad] {
            let d = match b {
                b'A'..=b'Z' => b - b'A',
                b'a'..=b'z' => b - b'a' + 26,
                b'0'..=b'9' => b - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return V::Is(None),
            };
            x = x << 6 | d as u32;
        }
        x <<= 6 * pad as u32;
        let b = x.to_be_bytes();
        if b[4 - pad..].iter().any(|z| *z != 0) {
            return V::Open;
        }
        out.extend_from_slice(&b[1..4 - pad]);
    }
    V::Is(Some(out))
}

pub fn qp_safe(c: char) -> bool {
    tval(c) && c != '='
}

/// DKIM-Quoted-Printable; white space inside is ignored as long as it is FWS.
/// Open: two FWS in a row or hex digits split by white space.
pub fn qp(s: &str) -> V<Option<Vec<u8>>> {
    let mut open = false;
    for run in s.split(|c| !is_ws(c)).filter(|r| !r.is_empty()) {
        if !fws(run) {
            if run.len() < 200 && multi_fws(run) {
                open = true;
            } else {
                return V::Is(None);
            }
        }
    }
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut b = [0; 4];
    while i < cs.len() {
        let c = cs[i];
        i += 1;
        if is_ws(c) {
            continue;
        }
        if c == '=' {
            let mut x = 0;
            for _ in 0..2 {
                while i < cs.len() && is_ws(cs[i]) {
                    i += 1;
                }
                let Some(d) = cs.get(i).filter(|c| c.is_ascii()).and_then(|c| c.to_digit(16)) else { return V::Is(None) };
                x = x * 16 + d;
                i += 1;
            }
            out.push(x as u8);
        } else if qp_safe(c) {
            out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
        } else {
            return V::Is(None);
        }
    }
    if open { V::Open } else { V::Is(Some(out)) }
}

pub fn dns_name(s: &str, tld: bool) -> bool {
    let Ok(a) = idna::domain_to_ascii(s) else { return false };
    if idna::domain_to_unicode(s).1.is_err() {
        return false;
    }
    ldh_name(&a, tld)
}

pub fn ldh_name(a: &str, tld: bool) -> bool {
    if a.is_empty() || a.len() > 253 {
        return false;
    }
    let ls: Vec<&str> = a.split('.').collect();
    let ok = |l: &str| {
        let b = l.as_bytes();
        (1..64).contains(&b.len())
            && b[0] != b'-'
            && b[b.len() - 1] != b'-'
            && b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
    };
    ls.iter().all(|l| ok(l)) && !(tld && ls[ls.len() - 1].bytes().all(|c| c.is_ascii_digit()))
}

pub fn a_label(s: &str) -> String {
    idna::domain_to_ascii(s).unwrap().to_ascii_lowercase()
}

pub fn eq_or_sub(sub: &str, sup: &str) -> bool {
    let (a, b) = (a_label(sub), a_label(sup));
    a == b || a.ends_with(&format!(".{b}"))
}

pub fn local_part(s: &str) -> bool {
    if s.len() > 64 {
        return false;
    }
    if let Some(q) = s.strip_prefix('"') {
        let Some(q) = q.strip_suffix('"') else { return false };
        let cs: Vec<char> = q.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '\\' {
                match cs.get(i + 1) {
                    Some(' '..='~') => i += 2,
                    _ => return false,
                }
            } else if cs[i] == '"' || (cs[i] as u32) < 32 || cs[i] as u32 == 127 {
                return false;
            } else {
                i += 1;
            }
        }
        return true;
    }
    s.split('.').all(|a| {
        !a.is_empty()
            && a.chars().all(|c| c.is_ascii_alphanumeric() || !c.is_ascii() || "!#$%&'*+-/=?^_`{|}~".contains(c))
    })
}

/// (local part, domain)
pub fn identity(s: &str) -> Option<(Option<String>, String)> {
    let i = s.rfind('@')?;
    let (l, d) = (&s[..i], &s[i + 1..]);
    if !dns_name(d, true) || !l.is_empty() && !local_part(l) {
        return None;
    }
    Some((if l.is_empty() { None } else { Some(l.to_string()) }, d.to_string()))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub alg: SigningAlgorithm,
    pub b: Vec<u8>,
    pub bh: Vec<u8>,
    pub c: (Canon, Canon),
    pub d: String,
    pub h: Vec<String>,
    pub i: Option<(Option<String>, String)>,
    pub l: Option<u64>,
    pub s: String,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub z: Vec<(String, Vec<u8>)>,
    pub ext: Vec<(String, String)>,
}

fn number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut x: u64 = 0;
    for b in s.bytes() {
        x = x.checked_mul(10)?.checked_add((b - b'0') as u64)?;
    }
    Some(x)
}

fn canon(s: &str) -> Option<Canon> {
    match &*s.to_ascii_lowercase() {
        "simple" => Some(Canon::Simple),
        "relaxed" => Some(Canon::Relaxed),
        _ => None,
    }
}

/// The signature, or the set of rules it breaks.
pub fn signature(v: &str) -> V<Result<Sig, HashSet<SE>>> {
    let mut bad = HashSet::new();
    let tags = match tag_list(v) {
        V::Open => return V::Open,
        V::Is(Err(_)) => {
            bad.insert(SE::TagListFormat);
            return V::Is(Err(bad));
        }
        V::Is(Ok(t)) => t,
    };
    let get = |n: &str| tags.iter().find(|(m, _)| *m == n).map(|(_, v)| *v);
    let mut open = false;

    match get("v") {
        None => drop(bad.insert(SE::MissingVersionTag)),
        Some("1") => {}
        Some(_) => drop(bad.insert(SE::IncompatibleVersion)),
    }
    let alg = match get("a").map(|a| a.to_ascii_lowercase()) {
        None => { bad.insert(SE::MissingAlgorithmTag); None }
        Some(a) => match &*a {
            "rsa-sha256" => Some(SigningAlgorithm::RsaSha256),
            "ed25519-sha256" => Some(SigningAlgorithm::Ed25519Sha256),
            #[cfg(feature = "sha1")]
            "rsa-sha1" => Some(SigningAlgorithm::RsaSha1),
            #[cfg(not(feature = "sha1"))]
            "rsa-sha1" => { bad.insert(SE::HistoricAlgorithm); None }
            _ => { bad.insert(SE::UnsupportedAlgorithm); None }
        },
    };
    let mut b64 = |n: &str, missing, empty, bad: &mut HashSet<SE>| match get(n).map(base64) {
        None => { bad.insert(missing); vec![] }
        Some(V::Open) => { open = true; vec![] }
        Some(V::Is(None)) => { bad.insert(SE::InvalidBase64); vec![] }
        Some(V::Is(Some(x))) => {
            if x.is_empty() {
                bad.insert(empty);
            }
            x
        }
    };
    let b = b64("b", SE::MissingSignatureTag, SE::EmptySignatureTag, &mut bad);
    let bh = b64("bh", SE::MissingBodyHashTag, SE::EmptyBodyHashTag, &mut bad);
    let c = match get("c") {
        None => (Canon::Simple, Canon::Simple),
        Some(c) => {
            let p: Vec<&str> = c.splitn(2, '/').collect();
            let h = canon(p[0]);
            let b = if p.len() == 2 { canon(p[1]) } else { Some(Canon::Simple) };
            match (h, b) {
                (Some(h), Some(b)) => (h, b),
                _ => { bad.insert(SE::UnsupportedCanonicalization); (Canon::Simple, Canon::Simple) }
            }
        }
    };
    let d = match get("d") {
        None => { bad.insert(SE::MissingDomainTag); None }
        Some(d) if dns_name(d, true) => Some(d.to_string()),
        Some(_) => { bad.insert(SE::InvalidDomain); None }
    };
    let s = match get("s") {
        None => { bad.insert(SE::MissingSelectorTag); None }
        Some(d) if dns_name(d, false) => Some(d.to_string()),
        Some(_) => { bad.insert(SE::InvalidSelector); None }
    };
    let items = |v: &str| -> Vec<String> {
        // white space around colons is folding white space in a valid tag value
        v.split(':').map(|x| x.trim_matches(is_ws).to_string()).collect()
    };
    let mut h = vec![];
    match get("h") {
        None => drop(bad.insert(SE::MissingSignedHeadersTag)),
        Some("") => drop(bad.insert(SE::EmptySignedHeadersTag)),
        Some(v) => {
            h = items(v);
            if !h.iter().all(|n| crate::oracle::field_name_ok(n)) {
                bad.insert(SE::InvalidSignedHeaderName);
            } else if !h.iter().any(|n| n.eq_ignore_ascii_case("from")) {
                bad.insert(SE::FromHeaderNotSigned);
            }
        }
    }
    let mut i = None;
    if let Some(v) = get("i") {
        match qp(v) {
            V::Open => open = true,
            V::Is(x) => match x.and_then(|x| String::from_utf8(x).ok()).and_then(|x| identity(&x)) {
                None => drop(bad.insert(SE::InvalidIdentity)),
                x => i = x,
            },
        }
    }
    let mut num = |n: &str, k: SE| -> Option<u64> {
        let v = get(n)?;
        let x = number(v);
        if x.is_none() {
            bad.insert(k);
        }
        x
    };
    let l = num("l", SE::InvalidBodyLength);
    let t = num("t", SE::InvalidTimestamp);
    let x = num("x", SE::InvalidExpiration);
    if let Some(v) = get("q") {
        let q = items(v);
        if q.iter().any(|m| m.is_empty()) {
            bad.insert(SE::InvalidQueryMethod);
        }
        if !q.iter().any(|m| m.eq_ignore_ascii_case("dns/txt")) {
            bad.insert(SE::NoSupportedQueryMethods);
        }
    }
    let mut z = vec![];
    if let Some(v) = get("z") {
        for p in v.split('|') {
            let f = match qp(p) {
                V::Open => { open = true; continue }
                V::Is(x) => x,
            };
            let f = f.and_then(|f| {
                let k = f.iter().position(|b| *b == b':')?;
                let n = String::from_utf8(f[..k].to_vec()).ok()?;
                if crate::oracle::field_name_ok(&n) { Some((n, f[k + 1..].to_vec())) } else { None }
            });
            match f {
                None => drop(bad.insert(SE::InvalidCopiedHeaderField)),
                Some(x) => z.push(x),
            }
        }
    }
    if let (Some((_, id)), Some(d)) = (&i, &d) {
        if !eq_or_sub(id, d) {
            bad.insert(SE::DomainMismatch);
        }
    }
    if let (Some(t), Some(x)) = (t, x) {
        if x <= t {
            bad.insert(SE::ExpirationNotAfterTimestamp);
        }
    }
    if open {
        return V::Open;
    }
    if !bad.is_empty() {
        return V::Is(Err(bad));
    }
    let known = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];
    let ext = tags.iter().filter(|(n, _)| !known.contains(n)).map(|(n, v)| (n.to_string(), v.to_string())).collect();
    V::Is(Ok(Sig { alg: alg.unwrap(), b, bh, c, d: d.unwrap(), h, i, l, s: s.unwrap(), t, x, z, ext }))
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rec {
    pub hashes: Vec<HashAlgorithm>,
    pub key_type: KeyType,
    pub notes: Option<Vec<u8>>,
    pub key: Vec<u8>,
    pub services: Vec<ServiceType>,
    pub flags: Vec<SelectorFlag>,
    pub ext: Vec<(String, String)>,
}

/// qp-section (RFC 2045) with UTF-8, plain white space allowed.
fn qp_section(s: &str) -> Option<Vec<u8>> {
    let cs: Vec<char> = s.chars().collect();
    let mut o = vec![];
    let mut i = 0;
    let mut b = [0; 4];
    while i < cs.len() {
        if cs[i] == '=' {
            let h = |k: usize| cs.get(k).filter(|c| c.is_ascii()).and_then(|c| c.to_digit(16));
            o.push((h(i + 1)? * 16 + h(i + 2)?) as u8);
            i += 3;
        } else if qp_safe(cs[i]) || cs[i] == ' ' || cs[i] == '\t' {
            o.extend_from_slice(cs[i].encode_utf8(&mut b).as_bytes());
            i += 1;
        } else {
            return None;
        }
    }
    Some(o)
}

pub fn record(v: &str) -> V<Result<Rec, HashSet<RE>>> {
    let mut bad = HashSet::new();
    let tags = match tag_list(v) {
        V::Open => return V::Open,
        V::Is(Err(_)) => {
            bad.insert(RE::TagListFormat);
            return V::Is(Err(bad));
        }
        V::Is(Ok(t)) => t,
    };
    let get = |n: &str| tags.iter().find(|(m, _)| *m == n).map(|(_, v)| *v);
    if let Some(p) = tags.iter().position(|(n, _)| *n == "v") {
        if p != 0 {
            bad.insert(RE::MisplacedVersionTag);
        }
        if tags[p].1 != "DKIM1" {
            bad.insert(RE::IncompatibleVersion);
        }
    }
    let items = |v: &str| -> Vec<String> {
        v.split(':').map(|x| x.trim_matches(is_ws).to_ascii_lowercase()).collect()
    };
    let mut hashes = HashAlgorithm::all();
    if let Some(v) = get("h") {
        let it = items(v);
        if it.iter().any(|x| x.is_empty()) {
            bad.insert(RE::InvalidHashAlgorithm);
        }
        hashes = it
            .iter()
            .filter_map(|x| match &**x {
                "sha256" => Some(HashAlgorithm::Sha256),
                #[cfg(feature = "sha1")]
                "sha1" => Some(HashAlgorithm::Sha1),
                _ => None,
            })
            .collect();
        if hashes.is_empty() {
            bad.insert(RE::NoSupportedHashAlgorithms);
        }
    }
    let key_type = match get("k").map(|k| k.to_ascii_lowercase()) {
        None => KeyType::Rsa,
        Some(k) => match &*k {
            "rsa" => KeyType::Rsa,
            "ed25519" => KeyType::Ed25519,
            _ => { bad.insert(RE::UnsupportedKeyType); KeyType::Rsa }
        },
    };
    let mut notes = None;
    if let Some(n) = get("n") {
        notes = qp_section(n);
        if notes.is_none() {
            bad.insert(RE::InvalidQuotedPrintable);
        }
    }
    let key = match get("p").map(base64) {
        None => { bad.insert(RE::MissingKeyTag); vec![] }
        Some(V::Open) => return V::Open,
        Some(V::Is(None)) => { bad.insert(RE::InvalidBase64); vec![] }
        Some(V::Is(Some(x))) => x,
    };
    let mut services = vec![ServiceType::Any];
    if let Some(v) = get("s") {
        let it = items(v);
        if it.iter().any(|x| x.is_empty()) {
            bad.insert(RE::InvalidServiceType);
        }
        services = it
            .iter()
            .filter_map(|x| match &**x {
                "*" => Some(ServiceType::Any),
                "email" => Some(ServiceType::Email),
                _ => None,
            })
            .collect();
        if services.is_empty() {
            bad.insert(RE::NoSupportedServiceTypes);
        }
    }
    let mut flags = vec![];
    if let Some(v) = get("t") {
        let it = items(v);
        if it.iter().any(|x| x.is_empty()) {
            bad.insert(RE::InvalidFlag);
        }
        flags = it
            .iter()
            .filter_map(|x| match &**x {
                "y" => Some(SelectorFlag::Testing),
                "s" => Some(SelectorFlag::NoSubdomains),
                _ => None,
            })
            .collect();
    }
    if !bad.is_empty() {
        return V::Is(Err(bad));
    }
    let known = ["v", "h", "k", "n", "p", "s", "t"];
    let ext = tags.iter().filter(|(n, _)| !known.contains(n)).map(|(n, v)| (n.to_string(), v.to_string())).collect();
    V::Is(Ok(Rec { hashes, key_type, notes, key, services, flags, ext }))
}
