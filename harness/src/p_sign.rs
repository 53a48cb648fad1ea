//! Signing (C05, C14, C18).
use crate::ctx::*;
use crate::dk::{self, Dns, Fields};
use crate::orc::{self, V};
use crate::p_hash::{canon_body, digest};
use crate::{gen, oracle};
use std::collections::{HashMap, HashSet};
use std::sync::Arc;
use std::time::{Duration, SystemTime};
use viadkim::crypto::{KeyType, SigningKey};
use viadkim::header::{FieldName, HeaderFields};
use viadkim::signature::{CanonicalizationAlgorithm as Canon, DkimSignature, DomainName, Identity, Selector, SigningAlgorithm};
use viadkim::signer::{BodyLength, HeaderSelection, OutputFormat, RequestError as QE, SignRequest, Signer, SigningError, SigningOutput, Timestamp};
use viadkim::verifier::{Config, VerificationStatus};

#[derive(Clone, Debug)]
pub enum Order {
    None,
    Alpha,
    Reverse,
    Rank(u64),
    AllEqual,
}

impl Order {
    fn cmp(&self, a: &str, b: &str) -> std::cmp::Ordering {
        match self {
            Order::None => std::cmp::Ordering::Equal,
            Order::AllEqual => std::cmp::Ordering::Equal,
            Order::Alpha => a.cmp(b),
            Order::Reverse => b.cmp(a),
            Order::Rank(s) => h64(&(s, a)).cmp(&h64(&(s, b))),
        }
    }
}

/// What is asked for.
#[derive(Clone, Debug)]
pub struct Req {
    pub key: usize,
    pub alg: SigningAlgorithm,
    pub c: (Canon, Canon),
    pub d: String,
    pub h: Option<Vec<String>>,
    pub i: Option<String>,
    pub l: BodyLength,
    pub s: String,
    pub t: Timestamp,
    pub dur: Option<Duration>,
    pub z: bool,
    pub ext: Vec<(String, String)>,
    pub name: String,
    pub width: usize,
    pub indent: String,
    pub order: Order,
    pub ascii: bool,
}

impl Req {
    fn build(&self) -> SignRequest<SigningKeyBox> {
        let order = self.order.clone();
        SignRequest {
            signing_key: SigningKeyBox(dk::keys()[self.key].sk.clone()),
            algorithm: self.alg,
            canonicalization: self.c.into(),
            domain: DomainName::new(&*self.d).unwrap(),
            header_selection: match &self.h {
                None => HeaderSelection::Auto,
                Some(h) => HeaderSelection::Manual(h.iter().map(|n| FieldName::new(&**n).unwrap()).collect()),
            },
            identity: self.i.as_ref().map(|i| Identity::new(i).unwrap()),
            body_length: self.l,
            selector: Selector::new(&*self.s).unwrap(),
            timestamp: self.t,
            valid_duration: self.dur,
            copy_headers: self.z,
            ext_tags: self.ext.clone(),
            format: OutputFormat {
                header_name: self.name.clone(),
                line_width: self.width.try_into().unwrap(),
                indentation: self.indent.clone(),
                tag_order: match order {
                    Order::None => None,
                    o => Some(Box::new(move |a: &str, b: &str| o.cmp(a, b))),
                },
                ascii_only: self.ascii,
            },
        }
    }

    /// The ways in which the request is unusable; None: left open.
    fn errors(&self) -> Option<HashSet<QE>> {
        let mut e = HashSet::new();
        if dk::keys()[self.key].ty != dk::parts(self.alg).0 {
            e.insert(QE::IncompatibleKeyType);
        }
        if let Some(h) = &self.h {
            if !h.iter().any(|n| n.eq_ignore_ascii_case("from")) {
                e.insert(QE::FromHeaderNotSigned);
            }
            if h.iter().any(|n| n.contains(';')) {
                e.insert(QE::InvalidSignedFieldName);
            }
        }
        if let Some((_, d)) = self.i.as_ref().and_then(|i| orc::identity(i)) {
            if !orc::eq_or_sub(&d, &self.d) {
                e.insert(QE::DomainMismatch);
            }
        }
        if self.dur.is_some_and(|d| d < Duration::from_secs(1)) {
            e.insert(QE::ZeroExpirationDuration);
        }
        let mut seen = HashSet::new();
        for (n, v) in &self.ext {
            let ok = match orc::tag_value(v) {
                V::Open => return None,
                V::Is(ok) => ok,
            };
            let own = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "s", "t", "x", "z"];
            if !ok || !orc::tag_name(n) || !seen.insert(n) || own.contains(&&**n) {
                e.insert(QE::InvalidExtTags);
            }
        }
        if !self.name.eq_ignore_ascii_case("dkim-signature") {
            e.insert(QE::InvalidDkimSignatureHeaderName);
        }
        if self.indent.is_empty() || !self.indent.chars().all(|c| c == ' ' || c == '\t') {
            e.insert(QE::InvalidIndentationWhitespace);
        }
        Some(e)
    }
}

/// A key holder of a type of our own, as a user might have.
#[derive(Debug)]
pub struct SigningKeyBox(Arc<SigningKey>);
impl AsRef<SigningKey> for SigningKeyBox {
    fn as_ref(&self) -> &SigningKey {
        &self.0
    }
}

pub type Signed = Result<Vec<Result<SigningOutput, SigningError>>, QE>;

pub fn sign(f: &Fields, chunks: &[&[u8]], reqs: &[Req], stop: bool) -> Signed {
    let h = HeaderFields::from_vec(f.clone()).unwrap();
    let mut s = Signer::prepare_signing(h, reqs.iter().map(|r| r.build()))?;
    for c in chunks {
        let st = s.process_body_chunk(c);
        if stop && st == viadkim::message_hash::BodyHasherStance::Done {
            break;
        }
    }
    Ok(dk::rt().block_on(s.sign()))
}

fn default_names() -> [&'static str; 19] {
    [
        "from", "reply-to", "subject", "date", "to", "cc", "resent-date", "resent-from", "resent-to", "resent-cc", "in-reply-to", "references",
        "list-id", "list-help", "list-unsubscribe", "list-subscribe", "list-post", "list-owner", "list-archive",
    ]
}

fn dom_same(a: &str, b: &str) -> bool {
    orc::a_label(a) == orc::a_label(b)
}

/// Does the parsed field agree with the data returned with it?
fn agrees(p: &orc::Sig, o: &DkimSignature) -> Option<String> {
    let st = |x: &dyn std::fmt::Debug, y: &dyn std::fmt::Debug, n: &str| Some(format!("{n}= parses to {x:?}, returned {y:?}"));
    if p.alg != o.algorithm {
        return st(&p.alg, &o.algorithm, "a");
    }
    if p.b[..] != o.signature_data[..] {
        return st(&p.b, &o.signature_data, "b");
    }
    if p.bh[..] != o.body_hash[..] {
        return st(&p.bh, &o.body_hash, "bh");
    }
    if p.c != (o.canonicalization.header, o.canonicalization.body) {
        return st(&p.c, &o.canonicalization, "c");
    }
    if !dom_same(&p.d, o.domain.as_ref()) {
        return st(&p.d, &o.domain, "d");
    }
    if !p.h.iter().map(|n| &**n).eq(o.signed_headers.iter().map(|n| n.as_ref() as &str)) {
        return st(&p.h, &o.signed_headers, "h");
    }
    match (&p.i, &o.identity) {
        (None, None) => {}
        (Some((l, d)), Some(i)) if l.as_deref() == i.local_part.as_deref() && dom_same(d, i.domain.as_ref()) => {}
        _ => return st(&p.i, &o.identity, "i"),
    }
    if p.l != o.body_length {
        return st(&p.l, &o.body_length, "l");
    }
    if !dom_same(&p.s, o.selector.as_ref()) {
        return st(&p.s, &o.selector, "s");
    }
    if p.t != o.timestamp {
        return st(&p.t, &o.timestamp, "t");
    }
    if p.x != o.expiration {
        return st(&p.x, &o.expiration, "x");
    }
    if !p.z.iter().map(|(n, v)| (&**n, &v[..])).eq(o.copied_headers.iter().map(|(n, v)| (n.as_ref() as &str, &v[..]))) {
        return st(&p.z, &o.copied_headers, "z");
    }
    let mut a: Vec<_> = p.ext.iter().map(|(n, v)| (&**n, &**v)).collect();
    let mut b: Vec<_> = o.ext_tags.iter().map(|(n, v)| (&**n, &**v)).collect();
    a.sort();
    b.sort();
    if a != b {
        return st(&a, &b, "extension tags ");
    }
    None
}

fn now() -> u64 {
    SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs()
}

/// One outcome against its own request (C18).
fn outcome(f: &Fields, body: &[u8], q: &Req, o: &Result<SigningOutput, SigningError>, t0: u64) -> Result<(), String> {
    let key = &dk::keys()[q.key];
    let (_, ha) = dk::parts(q.alg);
    let cb = canon_body(q.c.1, body);
    let l = match q.l {
        BodyLength::NoLimit => None,
        BodyLength::MessageContent => Some(cb.len() as u64),
        BodyLength::Exact(n) => Some(n),
    };
    if l.is_some_and(|l| l > cb.len() as u64) {
        return if *o == Err(SigningError::InsufficientContent) { Ok(()) } else { Err(format!("too little content, got {o:?}")) };
    }
    let bh = digest(ha, &cb[..l.map_or(cb.len(), |l| l as usize)]);
    let o = match o {
        Ok(o) => o,
        Err(SigningError::SigningFailure) if key.ty == KeyType::Rsa && dk::raw_sign(key, ha, &bh).is_none() => return Ok(()),
        Err(e) => return Err(format!("refused: {e:?}")),
    };
    let s = &o.signature;
    let eq = |ok: bool, n: &str, v: &dyn std::fmt::Debug| if ok { Ok(()) } else { Err(format!("{n}= is {v:?}")) };
    eq(s.algorithm == q.alg, "a", &s.algorithm)?;
    eq((s.canonicalization.header, s.canonicalization.body) == q.c, "c", &s.canonicalization)?;
    eq(AsRef::<str>::as_ref(&s.domain) == q.d, "d", &s.domain)?;
    eq(AsRef::<str>::as_ref(&s.selector) == q.s, "s", &s.selector)?;
    eq(s.identity == q.i.as_ref().map(|i| Identity::new(i).unwrap()), "i", &s.identity)?;
    eq(s.body_hash[..] == bh[..], "bh", &s.body_hash)?;
    eq(s.body_length == l, "l", &s.body_length)?;
    let h: Vec<&str> = match &q.h {
        Some(h) => h.iter().map(|x| &**x).collect(),
        None => f.iter().rev().map(|(n, _)| &**n).filter(|n| default_names().contains(&&*n.to_ascii_lowercase())).collect(),
    };
    eq(s.signed_headers.iter().map(|n| n.as_ref() as &str).eq(h.iter().copied()), "h", &s.signed_headers)?;
    let t1 = now();
    let tr: (Option<u64>, bool) = match q.t {
        Timestamp::None => (None, s.timestamp.is_none()),
        Timestamp::Exact(t) => (Some(t), s.timestamp == Some(t)),
        Timestamp::Now => (s.timestamp, s.timestamp.is_some_and(|t| (t0..=t1).contains(&t))),
    };
    eq(tr.1, "t", &s.timestamp)?;
    let x = match (q.dur, tr.0) {
        (None, _) => s.expiration.is_none(),
        (Some(d), Some(t)) => s.expiration == Some(t.saturating_add(d.as_secs())),
        (Some(d), None) => s.expiration.is_some_and(|x| (t0.saturating_add(d.as_secs())..=t1.saturating_add(d.as_secs())).contains(&x)),
    };
    eq(x, "x", &s.expiration)?;
    let z: Vec<(&str, &[u8])> = if q.z {
        f.iter().filter(|(n, _)| h.iter().any(|m| m.eq_ignore_ascii_case(n))).map(|(n, b)| (&**n, &b[..])).collect()
    } else {
        vec![]
    };
    eq(s.copied_headers.iter().map(|(n, v)| (n.as_ref() as &str, &v[..])).eq(z), "z", &s.copied_headers)?;
    eq(s.ext_tags.iter().map(|(n, v)| (&**n, &**v)).eq(q.ext.iter().map(|(n, v)| (&**n, &**v))), "extension tags ", &s.ext_tags)?;
    eq(o.header_name == q.name, "header name", &o.header_name)?;
    // the signature is that of the produced field under the requested key
    let names: Vec<String> = h.iter().map(|n| n.to_string()).collect();
    let dh = dk::data_hash(ha, q.c.0, f, &names, &o.header_name, &dk::without_b(&o.header_value));
    let want = dk::raw_sign(key, ha, &dh).unwrap_or_default();
    eq(s.signature_data[..] == want[..], "b", &s.signature_data)?;
    Ok(())
}

fn check_sign(f: &Fields, body: &[u8], cuts: u64, reqs: &[Req], stop: bool) -> Res {
    if oracle::relaxed_unspecified(body) && reqs.iter().any(|r| r.c.1 == Canon::Relaxed) {
        return Res::Skip;
    }
    let mut errs = HashSet::new();
    if !f.iter().any(|(n, _)| n.eq_ignore_ascii_case("from")) {
        errs.insert(QE::MissingFromHeader);
    }
    if reqs.is_empty() {
        errs.insert(QE::EmptyRequests);
    }
    if reqs.len() > 10 {
        errs.insert(QE::TooManyRequests);
    }
    for r in reqs {
        match r.errors() {
            None => return Res::Skip,
            Some(e) => errs.extend(e),
        }
    }
    let t0 = now();
    let ch = crate::p_canon::split_random(&mut Rng::new(cuts), body);
    match sign(f, &ch, reqs, stop) {
        Err(e) if errs.contains(&e) => Res::Ok,
        Err(e) => Res::Bad(format!("refused with {e:?}, broken rules {errs:?}")),
        Ok(_) if !errs.is_empty() => Res::Bad(format!("accepted though {errs:?}")),
        Ok(v) if v.len() != reqs.len() => Res::Bad(format!("{} outcomes for {} requests", v.len(), reqs.len())),
        Ok(v) => {
            for (k, (o, q)) in v.iter().zip(reqs).enumerate() {
                if let Err(e) = outcome(f, body, q, o, t0) {
                    return Res::Bad(format!("request {k}: {e}"));
                }
            }
            Res::Ok
        }
    }
}

/// Sign, prepend, verify (C05).
fn check_round(f: &Fields, body: &[u8], cuts: u64, reqs: &[Req], stop: bool) -> Res {
    let mut r = Rng::new(cuts);
    let ch = crate::p_canon::split_random(&mut r, body);
    let Ok(out) = sign(f, &ch, reqs, stop) else { return Res::Skip };
    let mut any = false;
    for (q, o) in reqs.iter().zip(&out) {
        let Ok(o) = o else { continue };
        any = true;
        let (n, b) = o.to_header_field();
        let mut g: Fields = vec![(n.as_ref().to_string(), b.as_ref().to_vec())];
        g.extend(f.iter().cloned());
        if o.format_header().to_string() != format!("{}:{}", o.header_name, o.header_value) {
            return Res::Bad("formatted header".into());
        }
        let key = &dk::keys()[q.key];
        let rec = format!("v=DKIM1; k={}; p={}", if key.ty == KeyType::Rsa { "rsa" } else { "ed25519" }, {
            use base64ct::Encoding;
            base64ct::Base64::encode_string(&key.publ[r.below(key.publ.len())])
        });
        let mut m = HashMap::new();
        m.insert(format!("{}._domainkey.{}.", orc::a_label(&q.s), orc::a_label(&q.d)), dk::Ans::Txt(vec![Ok(rec.into_bytes())]));
        let dns = Dns { map: Arc::new(m), log: Default::default() };
        let cfg = Config { allow_sha1: true, allow_expired: true, allow_timestamp_in_future: true, headers_forbidden_to_be_unsigned: vec![], max_signatures: 1, ..Default::default() };
        let ch2 = crate::p_canon::split_random(&mut r, body);
        let res = dk::verify(&g, &ch2, &dns, &cfg, r.chance(1, 2));
        match res {
            Some(v) if v.len() == 1 && v[0].status == VerificationStatus::Success && v[0].index == 0 => {}
            v => return Res::Bad(format!("produced {}:{} -> {:?}", o.header_name, esc(o.header_value.as_bytes()), v.map(|v| v.into_iter().map(|r| r.status).collect::<Vec<_>>()))),
        }
        match orc::signature(&o.header_value) {
            V::Is(Ok(p)) => {
                if let Some(e) = agrees(&p, &o.signature) {
                    return Res::Bad(format!("produced {}: {e}", esc(o.header_value.as_bytes())));
                }
            }
            V::Is(Err(e)) => return Res::Bad(format!("produced {} breaks {e:?}", esc(o.header_value.as_bytes()))),
            V::Open => {}
        }
    }
    if any { Res::Ok } else { Res::Skip }
}

/// Layout of the produced field (C14).
fn check_format(f: &Fields, body: &[u8], q: &Req) -> Res {
    let Ok(out) = sign(f, &[body], std::slice::from_ref(q), false) else { return Res::Skip };
    let Ok(o) = &out[0] else { return Res::Skip };
    let v = &*o.header_value;
    if o.header_name != q.name || !oracle::field_name_ok(&o.header_name) {
        return Res::Bad(format!("name {:?}", o.header_name));
    }
    if !oracle::field_body_ok(v.as_bytes()) {
        return Res::Bad(format!("not a header field value: {v:?}"));
    }
    match orc::signature(v) {
        V::Is(Ok(p)) => {
            if let Some(e) = agrees(&p, &o.signature) {
                return Res::Bad(format!("{v:?}: {e}"));
            }
        }
        V::Is(Err(e)) => return Res::Bad(format!("{v:?} breaks {e:?}")),
        V::Open => return Res::Skip,
    }
    let V::Is(Ok(tags)) = orc::tag_list(v) else { return Res::Bad("no tag list".into()) };
    if !matches!(q.order, Order::None) {
        for w in tags.windows(2) {
            if q.order.cmp(w[0].0, w[1].0) == std::cmp::Ordering::Greater {
                return Res::Bad(format!("tags {} and {} out of order in {v:?}", w[0].0, w[1].0));
            }
        }
    }
    if q.ascii && !v.is_ascii() && q.ext.iter().all(|(_, v)| v.is_ascii()) {
        return Res::Bad(format!("not ASCII: {v:?}"));
    }
    // layout; extension tag values bring their own white space
    if q.ext.iter().any(|(_, v)| v.contains([' ', '\t', '\r'])) {
        return Res::Ok;
    }
    let full = format!("{}:{}", o.header_name, v);
    let lines: Vec<&str> = full.split("\r\n").collect();
    // text without white space, with the line of each character
    let hl = o.header_name.chars().count() + 1;
    let mut txt: Vec<(char, usize)> = vec![];
    for (k, l) in lines.iter().enumerate() {
        let l = if k == 0 { &l[o.header_name.len() + 1..] } else {
            match l.strip_prefix(&*q.indent) {
                Some(l) => l,
                None => return Res::Bad(format!("line {l:?} is not indented as asked")),
            }
        };
        txt.extend(l.chars().filter(|c| *c != ' ' && *c != '\t').map(|c| (c, k)));
    }
    let mut start = vec![false; txt.len()];
    let mut i = 0;
    while i < txt.len() {
        let e = (i..txt.len()).find(|j| txt[*j].0 == ';').unwrap_or(txt.len());
        let eq = (i..e).find(|j| txt[*j].0 == '=').unwrap();
        let name: String = txt[i..eq].iter().map(|c| c.0).collect();
        start[i] = true;
        match &*name {
            "b" | "bh" => (eq + 1..e).for_each(|j| start[j] = true),
            "h" => (eq + 1..e).for_each(|j| start[j] |= txt[j - 1].0 == ':'),
            "z" => {
                let mut in_name = true;
                for j in eq + 1..e {
                    match txt[j].0 {
                        '|' => {
                            start[j] = true;
                            in_name = true;
                            if j + 1 < e {
                                start[j + 1] = true;
                            }
                        }
                        ':' if in_name => in_name = false,
                        _ if !in_name => start[j] = true,
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        i = e + 1;
    }
    for j in 1..txt.len() {
        if txt[j].1 != txt[j - 1].1 && !start[j] {
            return Res::Bad(format!("line broken inside an item before {:?} in {v:?}", txt[j].0));
        }
    }
    for (k, l) in lines.iter().enumerate() {
        let n = l.chars().count() - usize::from(l.ends_with(';'));
        if n > q.width {
            let items = (0..txt.len()).filter(|j| txt[*j].1 == k && start[*j]).count();
            if items > usize::from(k > 0) {
                return Res::Bad(format!("line of {n} characters with {items} items, width {}: {l:?} in {v:?}", q.width));
            }
        }
    }
    let _ = hl;
    Res::Ok
}

// ------------------------------------------------------------ generators --
const DOMS: [&str; 6] = ["example.com", "Example.COM", "müller.example", "xn--mller-kva.example", "a.b.example.com", "é.org"];
const SELS: [&str; 5] = ["sel", "SEL", "é.x", "2023", "xn--9ca"];

pub fn message(r: &mut Rng) -> (Fields, Vec<u8>) {
    let mut f = gen::header(r, 8);
    if r.chance(3, 4) {
        f.iter_mut().for_each(|(n, _)| {
            if n.len() > 3 && r.chance(1, 6) {
                *n = (*r.pick(&["Reply-To", "List-Id", "resent-from", "References", "Resent-Sender", "DKIM-Signature", "Keywords"])).into();
            }
        });
    }
    let at = r.below(f.len() + 1);
    f.insert(at, ((*r.pick(&["From", "from", "FrOm"])).into(), gen::field_body(r)));
    (f, crate::p_canon::random_body(r))
}

/// A usable request.
pub fn request(r: &mut Rng, f: &Fields, body: &[u8], good_keys: bool) -> Req {
    let key = if good_keys { r.below(3) } else { *r.pick(&[0, 1, 2, 3, 9, 8]) };
    let alg = match dk::keys()[key].ty {
        KeyType::Ed25519 => SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "sha1")]
        KeyType::Rsa if r.chance(1, 3) => SigningAlgorithm::RsaSha1,
        KeyType::Rsa => SigningAlgorithm::RsaSha256,
    };
    let cs = [Canon::Simple, Canon::Relaxed];
    let c = (*r.pick(&cs), *r.pick(&cs));
    let d = (*r.pick(&DOMS)).to_string();
    let h = if r.chance(1, 3) {
        None
    } else {
        let mut h: Vec<String> = vec!["From".into()];
        for (n, _) in f {
            if !n.contains(';') && r.chance(2, 3) {
                h.push(if r.chance(1, 4) { gen::case_flip(r, n) } else { n.clone() });
            }
            if r.chance(1, 8) {
                let n = gen::field_name(r);
                if !n.contains(';') && !n.eq_ignore_ascii_case("dkim-signature") {
                    h.push(n);
                }
            }
        }
        for i in (1..h.len()).rev() {
            let j = r.below(i + 1);
            h.swap(i, j);
        }
        Some(h)
    };
    let i = if r.chance(1, 2) {
        let l = *r.pick(&["", "a", "\"x y\"", "é", "a.b", "a=b", "\"a\\\"b;|\"", "日本", "x_{}|~"]);
        let dd = match r.below(4) {
            0 => format!("sub.{d}"),
            1 => orc::a_label(&d),
            2 => format!("É.{d}"),
            _ => d.clone(),
        };
        Some(format!("{l}@{dd}"))
    } else {
        None
    };
    let n = canon_body(c.1, body).len() as u64;
    let l = match r.below(5) {
        0 => BodyLength::MessageContent,
        1 => BodyLength::Exact(r.below(n as usize + 2) as u64),
        2 => BodyLength::Exact(*r.pick(&[n, n, 0, n + 1, u64::MAX])),
        _ => BodyLength::NoLimit,
    };
    let t = match r.below(4) {
        0 => Timestamp::None,
        1 => Timestamp::Now,
        _ => Timestamp::Exact(*r.pick(&[0, 1, 1_700_000_000, u64::MAX - 1, u64::MAX / 2])),
    };
    let dur = *r.pick(&[None, Some(1u64), Some(2), Some(86400), Some(u64::MAX)]);
    let dur = dur.map(|s| Duration::new(s, if r.chance(1, 3) { 999_999_999 } else { 0 }));
    let mut ext = vec![];
    if r.chance(1, 4) {
        for n in ["r", "B", "e1", "x_y", "Z"] {
            if r.chance(1, 3) {
                ext.push((n.to_string(), (*r.pick(&["", "y", "a b", "a\r\n b", "é", "x=y:z", "averyveryverylongvaluewithoutanyfoldingpointinitatallreallynoneofthemwhatsoever1234567890"])).to_string()));
            }
        }
    }
    let width = match r.below(6) {
        0 => r.range(1, 30),
        1 => r.range(30, 100),
        2 => *r.pick(&[1, 2, 998, 10_000, usize::MAX]),
        _ => 78,
    };
    let indent = match r.below(8) {
        0 => " ".repeat(r.range(1, 90)),
        1 => "\t ".to_string(),
        2 => "  ".to_string(),
        _ => "\t".to_string(),
    };
    let order = match r.below(8) {
        0 => Order::Alpha,
        1 => Order::Reverse,
        2 | 3 => Order::Rank(r.next()),
        4 => Order::AllEqual,
        _ => Order::None,
    };
    Req {
        key, alg, c, d, h, i, l, s: (*r.pick(&SELS)).into(), t, dur, z: r.chance(1, 3), ext,
        name: (*r.pick(&["DKIM-Signature", "DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE"])).into(),
        width, indent, order, ascii: r.chance(1, 3),
    }
}

/// Makes a request unusable, probably.
fn spoil(r: &mut Rng, q: &mut Req) {
    match r.below(9) {
        0 => q.key = if q.key < 2 { 2 } else { 0 },
        1 => q.h = Some(vec!["To".into(), "Fro".into()]),
        2 => q.h.get_or_insert_with(|| vec!["from".into()]).push((*r.pick(&["a;b", ";", "To"])).into()),
        3 => q.i = Some((*r.pick(&["@other.org", "a@xexample.com", "@com", "x@m.com"])).into()),
        4 => q.dur = Some(Duration::from_nanos(*r.pick(&[0, 1, 999_999_999, 1_000_000_000]))),
        5 => {
            let n = *r.pick(&["", "a", "b", "v", "z", "q", "x", "bh", "1a", "é", "a b", "A", "r"]);
            let v = *r.pick(&["", " a", "a ", "a;b", "\r\n", "a\r\nb", "ok", "a\x01", "a\r\n\r\n b"]);
            q.ext.push((n.into(), v.into()));
            if r.chance(1, 3) {
                q.ext.push((n.into(), "y".into()));
            }
        }
        6 => q.name = (*r.pick(&["", "DKIM-Signatur", "DKIM_Signature", "X", "DKIM-Signature "])).into(),
        7 => q.indent = (*r.pick(&["", "x", " \r\n ", "\u{a0}", "\n", " a"])).into(),
        _ => q.alg = if q.alg == SigningAlgorithm::Ed25519Sha256 { SigningAlgorithm::RsaSha256 } else { SigningAlgorithm::Ed25519Sha256 },
    }
}

pub fn show(f: &Fields, body: &[u8], cuts: u64, q: &[Req]) -> String {
    format!("header={} body={} cuts={cuts} requests={q:?}", f.iter().map(|(n, b)| format!("{n}:{}", esc(b))).collect::<Vec<_>>().join(" / "), esc(body))
}

fn limit_dkim(f: &Fields, q: &mut Req) {
    // an existing signature may be signed, but no more than there are
    let mut n = f.iter().filter(|(n, _)| n.eq_ignore_ascii_case("dkim-signature")).count();
    if let Some(h) = &mut q.h {
        h.retain(|x| {
            if x.eq_ignore_ascii_case("dkim-signature") {
                if n == 0 {
                    return false;
                }
                n -= 1;
            }
            true
        });
    }
}

fn plain(f: &Fields, body: &[u8]) -> Req {
    let mut r = Rng::new(1);
    let mut q = request(&mut r, f, body, true);
    q.key = 0;
    q.alg = SigningAlgorithm::Ed25519Sha256;
    q.d = "example.com".into();
    q.s = "sel".into();
    q.h = None;
    q.i = None;
    q.l = BodyLength::NoLimit;
    q.t = Timestamp::Exact(1);
    q.dur = None;
    q.z = false;
    q.ext = vec![];
    q.name = "DKIM-Signature".into();
    q.width = 78;
    q.indent = "\t".into();
    q.order = Order::None;
    q.ascii = false;
    q
}

fn fixed_findings(c: &mut Ctx) {
    let f: Fields = vec![("From".into(), b" a@example.com".to_vec())];
    if c.mine() {
        let mut q = plain(&f, b"x");
        q.t = Timestamp::Exact(u64::MAX);
        q.dur = Some(Duration::from_secs(60));
        c.eval("expiration of the last representable timestamp", || show(&f, b"x", 0, &[q.clone()]), || check_round(&f, b"x", 0, &[q.clone()], false));
    }
    if c.mine() {
        let mut q = plain(&f, b"x");
        q.ext = vec![("q".into(), "foo".into())];
        c.eval("extension tag q", || show(&f, b"x", 0, &[q.clone()]), || check_round(&f, b"x", 0, &[q.clone()], false));
    }
}

pub fn c05(c: &mut Ctx) -> &'static str {
    fixed_findings(c);
    while c.time_left() {
        for _ in 0..10 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let (f, body) = message(&mut r);
            let mut qs: Vec<Req> = (0..r.range(1, 3)).map(|_| request(&mut r, &f, &body, true)).collect();
            qs.iter_mut().for_each(|q| limit_dkim(&f, q));
            let (cuts, stop) = (r.next(), r.chance(1, 2));
            c.eval("signed then verified", || show(&f, &body, cuts, &qs), || check_round(&f, &body, cuts, &qs, stop));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "random messages and usable requests, signed, prepended and verified with the matching record; non-trivial: each distinct (message, requests)"
}

pub fn c14(c: &mut Ctx) -> &'static str {
    let f: Fields = vec![("From".into(), b" a@example.com".to_vec()), ("To".into(), b" b@example.com,\r\n c|d=e;\xc3\xa9\xff".to_vec()), ("Subject-of-this".into(), b" x".to_vec())];
    let max = if c.thorough { 400 } else { 130 };
    for width in 1..=max {
        for (k, indent) in ["\t", " ", "    ", "                              "].iter().enumerate() {
            for o in [Order::None, Order::Alpha, Order::Reverse, Order::Rank(width as u64)] {
                if !c.mine() {
                    continue;
                }
                let mut q = plain(&f, b"x");
                q.width = width;
                q.indent = indent.to_string();
                q.order = o;
                q.z = (width + k) % 2 == 0;
                q.ascii = (width + k) % 3 == 0;
                q.h = Some(vec!["From".into(), "To".into(), "subject-of-this".into(), "Another-One".into()]);
                q.i = Some("mé@example.com".into());
                q.ext = vec![("r".into(), "y".into())];
                c.eval("layout of the produced field", || show(&f, b"x", 0, &[q.clone()]), || check_format(&f, b"x", &q));
            }
        }
    }
    c.exhaustive.push(format!("line widths 1 to {max} with four indentations and four tag orders on one message"));
    while c.time_left() {
        for _ in 0..20 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let (f, body) = message(&mut r);
            let mut q = request(&mut r, &f, &body, true);
            limit_dkim(&f, &mut q);
            if r.chance(1, 2) {
                q.width = r.range(1, 120);
            }
            c.eval("layout of the produced field", || show(&f, &body, 0, &[q.clone()]), || check_format(&f, &body, &q));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "all line widths on one message, then random messages, requests and formats; non-trivial: each distinct (message, request)"
}

pub fn c18(c: &mut Ctx) -> &'static str {
    let f: Fields = vec![("From".into(), b" a@example.com".to_vec()), ("To".into(), b" b".to_vec()), ("from".into(), b" z".to_vec())];
    let g: Fields = vec![("To".into(), b" b".to_vec()), ("Froms".into(), b" b".to_vec())];
    for n in 0..13 {
        for bad in 0..2 {
            if !c.mine() {
                continue;
            }
            let q: Vec<Req> = (0..n).map(|k| { let mut q = plain(&f, b"x"); q.s = format!("s{k}"); q.l = BodyLength::Exact(k); q }).collect();
            let h = if bad == 1 { &g } else { &f };
            c.eval("request validation and outcome", || show(h, b"x", 0, &q), || check_sign(h, b"abcdefgh\r\n", 0, &q, false));
        }
    }
    c.exhaustive.push("0 to 12 requests, with and without a From field".into());
    while c.time_left() {
        for _ in 0..10 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let (mut f, body) = message(&mut r);
            if r.chance(1, 20) {
                f.retain(|(n, _)| !n.eq_ignore_ascii_case("from"));
                f.push(("X".into(), b"y".to_vec()));
            }
            let n = if r.chance(1, 20) { r.range(0, 12) } else { r.range(1, 4) };
            let mut qs: Vec<Req> = (0..n).map(|_| request(&mut r, &f, &body, false)).collect();
            if n > 0 && r.chance(1, 3) {
                let k = r.below(n);
                spoil(&mut r, &mut qs[k]);
                if r.chance(1, 3) {
                    spoil(&mut r, &mut qs[k]);
                }
            }
            // unusable types cannot be built at all
            if qs.iter().any(|q| q.h.iter().flatten().any(|n| !oracle::field_name_ok(n))) {
                continue;
            }
            let (cuts, stop) = (r.next(), r.chance(1, 2));
            c.eval("request validation and outcome", || show(&f, &body, cuts, &qs), || check_sign(&f, &body, cuts, &qs, stop));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "0 to 12 requests, then random messages with sets of usable and spoiled requests; non-trivial: each distinct (message, requests)"
}

/// Any request at all, for C20.
pub fn wild(r: &mut Rng) -> (Fields, Vec<u8>, Vec<Req>) {
    let (f, body) = message(r);
    let mut qs: Vec<Req> = (0..r.range(1, 3)).map(|_| request(r, &f, &body, false)).collect();
    for q in qs.iter_mut() {
        if r.chance(1, 4) {
            spoil(r, q);
        }
        if r.chance(1, 4) {
            q.width = *r.pick(&[1, 2, 3, usize::MAX, usize::MAX - 1]);
        }
        if r.chance(1, 10) {
            q.indent = " ".repeat(300);
        }
        if r.chance(1, 10) {
            q.t = Timestamp::Exact(u64::MAX);
        }
        if r.chance(1, 10) {
            q.ext.push(("q".into(), "x".into()));
        }
    }
    (f, body, qs)
}
