//! Tag lists (C10), signatures (C11), key records (C12).
use crate::ctx::*;
use crate::orc::{self, V};
use std::str::FromStr;
use viadkim::record::DkimKeyRecord;
use viadkim::signature::{DkimSignature};

fn pairs(x: &[(Box<str>, Box<str>)]) -> Vec<(String, String)> {
    x.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn check_record(s: &str) -> Res {
    let want = match orc::record(s) {
        V::Open => return Res::Skip,
        V::Is(w) => w,
    };
    let got = DkimKeyRecord::from_str(s);
    match (got, want) {
        (Err(e), Err(set)) => {
            if set.contains(&e) { Res::Ok } else { Res::Bad(format!("error {e:?}, broken rules {set:?}")) }
        }
        (Err(e), Ok(w)) => Res::Bad(format!("refused ({e:?}) though valid: {w:?}")),
        (Ok(g), Err(set)) => Res::Bad(format!("accepted as {g:?} though {set:?}")),
        (Ok(g), Ok(w)) => {
            let notes = w.notes.as_ref().map(|n| String::from_utf8_lossy(n).to_string());
            let ok = g.hash_algorithms[..] == w.hashes[..]
                && g.key_type == w.key_type
                && g.notes.as_deref() == notes.as_deref()
                && g.key_data[..] == w.key[..]
                && g.service_types[..] == w.services[..]
                && g.flags[..] == w.flags[..]
                && pairs(&g.ext_tags) == w.ext
                && g.is_testing() == w.flags.contains(&viadkim::record::SelectorFlag::Testing);
            if ok { Res::Ok } else { Res::Bad(format!("got {g:?} expected {w:?}")) }
        }
    }
}

pub fn check_sig(s: &str) -> Res {
    let want = match orc::signature(s) {
        V::Open => return Res::Skip,
        V::Is(w) => w,
    };
    match (DkimSignature::from_str(s), want) {
        (Err(e), Err(set)) => {
            if !set.contains(&e.kind) {
                return Res::Bad(format!("error {:?}, broken rules {set:?}", e.kind));
            }
            // salvaged raw values
            if let V::Is(Ok(t)) = orc::tag_list(s) {
                let get = |n: &str| t.iter().find(|(m, _)| *m == n).map(|(_, v)| *v);
                for (n, v) in [
                    ("a", &e.algorithm_str),
                    ("b", &e.signature_data_str),
                    ("d", &e.domain_str),
                    ("i", &e.identity_str),
                    ("s", &e.selector_str),
                ] {
                    if get(n) != v.as_deref() {
                        return Res::Bad(format!("salvaged {n}= is {v:?} expected {:?}", get(n)));
                    }
                }
            }
            Res::Ok
        }
        (Err(e), Ok(w)) => Res::Bad(format!("refused ({:?}) though valid: {w:?}", e.kind)),
        (Ok(g), Err(set)) => Res::Bad(format!("accepted as {g:?} though {set:?}")),
        (Ok(g), Ok(w)) => match same_sig(&g, &w) {
            None => Res::Ok,
            Some(f) => Res::Bad(format!("{f} differs: got {g:?} expected {w:?}")),
        },
    }
}

/// The first field in which they differ.
pub fn same_sig(g: &DkimSignature, w: &orc::Sig) -> Option<&'static str> {
    if g.algorithm != w.alg {
        return Some("a");
    }
    if g.signature_data[..] != w.b[..] {
        return Some("b");
    }
    if g.body_hash[..] != w.bh[..] {
        return Some("bh");
    }
    if (g.canonicalization.header, g.canonicalization.body) != w.c {
        return Some("c");
    }
    if g.domain.as_ref() != w.d {
        return Some("d");
    }
    if !g.signed_headers.iter().map(|n| n.as_ref() as &str).eq(w.h.iter().map(|n| &**n)) {
        return Some("h");
    }
    let id = g.identity.as_ref().map(|i| (i.local_part.as_ref().map(|l| l.to_string()), AsRef::<str>::as_ref(&i.domain).to_string()));
    if id != w.i {
        return Some("i");
    }
    if g.body_length != w.l {
        return Some("l");
    }
    if g.selector.as_ref() != w.s {
        return Some("s");
    }
    if g.timestamp != w.t {
        return Some("t");
    }
    if g.expiration != w.x {
        return Some("x");
    }
    if !g.copied_headers.iter().map(|(n, v)| (n.as_ref() as &str, &v[..])).eq(w.z.iter().map(|(n, v)| (&**n, &v[..]))) {
        return Some("z");
    }
    if pairs(&g.ext_tags) != w.ext {
        return Some("extension tags");
    }
    None
}

const WS: [&str; 10] = ["", "", "", " ", "\t", "  ", "\r\n ", " \r\n\t ", "\r\n\t", "\r\n \t"];
const BADWS: [&str; 7] = ["\r\n", "\n", "\r", "\r\n\r\n ", "\u{a0}", "\x0b", "\r \n"];

fn ws(r: &mut Rng) -> &'static str {
    if r.chance(1, 150) {
        *r.pick(&BADWS)
    } else if r.chance(1, 3) {
        *r.pick(&WS)
    } else {
        ""
    }
}

const TOKS: [&str; 12] = ["a", "B", "_", "0", "=", ";", " ", "\t", "\r\n ", "\r", "\u{e9}", ":"];

fn mutate(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let mut o = cs.clone();
    let i = r.below(cs.len() + 1);
    match r.below(4) {
        0 if i < cs.len() => drop(o.remove(i)),
        1 => o.insert(i, *r.pick(&[';', '=', ' ', '\t', '\r', '\n', '\0', '\x7f', 'a', '\u{80}', '\u{2028}', ':', '|', '+', '/'])),
        2 if i < cs.len() => o[i] = *r.pick(&['A', ';', '=', ' ', '0', 'é', '\n', '-']),
        _ if cs.len() > 1 => {
            let j = r.below(cs.len());
            let i = r.below(cs.len());
            o.swap(i, j);
        }
        _ => {}
    }
    o.into_iter().collect()
}

fn join(r: &mut Rng, tags: &[(String, String)]) -> String {
    let mut s = String::new();
    for (k, (n, v)) in tags.iter().enumerate() {
        if k > 0 {
            s.push(';');
        }
        s.push_str(ws(r));
        s.push_str(n);
        s.push_str(ws(r));
        s.push('=');
        s.push_str(ws(r));
        // white space inside colon lists, Base64, quoted-printable
        if r.chance(1, 6) && v.is_ascii() {
            let i = r.below(v.len() + 1);
            s.push_str(&v[..i]);
            s.push_str(ws(r));
            s.push_str(&v[i..]);
        } else {
            s.push_str(v);
        }
        s.push_str(ws(r));
    }
    if r.chance(1, 3) {
        s.push(';');
    }
    if r.chance(1, 30) {
        s.push_str(ws(r));
    }
    if r.chance(1, 12) {
        s = mutate(r, &s);
    }
    s
}

pub fn c10(c: &mut Ctx) -> &'static str {
    let max = if c.thorough { 6 } else { 4 };
    'o: for l in 0..=max {
        for code in 0..TOKS.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            if code % 512 == 0 && !c.time_left() {
                break 'o;
            }
            let mut t = String::new();
            let mut x = code;
            for _ in 0..l {
                t.push_str(TOKS[x % TOKS.len()]);
                x /= TOKS.len();
            }
            for s in [format!("p=;{t}"), format!("{t};p="), format!("p={t}"), format!("p=;a={t}")] {
                c.eval("tag list grammar (record)", || format!("{s:?}"), || check_record(&s));
            }
            c.eval("tag list grammar (signature)", || format!("{t:?}"), || check_sig(&t));
        }
        if l == max || l > 2 {
            c.exhaustive.push(format!("all strings of up to {l} tokens over {TOKS:?} as tag lists, beside p= in a key record"));
        }
    }
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let n = r.range(0, 6);
            let names = ["a", "b", "A", "a1", "a_", "x", "zz", "p", "_a", "1a", "", "é", "b "];
            let mut tags: Vec<(String, String)> = vec![("p".into(), "".into())];
            for _ in 0..n {
                let name = if r.chance(1, 12) { *r.pick(&names) } else { *r.pick(&["a", "b", "A", "B", "a1", "a_b", "c", "dD", "e2", "zz"]) };
                let mut v = String::new();
                for _ in 0..r.range(0, 8) {
                    v.push_str(if r.chance(1, 60) { *r.pick(&["\x01", "\x7f", "\r", "\n", "\u{85}", "\r\n"]) } else {
                        *r.pick(&["x", "=", ":", "!", "~", "\u{80}", "\u{10ffff}", "q", "\u{a0}", ","])
                    });
                    v.push_str(ws(&mut r));
                }
                tags.push((name.into(), v.trim().into()));
            }
            let k = r.below(tags.len());
            tags.swap(0, k);
            let s = join(&mut r, &tags);
            c.eval("tag list grammar (record)", || format!("{s:?}"), || check_record(&s));
            c.eval("tag list grammar (signature)", || format!("{s:?}"), || check_sig(&s));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "all short strings over a delimiter alphabet embedded in a key record, then random tag lists with folding white space and mutations; non-trivial: each distinct string"
}

const SIG_OK: [(&str, &[&str]); 15] = [
    ("v", &["1"]),
    ("a", &["rsa-sha256", "ed25519-sha256", "RSA-SHA256"]),
    ("b", &["QUJD", "QQ==", "QUI=", "////", "++++", "AAAA"]),
    ("bh", &["QUJD", "AA==", "/+8="]),
    ("c", &["simple", "relaxed", "simple/relaxed", "relaxed/simple", "Relaxed/RELAXED", "simple/simple"]),
    ("d", &["example.com", "Example.COM", "müller.example", "xn--mller-kva.example", "a.b.c.example.com", "com", "_x.example.com"]),
    ("h", &["From", "from:To", "to:FROM:from:From", "From:a=b", "X-|:from", "!:From:~"]),
    ("i", &["@example.com", "a@example.com", "x=40y@example.com", "=22a=20b=22@example.com", "@sub.Example.com", "é@müller.example", "@example.org", "a@a.b.c.example.com", "=C3=A9@com"]),
    ("l", &["0", "1", "18446744073709551615", "007", "0000000000000000000000000000000000000000000000000000000000000000000000000012"]),
    ("q", &["dns/txt", "x:dns/txt", "DNS/TXT:y"]),
    ("s", &["sel", "a.b", "2023", "é", "xn--9ca", "_s"]),
    ("t", &["0", "1", "100", "18446744073709551614"]),
    ("x", &["1", "2", "101", "18446744073709551615", "00101"]),
    ("z", &["From:a", "From:=20a=0D=0A|To:b", "X=3B:|From:x", "a:b:c", "From:=FF|A=7C:=7C"]),
    ("r", &["y", "", "a b", "é"]),
];
const SIG_BAD: [(&str, &[&str]); 14] = [
    ("v", &["2", "", "1 1", "01", "1.0"]),
    ("a", &["", "rsa", "rsa-sha1", "RSA-sha1", "ed25519-sha1", "rsa-sha256x", "rsa sha256", "dsa-sha256"]),
    ("b", &["", "A", "AAA", "A===", "A=AA", "AA=A", "AAAA=", "AA==AA==", "!!!!", "QUJD\u{e9}", "QUI-", "QQ=", "QR=="]),
    ("bh", &["", "A", "AB", "====", "QUI_"]),
    ("c", &["", "/", "simple/", "/simple", "simple/relaxed/simple", "nofws", "relaxed /relaxed", "simple/x", "relaxed/"]),
    ("d", &["", ".", "example..com", "-a.com", "a-.com", "1", "example.1", "example.com.", "a b.com", "a!.com", "xn--zzzzzz.com", "ex\u{ad}ample.com", "a.123", "exa\u{2028}mple.com"]),
    ("h", &["", ":", "To", "From:", ":From", "From::To", "From:é", "From:a b", "frm", "From:a\tb"]),
    ("i", &["", "a", "@", "a@", "a@@example.com", "a b@example.com", "a@example.com@", "=zz@example.com", "=FF@example.com", ".a@example.com", "a..b@example.com", "a=40example.com=", "@-a.com", "=22a@example.com", "a|@"]),
    ("l", &["", "-1", "+1", "18446744073709551616", "1 2", "0x1", "1.0", "٣", "99999999999999999999999"]),
    ("q", &["", "dns", "dns/txt:", ":dns/txt", "http", "dns/txtx"]),
    ("s", &["", ".", "a..b", "a b", "-s", "s-", "a!b", "s."]),
    ("t", &["", "-1", "+100", "18446744073709551616", "1e3", "1,0"]),
    ("x", &["", "-1", "+101", "0", "18446744073709551616", "５"]),
    ("z", &["", "|", "From", "From:a|", "From:=zz", "é:x", ":x", "From:a||To:b", "=:x", "From:=4"]),
];

pub fn random_sig(r: &mut Rng) -> String {
    let pbad = *r.pick(&[0usize, 0, 1, 1, 4]);
    let pdrop = *r.pick(&[0usize, 0, 0, 1]);
    let mut tags: Vec<(String, String)> = vec![];
    for (n, vs) in SIG_OK {
        let req = matches!(n, "v" | "a" | "b" | "bh" | "d" | "h" | "s");
        if req && r.chance(pdrop, 10) || !req && !r.chance(1, 3) {
            continue;
        }
        let bad = SIG_BAD.iter().find(|(m, _)| *m == n);
        let v = match bad {
            Some((_, b)) if r.chance(pbad, 15) => r.pick(b).to_string(),
            _ => r.pick(vs).to_string(),
        };
        let v = if r.chance(pbad, 60) { mutate(r, &v) } else { v };
        tags.push((n.into(), v));
    }
    if r.chance(1, 4) {
        tags.push((r.pick(&["R", "V", "B", "y", "bhh", "b_", "q2", "v1"]).to_string(), r.pick(&["", "x", "a=b"]).to_string()));
    }
    if r.chance(1, 20) && !tags.is_empty() {
        let t = r.pick(&tags).clone();
        tags.push(t);
    }
    for i in (1..tags.len()).rev() {
        if r.chance(2, 3) {
            let j = r.below(i + 1);
            tags.swap(i, j);
        }
    }
    join(r, &tags)
}

pub fn c11(c: &mut Ctx) -> &'static str {
    // one deviating value at a time, and every ok value
    let base = |n: &str, v: Option<&str>, with: &[&str]| -> String {
        let mut s = String::new();
        for (m, vs) in SIG_OK {
            let req = matches!(m, "v" | "a" | "b" | "bh" | "d" | "h" | "s") || with.contains(&m);
            if m == n {
                if let Some(v) = v {
                    s.push_str(&format!("{m}={v}; "));
                }
            } else if req {
                s.push_str(&format!("{m}={}; ", vs[0]));
            }
        }
        s.truncate(s.len() - 2);
        s
    };
    for (n, vs) in SIG_OK.iter().chain(SIG_BAD.iter()) {
        let vs: Vec<Option<&str>> = vs.iter().map(|v| Some(*v)).chain([None]).collect();
        for v in vs {
            for with in [&[][..], &["t"], &["x"], &["i"], &["t", "x", "c", "q", "z", "l", "r"]] {
                if !c.mine() {
                    continue;
                }
                let s = base(n, v, with);
                c.eval("signature tag rules", || format!("{s:?}"), || check_sig(&s));
            }
        }
    }
    // pairs of i= and d=, t= and x=, c= combinations
    let d: Vec<&str> = SIG_OK[5].1.iter().chain(&["le.com", "mexample.com", "EXAMPLE.com", "xn--mller-KVA.example"]).copied().collect();
    for a in &d {
        for b in &d {
            for l in ["", "x", "x."] {
                if !c.mine() {
                    continue;
                }
                let s = format!("v=1;a=rsa-sha256;b=QUJD;bh=QUJD;d={a};h=from;s=s;i={l}@{b}");
                let s2 = format!("v=1;i={l}@x.{b};a=rsa-sha256;b=QUJD;bh=QUJD;d={a};h=from;s=s");
                c.eval("signature tag rules", || format!("{s:?}"), || check_sig(&s));
                c.eval("signature tag rules", || format!("{s2:?}"), || check_sig(&s2));
            }
        }
    }
    let nums = ["0", "1", "2", "9", "10", "99", "0100", "18446744073709551614", "18446744073709551615", "18446744073709551616", "+2"];
    for t in nums {
        for x in nums {
            if !c.mine() {
                continue;
            }
            let s = format!("v=1;a=rsa-sha256;b=QUJD;bh=QUJD;d=d.com;h=from;s=s;x={x};t={t}");
            c.eval("signature tag rules", || format!("{s:?}"), || check_sig(&s));
        }
    }
    c.exhaustive.push("every listed valid and invalid tag value on its own; all pairs of listed d= and i= domains and of t= and x= values".into());
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let s = random_sig(&mut c.rng(0));
            c.eval("signature tag rules", || format!("{s:?}"), || check_sig(&s));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "each listed tag value alone, then random signatures with reordered, missing, repeated, mutated and folded tags; non-trivial: each distinct string"
}

const REC_OK: [(&str, &[&str]); 8] = [
    ("v", &["DKIM1"]),
    ("h", &["sha256", "SHA256", "sha1:sha256", "sha256:x", "x:sha256:sha256"]),
    ("k", &["rsa", "ed25519", "RSA", "Ed25519"]),
    ("n", &["", "hello", "a b", "=41=20", "é", "=FF", "x=3D"]),
    ("p", &["", "QUJD", "QQ==", "QUJDREVG", "////"]),
    ("s", &["*", "email", "EMAIL", "x:email", "*:email", "email:*"]),
    ("t", &["y", "s", "y:s", "S:Y", "x", "x:y", "y:y"]),
    ("g", &["", "x", "a=b"]),
];
const REC_BAD: [(&str, &[&str]); 7] = [
    ("v", &["", "DKIM2", "dkim1", "DKIM 1", "1", "DKIM1x"]),
    ("h", &["", "sha1", "x", "sha256:", ":sha256", "sha256::x", "sha 256", "sha512"]),
    ("k", &["", "dsa", "rsa:x", "ed25519 x", "rs"]),
    ("n", &["=", "=4", "=zz", "a=b", "x\r\n y", "a=4"]),
    ("p", &["A", "A===", "!!!!", "QQ=", "AAAA=", "QR=="]),
    ("s", &["", "x", "email:", ":email", "email::*", "tlsrpt"]),
    ("t", &["", "y:", ":y", "y::s"]),
];

fn random_rec(r: &mut Rng) -> String {
    let pbad = *r.pick(&[0usize, 0, 1, 1, 4]);
    let mut tags: Vec<(String, String)> = vec![];
    for (n, vs) in REC_OK {
        if n == "p" && r.chance(1, 15) || n != "p" && !r.chance(2, 5) {
            continue;
        }
        let bad = REC_BAD.iter().find(|(m, _)| *m == n);
        let v = match bad {
            Some((_, b)) if r.chance(pbad, 15) => r.pick(b).to_string(),
            _ => r.pick(vs).to_string(),
        };
        let v = if r.chance(pbad, 60) { mutate(r, &v) } else { v };
        tags.push((n.into(), v));
    }
    if r.chance(1, 4) {
        tags.push((r.pick(&["G", "V", "P", "y", "hh", "k_"]).to_string(), r.pick(&["", "x", "a=b"]).to_string()));
    }
    if r.chance(1, 20) && !tags.is_empty() {
        let t = r.pick(&tags).clone();
        tags.push(t);
    }
    let from = if r.chance(1, 8) { 0 } else { 1 };
    for i in (1 + from..tags.len()).rev() {
        if r.chance(2, 3) {
            let j = from + r.below(i + 1 - from);
            tags.swap(i, j);
        }
    }
    join(r, &tags)
}

pub fn c12(c: &mut Ctx) -> &'static str {
    for (n, vs) in REC_OK.iter().chain(REC_BAD.iter()) {
        for v in vs.iter() {
            for s in [
                format!("{n}={v}; p=QUJD"),
                format!("p=QUJD; {n}={v}"),
                format!("{n}={v}"),
                format!("v=DKIM1; {n}={v}; p="),
                format!("{n}={v};v=DKIM1;p=QUJD;t=y"),
                format!("v=DKIM1;h=sha256;p=QUJD;{n} = {v} ;"),
            ] {
                if !c.mine() {
                    continue;
                }
                c.eval("key record rules", || format!("{s:?}"), || check_record(&s));
            }
        }
    }
    for (n, items) in [("h", &["sha1", "sha256", "x", "", "SHA256"][..]), ("s", &["*", "email", "x", "", "eMail"]), ("t", &["y", "s", "x", "", "Y"])] {
        for k in 0..=3usize {
            for code in 0..items.len().pow(k as u32) {
                if !c.mine() {
                    continue;
                }
                let mut x = code;
                let v: Vec<&str> = (0..k).map(|_| { let i = items[x % items.len()]; x /= items.len(); i }).collect();
                for sep in [":", " :\r\n "] {
                    let s = format!("p=QUJD;{n}={}", v.join(sep));
                    c.eval("key record rules", || format!("{s:?}"), || check_record(&s));
                }
            }
        }
    }
    c.exhaustive.push("every listed valid and invalid tag value on its own; all h=, s= and t= lists of up to 3 items".into());
    while c.time_left() {
        for _ in 0..200 {
            if !c.mine() {
                continue;
            }
            let s = random_rec(&mut c.rng(0));
            c.eval("key record rules", || format!("{s:?}"), || check_record(&s));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "each listed tag value alone, all short item lists, then random records with reordered, missing, repeated, mutated and folded tags; non-trivial: each distinct string"
}

