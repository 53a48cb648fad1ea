//! Domains, selectors, identities (C16).
use crate::ctx::*;
use crate::orc;
use viadkim::signature::{DomainName, Identity, Selector};

fn check_name(s: &str) -> Res {
    let (d, l) = (DomainName::new(s), Selector::new(s));
    let (wd, wl) = (orc::dns_name(s, true), orc::dns_name(s, false));
    if d.is_ok() != wd || s.parse::<DomainName>().is_ok() != wd {
        return Res::Bad(format!("domain accepted: {}, expected {wd}", d.is_ok()));
    }
    if l.is_ok() != wl || s.parse::<Selector>().is_ok() != wl {
        return Res::Bad(format!("selector accepted: {}, expected {wl}", l.is_ok()));
    }
    if let Ok(d) = d {
        let d: DomainName = d;
        if AsRef::<str>::as_ref(&d) != s || d.to_ascii() != idna::domain_to_ascii(s).unwrap() || d.to_unicode() != idna::domain_to_unicode(s).0 {
            return Res::Bad(format!("forms of {d:?}: {} {}", d.to_ascii(), d.to_unicode()));
        }
        if !d.eq_or_subdomain_of(&d) {
            return Res::Bad("a domain is not below or equal to itself".into());
        }
    }
    if let Ok(l) = l {
        if AsRef::<str>::as_ref(&l) != s || l.to_ascii() != idna::domain_to_ascii(s).unwrap() || l.to_unicode() != idna::domain_to_unicode(s).0 {
            return Res::Bad("forms of the selector".into());
        }
    }
    Res::Ok
}

fn check_rel(a: &str, b: &str) -> Res {
    let (Ok(x), Ok(y)) = (DomainName::new(a), DomainName::new(b)) else { return Res::Skip };
    let w = orc::eq_or_sub(a, b);
    let g = x.eq_or_subdomain_of(&y);
    if g != w {
        return Res::Bad(format!("eq_or_subdomain_of is {g}"));
    }
    let we = a.eq_ignore_ascii_case(b);
    if (x == y) != we {
        return Res::Bad(format!("equality is {}", x == y));
    }
    let (s, t) = (Selector::new(a), Selector::new(b));
    if let (Ok(s), Ok(t)) = (s, t) {
        if (s == t) != we {
            return Res::Bad("selector equality".into());
        }
    }
    if we && h64(&x) != h64(&y) {
        return Res::Bad("equal domains hash differently".into());
    }
    Res::Ok
}

fn check_id(s: &str) -> Res {
    let w = orc::identity(s);
    let g = Identity::new(s);
    if g != s.parse::<Identity>() {
        return Res::Bad("parse and new differ".into());
    }
    match (g, w) {
        (Err(_), None) => Res::Ok,
        (Ok(i), Some((l, d))) if i.local_part.as_deref() == l.as_deref() && AsRef::<str>::as_ref(&i.domain) == d => {
            if i.to_string() == format!("{}@{d}", l.unwrap_or_default()) { Res::Ok } else { Res::Bad(format!("shown as {i}")) }
        }
        (g, w) => Res::Bad(format!("got {g:?} expected {w:?}")),
    }
}

const LABELS: [&str; 30] = [
    "a", "B", "1", "a1", "1a", "-a", "a-", "a--b", "_", "_a", "a_", "xn--mller-kva", "müller", "MÜLLER", "é", "xn--9ca", "XN--9CA", "ß", "xn--zca", "", "a b", "!", "\u{200d}", "xn--a", "x+y", "２", "日本", "com", "-", "ab--c",
];

fn long(r: &mut Rng) -> String {
    let ch = *r.pick(&["a", "é", "1", "-"]);
    let n = *r.pick(&[56usize, 57, 58, 59, 60, 62, 63, 64]);
    format!("x{}y", ch.repeat(n - 2))
}

pub fn random_name(r: &mut Rng) -> String {
    let mut v: Vec<String> = vec![];
    let n = if r.chance(1, 20) { r.range(4, 40) } else { r.range(1, 4) };
    let bad = r.chance(1, 3);
    for _ in 0..n {
        v.push(if r.chance(1, 12) { long(r) } else if bad { r.pick(&LABELS).to_string() } else { r.pick(&["a", "B", "com", "Example", "é", "xn--9ca", "sub", "_x", "a-1", "müller", "1"]).to_string() });
    }
    let mut s = v.join(".");
    if r.chance(1, 20) {
        s.push('.');
    }
    if r.chance(1, 15) {
        s = s.replace('.', "\u{3002}");
    }
    s
}

pub fn c16(c: &mut Ctx) -> &'static str {
    for a in LABELS {
        for b in LABELS.iter().chain(&["\u{1}"]) {
            if !c.mine() {
                continue;
            }
            let s = if *b == "\u{1}" { a.to_string() } else { format!("{a}.{b}") };
            c.eval("name validity", || format!("{s:?}"), || check_name(&s));
            for l in ["", "x", ".x", "\"a b\""] {
                let id = format!("{l}@{s}");
                c.eval("identity validity", || format!("{id:?}"), || check_id(&id));
            }
        }
    }
    for x in 0..0x250u32 {
        for f in ["@.com", "a@.com", "a@b", "@"] {
            if !c.mine() {
                continue;
            }
            let s = f.replace('@', &char::from_u32(x).unwrap().to_string());
            c.eval("name validity", || format!("{s:?}"), || check_name(&s));
        }
    }
    for k in 50..70 {
        for t in [1usize, 3, 4, 5] {
            if !c.mine() {
                continue;
            }
            let s = vec!["a".repeat(k); t].join(".");
            c.eval("name validity", || format!("{s:?}"), || check_name(&s));
            for e in 1..8 {
                let s2 = format!("{s}.{}", "b".repeat(e));
                c.eval("name validity", || format!("{s2:?}"), || check_name(&s2));
            }
        }
    }
    let doms = ["com", "a.com", "A.com", "b.a.com", "ba.com", "ab.com", "é.com", "xn--9ca.com", "XN--9CA.COM", "x.É.com", "x.xn--9ca.com", "m.com", "org", "a.com.a.com", "a.a.com", "e\u{301}.com", "xé.com"];
    for a in doms {
        for b in doms {
            if c.mine() {
                c.eval("subdomain relation", || format!("{a:?} {b:?}"), || check_rel(a, b));
            }
        }
    }
    let atoms = ["a", ".", "\"", "\\", " ", "@", "é", "!", "\x01", "\x7f", "(", "~", "\t"];
    let max = if c.thorough { 5 } else { 4 };
    for l in 0..=max {
        for code in 0..atoms.len().pow(l as u32) {
            if !c.mine() {
                continue;
            }
            let mut x = code;
            let mut p = String::new();
            for _ in 0..l {
                p.push_str(atoms[x % atoms.len()]);
                x /= atoms.len();
            }
            let id = format!("{p}@b.com");
            c.eval("identity validity", || format!("{id:?}"), || check_id(&id));
            c.eval("identity validity", || format!("\"{id:?}\""), || check_id(&format!("\"{p}\"@b.com")));
        }
    }
    for k in 55..70 {
        for f in ["a", "é", "\\\\"] {
            if c.mine() {
                let id = format!("{}@b.com", f.repeat(k / f.len()));
                let iq = format!("\"{}\"@b.com", f.repeat(k / f.len()));
                c.eval("identity validity", || format!("{id:?}"), || check_id(&id));
                c.eval("identity validity", || format!("{iq:?}"), || check_id(&iq));
            }
        }
    }
    c.exhaustive.push(format!("all one- and two-label names over {} labels; all code points below U+250 in four name positions; all local parts of up to {max} tokens over {} tokens, bare and quoted; pairs of 17 domains", LABELS.len(), atoms.len()));
    while c.time_left() {
        for _ in 0..100 {
            if !c.mine() {
                continue;
            }
            let mut r = c.rng(0);
            let s = random_name(&mut r);
            c.eval("name validity", || format!("{s:?}"), || check_name(&s));
            let t = match r.below(5) {
                0 => random_name(&mut r),
                1 => crate::gen::case_flip(&mut r, &s),
                2 => format!("{}.{s}", r.pick(&LABELS)),
                3 => format!("{}{s}", r.pick(&LABELS)),
                _ => idna::domain_to_ascii(&s).unwrap_or_default(),
            };
            c.eval("subdomain relation", || format!("{t:?} {s:?}"), || check_rel(&t, &s));
            c.eval("subdomain relation", || format!("{s:?} {t:?}"), || check_rel(&s, &t));
            let mut l = String::new();
            let q = r.chance(1, 2);
            for _ in 0..r.range(0, 10) {
                l.push_str(*r.pick(&["a", "b", ".", "é", "!", "\\a", "\\\"", " ", "{", "\u{80}"]));
                if r.chance(1, 30) {
                    l.push_str(*r.pick(&["\"", "\\", "@", "\0", "\x7f", "\\é", ":"]));
                }
            }
            if r.chance(1, 20) {
                l.push_str(&"x".repeat(r.range(40, 64)));
            }
            let id = if q { format!("\"{l}\"@{s}") } else { format!("{l}@{s}") };
            c.eval("identity validity", || format!("{id:?}"), || check_id(&id));
        }
        if c.only.is_some_and(|n| c.case_no > n) {
            break;
        }
    }
    "all names over a label set, all short local parts, then random names, pairs and identities; non-trivial: each distinct input"
}
