//! vx: mechanical extraction of items of the code under test into a Verus unit.
//!
//! usage: vx SRC_DIR UNIT.vrs OUT.rs META.json [--vacuity]
//!
//! A unit file is Verus text.  Lines starting with `@@` are directives:
//!   @@item FILE::Name            struct / enum / const / type, copied verbatim
//!   @@fn   FILE::Path [as NAME]  function or method, copied verbatim
//! followed by sections (each starting with `@name`) and closed by `@@end`.
//! Nothing of an extracted body is written here: the body text is what is in
//! SRC_DIR, plus the rewrites listed in the unit (all recorded in META.json).

use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::{env, fs, process::exit};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Debug)]
enum Fail {
    Anchor(String),
    Usage(String),
}
type R<T> = Result<T, Fail>;

fn main() {
    let args: Vec<String> = env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx SRC_DIR UNIT.vrs OUT.rs META.json [--vacuity]");
        exit(2);
    }
    let vacuity = args.iter().any(|a| a == "--vacuity");
    match run(&args[1], &args[2], vacuity) {
        Ok((text, meta)) => {
            fs::write(&args[3], text).unwrap();
            fs::write(&args[4], meta).unwrap();
        }
        Err(Fail::Anchor(m)) => {
            println!("LOST-ANCHOR {m}");
            exit(3);
        }
        Err(Fail::Usage(m)) => {
            println!("UNIT-ERROR {m}");
            exit(2);
        }
    }
}

#[derive(Default, Clone, Debug)]
struct Section {
    head: String,
    body: String,
}

struct Sources {
    dir: String,
    files: BTreeMap<String, (String, Vec<usize>, syn::File)>,
}

impl Sources {
    fn get(&mut self, f: &str) -> R<&(String, Vec<usize>, syn::File)> {
        if !self.files.contains_key(f) {
            let p = format!("{}/{}", self.dir, f);
            let text = fs::read_to_string(&p).map_err(|e| Fail::Anchor(format!("{p}: {e}")))?;
            let ast = syn::parse_file(&text).map_err(|e| Fail::Anchor(format!("{p}: {e}")))?;
            let mut starts = vec![0];
            for (i, b) in text.bytes().enumerate() {
                if b == b'\n' {
                    starts.push(i + 1);
                }
            }
            self.files.insert(f.to_owned(), (text, starts, ast));
        }
        Ok(&self.files[f])
    }
}

struct Pos<'a> {
    text: &'a str,
    starts: &'a [usize],
}
impl Pos<'_> {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let ls = self.starts[lc.line - 1];
        // columns count characters
        let line = &self.text[ls..];
        ls + line.char_indices().nth(lc.column).map(|(i, _)| i).unwrap_or(line.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

fn is_test_attr(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)")
    })
}

#[derive(Clone)]
struct FnRef {
    path: Vec<String>,
    alt: Vec<String>,
    attrs: Vec<syn::Attribute>,
    vis: Span,
    has_vis: bool,
    sig: syn::Signature,
    block: syn::Block,
}

fn alt_path(stack: &[String], traits: &[Option<String>]) -> Vec<String> {
    let mut v = stack.to_vec();
    if let (Some(Some(t)), Some(f)) = (traits.last(), v.first_mut()) {
        *f = t.clone();
    }
    v
}

struct FnCollect {
    stack: Vec<String>,
    traits: Vec<Option<String>>,
    out: Vec<FnRef>,
}
impl<'ast> Visit<'ast> for FnCollect {
    fn visit_item_mod(&mut self, m: &'ast syn::ItemMod) {
        if !is_test_attr(&m.attrs) {
            visit::visit_item_mod(self, m);
        }
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if is_test_attr(&i.attrs) {
            return;
        }
        let name = match &*i.self_ty {
            syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
            t => t.to_token_stream().to_string(),
        };
        let tr = i.trait_.as_ref().map(|(_, p, _)| {
            p.segments.last().unwrap().to_token_stream().to_string().replace(' ', "")
        });
        self.traits.push(tr.map(|t| format!("{name}<{t}>")));
        self.stack.push(name);
        visit::visit_item_impl(self, i);
        self.stack.pop();
        self.traits.pop();
    }
    fn visit_impl_item_fn(&mut self, f: &'ast syn::ImplItemFn) {
        if is_test_attr(&f.attrs) {
            return;
        }
        self.stack.push(f.sig.ident.to_string());
        self.out.push(FnRef {
            path: self.stack.clone(),
            alt: alt_path(&self.stack, &self.traits),
            attrs: f.attrs.clone(),
            vis: f.vis.span(),
            has_vis: !matches!(f.vis, syn::Visibility::Inherited),
            sig: f.sig.clone(),
            block: f.block.clone(),
        });
        visit::visit_impl_item_fn(self, f);
        self.stack.pop();
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if is_test_attr(&f.attrs) {
            return;
        }
        self.stack.push(f.sig.ident.to_string());
        self.out.push(FnRef {
            path: self.stack.clone(),
            alt: alt_path(&self.stack, &self.traits),
            attrs: f.attrs.clone(),
            vis: f.vis.span(),
            has_vis: !matches!(f.vis, syn::Visibility::Inherited),
            sig: f.sig.clone(),
            block: (*f.block).clone(),
        });
        visit::visit_item_fn(self, f);
        self.stack.pop();
    }
}

/// A flat token, with its source range, for sequence matching.
#[derive(Clone, Debug)]
struct Tok {
    s: String,
    a: usize,
    b: usize,
}
fn flatten(ts: TokenStream, pos: Option<&Pos>, out: &mut Vec<Tok>) {
    for t in ts {
        let mut put = |s: String, sp: Span| {
            let (a, b) = pos.map(|p| p.range(sp)).unwrap_or((0, 0));
            out.push(Tok { s, a, b });
        };
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                if !o.is_empty() {
                    put(o.into(), g.span_open());
                }
                flatten(g.stream(), pos, out);
                if !c.is_empty() {
                    let sp = g.span_close();
                    let (a, b) = pos.map(|p| p.range(sp)).unwrap_or((0, 0));
                    out.push(Tok { s: c.into(), a, b });
                }
            }
            TokenTree::Ident(i) => put(i.to_string(), i.span()),
            TokenTree::Punct(p) => put(p.as_char().to_string(), p.span()),
            TokenTree::Literal(l) => put(l.to_string(), l.span()),
        }
    }
}

/// Matches `pat` at `toks[i]`; `$name` in the pattern matches a balanced,
/// non-empty token sequence, lazily.  Returns the end index and the bindings.
fn match_at(toks: &[Tok], i: usize, pat: &[String], binds: &mut Vec<(String, usize, usize)>) -> Option<usize> {
    if pat.is_empty() {
        return Some(i);
    }
    if pat[0] == "$" && pat.len() > 1 {
        let name = pat[1].clone();
        let rest = &pat[2..];
        let mut depth = 0i32;
        let mut j = i;
        // `$i_name` matches one identifier only
        let ident = name.starts_with("i_");
        if ident && !toks.get(i).is_some_and(|t| t.s.starts_with(|c: char| c.is_alphabetic() || c == '_') && i.checked_sub(1).is_none_or(|k| toks[k].s != ".")) {
            return None;
        }
        while j < toks.len() && !(ident && j > i) {
            match &*toks[j].s {
                "(" | "[" | "{" => depth += 1,
                ")" | "]" | "}" => depth -= 1,
                _ => {}
            }
            if depth < 0 {
                return None;
            }
            j += 1;
            if depth == 0 {
                let n = binds.len();
                binds.push((name.clone(), i, j));
                if let Some(e) = match_at(toks, j, rest, binds) {
                    return Some(e);
                }
                binds.truncate(n);
            }
        }
        return None;
    }
    if i < toks.len() && toks[i].s == pat[0] {
        return match_at(toks, i + 1, &pat[1..], binds);
    }
    None
}

fn pat_tokens(p: &str) -> R<Vec<String>> {
    let ts: TokenStream = p.parse().map_err(|e| Fail::Usage(format!("bad pattern {p}: {e}")))?;
    let mut v = vec![];
    flatten(ts, None, &mut v);
    Ok(v.into_iter().map(|t| t.s).collect())
}

struct Edits {
    e: Vec<(usize, usize, String, usize)>,
}
impl Edits {
    fn rep(&mut self, a: usize, b: usize, s: impl Into<String>) {
        let n = self.e.len();
        self.e.push((a, b, s.into(), n));
    }
    fn ins(&mut self, a: usize, s: impl Into<String>) {
        self.rep(a, a, s);
    }
    fn apply(mut self, text: &str, lo: usize, hi: usize) -> R<String> {
        self.e.sort_by_key(|x| (x.0, x.1, x.3));
        let mut out = String::new();
        let mut cur = lo;
        let mut i = 0;
        // an edit inside a bigger replaced region is dropped
        let e = self.e;
        let big: Vec<(usize, usize)> = e.iter().filter(|x| x.1 > x.0).map(|x| (x.0, x.1)).collect();
        while i < e.len() {
            let (a, b, ref s, _) = e[i];
            i += 1;
            if a < lo || b > hi {
                continue;
            }
            let inside = big.iter().any(|&(x, y)| (x, y) != (a, b) && x <= a && b <= y && !(a == b && (a == x || a == y)));
            if inside {
                continue;
            }
            if a < cur {
                return Err(Fail::Usage(format!("overlapping edits near `{}`", &text[a..b.min(a + 40)])));
            }
            out.push_str(&text[cur..a]);
            out.push_str(s);
            cur = b;
        }
        out.push_str(&text[cur..hi]);
        Ok(out)
    }
}

struct BodyScan {
    loops: Vec<(LoopKind, Span, Span, Span)>, // kind, whole span, header end (expr/cond) span, body span
    awaits: Vec<(Span, Span)>,                 // dot..await
    methods: Vec<(String, Span)>,
    idents: Vec<(String, Span)>,
    calls: Vec<String>,
    macros: Vec<(String, Span, bool, String)>, // name, span, is stmt
    nested: Vec<(String, Span)>,
    stmts: Vec<Span>,
    for_refs: BTreeMap<usize, (Span, Span)>,
    for_pats: BTreeMap<usize, Span>,
    for_exprs: BTreeMap<usize, syn::Expr>,
    attrs: Vec<(String, Span)>,
    byte_strs: Vec<(Vec<u8>, Span)>,
    asserts: Vec<(Span, Span, Span)>, // statement, path, !
    asyncs: Vec<Span>,
    fmts: Vec<Fmt>,
}
/// `format!` or `write!` with plain placeholders
struct Fmt {
    span: Span,
    dst: Option<Span>,
    pieces: Vec<Piece>,
    args: Vec<Span>,
}
enum Piece {
    Lit(String),
    Name(String),
    Arg,
}
fn fmt_pieces(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                lit.push('}');
            }
            '{' => {
                let mut n = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c if c.is_alphanumeric() || c == '_' => n.push(c),
                        _ => return None,
                    }
                }
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                if n.starts_with(|c: char| c.is_ascii_digit()) {
                    return None;
                }
                out.push(if n.is_empty() { Piece::Arg } else { Piece::Name(n) });
            }
            '}' => return None,
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}
impl BodyScan {
    fn scan_fmt(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let write = name == "write";
        if !write && name != "format" {
            return;
        }
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let l: Vec<syn::Expr> = match syn::parse::Parser::parse2(p, m.tokens.clone()) {
            Ok(l) => l.into_iter().collect(),
            Err(_) => return,
        };
        let k = usize::from(write);
        let lit = match l.get(k) {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => return,
        };
        let pieces = match fmt_pieces(&lit) {
            Some(p) => p,
            None => return,
        };
        let args = &l[k + 1..];
        if pieces.iter().filter(|p| matches!(p, Piece::Arg)).count() != args.len() {
            return;
        }
        for e in l.iter() {
            let mut e: &syn::Expr = e;
            while let syn::Expr::Group(g) = e {
                e = &g.expr;
            }
            // the tree does not outlive this call, the spans do
            let mut sub = BodyScan::new();
            sub.visit_expr(e);
            self.methods.append(&mut sub.methods);
            self.idents.append(&mut sub.idents);
            self.calls.append(&mut sub.calls);
            self.byte_strs.append(&mut sub.byte_strs);
            self.fmts.append(&mut sub.fmts);
            self.awaits.append(&mut sub.awaits);
        }
        self.fmts.push(Fmt {
            span: m.span(),
            dst: if write { Some(l[0].span()) } else { None },
            pieces,
            args: args.iter().map(|a| a.span()).collect(),
        });
    }
    fn new() -> Self {
        BodyScan {
            loops: vec![],
            awaits: vec![],
            methods: vec![],
            idents: vec![],
            calls: vec![],
            macros: vec![],
            nested: vec![],
            stmts: vec![],
            for_refs: BTreeMap::new(),
            for_pats: BTreeMap::new(),
            for_exprs: BTreeMap::new(),
            attrs: vec![],
            byte_strs: vec![],
            asserts: vec![],
            asyncs: vec![],
            fmts: vec![],
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum LoopKind {
    For,
    While,
    Loop,
}
impl<'ast> Visit<'ast> for BodyScan {
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let n = self.loops.len();
        self.for_pats.insert(n, l.pat.span());
        self.for_exprs.insert(n, (*l.expr).clone());
        if let syn::Pat::Reference(r) = &*l.pat {
            if r.mutability.is_none() {
                self.for_refs.insert(n, (l.pat.span(), r.pat.span()));
            }
        }
        self.loops.push((LoopKind::For, l.span(), l.expr.span(), l.body.span()));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.loops.push((LoopKind::While, l.span(), l.cond.span(), l.body.span()));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops.push((LoopKind::Loop, l.span(), l.loop_token.span(), l.body.span()));
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_await(&mut self, a: &'ast syn::ExprAwait) {
        self.awaits.push((a.dot_token.span(), a.await_token.span()));
        visit::visit_expr_await(self, a);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.methods.push((m.method.to_string(), m.method.span()));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        self.calls.push(c.func.to_token_stream().to_string().replace(' ', ""));
        visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.macros.push((
            m.path.segments.last().unwrap().ident.to_string(),
            m.span(),
            false,
            m.tokens.to_string(),
        ));
        self.scan_fmt(m);
        visit::visit_macro(self, m);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        self.stmts.push(s.span());
        if let syn::Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            self.macros.push((name.clone(), s.span(), true, m.mac.tokens.to_string()));
            self.scan_fmt(&m.mac);
            if name == "assert" || name == "debug_assert" {
                let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
                if let Ok(l) = syn::parse::Parser::parse2(p, m.mac.tokens.clone()) {
                    if l.len() == 1 {
                        self.asserts.push((s.span(), m.mac.path.span(), m.mac.bang_token.span()));
                        self.visit_expr(&l[0]);
                    }
                }
            }
            return;
        }
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            self.nested.push((f.sig.ident.to_string(), s.span()));
            return; // nested functions are extracted separately
        }
        if let syn::Stmt::Item(i) = s {
            let n = match i {
                syn::Item::Use(_) => "use".into(),
                syn::Item::Enum(e) => e.ident.to_string(),
                syn::Item::Struct(e) => e.ident.to_string(),
                syn::Item::Const(e) => e.ident.to_string(),
                _ => return visit::visit_stmt(self, s),
            };
            self.nested.push((n, s.span()));
            return;
        }
        visit::visit_stmt(self, s);
    }
    fn visit_lit_byte_str(&mut self, b: &'ast syn::LitByteStr) {
        self.byte_strs.push((b.value(), b.span()));
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.attrs.push((a.path().to_token_stream().to_string(), a.span()));
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        for s in &p.segments {
            self.idents.push((s.ident.to_string(), s.ident.span()));
        }
        visit::visit_path(self, p);
    }
}

fn byte_lit(v: &[u8]) -> String {
    let l: Vec<String> = v.iter().map(|b| format!("{b}u8")).collect();
    format!("(&[{}])", l.join(", "))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn split_path(arg: &str) -> R<(String, Vec<String>, Option<String>)> {
    let (p, alias) = match arg.split_once(" as ") {
        Some((a, b)) => (a.trim(), Some(b.trim().to_owned())),
        None => (arg.trim(), None),
    };
    let mut it = p.split("::");
    let f = it.next().ok_or_else(|| Fail::Usage(arg.into()))?.to_owned();
    Ok((f, it.map(|s| s.to_owned()).collect(), alias))
}

struct Ctx {
    src: Sources,
    methods: Vec<(String, String)>,
    idents: Vec<(String, String)>,
    replaces: Vec<(String, String)>,
    contract_only: bool,
    vacuity: bool,
}

fn run(dir: &str, unit: &str, vacuity: bool) -> R<(String, String)> {
    let udir = std::path::Path::new(unit).parent().unwrap().to_owned();
    let mut lines: Vec<String> = vec![];
    fn load(p: &std::path::Path, udir: &std::path::Path, lines: &mut Vec<String>) -> R<()> {
        let text = fs::read_to_string(p).map_err(|e| Fail::Usage(format!("{}: {e}", p.display())))?;
        for l in text.lines() {
            if let Some(inc) = l.strip_prefix("@@include ") {
                load(&udir.join(inc.trim()), udir, lines)?;
            } else if let Some(inc) = l.strip_prefix("@@use ") {
                // contracts only: the bodies are verified by the unit that includes the file
                lines.push(format!("@@begin-used {}", inc.trim()));
                load(&udir.join(inc.trim()), udir, lines)?;
                lines.push("@@end-used".into());
            } else {
                lines.push(l.to_owned());
            }
        }
        Ok(())
    }
    load(std::path::Path::new(unit), &udir, &mut lines)?;

    let mut cx = Ctx {
        src: Sources { dir: dir.into(), files: BTreeMap::new() },
        methods: vec![],
        idents: vec![],
        replaces: vec![],
        vacuity,
        contract_only: false,
    };
    let mut out = String::new();
    let mut metas: Vec<String> = vec![];
    let mut probes = 0usize;
    let mut used: Vec<String> = vec![];
    let mut in_used = 0usize;
    let mut i = 0;
    while i < lines.len() {
        let l = &lines[i];
        i += 1;
        let Some(d) = l.strip_prefix("@@") else {
            if in_used > 0 && (l.starts_with("proof fn ") || l.starts_with("pub proof fn ")) {
                out.push_str("#[verifier::external_body] // proved elsewhere\n");
            }
            out.push_str(l);
            out.push('\n');
            continue;
        };
        let (kw, arg) = d.split_once(' ').unwrap_or((d, ""));
        match kw {
            "method" => {
                let (a, b) = arg.split_once(' ').ok_or_else(|| Fail::Usage(l.clone()))?;
                cx.methods.push((a.trim().into(), b.trim().into()));
                continue;
            }
            "ident" => {
                let (a, b) = arg.split_once(' ').ok_or_else(|| Fail::Usage(l.clone()))?;
                cx.idents.push((a.trim().into(), b.trim().into()));
                continue;
            }
            "replace" => {
                let (a, b) = arg.split_once(" => ").ok_or_else(|| Fail::Usage(l.clone()))?;
                cx.replaces.push((a.trim().into(), b.trim().into()));
                continue;
            }
            "begin-used" => {
                used.push(arg.to_owned());
                in_used += 1;
                continue;
            }
            "end-used" => {
                in_used -= 1;
                continue;
            }
            "fn" | "item" => {}
            _ => return Err(Fail::Usage(format!("unknown directive {l}"))),
        }
        let mut sections: Vec<Section> = vec![];
        loop {
            if i >= lines.len() {
                return Err(Fail::Usage(format!("unterminated {l}")));
            }
            let s = &lines[i];
            i += 1;
            if s.trim() == "@@end" {
                break;
            }
            if let Some(h) = s.strip_prefix('@') {
                sections.push(Section { head: h.trim().into(), body: String::new() });
            } else if let Some(last) = sections.last_mut() {
                last.body.push_str(s);
                last.body.push('\n');
            } else if !s.trim().is_empty() {
                return Err(Fail::Usage(format!("text before a section in {l}")));
            }
        }
        let first_line = out.lines().count() + 1;
        if kw == "item" {
            let (text, m) = extract_item(&mut cx, arg, &sections)?;
            out.push_str(&text);
            out.push('\n');
            metas.push(m);
        } else {
            cx.vacuity = vacuity && in_used == 0;
            cx.contract_only = in_used > 0;
            let (text, m, n) = extract_fn(&mut cx, arg, &sections)?;
            probes += n;
            if in_used > 0 {
                out.push_str("#[verifier::external_body] // proved elsewhere\n");
            }
            out.push_str(&text);
            out.push('\n');
            let last_line = out.lines().count();
            metas.push(format!("{},\"gen_first\":{first_line},\"gen_last\":{last_line}}}", m));
        }
    }
    let used: Vec<String> = used.iter().map(|u| json_str(u)).collect();
    let meta = format!("{{\"used\":[{}],\"probes\":{probes},\"items\":[\n{}\n]}}\n", used.join(","), metas.join(",\n"));
    Ok((out, meta))
}

/// The items an item path can mean: top-level ones, or those inside a function.
fn items_of(ast: &syn::File, path: &[String]) -> Vec<syn::Item> {
    if path.len() == 1 {
        return ast.items.clone();
    }
    let mut c = FnCollect { stack: vec![], traits: vec![], out: vec![] };
    c.visit_file(ast);
    let want = &path[..path.len() - 1];
    let mut v = vec![];
    for f in c.out.iter().filter(|f| f.path == want || f.alt == want) {
        for st in &f.block.stmts {
            if let syn::Stmt::Item(i) = st {
                v.push(i.clone());
            }
        }
    }
    v
}

fn extract_item(cx: &mut Ctx, arg: &str, sections: &[Section]) -> R<(String, String)> {
    let (file, path, alias) = split_path(arg)?;
    let name = path.last().cloned().ok_or_else(|| Fail::Usage(arg.into()))?;
    let (text, starts, ast) = cx.src.get(&file)?;
    let items = items_of(ast, &path);
    let pos = Pos { text, starts };
    let mut found: Option<(Span, Vec<syn::Attribute>, Option<Span>, &'static str, Span)> = None;
    for it in &items {
        let (id, attrs, vis, kind, sp) = match it {
            syn::Item::Struct(s) => (&s.ident, &s.attrs, &s.vis, "struct", s.span()),
            syn::Item::Enum(s) => (&s.ident, &s.attrs, &s.vis, "enum", s.span()),
            syn::Item::Const(s) => (&s.ident, &s.attrs, &s.vis, "const", s.span()),
            syn::Item::Type(s) => (&s.ident, &s.attrs, &s.vis, "type", s.span()),
            _ => continue,
        };
        if *id == name && !is_test_attr(attrs) {
            let v = if matches!(vis, syn::Visibility::Inherited) { None } else { Some(vis.span()) };
            found = Some((sp, attrs.clone(), v, kind, id.span()));
            break;
        }
    }
    let (sp, attrs, vis, kind, idspan) = found.ok_or_else(|| Fail::Anchor(format!("{file}::{name}")))?;
    let (lo, hi) = pos.range(sp);
    let mut ed = Edits { e: vec![] };
    for a in &attrs {
        let (x, y) = pos.range(a.span());
        ed.rep(x, y, "");
    }
    match vis {
        Some(v) => {
            let (x, y) = pos.range(v);
            ed.rep(x, y, "pub");
        }
        None => {
            // insert after attributes: before the keyword
            let kwpos = attrs
                .iter()
                .map(|a| pos.range(a.span()).1)
                .max()
                .unwrap_or(lo);
            ed.ins(kwpos, " pub ");
        }
    }
    // inner attributes and visibility of fields
    struct F<'a> {
        attrs: Vec<Span>,
        vis: Vec<(Span, bool)>,
        _p: std::marker::PhantomData<&'a ()>,
    }
    impl<'ast> Visit<'ast> for F<'_> {
        fn visit_field(&mut self, f: &'ast syn::Field) {
            for a in &f.attrs {
                if !a.path().is_ident("cfg") {
                    self.attrs.push(a.span());
                }
            }
            match &f.vis {
                syn::Visibility::Inherited => {
                    let s = f.ident.as_ref().map(|i| i.span()).unwrap_or_else(|| f.ty.span());
                    self.vis.push((s, false));
                }
                v => self.vis.push((v.span(), true)),
            }
        }
        fn visit_variant(&mut self, v: &'ast syn::Variant) {
            for a in &v.attrs {
                if !a.path().is_ident("cfg") {
                    self.attrs.push(a.span());
                }
            }
        }
    }
    let mut f = F { attrs: vec![], vis: vec![], _p: Default::default() };
    for it in &items {
        match it {
            syn::Item::Struct(s) if s.ident == name => f.visit_item_struct(s),
            syn::Item::Enum(s) if s.ident == name => f.visit_item_enum(s),
            _ => {}
        }
    }
    for a in f.attrs {
        let (x, y) = pos.range(a);
        ed.rep(x, y, "");
    }
    for (s, has) in f.vis {
        let (x, y) = pos.range(s);
        if has {
            ed.rep(x, y, "pub");
        } else {
            ed.ins(x, "pub ");
        }
    }
    if let Some(a) = &alias {
        let (x, y) = pos.range(idspan);
        ed.rep(x, y, a.clone());
    }
    let mut pre = String::new();
    let mut rewrites = vec![];
    let mut reps = cx.replaces.clone();
    for s in sections {
        if s.head == "attr" {
            pre.push_str(&s.body);
        } else if let Some(r) = s.head.strip_prefix("replace ") {
            let (a, b) = r.split_once(" => ").ok_or_else(|| Fail::Usage(r.into()))?;
            reps.push((a.into(), b.into()));
        } else if s.head == "doc" {
        } else {
            return Err(Fail::Usage(format!("section {} in item {arg}", s.head)));
        }
    }
    let (text, starts, _) = &cx.src.files[&file];
    let pos = Pos { text, starts };
    let it = items
        .iter()
        .find(|it| match it {
            syn::Item::Struct(s) => s.ident == name,
            syn::Item::Enum(s) => s.ident == name,
            syn::Item::Const(s) => s.ident == name,
            syn::Item::Type(s) => s.ident == name,
            _ => false,
        })
        .unwrap();
    let mut toks = vec![];
    flatten(it.to_token_stream(), Some(&pos), &mut toks);
    apply_replaces(text, &toks, &reps, &mut ed, &mut rewrites)?;
    let body = ed.apply(text, lo, hi)?;
    let m = format!(
        "{{\"kind\":{},\"path\":{},\"file\":{},\"line\":{},\"fnv\":\"{:016x}\",\"rewrites\":[{}]}}",
        json_str(kind),
        json_str(&name),
        json_str(&file),
        sp.start().line,
        fnv(&text[lo..hi]),
        rewrites.iter().map(|r: &String| json_str(r)).collect::<Vec<_>>().join(",")
    );
    Ok((format!("{pre}{body}"), m))
}

/// Replaces the tokens `i..e` by the template.  Where every bound part is used
/// once and in order it stays in place, so that other edits still reach into it.
fn splice(text: &str, toks: &[Tok], i: usize, e: usize, binds: &[(String, usize, usize)], t: &str, ed: &mut Edits) {
    let (lo, hi) = (toks[i].a, toks[e - 1].b);
    // `$i_x` is one identifier: its text is put into the template first.
    let mut tt = t.to_owned();
    for (n, a, b) in binds {
        if n.starts_with("i_") {
            tt = tt.replace(&format!("${n}"), &text[toks[*a].a..toks[*b - 1].b]);
        }
    }
    let t = tt.as_str();
    let mut rest = t;
    let mut parts: Vec<(String, usize, usize)> = vec![]; // literal before, then source range
    let mut in_order = true;
    for (n, a, b) in binds.iter().filter(|x| !x.0.starts_with("i_")) {
        let key = format!("${n}");
        match rest.split_once(&key) {
            Some((l, r)) if !l.contains('$') && !r.contains(&key) => {
                parts.push((l.into(), toks[*a].a, toks[*b - 1].b));
                rest = r;
            }
            _ => in_order = false,
        }
    }
    if !in_order || parts.is_empty() || rest.contains('$') {
        let mut rep = t.to_owned();
        for (n, a, b) in binds {
            rep = rep.replace(&format!("${n}"), &text[toks[*a].a..toks[*b - 1].b]);
        }
        ed.rep(lo, hi, rep);
        return;
    }
    let mut cur = lo;
    for (l, x, y) in parts {
        ed.rep(cur, x, l);
        cur = y;
    }
    ed.rep(cur, hi, rest);
}

fn apply_replaces(
    text: &str,
    toks: &[Tok],
    reps: &[(String, String)],
    ed: &mut Edits,
    rewrites: &mut Vec<String>,
) -> R<()> {
    for (p, t) in reps {
        let mut p: &str = p;
        let required = p.starts_with('!');
        if required {
            p = p[1..].trim();
        }
        let pat = pat_tokens(p)?;
        let mut i = 0;
        let mut hit = false;
        while i < toks.len() {
            let mut binds = vec![];
            if let Some(e) = match_at(toks, i, &pat, &mut binds) {
                splice(text, toks, i, e, &binds, t, ed);
                hit = true;
                i = e.max(i + 1);
            } else {
                i += 1;
            }
        }
        if hit {
            rewrites.push(format!("{p} => {t}"));
        } else if required {
            return Err(Fail::Anchor(format!("pattern `{p}` not found")));
        }
    }
    Ok(())
}

fn extract_fn(cx: &mut Ctx, arg: &str, sections: &[Section]) -> R<(String, String, usize)> {
    let (file, path, alias) = split_path(arg)?;
    let methods = cx.methods.clone();
    let mut idents = cx.idents.clone();
    let mut reps = cx.replaces.clone();
    let vac = cx.vacuity;
    cx.src.get(&file)?;
    let cx = &*cx;
    let (text, starts, ast) = &cx.src.files[&file];
    let pos = Pos { text, starts };
    let mut c = FnCollect { stack: vec![], traits: vec![], out: vec![] };
    c.visit_file(ast);
    let hits: Vec<&FnRef> = c.out.iter().filter(|f| f.path == path || f.alt == path).collect();
    if hits.len() != 1 {
        return Err(Fail::Anchor(format!("{arg}: {} matches", hits.len())));
    }
    let f = hits[0];
    let mut ed = Edits { e: vec![] };
    let mut rewrites: Vec<String> = vec![];

    let (blo, bhi) = pos.range(f.block.span());
    // start: visibility or `fn`/`async`/`const`
    let sig_start = pos.range(f.sig.span()).0;
    let lo = if f.has_vis { pos.range(f.vis).0 } else { sig_start };
    if sections.iter().any(|s| s.head == "nopub") {
    } else if f.has_vis {
        let (x, y) = pos.range(f.vis);
        ed.rep(x, y, "pub");
    } else {
        ed.ins(lo, "pub ");
    }
    if let Some(a) = &f.sig.asyncness {
        let (x, y) = pos.range(a.span());
        ed.rep(x, y, "");
        rewrites.push("async fn => fn".into());
    }
    if let Some(a) = &alias {
        let (x, y) = pos.range(f.sig.ident.span());
        ed.rep(x, y, a.clone());
    }
    let mut sc = BodyScan::new();
    let _ = &sc.asyncs;
    sc.visit_block(&f.block);
    sc.visit_signature(&f.sig);
    let _ = &f.attrs;

    // generic rewrites
    for (d, a) in &sc.awaits {
        let (x, _) = pos.range(*d);
        let (_, y) = pos.range(*a);
        ed.rep(x, y, "");
    }
    if !sc.awaits.is_empty() {
        rewrites.push(".await dropped".into());
    }
    // loops over a slice turned into index loops (`continue` inside a `for` is
    // not supported by the verifier)
    let mut indexed: Vec<usize> = vec![];
    let mut index_heads: BTreeMap<usize, String> = BTreeMap::new();
    let mut early = cx.replaces.clone();
    for s in sections {
        if let Some(r) = s.head.strip_prefix("replace ") {
            if let (Some((a, b)), true) = (r.split_once("=>"), s.body.trim().is_empty()) {
                early.push((a.trim().into(), b.trim().to_owned()));
            }
        }
    }
    let mut body_toks = vec![];
    flatten(f.block.to_token_stream(), Some(&pos), &mut body_toks);
    // a piece of source text with the method and identifier renamings applied
    let render = |x: usize, y: usize| -> R<String> {
        let mut e = Edits { e: vec![] };
        for (n, s) in &sc.methods {
            let (a, b) = pos.range(*s);
            if let (true, Some((_, to))) = (a >= x && b <= y, methods.iter().find(|(m, _)| m == n)) {
                e.rep(a, b, to.clone());
            }
        }
        for (n, s) in &sc.idents {
            let (a, b) = pos.range(*s);
            if let (true, Some((_, to))) = (a >= x && b <= y, cx.idents.iter().find(|(m, _)| m == n)) {
                e.rep(a, b, to.clone());
            }
        }
        for (v, s) in &sc.byte_strs {
            let (a, b) = pos.range(*s);
            if a >= x && b <= y {
                e.rep(a, b, byte_lit(v));
            }
        }
        let sub: Vec<Tok> = body_toks.iter().filter(|t| t.a >= x && t.b <= y).cloned().collect();
        apply_replaces(text, &sub, &early, &mut e, &mut vec![])?;
        e.apply(text, x, y)
    };
    for s in sections {
        let w: Vec<&str> = s.head.split_whitespace().collect();
        if w.len() >= 3 && w[0] == "loop" && w[2] == "index" {
            let n: usize = w[1].parse().map_err(|_| Fail::Usage(s.head.clone()))?;
            let Some((LoopKind::For, whole, hdr, body)) = sc.loops.get(n).copied() else {
                return Err(Fail::Anchor(format!("{arg}: for loop {n} not found")));
            };
            let (_, he) = pos.range(hdr);
            let (wb, _) = pos.range(whole);
            let (ob, _) = pos.range(body);
            // stages of the iterator chain
            let mut cur: &syn::Expr = &sc.for_exprs[&n];
            let mut stages: Vec<(String, Option<syn::ExprClosure>)> = vec![];
            while let syn::Expr::MethodCall(m) = cur {
                let name = m.method.to_string();
                let known = matches!(&*name, "iter" | "rev" | "enumerate" | "filter");
                if !known {
                    break;
                }
                let cl = match m.args.first() {
                    Some(syn::Expr::Closure(c)) => Some(c.clone()),
                    _ => None,
                };
                stages.push((name, cl));
                cur = &m.receiver;
            }
            stages.reverse();
            let (bx, by) = pos.range(cur.span());
            let base = render(bx, by)?;
            let copy = w.get(3) == Some(&"copy");
            let w: Vec<&str> = if copy { w.iter().filter(|x| **x != "copy").copied().collect() } else { w };
            if w.len() > 3 && !w[3..].iter().any(|x| x.contains("$expr")) {
                return Err(Fail::Usage(format!("{arg}: `{}`: the sequence must be given in terms of $expr", s.head)));
            }
            let expr = if w.len() > 3 { w[3..].join(" ").replace("$expr", &base) } else { base };
            let unsupported = || Fail::Anchor(format!("{arg}: iterator chain of loop {n} not supported"));
            let (mut rev, mut en, mut filt) = (false, false, String::new());
            for (k, (name, cl)) in stages.iter().enumerate() {
                match &**name {
                    "iter" if k == 0 => {}
                    "rev" if !en && filt.is_empty() => rev = !rev,
                    "enumerate" if filt.is_empty() && !en => en = true,
                    "filter" => {
                        let c = cl.as_ref().ok_or_else(unsupported)?;
                        let p = c.inputs.first().ok_or_else(unsupported)?;
                        let (px, py) = pos.range(p.span());
                        let (cx_, cy_) = pos.range(c.body.span());
                        let cond = render(cx_, cy_)?;
                        filt.push_str(&format!(
                            " {{ let {} = &v_item{n}; if !({cond}) {{ continue; }} }}",
                            &text[px..py]
                        ));
                    }
                    _ => return Err(unsupported()),
                }
            }
            let idx = if rev { format!("v_seq{n}.len() - 1 - v_i{n}") } else { format!("v_i{n}") };
            let r = if copy { "" } else { "&" };
            // `(i, &P)`: the fields that P binds are copied
            let pat_text = match sc.for_refs.get(&n) {
                Some(_) => None,
                None => {
                    let (x, y) = pos.range(sc.for_pats[&n]);
                    let p = text[x..y].to_string();
                    if en && p.matches('&').count() == 1 && p.split_once('&').map_or(false, |(a, _)| a.contains(',')) {
                        Some(p.replace('&', ""))
                    } else {
                        None
                    }
                }
            };
            let r = if pat_text.is_some() { "" } else { r };
            let item = if en { format!("(v_i{n}, {r}v_seq{n}[{idx}])") } else { format!("{r}v_seq{n}[{idx}]") };
            let pat = match sc.for_refs.get(&n) {
                Some((_, inner)) => {
                    let (x, y) = pos.range(*inner);
                    format!("let {} = *v_item{n};", &text[x..y])
                }
                None => {
                    let (x, y) = pos.range(sc.for_pats[&n]);
                    format!("let {} = v_item{n};", pat_text.as_deref().unwrap_or(&text[x..y]))
                }
            };
            ed.ins(wb, format!("let v_seq{n} = {expr}; let mut v_i{n}: usize = 0;\n"));
            ed.rep(wb, he, format!("while v_i{n} < v_seq{n}.len()"));
            index_heads.insert(n, format!(" let v_item{n} = {item}; v_i{n} += 1;{filt} {pat}"));
            let _ = ob;
            rewrites.push(format!("loop {n}: for p in s.iter(){}{}{} {{ B }} => index loop over s in the same order", if rev {".rev()"} else {""}, if en {".enumerate()"} else {""}, if filt.is_empty() {""} else {".filter(f)"}));
            indexed.push(n);
        }
    }
    for (n, (whole, inner)) in &sc.for_refs {
        if indexed.contains(n) {
            continue;
        }
        let (x, y) = pos.range(*whole);
        let (ix, iy) = pos.range(*inner);
        ed.rep(x, y, format!("v_ref{n}"));
        let (ob, _) = pos.range(sc.loops[*n].3);
        ed.ins(ob + 1, format!(" let {} = *v_ref{n};", &text[ix..iy]));
        rewrites.push("for &x in e { .. } => for r in e { let x = *r; .. }".into());
    }
    if let Some(syn::FnArg::Receiver(r)) = f.sig.inputs.first() {
        if r.reference.is_none() {
            if let Some(m) = &r.mutability {
                let (x, y) = pos.range(m.span());
                ed.rep(x, y, "");
                ed.ins(blo + 1, " let mut v_self = self;");
                for (n, s) in &sc.idents {
                    let (a, b) = pos.range(*s);
                    if n == "self" && a > blo {
                        ed.rep(a, b, "v_self");
                    }
                }
                rewrites.push("fn f(mut self) => fn f(self) { let mut v_self = self; .. }".into());
            }
        }
    }
    for (n, s) in &sc.nested {
        let (x, y) = pos.range(*s);
        ed.rep(x, y, "");
        rewrites.push(format!("nested item `{n}` lifted out"));
    }
    for (n, s) in &sc.attrs {
        if n != "cfg" {
            let (x, y) = pos.range(*s);
            ed.rep(x, y, "");
        }
    }
    for f in &sc.fmts {
        let (x, y) = pos.range(f.span);
        let d = match f.dst {
            Some(s) => {
                let (a, b) = pos.range(s);
                text[a..b].to_owned()
            }
            None => "v_f".to_owned(),
        };
        let mut cur = x;
        let mut out = String::from(if f.dst.is_some() { "({ " } else { "({ let mut v_f = v_new_string(); " });
        let mut args = f.args.iter();
        for p in &f.pieces {
            match p {
                Piece::Lit(s) => {
                    let _ = write!(out, "{d}.v_put({}); ", proc_macro2::Literal::string(s));
                }
                Piece::Name(n) => {
                    let _ = write!(out, "{d}.v_put_d(&{n}); ");
                }
                Piece::Arg => {
                    let (a, b) = pos.range(*args.next().unwrap());
                    let _ = write!(out, "{d}.v_put_d(&(");
                    ed.rep(cur, a, std::mem::take(&mut out));
                    cur = b;
                    out.push_str(")); ");
                }
            }
        }
        out.push_str(if f.dst.is_some() { "v_fmt_ok() })" } else { "v_f })" });
        ed.rep(cur, y, out);
        rewrites.push(format!("`{}` => one append per piece", text[x..y].replace('\n', " ")));
    }
    let drop_asserts = sections.iter().any(|s| s.head.trim() == "dropasserts");
    for (n, s, stmt, _toks) in &sc.macros {
        let (x, y) = pos.range(*s);
        match (&**n, *stmt) {
            ("trace" | "debug" | "info", true) => {
                ed.rep(x, y, "");
                rewrites.push(format!("{n}!(..) dropped"));
            }
            ("debug_assert" | "assert", true) if sc.asserts.iter().any(|t| pos.range(t.0) == (x, y)) => {
                let t = sc.asserts.iter().find(|t| pos.range(t.0) == (x, y)).unwrap();
                if !drop_asserts {
                    ed.rep(pos.range(t.1).0, pos.range(t.2).1, "v_runtime_assert");
                    rewrites.push(format!("{n}!(e) => v_runtime_assert(e) (requires e)"));
                } else {
                    ed.rep(x, y, "");
                    rewrites.push(format!("`{}` dropped", text[x..y].replace('\n', " ")));
                }
            }
            ("debug_assert" | "debug_assert_eq", true) => {
                ed.rep(x, y, "");
                rewrites.push(format!("`{}` dropped", text[x..y].replace('\n', " ")));
            }
            ("unreachable" | "panic", s) => {
                ed.rep(x, y, if s && !text[y..].trim_start().starts_with('}') { "vstd::pervasive::unreached::<()>();" } else { "vstd::pervasive::unreached()" });
                rewrites.push("unreachable!() => unreached() (requires false)".into());
            }
            _ => {}
        }
    }

    let mut ret: Option<String> = None;
    let mut spec = String::new();
    let mut pre = String::new();
    let mut toks = vec![];
    flatten(f.sig.to_token_stream(), Some(&pos), &mut toks);
    flatten(f.block.to_token_stream(), Some(&pos), &mut toks);
    let mut probes = 0;

    let mut loop_spec: BTreeMap<usize, String> = BTreeMap::new();
    let mut loop_head: BTreeMap<usize, String> = BTreeMap::new();
    let mut expect_loops: Option<usize> = None;
    let mut novac = false;
    for s in sections {
        let mut w = s.head.split_whitespace();
        let k = w.next().unwrap_or("");
        match k {
            "ret" => ret = Some(w.next().unwrap_or("r").to_owned()),
            "spec" => spec.push_str(&s.body),
            "attr" => pre.push_str(&s.body),
            "novac" => novac = true,
            "nopub" | "dropasserts" => {}
            "doc" => {}
            "head" => ed.ins(blo + 1, format!("\n{}", s.body)),
            "tail" => match (f.block.stmts.last(), &f.sig.output) {
                (Some(st @ syn::Stmt::Expr(_, None)), syn::ReturnType::Type(..)) => {
                    ed.ins(pos.range(st.span()).0, format!("{}\n", s.body))
                }
                _ => ed.ins(bhi - 1, format!("\n{}", s.body)),
            },
            "loops" => {
                expect_loops = w.next().and_then(|n| n.parse().ok());
            }
            "ident" => {
                let a = w.next().unwrap_or("").to_owned();
                let b = w.next().unwrap_or("").to_owned();
                idents.push((a, b));
            }
            "replace" => {
                let r = s.head.strip_prefix("replace").unwrap().trim();
                let (a, b) = r.split_once("=>").ok_or_else(|| Fail::Usage(r.into()))?;
                let mut b = b.trim().to_owned();
                if !s.body.trim().is_empty() {
                    b.push('\n');
                    b.push_str(&s.body);
                }
                reps.push((a.trim().into(), b));
            }
            "before" | "after" => {
                // statement whose tokens contain the pattern (innermost, first)
                let p = s.head[k.len()..].trim();
                let (p, all) = match p.strip_prefix('*') {
                    Some(p) => (p.trim(), true),
                    None => (p, false),
                };
                let pat = pat_tokens(p)?;
                let mut found = false;
                let mut i = 0;
                while i < toks.len() {
                    let mut b = vec![];
                    if let Some(e) = match_at(&toks, i, &pat, &mut b) {
                        let (x, y) = (toks[i].a, toks[e - 1].b);
                        let st = sc
                            .stmts
                            .iter()
                            .map(|s| pos.range(*s))
                            .filter(|&(p, q)| p <= x && y <= q)
                            .min_by_key(|&(p, q)| q - p);
                        if let Some((p, q)) = st {
                            found = true;
                            if k == "before" {
                                ed.ins(p, format!("{}\n", s.body));
                            } else {
                                ed.ins(q, format!("\n{}", s.body));
                            }
                            if !all {
                                break;
                            }
                        }
                        i = e.max(i + 1);
                    } else {
                        i += 1;
                    }
                }
                if !found {
                    return Err(Fail::Anchor(format!("{arg}: statement `{p}` not found")));
                }
            }
            "loop" => {
                let n: usize = w
                    .next()
                    .and_then(|n| n.parse().ok())
                    .ok_or_else(|| Fail::Usage(s.head.clone()))?;
                let what = w.next().unwrap_or("");
                let Some((_kind, whole, hdr, body)) = sc.loops.get(n).copied() else {
                    return Err(Fail::Anchor(format!("{arg}: loop {n} not found")));
                };
                let (hb, he) = pos.range(hdr);
                let (wb, we) = pos.range(whole);
                let (ob, oe) = pos.range(body);
                match what {
                    "index" => {}
                    "spec" => loop_spec.entry(n).or_default().push_str(&s.body),
                    "head" => loop_head.entry(n).or_default().push_str(&s.body),
                    "tail" => ed.ins(oe - 1, format!("\n{}", s.body)),
                    "before" => ed.ins(wb, format!("\n{}", s.body)),
                    "after" => ed.ins(we, format!("\n{}", s.body)),
                    "iter" => {
                        let nm = w.next().unwrap_or("it");
                        ed.ins(hb, format!("{nm}: "));
                    }
                    "expr" => {
                        let t = s.head.split_once("expr").unwrap().1.trim();
                        ed.rep(hb, he, t.replace("$expr", &text[hb..he]));
                        rewrites.push(format!("loop {n} iterates over `{t}`"));
                    }
                    _ => return Err(Fail::Usage(s.head.clone())),
                }
                let _ = (he, ob);
            }
            _ => return Err(Fail::Usage(format!("section @{} in {arg}", s.head))),
        }
    }
    if let Some(n) = expect_loops {
        if sc.loops.len() != n {
            return Err(Fail::Anchor(format!("{arg}: {} loops, expected {n}", sc.loops.len())));
        }
    }
    for (n, (_k, _w, hdr, body)) in sc.loops.iter().enumerate() {
        let (ob, _) = pos.range(*body);
        if let Some(sp) = loop_spec.get(&n) {
            ed.ins(ob, format!("\n{}", sp));
        }
        let mut h = String::new();
        if vac && !novac {
            probes += 1;
            h.push_str(&format!("\nproof {{ assert(v_probed({})); }}\n", probes));
        }
        if let Some(t) = loop_head.get(&n) {
            h.push('\n');
            h.push_str(t);
        }
        if let Some(t) = index_heads.get(&n) {
            h.push_str(t);
        }
        if !h.is_empty() {
            ed.ins(ob + 1, h);
        }
        let _ = hdr;
    }
    // identifiers and methods
    for (n, s) in &sc.methods {
        if let Some((_, to)) = methods.iter().find(|(a, _)| a == n) {
            let (x, y) = pos.range(*s);
            ed.rep(x, y, to.clone());
            rewrites.push(format!(".{n}() => .{to}()"));
        }
    }
    for (n, s) in &sc.idents {
        if let Some((_, to)) = idents.iter().find(|(a, _)| a == n) {
            let (x, y) = pos.range(*s);
            ed.rep(x, y, to.clone());
            rewrites.push(format!("{n} => {to}"));
        }
    }
    for (v, s) in &sc.byte_strs {
        let (x, y) = pos.range(*s);
        ed.rep(x, y, byte_lit(v));
        rewrites.push("b\"..\" => &[..]".into());
    }
    apply_replaces(text, &toks, &reps, &mut ed, &mut rewrites)?;

    // contract
    if let syn::ReturnType::Type(_, ty) = &f.sig.output {
        if let Some(r) = &ret {
            let (x, y) = pos.range(ty.span());
            ed.ins(x, format!("({r}: "));
            ed.ins(y, ")");
        }
    }
    if !spec.is_empty() {
        ed.ins(blo, format!("\n{spec}"));
    }
    if vac && !novac {
        probes += 1;
        ed.ins(blo + 1, "\nproof { assert(v_probed(-1)); }\n");
    }
    let (src_lo, src_hi) = (lo, bhi);
    if cx.contract_only {
        ed.rep(blo, bhi, "{ unimplemented!() }");
    }
    let mut body = ed.apply(text, lo, bhi)?;
    // loops written out by a template carry their own probe marker
    if vac && !novac {
        probes += body.matches("v_probe!();").count();
        body = body.replace("v_probe!();", "\nproof { assert(v_probed(-2)); }\n");
    } else {
        body = body.replace("v_probe!();", "");
    }
    rewrites.sort();
    rewrites.dedup();
    let mut calls = sc.calls.clone();
    calls.extend(sc.methods.iter().map(|m| format!(".{}", m.0)));
    calls.sort();
    calls.dedup();
    let strs = |v: &[String]| v.iter().map(|r| json_str(r)).collect::<Vec<_>>().join(",");
    let m = format!(
        "{{\"kind\":\"fn\",\"path\":{},\"name\":{},\"file\":{},\"line\":{},\"fnv\":\"{:016x}\",\"loops\":{},\"calls\":[{}],\"rewrites\":[{}],\"has_spec\":{}",
        json_str(&path.join("::")),
        json_str(alias.as_deref().unwrap_or(path.last().unwrap())),
        json_str(&file),
        f.sig.span().start().line,
        fnv(&text[src_lo..src_hi]),
        sc.loops.len(),
        strs(&calls),
        strs(&rewrites),
        !spec.is_empty(),
    );
    Ok((format!("{pre}{body}"), m, probes))
}
