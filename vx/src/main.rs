//! vx: mechanical extraction of repository functions into a Verus text with contracts (see /verif/DESIGN.md).
mod index;
mod macros;
mod types;
mod xform;

use index::Index;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::path::PathBuf;
use syn::visit_mut::VisitMut;
use syn::*;
use types::{from_syn, Ty};
use xform::*;

#[derive(Default, Clone)]
struct FnDir {
    path: String,
    args: Option<Vec<String>>,
    rename: Option<String>,
    requires: String,
    ensures: String,
    other: String,
    attrs: String,
    pre: String,
    generics: Option<String>,
    ret: Option<String>,
    world: bool,
    loops: HashMap<usize, (String, String, String)>, // invariants, body start, body end
    posts: String,
    after: Vec<(String, String)>, // proof text placed after the `let` that binds the name
    #[allow(dead_code)]
    nested_in: Option<String>,
}

enum Piece {
    Text(String),
    Fn(FnDir),
    Item { path: String, derive: Option<String> },
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Parsed {
    roots: Vec<String>,
    unit: Unit,
    pieces: Vec<Piece>,
    prelude_text: String,
}

fn scan_known(ts: TokenStream, u: &mut Unit, cur: &str) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            let s = id.to_string();
            if s == "fn" {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) {
                    let name = n.to_string();
                    u.known_fns.insert(name.clone());
                    // find -> ( r : T ) or -> T
                    let mut j = i + 2;
                    while j < v.len() && j < i + 60 {
                        if let (TokenTree::Punct(a), Some(TokenTree::Punct(b))) = (&v[j], v.get(j + 1)) {
                            if a.as_char() == '-' && b.as_char() == '>' {
                                let mut t: TokenStream = TokenStream::new();
                                let mut k = j + 2;
                                if let Some(TokenTree::Group(g)) = v.get(k) {
                                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                                    if inner.len() > 2 && matches!(&inner[1], TokenTree::Punct(p) if p.as_char()==':') && matches!(&inner[0], TokenTree::Ident(_)) {
                                        t = inner[2..].iter().cloned().collect();
                                    } else {
                                        t = TokenTree::Group(g.clone()).into();
                                    }
                                } else {
                                    while k < v.len() {
                                        match &v[k] {
                                            TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => break,
                                            TokenTree::Ident(x) if matches!(x.to_string().as_str(), "requires" | "ensures" | "recommends" | "decreases" | "where") => break,
                                            TokenTree::Punct(p) if p.as_char() == ';' => break,
                                            x => t.extend(TokenStream::from(x.clone())),
                                        }
                                        k += 1;
                                    }
                                }
                                if let Ok(ty) = syn::parse2::<Type>(t) {
                                    let ty = from_syn(&ty, &u.alias, cur);
                                    let key = if cur.is_empty() { name.clone() } else { format!("{cur}::{name}") };
                                    u.fn_ret.insert(key, ty);
                                }
                                break;
                            }
                        }
                        if let TokenTree::Group(g) = &v[j] {
                            if g.delimiter() == proc_macro2::Delimiter::Brace {
                                break;
                            }
                        }
                        j += 1;
                    }
                }
            } else if s == "const" {
                if let (true, Some(TokenTree::Ident(n))) = (cur.is_empty(), v.get(i + 1)) {
                    u.known_consts.insert(n.to_string());
                }
            } else if s == "impl" || s == "trait" {
                let mut j = i + 1;
                let mut names: Vec<String> = vec![];
                let mut depth = 0i32;
                while j < v.len() {
                    match &v[j] {
                        TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace => {
                            let n = names.last().cloned().unwrap_or_default();
                            scan_known(g.stream(), u, &n);
                            break;
                        }
                        TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
                        TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
                        TokenTree::Ident(x) if depth == 0 && x != "for" => names.push(x.to_string()),
                        TokenTree::Punct(p) if p.as_char() == ';' => break,
                        _ => {}
                    }
                    j += 1;
                }
                i = j;
            } else if s == "type" {
                // aliases
                if let (Some(TokenTree::Ident(n)), Some(TokenTree::Punct(p))) = (v.get(i + 1), v.get(i + 2)) {
                    if p.as_char() == '=' {
                        let mut t = TokenStream::new();
                        let mut k = i + 3;
                        while k < v.len() {
                            if let TokenTree::Punct(p) = &v[k] {
                                if p.as_char() == ';' {
                                    break;
                                }
                            }
                            t.extend(TokenStream::from(v[k].clone()));
                            k += 1;
                        }
                        if let Ok(ty) = syn::parse2::<Type>(t) {
                            let ty = from_syn(&ty, &u.alias, "");
                            u.alias.insert(n.to_string(), ty);
                        }
                    }
                }
            } else if s == "struct" {
                if let (Some(TokenTree::Ident(n)), Some(TokenTree::Group(g))) = (v.get(i + 1), v.get(i + 2)) {
                    let sname = n.to_string();
                    if g.delimiter() == proc_macro2::Delimiter::Brace {
                        let (n, g) = (n.clone(), g.clone());
                        if let Ok(st) = syn::parse2::<ItemStruct>(quote!(struct #n #g)) {
                            for f in st.fields.iter() {
                                if let Some(id) = &f.ident {
                                    let t = from_syn(&f.ty, &u.alias, &sname);
                                    u.fields.insert((sname.clone(), id.to_string()), t);
                                }
                            }
                        }
                    }
                }
            }
        }
        if let Some(TokenTree::Group(g)) = v.get(i) {
            // verus! { .. } and modules
            let prev_is_bang = i > 0 && matches!(&v[i - 1], TokenTree::Punct(p) if p.as_char() == '!');
            let prev_mod = i > 1 && matches!(&v[i - 2], TokenTree::Ident(x) if x == "mod");
            if prev_is_bang || prev_mod {
                scan_known(g.stream(), u, "");
            }
        }
        i += 1;
    }
}

fn parse_unit(path: &PathBuf, ix: &mut Index, repo: &PathBuf) -> std::result::Result<Parsed, String> {
    let mut p = Parsed { roots: vec![], unit: Unit::default(), pieces: vec![], prelude_text: String::new() };
    fn go(path: &PathBuf, p: &mut Parsed) -> std::result::Result<(), String> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{}: {e}", path.display()))?;
        let mut buf = String::new();
        let mut cur: Option<FnDir> = None;
        let mut sect = String::new();
        for (ln, line) in text.lines().enumerate() {
            let t = line.trim_start();
            if let Some(d) = t.strip_prefix("//@") {
                let dd = d.trim();
                if let Some(f) = &mut cur {
                    let (kw, rest) = dd.split_once(char::is_whitespace).unwrap_or((dd, ""));
                    let mut body = rest.to_string();
                    match kw {
                        "end" => {
                            p.pieces.push(Piece::Text(std::mem::take(&mut buf)));
                            p.pieces.push(Piece::Fn(cur.take().unwrap()));
                            continue;
                        }
                        "requires" | "ensures" | "other" | "pre" | "attr" | "meta" => sect = kw.into(),
                        "rename" => {
                            f.rename = Some(rest.trim().into());
                            continue;
                        }
                        "generics" => {
                            f.generics = Some(rest.trim().into());
                            if rest.trim().is_empty() {
                                let n = f.rename.clone().unwrap_or_else(|| f.path.rsplit("::").next().unwrap_or("").to_string());
                                p.unit.nogen.insert(n);
                            }
                            continue;
                        }
                        "ret" => {
                            f.ret = Some(rest.trim().into());
                            continue;
                        }
                        "world" => {
                            f.world = true;
                            continue;
                        }
                        "after" => {
                            let (n, r) = rest.trim().split_once(char::is_whitespace).unwrap_or((rest.trim(), ""));
                            f.after.push((n.to_string(), String::new()));
                            sect = "after".into();
                            body = r.to_string();
                        }
                        "loop" | "loop-start" | "loop-end" => {
                            let (n, r) = rest.trim().split_once(char::is_whitespace).unwrap_or((rest.trim(), ""));
                            let n = n.trim_end_matches(':');
                            sect = format!("{kw} {n}");
                            body = r.to_string();
                        }
                        _ => body = dd.to_string(),
                    }
                    let body = format!("{body}\n");
                    match sect.as_str() {
                        "requires" => f.requires += &body,
                        "ensures" => f.ensures += &body,
                        "other" => f.other += &body,
                        "pre" => f.pre += &body,
                        "meta" => f.posts += &body,
                        "attr" => f.attrs += &body,
                        "after" => f.after.last_mut().unwrap().1 += &body,
                        s => {
                            let (k, n) = s.split_once(' ').ok_or(format!("{}:{}: directive outside a section", path.display(), ln + 1))?;
                            let n: usize = n.parse().map_err(|_| format!("{}:{}: loop number", path.display(), ln + 1))?;
                            let e = f.loops.entry(n).or_default();
                            match k {
                                "loop" => e.0 += &body,
                                "loop-start" => e.1 += &body,
                                _ => e.2 += &body,
                            }
                        }
                    }
                    continue;
                }
                let (kw, rest) = dd.split_once(char::is_whitespace).unwrap_or((dd, ""));
                let rest = rest.trim();
                match kw {
                    "root" => p.roots.push(rest.into()),
                    "include" => {
                        p.pieces.push(Piece::Text(std::mem::take(&mut buf)));
                        let f = path.parent().unwrap().join(rest);
                        go(&f, p)?;
                    }
                    "dropgen" => p.unit.drop.extend(rest.split_whitespace().map(String::from)),
                    "subst" => {
                        let (a, b) = rest.split_once("=>").ok_or("subst")?;
                        let t: Type = parse_str(b.trim()).map_err(|e| format!("subst {rest}: {e}"))?;
                        p.unit.subst.push((a.trim().replace(' ', ""), t));
                    }
                    "call" => {
                        let (a, b) = rest.split_once("=>").ok_or("call")?;
                        p.unit.callmap.insert(a.trim().into(), b.trim().into());
                    }
                    "known" => p.unit.known_fns.extend(rest.split_whitespace().map(String::from)),
                    "storage" => p.unit.storage.extend(rest.split_whitespace().map(String::from)),
                    "worldfns" => p.unit.world_fns.extend(rest.split_whitespace().map(String::from)),
                    "item" => {
                        p.pieces.push(Piece::Text(std::mem::take(&mut buf)));
                        let (a, d) = match rest.split_once(" derive ") {
                            Some((a, d)) => (a.trim().to_string(), Some(d.trim().to_string())),
                            None => (rest.to_string(), None),
                        };
                        p.pieces.push(Piece::Item { path: a, derive: d });
                    }
                    "fn" => {
                        let mut f = FnDir::default();
                        let r = rest.to_string();
                        if let Some(i) = r.rfind('(') {
                            f.path = r[..i].trim().into();
                            let a = r[i + 1..].trim_end_matches(')');
                            f.args = Some(a.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
                        } else {
                            f.path = r;
                        }
                        cur = Some(f);
                        sect.clear();
                    }
                    _ => return Err(format!("{}:{}: unknown directive {kw}", path.display(), ln + 1)),
                }
            } else {
                buf.push_str(line);
                buf.push('\n');
            }
        }
        if cur.is_some() {
            return Err(format!("{}: //@ fn without //@ end", path.display()));
        }
        p.pieces.push(Piece::Text(buf));
        Ok(())
    }
    go(path, &mut p)?;
    for r in &p.roots {
        ix.load(repo, r)?;
    }
    // known names: everything the unit text defines, and everything it extracts
    let mut alltext = String::new();
    for pc in &p.pieces {
        if let Piece::Text(t) = pc {
            alltext.push_str(t);
        }
    }
    p.prelude_text = alltext.clone();
    match alltext.parse::<TokenStream>() {
        Ok(ts) => {
            let ts2 = ts.clone();
            scan_known(ts, &mut p.unit, "");
            scan_known(ts2, &mut p.unit, "");
        }
        Err(e) => return Err(format!("unit text does not lex: {e}")),
    }
    Ok(p)
}

/// shape of a struct or enum, for the replay harness
fn item_info(ix: &Index, unit: &Unit, path: &str) -> Option<String> {
    let (file, name) = path.split_once(".rs::")?;
    let (name, rn) = name.split_once(" as ").unwrap_or((name, name));
    let file = format!("{file}.rs");
    let gens = |g: &Generics| -> String {
        let v: Vec<String> = g
            .params
            .iter()
            .filter_map(|p| match p {
                GenericParam::Type(t) => Some(t.ident.to_string()),
                _ => None,
            })
            .collect();
        jarr(v.iter())
    };
    let wh = |g: &Generics| -> String {
        let mut v: Vec<String> = g.params.iter().filter_map(|p| match p { GenericParam::Type(t) if !t.bounds.is_empty() => { let (i, b) = (&t.ident, &t.bounds); Some(quote::quote!(#i: #b).to_string()) } _ => None }).collect();
        if let Some(w) = &g.where_clause { v.extend(w.predicates.iter().map(|x| quote::quote!(#x).to_string())); }
        esc(&v.join(", "))
    };
    let flds = |f: &Fields| -> String {
        let v: Vec<String> = f.iter().enumerate().map(|(i, x)| x.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string())).collect();
        jarr(v.iter())
    };
    let s: Vec<_> = ix.structs.iter().filter(|(_, s)| s.ident == name).collect();
    if let Some((f, s)) = s.iter().find(|(f, _)| *f == file).or(s.first()) {
        let tys: Vec<String> = s.fields.iter().map(|x| { let mut t = x.ty.clone(); Subst { u: unit, self_ty: None, file: f.clone() }.visit_type_mut(&mut t); quote::quote!(#t).to_string() }).collect();
        return Some(format!("{{\"kind\":\"struct\",\"as\":{},\"path\":{},\"file\":{},\"name\":{},\"generics\":{},\"where\":{},\"fields\":{},\"types\":{}}}", esc(rn), esc(path), esc(f), esc(name), gens(&s.generics), wh(&s.generics), flds(&s.fields), jarr(tys.iter())));
    }
    let s: Vec<_> = ix.enums.iter().filter(|(_, s)| s.ident == name).collect();
    if let Some((f, s)) = s.iter().find(|(f, _)| *f == file).or(s.first()) {
        let vs: Vec<String> = s
            .variants
            .iter()
            .map(|v| {
                let tys: Vec<String> = v.fields.iter().map(|x| { let mut t = x.ty.clone(); Subst { u: unit, self_ty: None, file: f.clone() }.visit_type_mut(&mut t); quote::quote!(#t).to_string() }).collect();
                format!("[{},{},{}]", esc(&v.ident.to_string()), flds(&v.fields), jarr(tys.iter()))
            })
            .collect();
        return Some(format!("{{\"kind\":\"enum\",\"as\":{},\"path\":{},\"file\":{},\"name\":{},\"generics\":{},\"where\":{},\"variants\":[{}]}}", esc(rn), esc(path), esc(f), esc(name), gens(&s.generics), wh(&s.generics), vs.join(",")));
    }
    let s: Vec<_> = ix.types.iter().filter(|(_, s)| s.ident == name).collect();
    if let Some((f, s)) = s.iter().find(|(f, _)| *f == file).or(s.first()) {
        let t = &s.ty;
        return Some(format!("{{\"kind\":\"alias\",\"as\":{},\"path\":{},\"file\":{},\"name\":{},\"type\":{}}}", esc(rn), esc(path), esc(f), esc(name), esc(&quote::quote!(#t).to_string())));
    }
    None
}

fn item_text(ix: &Index, unit: &Unit, path: &str, derive: &Option<String>) -> std::result::Result<String, String> {
    let (file, name) = path.split_once(".rs::").ok_or(format!("bad item path {path}"))?;
    let (name, rn) = name.split_once(" as ").unwrap_or((name, name));
    let rn = format_ident!("{}", rn);
    let file = format!("{file}.rs");
    let dv = |d: &str| -> String {
        let d = derive.clone().unwrap_or(d.to_string());
        let d = if unit.plain { d.replace(", Structural", "") } else { d };
        if d.is_empty() || d == "none" {
            String::new()
        } else {
            format!("#[derive({d})]\n")
        }
    };
    let pick = |f: &str| f == file;
    let mut sub = Subst { u: unit, self_ty: None, file: file.clone() };
    let prefer = |n: usize| n;
    let _ = prefer;
    let dropg = |g: &mut Generics| {
        let keep: Vec<GenericParam> = g
            .params
            .iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !unit.drop.contains(&t.ident.to_string()),
                _ => true,
            })
            .cloned()
            .collect();
        g.params = keep.into_iter().collect();
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
        g.where_clause = None;
    };
    let s: Vec<_> = ix.structs.iter().filter(|(_, s)| s.ident == name).collect();
    let s = s.iter().find(|(f, _)| pick(f)).or(s.first());
    if let Some((_, s)) = s {
        let mut s = s.clone();
        let real = s.attrs.iter().any(|a| a.path().is_ident("derive") && toks(&a.meta).contains("Default"));
        s.attrs.clear();
        dropg(&mut s.generics);
        for f in s.fields.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
        s.vis = parse_quote!(pub);
        sub.visit_item_struct_mut(&mut s);
        s.ident = rn.clone();
        let f: File = parse_quote!(#s);
        let mut d = dv("Clone, Copy, PartialEq, Eq, Structural");
        let mut def = String::new();
        if d.contains("Default") {
            // the derived Default, written out: every field is its own default
            if !real {
                return Err(format!("{path} does not derive Default"));
            }
            d = d.replace("Default, ", "").replace(", Default", "").replace("#[derive(Default)]\n", "");
            let ps: Vec<String> = s.generics.params.iter().filter_map(|p| match p { GenericParam::Type(t) => Some(t.ident.to_string()), _ => None }).collect();
            let (b, a) = if ps.is_empty() { (String::new(), String::new()) } else { (format!("<{}>", ps.iter().map(|p| format!("{p}: Default")).collect::<Vec<_>>().join(", ")), format!("<{}>", ps.join(", "))) };
            let fs: Vec<(String, String)> = s.fields.iter().map(|f| (f.ident.as_ref().unwrap().to_string(), toks(&f.ty))).collect();
            def = format!(
                "impl{b} Default for {rn}{a} {{ fn default() -> (r: Self) ensures {} {{ {rn} {{ {} }} }} }}\n",
                fs.iter().map(|(n, t)| format!("call_ensures(<{t} as Default>::default, (), r.{n}), ")).collect::<String>(),
                fs.iter().map(|(n, _)| format!("{n}: Default::default(), ")).collect::<String>()
            );
        }
        return Ok(d + &prettyplease::unparse(&f) + &def);
    }
    let s: Vec<_> = ix.enums.iter().filter(|(_, s)| s.ident == name).collect();
    let s = s.iter().find(|(f, _)| pick(f)).or(s.first());
    if let Some((_, s)) = s {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        dropg(&mut s.generics);
        for v in s.variants.iter_mut() {
            v.attrs.clear();
        }
        sub.visit_item_enum_mut(&mut s);
        s.ident = rn.clone();
        let f: File = parse_quote!(#s);
        return Ok(dv("Clone, Copy, PartialEq, Eq, Structural") + &prettyplease::unparse(&f));
    }
    let s: Vec<_> = ix.consts.iter().filter(|(_, t, s)| t.is_none() && s.ident == name).collect();
    let s = s.iter().find(|(f, _, _)| pick(f)).or(s.first());
    if let Some((_, _, s)) = s {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        sub.visit_item_const_mut(&mut s);
        let f: File = parse_quote!(#s);
        return Ok(prettyplease::unparse(&f));
    }
    let s: Vec<_> = ix.types.iter().filter(|(_, s)| s.ident == name).collect();
    let s = s.iter().find(|(f, _)| pick(f)).or(s.first());
    if let Some((_, s)) = s {
        let mut s = s.clone();
        s.attrs.clear();
        s.vis = parse_quote!(pub);
        dropg(&mut s.generics);
        sub.visit_item_type_mut(&mut s);
        let f: File = parse_quote!(#s);
        return Ok(prettyplease::unparse(&f));
    }
    Err(format!("anchor lost: no item {path}"))
}

/// names the rewriting gave to the variables of a loop
fn placeholders(before: &str, after: &str) -> Vec<(&'static str, String)> {
    let word = |t: &str| -> String { t.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect() };
    let mut v = vec![];
    let w = before.rfind("while ").map(|i| (i, word(&before[i + 6..])));
    let f = before.rfind("for ").map(|i| (i, word(&before[i + 4..])));
    if let Some((_, k)) = w.into_iter().chain(f).max() {
        v.push(("$k", k));
    }
    for (p, tag) in [("$a", "let mut __a"), ("$r", "let mut __r"), ("$o", "let mut __ok"), ("$s", "let __s")] {
        if let Some(i) = before.rfind(tag) {
            v.push((p, word(before[i + 4..].trim_start_matches("mut "))));
        }
    }
    if let Some(i) = after.find("let __i") {
        v.push(("$i", word(&after[i + 4..])));
    }
    v
}

/// marks the statement after the first `let` that binds a name
struct After {
    names: Vec<String>,
    hit: BTreeSet<usize>,
}
impl VisitMut for After {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            let mut names = BTreeSet::new();
            if let Stmt::Local(l) = &s {
                fn go(p: &Pat, n: &mut BTreeSet<String>) {
                    match p {
                        Pat::Ident(i) => {
                            n.insert(i.ident.to_string());
                        }
                        Pat::Type(t) => go(&t.pat, n),
                        Pat::Tuple(t) => t.elems.iter().for_each(|p| go(p, n)),
                        _ => {}
                    }
                }
                go(&l.pat, &mut names);
            }
            out.push(s);
            for (k, n) in self.names.iter().enumerate() {
                if names.contains(n) && self.hit.insert(k) {
                    let k = syn::Index::from(k);
                    out.push(parse_quote!(__vx_at!(#k);));
                }
            }
        }
        b.stmts = out;
    }
}

struct Loops {
    n: usize,
    autos: Vec<String>,
    order: Vec<Option<String>>,
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let mut mark = |b: &mut Block| {
            let id = self.n;
            self.n += 1;
            let mut auto = None;
            if let Some(Stmt::Macro(m)) = b.stmts.first() {
                if m.mac.path.is_ident("__vx_auto") {
                    let k: usize = m.mac.tokens.to_string().parse().unwrap();
                    auto = Some(self.autos[k].clone());
                    b.stmts.remove(0);
                }
            }
            self.order.push(auto);
            let k = syn::Index::from(id);
            b.stmts.insert(0, parse_quote!(__vx_loop!(#k);));
            b.stmts.push(parse_quote!(__vx_loop_end!(#k);));
        };
        match e {
            Expr::While(w) => mark(&mut w.body),
            Expr::ForLoop(w) => mark(&mut w.body),
            Expr::Loop(w) => mark(&mut w.body),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Out {
    text: String,
    recs: Vec<String>,
    consts: BTreeSet<(String, String)>,
}

fn sig_parts(cx: &Cx, sig: &Signature, dir: &FnDir, unit: &Unit) -> (String, String, String, Vec<Stmt>, Vec<(Pat, Ty)>, Vec<(String, String)>) {
    let mut params: Vec<String> = vec![];
    let mut lets: Vec<Stmt> = vec![];
    let mut binds = vec![];
    let mut pinfo = vec![];
    let mut k = 0;
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => {
                params.push(r.to_token_stream().to_string());
                let st = Ty::p(cx.f.self_ty.as_deref().unwrap_or(""));
                binds.push((parse_quote!(self), st));
                pinfo.push(("self".into(), r.to_token_stream().to_string()));
            }
            FnArg::Typed(t) => {
                let ty = (*t.ty).clone();
                let ty: Type = ty;
                let want = dir.args.as_ref().and_then(|a| a.get(k).cloned());
                k += 1;
                let pty = cx.syn_ty(&ty);
                binds.push(((*t.pat).clone(), pty));
                let tys = ty.to_token_stream().to_string();
                match (&*t.pat, want) {
                    (Pat::Ident(p), w) => {
                        let real = p.ident.to_string();
                        let w = w.unwrap_or(real.clone());
                        if w != real {
                            let (a, b) = (format_ident!("{}", real), format_ident!("{}", w));
                            if p.mutability.is_some() {
                                lets.push(parse_quote!(let mut #a = #b;));
                            } else {
                                lets.push(parse_quote!(let #a = #b;));
                            }
                        } else if p.mutability.is_some() {
                            let a = format_ident!("{}", real);
                            lets.push(parse_quote!(let mut #a = #a;));
                        }
                        params.push(format!("{w}: {tys}"));
                        pinfo.push((w, tys));
                    }
                    (p, w) => {
                        let w = w.unwrap_or(format!("__arg{k}"));
                        let b = format_ident!("{}", w);
                        if !matches!(p, Pat::Wild(_)) {
                            lets.push(parse_quote!(let #p = #b;));
                        }
                        params.push(format!("{w}: {tys}"));
                        pinfo.push((w, tys));
                    }
                }
            }
        }
    }
    if dir.world {
        params.push("w: &mut World".into());
    }
    let mut g = sig.generics.clone();
    let keep: Vec<GenericParam> = g
        .params
        .iter()
        .filter(|p| match p {
            GenericParam::Type(t) => !unit.drop.contains(&t.ident.to_string()),
            _ => true,
        })
        .cloned()
        .collect();
    g.params = keep.into_iter().collect();
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
    let gen = dir.generics.clone().unwrap_or(g.to_token_stream().to_string());
    let ret = dir.ret.clone().unwrap_or(match &sig.output {
        ReturnType::Type(_, t) => t.to_token_stream().to_string(),
        _ => "()".into(),
    });
    (gen, params.join(", "), ret, lets, binds, pinfo)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let repo = PathBuf::from(get("--repo").unwrap_or("/repo".into()));
    let unitp = PathBuf::from(get("--unit").expect("--unit"));
    let outp = PathBuf::from(get("--out").expect("--out"));
    let plain = args.iter().any(|a| a == "--plain");
    let stubs: HashSet<String> = get("--stub").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    let mut ix = Index::default();
    let mut parsed = match parse_unit(&unitp, &mut ix, &repo) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("vx: {e}");
            std::process::exit(3);
        }
    };
    parsed.unit.comm = get("--comm").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    // extracted functions are known, with their return types
    let mut srcs: Vec<Option<index::FnSrc>> = vec![];
    for pc in &parsed.pieces {
        match pc {
            Piece::Item { path, .. } => {
                let (f, n) = path.split_once(".rs::").unwrap();
                let (n, rn) = n.split_once(" as ").unwrap_or((n, n));
                let mut all: Vec<(String, String, Type)> = vec![];
                for (_, s) in ix.structs.iter().filter(|(_, s)| s.ident == n) {
                    for (i, fl) in s.fields.iter().enumerate() {
                        let k = fl.ident.as_ref().map(|i| i.to_string()).unwrap_or(i.to_string());
                        all.push((rn.to_string(), k, fl.ty.clone()));
                    }
                }
                for (a, b, mut t) in all {
                    let mut sub = Subst { u: &parsed.unit, self_ty: None, file: format!("{f}.rs") };
                    sub.visit_type_mut(&mut t);
                    let t = from_syn(&t, &parsed.unit.alias, n);
                    parsed.unit.fields.insert((a, b), t);
                }
                if let Some((_, t)) = ix.types.iter().find(|(_, t)| t.ident == n) {
                    let mut tt = (*t.ty).clone();
                    Subst { u: &parsed.unit, self_ty: None, file: format!("{f}.rs") }.visit_type_mut(&mut tt);
                    let t = from_syn(&tt, &parsed.unit.alias, "");
                    parsed.unit.alias.insert(n.to_string(), t);
                }
                parsed.unit.known_consts.insert(rn.to_string());
            }
            Piece::Fn(d) => {
                let r = ix.find_fn(&d.path);
                if let Ok(s) = &r {
                    let mut sig = s.sig.clone();
                    Subst { u: &parsed.unit, self_ty: None, file: s.file.clone() }.visit_signature_mut(&mut sig);
                    let name = s.sig.ident.to_string();
                    parsed.unit.known_fns.insert(name.clone());
                    if d.world {
                        parsed.unit.world_fns.insert(name.clone());
                    }
                    let t = match &sig.output {
                        ReturnType::Type(_, t) => from_syn(t, &parsed.unit.alias, s.self_ty.as_deref().unwrap_or("")),
                        _ => Ty::T(vec![]),
                    };
                    let key = match &s.self_ty {
                        Some(st) => format!("{st}::{name}"),
                        None => name,
                    };
                    parsed.unit.fn_ret.insert(key, t);
                }
                srcs.push(r.ok());
            }
            _ => {}
        }
    }
    parsed.unit.plain = plain;
    let unit = parsed.unit.clone();
    let mut out = Out { text: String::new(), recs: vec![], consts: BTreeSet::new() };
    let mut fi = 0;
    for pc in &parsed.pieces {
        match pc {
            Piece::Text(t) => {
                if !plain {
                    out.text.push_str(t)
                }
            }
            Piece::Item { path, derive } => match item_text(&ix, &unit, path, derive) {
                Ok(t) => {
                    out.text.push_str(&t);
                    out.text.push('\n');
                    if let Some(i) = item_info(&ix, &unit, path) {
                        out.recs.push(i);
                    }
                }
                Err(e) => {
                    out.recs.push(format!("{{\"kind\":\"item\",\"path\":{},\"errors\":[{}]}}", esc(path), esc(&e)));
                }
            },
            Piece::Fn(d) => {
                let src = srcs[fi].clone();
                fi += 1;
                emit_fn(&ix, &unit, d, src, plain, &stubs, &mut out);
            }
        }
    }
    // constants the extracted bodies use
    let mut done: BTreeSet<(String, String)> = BTreeSet::new();
    let mut ctext = String::new();
    let mut queue: Vec<(String, String)> = out.consts.iter().cloned().collect();
    while let Some((key, name)) = queue.pop() {
        if !done.insert((key.clone(), name.clone())) {
            continue;
        }
        let (file, st) = key.split_once('|').unwrap();
        let st = if st.is_empty() { None } else { Some(st.to_string()) };
        if let Some((_, s, c)) = ix.consts.iter().find(|(f, s, c)| f == file && *s == st && c.ident == name) {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            if let Some(s) = s {
                c.ident = format_ident!("{}_{}", s, name);
            }
            Subst { u: &unit, self_ty: None, file: file.to_string() }.visit_item_const_mut(&mut c);
            let mut cx = new_cx(
                &ix,
                &unit,
                index::FnSrc {
                    file: file.into(),
                    self_ty: st.clone(),
                    trait_: None,
 trait_full: None,
                    generics: Default::default(),
                    sig: parse_quote!(fn c()),
                    block: parse_quote!({}),
                    nested: None,
                    line: 0,
                },
            );
            cx.expr(&mut c.expr);
            for (k, n) in cx.consts {
                queue.push((k.unwrap(), n));
            }
            let f: File = parse_quote!(#c);
            ctext.push_str(&prettyplease::unparse(&f));
        }
    }
    let text = if out.text.contains("//#CONSTS") { out.text.replace("//#CONSTS", &ctext) } else { out.text + &ctext };
    std::fs::write(&outp, &text).unwrap();
    // line ranges
    let mut ranges: HashMap<String, (usize, usize)> = HashMap::new();
    for (i, l) in text.lines().enumerate() {
        if let Some(x) = l.trim().strip_prefix("// VX-BEGIN ") {
            ranges.insert(x.to_string(), (i + 1, 0));
        } else if let Some(x) = l.trim().strip_prefix("// VX-END ") {
            if let Some(r) = ranges.get_mut(x) {
                r.1 = i + 1;
            }
        }
    }
    let mut rs: Vec<String> = ranges.iter().map(|(k, (a, b))| format!("{}:[{},{}]", esc(k), a, b)).collect();
    rs.sort();
    println!("{{\"functions\":[{}],\"ranges\":{{{}}}}}", out.recs.join(",\n"), rs.join(","));
}

fn new_cx<'a>(ix: &'a Index, unit: &'a Unit, f: index::FnSrc) -> Cx<'a> {
    Cx {
        ix,
        u: unit,
        f,
        env: vec![HashMap::new()],
        errs: vec![],
        notes: BTreeSet::new(),
        consts: BTreeSet::new(),
        autos: vec![],
        n: 0,
        ret: Ty::U,
        depth: 0,
        world: false,
    }
}

fn jarr<'a>(v: impl Iterator<Item = &'a String>) -> String {
    format!("[{}]", v.map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn emit_fn(ix: &Index, unit: &Unit, d: &FnDir, src: Option<index::FnSrc>, plain: bool, stubs: &HashSet<String>, out: &mut Out) {
    let id = d.path.replace(' ', "_");
    if plain && d.world {
        return;
    }
    let Some(src) = src else {
        let e = ix.find_fn(&d.path).err().unwrap_or_default();
        out.recs.push(format!(
            "{{\"kind\":\"fn\",\"id\":{},\"path\":{},\"found\":false,\"errors\":[{}]}}",
            esc(&id),
            esc(&d.path),
            esc(&e)
        ));
        return;
    };
    let mut cx = new_cx(ix, unit, src.clone());
    cx.world = d.world;
    let mut sig = src.sig.clone();
    let mut block = src.block.clone();
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Typed(t) => t.attrs.clear(),
            FnArg::Receiver(r) => r.attrs.clear(),
        }
    }
    let mut ex = Expander { ix, frame: src.file.starts_with("pallets/"), errs: vec![], notes: BTreeSet::new() };
    ex.visit_block_mut(&mut block);
    cx.errs.extend(ex.errs);
    cx.notes.extend(ex.notes);
    let mut sub = Subst { u: unit, self_ty: src.self_ty.clone(), file: src.file.clone() };
    sub.visit_signature_mut(&mut sig);
    sub.visit_block_mut(&mut block);
    if d.world && !unit.storage.is_empty() {
        let mut sm = StorageMut { storage: &unit.storage, errs: vec![], n: 0 };
        sm.tail_block(&mut block);
        sm.visit_block_mut(&mut block);
        cx.errs.extend(sm.errs);
    }
    let (gen, params, ret, lets, binds, pinfo) = sig_parts(&cx, &sig, d, unit);
    for (p, t) in &binds {
        if let Pat::Ident(i) = p {
            cx.env.last_mut().unwrap().insert(i.ident.to_string(), t.clone());
        }
        cx.bind(p, t);
    }
    // `self`
    if let Some(st) = &src.self_ty {
        if sig.receiver().is_some() {
            cx.env.last_mut().unwrap().insert("self".into(), Ty::p(st));
        }
    }
    cx.ret = match &sig.output {
        ReturnType::Type(_, t) => cx.syn_ty(t),
        _ => Ty::T(vec![]),
    };
    // body
    {
        let mut stmts = std::mem::take(&mut block.stmts);
        let last = stmts.len();
        for (i, s) in stmts.iter_mut().enumerate() {
            let _ = (i, last);
            let w = cx.ret.clone();
            cx.stmt_want(s, &w);
        }
        stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty()));
        let mut l = lets;
        l.extend(stmts);
        block.stmts = l;
    }
    let mut at = After { names: d.after.iter().map(|a| a.0.clone()).collect(), hit: BTreeSet::new() };
    at.visit_block_mut(&mut block);
    let mut lp = Loops { n: 0, autos: cx.autos.clone(), order: vec![] };
    lp.visit_block_mut(&mut block);
    let name = d.rename.clone().map(|r| r.trim_start_matches('~').to_string()).unwrap_or(src.sig.ident.to_string());
    for (k, n) in &cx.consts {
        out.consts.insert((k.clone().unwrap(), n.clone()));
    }
    let f: File = parse_quote!(fn __b() #block);
    let txt = prettyplease::unparse(&f);
    let start = txt.find('{').unwrap();
    let mut body = txt[start..].to_string();
    // loops
    for n in 0..lp.n {
        let m = format!("__vx_loop!({n});");
        let e = format!("__vx_loop_end!({n});");
        let Some(pos) = body.find(&m) else { continue };
        let brace = body[..pos].rfind('{').unwrap();
        let auto = lp.order[n].clone();
        let mut spec = String::new();
        let (inv, bs, be) = d.loops.get(&n).cloned().unwrap_or_default();
        // `$k` (counter), `$a` (accumulator), `$i` (index of the current element), `$r` (try_fold result) of this loop
        let ph = placeholders(&body[..brace], &body[pos + m.len()..]);
        let sub = |t: String| ph.iter().fold(t, |t, (a, b)| t.replace(a, b));
        let (inv, bs, be) = (sub(inv), sub(bs), sub(be));
        let mut clauses = inv.clone();
        if let Some(a) = &auto {
            let (i, dec) = a.rsplit_once('|').unwrap();
            let i2 = format!("({i})");
            let i = i2.as_str();
            if clauses.contains("invariant ") {
                if !i.is_empty() {
                    clauses = clauses.replacen("invariant ", &format!("invariant {i}, "), 1);
                }
            } else if !i.is_empty() {
                clauses = format!("invariant {i},\n{clauses}");
            }
            if !clauses.contains("decreases") {
                clauses.push_str(&format!("decreases {dec},\n"));
            }
        }
        spec.push_str(&clauses);
        if plain {
            spec.clear();
        }
        let (bs, be) = if plain { (String::new(), String::new()) } else { (bs, be) };
        let after = &body[pos + m.len()..];
        body = format!("{}\n{}{{ {}{}", &body[..brace], spec, bs, after);
        body = body.replacen(&e, &be, 1);
    }
    for (k, (_, t)) in d.after.iter().enumerate() {
        body = body.replacen(&format!("__vx_at!({k});"), if plain { "" } else { t.as_str() }, 1);
    }
    let stub = stubs.contains(&id) || !cx.errs.is_empty();
    let wrap = plain && src.self_ty.is_some();
    if wrap {
        let st = src.self_ty.clone().unwrap();
        out.text.push_str(&format!("impl {st} {{\n"));
    }
    out.text.push_str(&format!("// VX-BEGIN {id}\n"));
    let vis = if src.trait_.is_some() && d.path.contains("<") && d.rename.as_ref().map_or(true, |r| r.starts_with('~')) { "" } else { "pub " };
    if !plain {
        out.text.push_str(&d.attrs);
        if stub {
            out.text.push_str("#[verifier::external_body]\n");
        } else {
            out.text.push_str("#[verifier::loop_isolation(false)]\n");
        }
    }
    let mut retdecl = if plain { format!("-> {ret}") } else { format!("-> (r: {ret})") };
    if ret == "()" && !d.ensures.contains("r ") {
        retdecl = String::new();
    }
    out.text.push_str(&format!("{vis}fn {name}{gen}({params}) {retdecl}\n"));
    if !plain {
        if !d.requires.trim().is_empty() {
            out.text.push_str(&format!("  requires {}\n", comma(&d.requires)));
        }
        if !d.ensures.trim().is_empty() {
            out.text.push_str(&format!("  ensures {}\n", comma(&d.ensures)));
        }
        out.text.push_str(&d.other);
    }
    if stub && !plain {
        out.text.push_str("{ unimplemented!() }\n");
    } else if !plain && unit.comm.contains(&id) {
        out.text.push_str(&format!("{{\n{}\nbroadcast use lem_comm_b;\n{}", d.pre, &body[1..]));
    } else if plain || d.pre.trim().is_empty() {
        out.text.push_str(&body);
    } else {
        out.text.push_str(&format!("{{\n{}\n{}", d.pre, &body[1..]));
    }
    out.text.push_str(&format!("// VX-END {id}\n"));
    if wrap {
        out.text.push_str("}\n");
    }
    let pj: Vec<String> = pinfo.iter().map(|(a, b)| format!("[{},{}]", esc(a), esc(b))).collect();
    let mut lits = Lits(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut lits, &src.block);
    out.recs.push(format!(
        "{{\"kind\":\"fn\",\"id\":{},\"path\":{},\"found\":true,\"name\":{},\"file\":{},\"line\":{},\"self_ty\":{},\"trait\":{},\"generics\":{},\"params\":[{}],\"ret\":{},\"requires\":{},\"ensures\":{},\"loops\":{},\"annot\":{},\"stub\":{},\"errors\":{},\"notes\":{},\"literals\":{},\"world\":{},\"meta\":{}}}",
        esc(&id),
        esc(&d.path),
        esc(&name),
        esc(&src.file),
        src.line,
        src.self_ty.as_ref().map(|s| esc(s)).unwrap_or("null".into()),
        src.trait_.as_ref().map(|s| esc(s)).unwrap_or("null".into()),
        esc(&gen),
        pj.join(","),
        esc(&ret),
        esc(&d.requires),
        esc(&d.ensures),
        lp.n,
        d.loops.keys().map(|k| k + 1).max().unwrap_or(0),
        stub,
        jarr(cx.errs.iter()),
        jarr(cx.notes.iter()),
        jarr(lits.0.iter()),
        d.world,
        esc(&d.posts)
    ));
}

fn comma(s: &str) -> String {
    let t = s.trim_end();
    if t.ends_with(',') {
        t.to_string()
    } else {
        format!("{t},")
    }
}

struct Lits(BTreeSet<String>);
impl<'a> syn::visit::Visit<'a> for Lits {
    fn visit_lit_int(&mut self, l: &'a LitInt) {
        self.0.insert(l.base10_digits().to_string());
    }
}
