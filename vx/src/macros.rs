//! A small `macro_rules!` expander: enough for the macros the repository defines in its own sources.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

#[derive(Clone, Debug)]
pub struct MacroDef {
    pub name: String,
    pub rules: Vec<(Vec<Pat>, TokenStream)>,
}

#[derive(Clone, Debug)]
pub enum Pat {
    Tok(String),
    Group(Delimiter, Vec<Pat>),
    Var(String, String),
    Rep(Vec<Pat>, Option<String>, char),
}

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<HashMap<String, Bind>>),
}

fn toks(ts: TokenStream) -> Vec<TokenTree> {
    ts.into_iter().collect()
}

fn parse_pat(v: &[TokenTree]) -> Option<Vec<Pat>> {
    let mut out = vec![];
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                i += 1;
                match v.get(i)? {
                    TokenTree::Ident(name) => {
                        // $name:frag
                        let n = name.to_string();
                        match (v.get(i + 1), v.get(i + 2)) {
                            (Some(TokenTree::Punct(c)), Some(TokenTree::Ident(f))) if c.as_char() == ':' => {
                                out.push(Pat::Var(n, f.to_string()));
                                i += 3;
                            }
                            _ => return None,
                        }
                    }
                    TokenTree::Group(g) => {
                        let inner = parse_pat(&toks(g.stream()))?;
                        i += 1;
                        let mut sep = None;
                        let op = loop {
                            match v.get(i)? {
                                TokenTree::Punct(p) if matches!(p.as_char(), '*' | '+' | '?') => {
                                    i += 1;
                                    break p.as_char();
                                }
                                t => {
                                    sep = Some(t.to_string());
                                    i += 1;
                                }
                            }
                        };
                        out.push(Pat::Rep(inner, sep, op));
                    }
                    _ => return None,
                }
            }
            TokenTree::Group(g) => {
                out.push(Pat::Group(g.delimiter(), parse_pat(&toks(g.stream()))?));
                i += 1;
            }
            t => {
                out.push(Pat::Tok(t.to_string()));
                i += 1;
            }
        }
    }
    Some(out)
}

pub fn parse_macro(m: &syn::ItemMacro) -> Option<MacroDef> {
    if !m.mac.path.is_ident("macro_rules") {
        return None;
    }
    let name = m.ident.as_ref()?.to_string();
    let v = toks(m.mac.tokens.clone());
    let mut rules = vec![];
    let mut i = 0;
    while i < v.len() {
        let TokenTree::Group(p) = &v[i] else { return None };
        // => { .. }
        let mut j = i + 1;
        while j < v.len() && !matches!(v[j], TokenTree::Group(_)) {
            j += 1;
        }
        let TokenTree::Group(b) = v.get(j)? else { return None };
        rules.push((parse_pat(&toks(p.stream()))?, b.stream()));
        i = j + 1;
        if let Some(TokenTree::Punct(c)) = v.get(i) {
            if c.as_char() == ';' {
                i += 1;
            }
        }
    }
    Some(MacroDef { name, rules })
}

fn frag_parse(ts: TokenStream, frag: &str) -> Option<(TokenStream, TokenStream)> {
    fn rest<T: ToTokens>(ts: TokenStream, f: fn(ParseStream) -> syn::Result<T>) -> Option<(TokenStream, TokenStream)> {
        let p = move |s: ParseStream| -> syn::Result<(TokenStream, TokenStream)> {
            let e = f(s)?;
            let r: TokenStream = s.parse()?;
            Ok((e.to_token_stream(), r))
        };
        p.parse2(ts).ok()
    }
    match frag {
        "expr" => rest::<syn::Expr>(ts, |s| s.parse()),
        "ident" => rest::<syn::Ident>(ts, |s| s.parse()),
        "ty" => rest::<syn::Type>(ts, |s| s.parse()),
        "path" => rest::<syn::Path>(ts, |s| s.parse()),
        "literal" => rest::<syn::Lit>(ts, |s| s.parse()),
        "lifetime" => rest::<syn::Lifetime>(ts, |s| s.parse()),
        "block" => rest::<syn::Block>(ts, |s| s.parse()),
        "pat" => rest::<syn::Pat>(ts, |s| syn::Pat::parse_single(s)),
        "tt" => {
            let mut it = ts.into_iter();
            let f = it.next()?;
            Some((f.into(), it.collect()))
        }
        _ => None,
    }
}

fn match_pats(pats: &[Pat], mut ts: TokenStream, b: &mut HashMap<String, Bind>) -> Option<TokenStream> {
    for p in pats {
        match p {
            Pat::Tok(s) => {
                let mut it = ts.into_iter();
                let f = it.next()?;
                if f.to_string() != *s {
                    return None;
                }
                ts = it.collect();
            }
            Pat::Group(d, inner) => {
                let mut it = ts.into_iter();
                let TokenTree::Group(g) = it.next()? else { return None };
                if g.delimiter() != *d {
                    return None;
                }
                let r = match_pats(inner, g.stream(), b)?;
                if !r.is_empty() {
                    return None;
                }
                ts = it.collect();
            }
            Pat::Var(n, f) => {
                let (m, r) = frag_parse(ts, f)?;
                let m = if f == "expr" { quote::quote!((#m)) } else { m };
                b.insert(n.clone(), Bind::One(m));
                ts = r;
            }
            Pat::Rep(inner, sep, op) => {
                let mut many = vec![];
                loop {
                    if ts.is_empty() {
                        break;
                    }
                    let mut t = ts.clone();
                    if !many.is_empty() {
                        if let Some(s) = sep {
                            let mut it = t.clone().into_iter();
                            match it.next() {
                                Some(x) if x.to_string() == *s => t = it.collect(),
                                _ => break,
                            }
                        }
                    }
                    let mut nb = HashMap::new();
                    match match_pats(inner, t, &mut nb) {
                        Some(r) => {
                            many.push(nb);
                            ts = r;
                            if *op == '?' {
                                break;
                            }
                        }
                        None => break,
                    }
                }
                if *op == '+' && many.is_empty() {
                    return None;
                }
                let mut names = vec![];
                var_names(inner, &mut names);
                for n in names {
                    b.insert(n, Bind::Many(many.clone()));
                }
            }
        }
    }
    Some(ts)
}

fn var_names(p: &[Pat], out: &mut Vec<String>) {
    for x in p {
        match x {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Group(_, i) | Pat::Rep(i, _, _) => var_names(i, out),
            _ => {}
        }
    }
}

fn subst(body: TokenStream, b: &HashMap<String, Bind>) -> Option<TokenStream> {
    let v = toks(body);
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match v.get(i + 1)? {
                TokenTree::Ident(id) if id == "crate" => {
                    out.extend(quote::quote!(crate));
                    i += 2;
                }
                TokenTree::Ident(id) => {
                    match b.get(&id.to_string())? {
                        Bind::One(t) => out.extend(t.clone()),
                        Bind::Many(_) => return None,
                    }
                    i += 2;
                }
                TokenTree::Group(g) => {
                    let mut j = i + 2;
                    let mut sep: Option<TokenTree> = None;
                    loop {
                        match v.get(j)? {
                            TokenTree::Punct(p) if matches!(p.as_char(), '*' | '+' | '?') => break,
                            t => {
                                sep = Some(t.clone());
                                j += 1;
                            }
                        }
                    }
                    // the repetition variable used inside
                    let mut used = vec![];
                    used_vars(g.stream(), &mut used);
                    let many = used.iter().find_map(|n| match b.get(n) {
                        Some(Bind::Many(m)) => Some(m.clone()),
                        _ => None,
                    })?;
                    for (k, nb) in many.iter().enumerate() {
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend(TokenStream::from(s.clone()));
                            }
                        }
                        let mut all = b.clone();
                        for (n, x) in nb {
                            all.insert(n.clone(), x.clone());
                        }
                        out.extend(subst(g.stream(), &all)?);
                    }
                    i = j + 1;
                }
                _ => return None,
            },
            TokenTree::Group(g) => {
                let ng = Group::new(g.delimiter(), subst(g.stream(), b)?);
                out.extend(TokenStream::from(TokenTree::Group(ng)));
                i += 1;
            }
            t => {
                out.extend(TokenStream::from(t.clone()));
                i += 1;
            }
        }
    }
    Some(out)
}

fn used_vars(ts: TokenStream, out: &mut Vec<String>) {
    let v = toks(ts);
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            used_vars(g.stream(), out);
        }
        if let (TokenTree::Punct(p), Some(TokenTree::Ident(id))) = (&v[i], v.get(i + 1)) {
            if p.as_char() == '$' {
                out.push(id.to_string());
            }
        }
    }
}

pub fn expand(def: &MacroDef, input: TokenStream) -> Option<TokenStream> {
    for (pats, body) in &def.rules {
        let mut b = HashMap::new();
        if let Some(r) = match_pats(pats, input.clone(), &mut b) {
            if r.is_empty() {
                if let Some(x) = subst(body.clone(), &b) {
                    return Some(x);
                }
            }
        }
    }
    None
}
