//! Reads the repository's sources and answers "where is item X?".
use crate::macros::{parse_macro, MacroDef};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

#[derive(Clone)]
pub struct FnSrc {
    pub file: String,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    /// the trait with its arguments
    pub trait_full: Option<String>,
    pub generics: syn::Generics,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub nested: Option<String>,
    pub line: usize,
}

#[derive(Default)]
pub struct Index {
    pub fns: Vec<FnSrc>,
    pub consts: Vec<(String, Option<String>, syn::ItemConst)>, // file, self type
    pub structs: Vec<(String, syn::ItemStruct)>,
    pub enums: Vec<(String, syn::ItemEnum)>,
    pub types: Vec<(String, syn::ItemType)>,
    pub macros: HashMap<String, MacroDef>,
    pub files: Vec<String>,
    pub getters: Vec<(String, String, String)>, // file, getter, storage
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let p = a.path();
        if p.is_ident("test") || p.is_ident("test_case") {
            return true;
        }
        if p.is_ident("cfg") {
            let s = quote::quote!(#a).to_string().replace(' ', "");
            return s.contains("cfg(test)") || s.contains("runtime-benchmarks") && !s.contains("not(") || s.contains("all(test");
        }
        false
    })
}

pub fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_name(&r.elem),
        syn::Type::Paren(r) => ty_name(&r.elem),
        _ => quote::quote!(#t).to_string(),
    }
}

impl Index {
    pub fn load(&mut self, repo: &Path, root: &str) -> Result<(), String> {
        let base = repo.join(root);
        let mut files: Vec<PathBuf> = vec![];
        if base.is_file() {
            files.push(base);
        } else {
            walk(&base, &mut files);
        }
        files.sort();
        for f in files {
            let rel = f.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            if self.files.contains(&rel) {
                continue;
            }
            let text = std::fs::read_to_string(&f).map_err(|e| format!("{rel}: {e}"))?;
            let Ok(file) = syn::parse_file(&text) else {
                return Err(format!("{rel}: does not parse"));
            };
            self.files.push(rel.clone());
            self.items(&rel, &file.items, None);
        }
        Ok(())
    }

    fn items(&mut self, file: &str, items: &[syn::Item], _m: Option<&str>) {
        for it in items {
            match it {
                syn::Item::Fn(f) if !is_test(&f.attrs) => {
                    let line = f.sig.ident.span().start().line;
                    self.add_fn(FnSrc {
                        file: file.into(),
                        self_ty: None,
                        trait_: None,
 trait_full: None,
                        generics: Default::default(),
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        nested: None,
                        line,
                    })
                }
                syn::Item::Impl(i) if !is_test(&i.attrs) => {
                    let st = ty_name(&i.self_ty);
                    let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let trf = i.trait_.as_ref().map(|(_, p, _)| { let s = p.segments.last().unwrap(); quote::quote!(#s).to_string().replace(' ', "") });
                    for x in &i.items {
                        match x {
                            syn::ImplItem::Fn(f) if !is_test(&f.attrs) => self.add_fn(FnSrc {
                                file: file.into(),
                                self_ty: Some(st.clone()),
                                trait_: tr.clone(),
                                trait_full: trf.clone(),
                                generics: i.generics.clone(),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                nested: None,
                                line: f.sig.ident.span().start().line,
                            }),
                            syn::ImplItem::Const(c) => {
                                let (id, ty, e) = (&c.ident, &c.ty, &c.expr);
                                let ic: syn::ItemConst = syn::parse_quote!(pub const #id: #ty = #e;);
                                self.consts.push((file.into(), Some(st.clone()), ic));
                            }
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    let st = t.ident.to_string();
                    for x in &t.items {
                        if let syn::TraitItem::Fn(f) = x {
                            if let Some(b) = &f.default {
                                self.add_fn(FnSrc {
                                    file: file.into(),
                                    self_ty: Some(st.clone()),
                                    trait_: None,
 trait_full: None,
                                    generics: t.generics.clone(),
                                    sig: f.sig.clone(),
                                    block: b.clone(),
                                    nested: None,
                                    line: f.sig.ident.span().start().line,
                                })
                            }
                        }
                    }
                }
                syn::Item::Mod(m) if !is_test(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(file, items, None);
                    }
                }
                syn::Item::Const(c) if !is_test(&c.attrs) => self.consts.push((file.into(), None, c.clone())),
                syn::Item::Struct(s) => self.structs.push((file.into(), s.clone())),
                syn::Item::Enum(s) => self.enums.push((file.into(), s.clone())),
                syn::Item::Type(s) => {
                    for a in &s.attrs {
                        let t = quote::quote!(#a).to_string().replace(' ', "");
                        if let Some(i) = t.find("pallet::getter(fn") {
                            let g: String = t[i + "pallet::getter(fn".len()..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                            self.getters.push((file.into(), g, s.ident.to_string()));
                        }
                    }
                    self.types.push((file.into(), s.clone()))
                }
                syn::Item::Macro(m) => {
                    if let Some(d) = parse_macro(m) {
                        self.macros.entry(d.name.clone()).or_insert(d);
                    }
                }
                _ => {}
            }
        }
    }

    fn add_fn(&mut self, f: FnSrc) {
        // nested fns inside bodies
        for s in &f.block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(n)) = s {
                self.fns.push(FnSrc {
                    file: f.file.clone(),
                    self_ty: None,
                    trait_: None,
 trait_full: None,
                    generics: Default::default(),
                    sig: n.sig.clone(),
                    block: (*n.block).clone(),
                    nested: Some(f.sig.ident.to_string()),
                    line: n.sig.ident.span().start().line,
                });
            }
        }
        self.fns.push(f);
    }

    /// `spec` is `file::Type::name`, `file::<Trait for Type>::name` or `file::name`, file relative to the repository.
    pub fn find_fn(&self, spec: &str) -> Result<FnSrc, String> {
        let (file, rest) = spec.split_once(".rs::").ok_or(format!("bad path {spec}"))?;
        let file = format!("{file}.rs");
        let (ty, tr, name) = if let Some(r) = rest.strip_prefix('<') {
            let (a, n) = r.split_once(">::").ok_or("bad")?;
            let (t, s) = a.split_once(" for ").ok_or("bad")?;
            (Some(s.trim().to_string()), Some(t.trim().to_string()), n.to_string())
        } else if let Some((t, n)) = rest.rsplit_once("::") {
            (Some(t.to_string()), None, n.to_string())
        } else {
            (None, None, rest.to_string())
        };
        let pick = |same_file: bool| -> Vec<FnSrc> {
            self.fns
                .iter()
                .filter(|f| {
                    (!same_file || f.file == file)
                        && f.sig.ident == name
                        && (f.self_ty == ty || ty.is_some() && f.self_ty.as_ref().map(|x| x.replace(' ', "")) == ty.as_ref().map(|x| x.replace(' ', "")))
                        && (tr.is_none() || f.trait_ == tr || f.trait_full == tr.as_ref().map(|x| x.replace(' ', "")))
                        && (tr.is_some() || f.trait_.is_none() || f.self_ty.is_some())
                })
                .cloned()
                .collect()
        };
        let mut v = pick(true);
        if v.is_empty() {
            v = pick(false); // moved to another file of the same roots
        }
        if v.len() > 1 {
            let w: Vec<FnSrc> = v.iter().filter(|f| f.trait_.is_none()).cloned().collect();
            if w.len() == 1 {
                v = w;
            }
            // an impl for a reference to the type (`impl<'a> X for &'a T`) is not the one meant
            let w: Vec<FnSrc> = v.iter().filter(|f| f.generics.lifetimes().next().is_none()).cloned().collect();
            if w.len() == 1 {
                v = w;
            }
        }
        match v.len() {
            1 => Ok(v.pop().unwrap()),
            0 => Err(format!("anchor lost: no function {spec}")),
            n => Err(format!("anchor ambiguous: {n} functions {spec}")),
        }
    }
}

fn walk(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    for e in rd.flatten() {
        let p = e.path();
        let n = e.file_name().to_string_lossy().to_string();
        if p.is_dir() {
            if matches!(n.as_str(), "tests" | "target" | "benchmarking" | "fuzz" | "mock" | "weights") {
                continue;
            }
            walk(&p, out);
        } else if n.ends_with(".rs") && !matches!(n.as_str(), "tests.rs" | "invariants.rs" | "mock.rs" | "benchmarking.rs" | "weights.rs" | "test_utils.rs" | "test_pow_accuracy.rs" | "test_data.rs") {
            out.push(p);
        }
    }
}
