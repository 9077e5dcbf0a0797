//! Light local type inference: just enough to know whether a combinator is called on an Option or a Result.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U,
    Never,
    P(String, Vec<Ty>),
    T(Vec<Ty>),
    R(Box<Ty>),
}

impl Ty {
    pub fn p(s: &str) -> Ty {
        Ty::P(s.into(), vec![])
    }
    pub fn opt(t: Ty) -> Ty {
        Ty::P("Option".into(), vec![t])
    }
    pub fn res(t: Ty, e: Ty) -> Ty {
        Ty::P("Result".into(), vec![t, e])
    }
    pub fn is(&self, n: &str) -> bool {
        matches!(self, Ty::P(s, _) if s == n)
    }
    pub fn strip(&self) -> &Ty {
        match self {
            Ty::R(t) => t.strip(),
            t => t,
        }
    }
    pub fn arg(&self, i: usize) -> Ty {
        match self {
            Ty::P(_, a) => a.get(i).cloned().unwrap_or(Ty::U),
            _ => Ty::U,
        }
    }
    pub fn name(&self) -> String {
        match self {
            Ty::P(s, _) => s.clone(),
            Ty::R(t) => t.name(),
            _ => String::new(),
        }
    }
}

pub fn from_syn(t: &syn::Type, alias: &HashMap<String, Ty>, self_ty: &str) -> Ty {
    match t {
        syn::Type::Path(p) => {
            let Some(s) = p.path.segments.last() else { return Ty::U };
            let n = s.ident.to_string();
            if n == "Self" && !self_ty.is_empty() {
                return Ty::p(self_ty);
            }
            let mut args = vec![];
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                for x in &a.args {
                    if let syn::GenericArgument::Type(t) = x {
                        args.push(from_syn(t, alias, self_ty));
                    }
                }
            }
            if args.is_empty() {
                if let Some(a) = alias.get(&n) {
                    return a.clone();
                }
            }
            if n == "DispatchResult" {
                return Ty::res(Ty::T(vec![]), Ty::p("DispatchError"));
            }
            Ty::P(n, args)
        }
        syn::Type::Reference(r) => Ty::R(Box::new(from_syn(&r.elem, alias, self_ty))),
        syn::Type::Tuple(t) => Ty::T(t.elems.iter().map(|x| from_syn(x, alias, self_ty)).collect()),
        syn::Type::Paren(p) => from_syn(&p.elem, alias, self_ty),
        syn::Type::Group(p) => from_syn(&p.elem, alias, self_ty),
        syn::Type::Slice(s) => Ty::P("Slice".into(), vec![from_syn(&s.elem, alias, self_ty)]),
        syn::Type::Array(s) => Ty::P("Slice".into(), vec![from_syn(&s.elem, alias, self_ty)]),
        syn::Type::Never(_) => Ty::Never,
        _ => Ty::U,
    }
}
