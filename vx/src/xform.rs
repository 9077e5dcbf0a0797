//! The mechanical rewriting that turns a repository function into a text Verus accepts.
use crate::index::{FnSrc, Index};
use crate::macros;
use crate::types::{from_syn, Ty};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Default)]
pub struct Unit {
    /// functions whose proof is retried with commutativity of products at hand
    pub comm: HashSet<String>,
    pub drop: HashSet<String>,
    pub subst: Vec<(String, Type)>,
    pub known_fns: HashSet<String>,
    pub known_consts: HashSet<String>,
    pub nogen: HashSet<String>,
    pub alias: HashMap<String, Ty>,
    pub fn_ret: HashMap<String, Ty>,
    pub fields: HashMap<(String, String), Ty>,
    pub callmap: HashMap<String, String>,
    pub storage: HashSet<String>,
    pub world_fns: HashSet<String>,
    pub plain: bool,
    pub refs: HashSet<String>,
}

pub struct Cx<'a> {
    pub ix: &'a Index,
    pub u: &'a Unit,
    pub f: FnSrc,
    pub env: Vec<HashMap<String, Ty>>,
    pub errs: Vec<String>,
    pub notes: BTreeSet<String>,
    pub consts: BTreeSet<(Option<String>, String)>,
    pub autos: Vec<String>,
    pub n: usize,
    pub ret: Ty,
    pub depth: usize,
    pub world: bool,
}

fn path_str(p: &Path) -> String {
    p.to_token_stream().to_string().replace(' ', "")
}
pub fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

// ---------------------------------------------------------------- macro expansion
pub struct Expander<'a> {
    pub ix: &'a Index,
    /// the source is a pallet: `ensure!` is FRAME's
    pub frame: bool,
    pub errs: Vec<String>,
    pub notes: BTreeSet<String>,
}
impl<'a> Expander<'a> {
    fn ex(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let full = path_str(&m.path);
        if let Some(d) = self.ix.macros.get(&name).filter(|_| !(self.frame && name == "ensure")) {
            match macros::expand(d, m.tokens.clone()) {
                Some(t) => {
                    self.notes.insert(format!("macro {name}! expanded"));
                    return Some(t);
                }
                None => {
                    self.errs.push(format!("macro {name}!: no rule matches"));
                    return Some(quote!(()));
                }
            }
        }
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
        match name.as_str() {
            "ensure" => {
                let a = args().ok()?;
                let (c, e) = (a.first()?, a.iter().nth(1)?);
                self.notes.insert("frame_support::ensure! expanded".into());
                Some(quote!(if !(#c) { return Err((#e).into()); }))
            }
            "debug_assert" | "debug_assert_eq" | "debug_assert_ne" | "println" | "defensive" | "log" => {
                self.notes.insert(format!("{name}! dropped"));
                Some(quote!(()))
            }
            _ if full.starts_with("log::") || full.starts_with("tracing::") => {
                self.notes.insert(format!("{full}! dropped"));
                Some(quote!(()))
            }
            "matches" => {
                let p = |s: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                    let e: Expr = s.parse()?;
                    let _: Token![,] = s.parse()?;
                    let p = Pat::parse_multi_with_leading_vert(s)?;
                    let g = if s.peek(Token![if]) {
                        let _: Token![if] = s.parse()?;
                        Some(s.parse()?)
                    } else {
                        None
                    };
                    Ok((e, p, g))
                };
                let (e, p, g) = parse::Parser::parse2(p, m.tokens.clone()).ok()?;
                Some(match g {
                    Some(g) => quote!(match #e { #p if #g => true, _ => false }),
                    None => quote!(match #e { #p => true, _ => false }),
                })
            }
            "unreachable" | "panic" | "unimplemented" | "todo" => Some(quote!(vx_panic())),
            "assert" => {
                let a = args().ok()?;
                let c = a.first()?;
                Some(quote!(vx_assert(#c)))
            }
            _ => None,
        }
    }
}
/// statements that the chain's binary does not contain
fn offline(s: &Stmt) -> bool {
    let at: &[Attribute] = match s {
        Stmt::Local(l) => &l.attrs,
        Stmt::Macro(m) => &m.attrs,
        Stmt::Expr(e, _) => match e {
            Expr::Call(c) => &c.attrs,
            Expr::MethodCall(c) => &c.attrs,
            Expr::Block(c) => &c.attrs,
            Expr::If(c) => &c.attrs,
            Expr::Macro(c) => &c.attrs,
            _ => &[],
        },
        _ => &[],
    };
    at.iter().any(|a| a.path().is_ident("cfg") && matches!(toks(&a.meta).replace(' ', "").as_str(), "cfg(feature=\"try-runtime\")" | "cfg(feature=\"runtime-benchmarks\")"))
}
impl<'a> VisitMut for Expander<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for _ in 0..8 {
            if let Expr::Macro(m) = e {
                if let Some(t) = self.ex(&m.mac) {
                    let r: Result<Expr> = parse2(t.clone()).or_else(|_| parse2(quote!({ #t })));
                    match r {
                        Ok(x) => {
                            *e = x;
                            continue;
                        }
                        Err(_) => self.errs.push(format!("macro expansion does not parse: {}", toks(&m.mac))),
                    }
                }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            if offline(&s) {
                self.notes.insert("statements compiled only with try-runtime or runtime-benchmarks dropped".into());
                continue;
            }
            match s {
                Stmt::Macro(m) => {
                    if let Some(t) = self.ex(&m.mac) {
                        let semi = m.semi_token.is_some();
                        if let Ok(x) = parse2::<Expr>(t.clone()) {
                            out.push(Stmt::Expr(x, if semi { Some(Default::default()) } else { None }));
                        } else if let Ok(bl) = parse2::<Block>(quote!({ #t })) {
                            out.extend(bl.stmts);
                        } else {
                            self.errs.push("macro statement does not parse".into());
                        }
                    } else {
                        let mm = m.mac;
                        out.push(Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: mm }), m.semi_token));
                    }
                }
                Stmt::Item(Item::Use(_)) | Stmt::Item(Item::Fn(_)) => {}
                s => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.attrs.clear();
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
}

// ---------------------------------------------------------------- generics and type substitution
pub struct Subst<'a> {
    pub u: &'a Unit,
    pub self_ty: Option<String>,
    /// file the text comes from (keys of the form `file.rs|Type` apply to that file only)
    pub file: String,
}
impl<'a> Subst<'a> {
    fn lookup(&self, s: &str) -> Option<Type> {
        if let Some((_, t)) = self.u.subst.iter().find(|(k, _)| k.split_once('|').map_or(false, |(f, k)| k == s && self.file.ends_with(f))) {
            return Some(t.clone());
        }
        self.u.subst.iter().find(|(k, _)| k == s).map(|(_, t)| t.clone())
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                let keep: Vec<GenericArgument> = a
                    .args
                    .iter()
                    .filter(|g| match g {
                        GenericArgument::Type(Type::Path(t)) => {
                            !(t.qself.is_none() && t.path.get_ident().map_or(false, |i| self.u.drop.contains(&i.to_string())))
                        }
                        _ => true,
                    })
                    .cloned()
                    .collect();
                if keep.is_empty() {
                    s.arguments = PathArguments::None;
                } else {
                    a.args = keep.into_iter().collect();
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
        // longest matching prefix
        let n = p.segments.len();
        for k in (1..=n).rev() {
            let pre: Vec<String> = p.segments.iter().take(k).map(|s| toks(s).replace(' ', "")).collect();
            if let Some(t) = self.lookup(&pre.join("::")) {
                if let Type::Path(tp) = &t {
                    let mut np = tp.path.clone();
                    for s in p.segments.iter().skip(k) {
                        np.segments.push(s.clone());
                    }
                    *p = np;
                    return;
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = toks(t).replace(' ', "");
        if let Some(r) = self.lookup(&s) {
            *t = r;
            return;
        }
        visit_mut::visit_type_mut(self, t);
        let s = toks(t).replace(' ', "");
        if let Some(r) = self.lookup(&s) {
            *t = r;
        }
    }
    fn visit_expr_path_mut(&mut self, e: &mut ExprPath) {
        // <X<T>>::f(..)  and  <T as Config>::X::f
        if let Some(q) = &e.qself {
            let mut ty = (*q.ty).clone();
            self.visit_type_mut(&mut ty);
            let s = toks(&ty).replace(' ', "");
            if q.as_token.is_none() {
                if let Type::Path(tp) = &ty {
                    let mut np = tp.path.clone();
                    for seg in e.path.segments.iter() {
                        np.segments.push(seg.clone());
                    }
                    e.qself = None;
                    e.path = np;
                    self.visit_path_mut(&mut e.path);
                    return;
                }
            } else {
                let tr: Vec<String> = e.path.segments.iter().take(q.position).map(|s| toks(s).replace(' ', "")).collect();
                for k in (q.position..=e.path.segments.len()).rev() {
                    let mut key = format!("<{}as{}>", s, tr.join("::"));
                    for seg in e.path.segments.iter().take(k).skip(q.position) {
                        key.push_str("::");
                        key.push_str(&toks(seg).replace(' ', ""));
                    }
                    if let Some(Type::Path(tp)) = self.lookup(&key) {
                        let mut np = tp.path.clone();
                        for seg in e.path.segments.iter().skip(k) {
                            np.segments.push(seg.clone());
                        }
                        e.qself = None;
                        e.path = np;
                        return;
                    }
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, e);
    }
}

// ---------------------------------------------------------------- helpers
struct Underef(Ident);
impl VisitMut for Underef {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) && matches!(&*u.expr, Expr::Path(p) if p.path.is_ident(&self.0)) {
                *e = (*u.expr).clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn has_cont(b: &Block) -> bool {
    struct H(bool);
    impl<'a> Visit<'a> for H {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true;
        }
    }
    let mut h = H(false);
    h.visit_block(b);
    h.0
}
struct HasRet(bool, bool); // return/?, loop
impl<'ast> Visit<'ast> for HasRet {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => return,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.1 = true,
            _ => {}
        }
        visit::visit_expr(self, e);
    }
}
pub fn has_ret(e: &Expr) -> bool {
    let mut h = HasRet(false, false);
    h.visit_expr(e);
    h.0
}
fn stmts_has_ret(s: &[Stmt]) -> bool {
    let mut h = HasRet(false, false);
    for x in s {
        h.visit_stmt(x);
    }
    h.0
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        e => e,
    }
}

/// Turns a body with early exits (`return`, `?`) into one expression without them.
pub struct Elim {
    pub kind: String, // "Option" | "Result" | ""
    pub n: usize,
    pub pre: String,
    pub conv: bool,
}
impl Elim {
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("{}{}", self.pre, self.n)
    }
    fn wrap(&mut self, hs: Vec<(Ident, Expr)>, mut k: Expr) -> std::result::Result<Expr, String> {
        for (v, x) in hs.into_iter().rev() {
            k = match self.kind.as_str() {
                "Option" => parse_quote!(match #x { Some(#v) => #k, None => None }),
                "Result" => {
                    let ev = self.fresh();
                    if self.conv {
                        parse_quote!(match #x { Ok(#v) => #k, Err(#ev) => Err(#ev.into()) })
                    } else {
                        parse_quote!(match #x { Ok(#v) => #k, Err(#ev) => Err(#ev) })
                    }
                }
                _ => return Err("early exit in a body whose type is not known".into()),
            };
        }
        Ok(k)
    }
    fn hoist(&mut self, e: &mut Expr, hs: &mut Vec<(Ident, Expr)>) -> std::result::Result<(), String> {
        if !has_ret(e) {
            return Ok(());
        }
        match e {
            Expr::Try(t) => {
                self.hoist(&mut t.expr, hs)?;
                let v = self.fresh();
                hs.push((v.clone(), (*t.expr).clone()));
                *e = parse_quote!(#v);
            }
            Expr::MethodCall(m) => {
                self.hoist(&mut m.receiver, hs)?;
                for a in m.args.iter_mut() {
                    self.hoist(a, hs)?;
                }
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.hoist(a, hs)?;
                }
            }
            Expr::Paren(p) => self.hoist(&mut p.expr, hs)?,
            Expr::Group(p) => self.hoist(&mut p.expr, hs)?,
            Expr::Reference(p) => self.hoist(&mut p.expr, hs)?,
            Expr::Unary(p) => self.hoist(&mut p.expr, hs)?,
            Expr::Cast(p) => self.hoist(&mut p.expr, hs)?,
            Expr::Field(p) => self.hoist(&mut p.base, hs)?,
            Expr::Binary(b) => {
                if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) && has_ret(&b.right) {
                    return Err("? under a short-circuit operator".into());
                }
                self.hoist(&mut b.left, hs)?;
                self.hoist(&mut b.right, hs)?;
            }
            Expr::Index(b) => {
                self.hoist(&mut b.expr, hs)?;
                self.hoist(&mut b.index, hs)?;
            }
            Expr::Tuple(t) => {
                for a in t.elems.iter_mut() {
                    self.hoist(a, hs)?;
                }
            }
            Expr::Struct(s) => {
                for a in s.fields.iter_mut() {
                    self.hoist(&mut a.expr, hs)?;
                }
            }
            Expr::Assign(a) => self.hoist(&mut a.right, hs)?,
            Expr::Match(m) => {
                // only the scrutinee may exit
                if m.arms.iter().any(|a| has_ret(&a.body)) {
                    return Err("early exit inside a nested match".into());
                }
                self.hoist(&mut m.expr, hs)?;
            }
            _ => return Err(format!("early exit inside unsupported expression: {}", toks(e))),
        }
        Ok(())
    }
    pub fn tail(&mut self, e: &Expr) -> std::result::Result<Expr, String> {
        match e {
            Expr::Return(r) => match &r.expr {
                Some(x) => self.tail(x),
                None => Ok(parse_quote!(())),
            },
            Expr::Paren(p) => self.tail(&p.expr),
            Expr::Block(b) => self.block(&b.block.stmts),
            Expr::If(i) if has_ret(e) => {
                let mut c = (*i.cond).clone();
                let mut hs = vec![];
                if let Expr::Let(l) = &mut c {
                    self.hoist(&mut l.expr, &mut hs)?;
                } else {
                    self.hoist(&mut c, &mut hs)?;
                }
                let t = self.block(&i.then_branch.stmts)?;
                let f = match &i.else_branch {
                    Some((_, x)) => self.tail(x)?,
                    None => parse_quote!(()),
                };
                self.wrap(hs, parse_quote!(if #c { #t } else { #f }))
            }
            Expr::Match(m) if has_ret(e) => {
                let mut m = m.clone();
                let mut hs = vec![];
                self.hoist(&mut m.expr, &mut hs)?;
                for a in m.arms.iter_mut() {
                    let b = self.tail(&a.body)?;
                    a.body = Box::new(b);
                    a.comma = Some(Default::default());
                }
                self.wrap(hs, Expr::Match(m))
            }
            e => {
                let mut x = e.clone();
                let mut hs = vec![];
                self.hoist(&mut x, &mut hs)?;
                self.wrap(hs, x)
            }
        }
    }
    pub fn block(&mut self, stmts: &[Stmt]) -> std::result::Result<Expr, String> {
        if !stmts_has_ret(stmts) {
            return Ok(parse_quote!({ #(#stmts)* }));
        }
        let Some(first) = stmts.first() else { return Ok(parse_quote!(())) };
        let rest = &stmts[1..];
        match first {
            Stmt::Expr(e, None) if rest.is_empty() => self.tail(e),
            Stmt::Expr(Expr::Return(r), _) => match &r.expr {
                Some(x) => self.tail(x),
                None => Ok(parse_quote!(())),
            },
            Stmt::Local(l) => {
                let mut hs = vec![];
                let mut l = l.clone();
                if let Some(i) = &mut l.init {
                    self.hoist(&mut i.expr, &mut hs)?;
                    if let Some((_, d)) = &i.diverge {
                        let p = &l.pat;
                        let x = &i.expr;
                        let d = self.tail(d)?;
                        let k = self.block(rest)?;
                        return self.wrap(hs, parse_quote!(match #x { #p => #k, _ => #d }));
                    }
                }
                let k = self.block(rest)?;
                self.wrap(hs, parse_quote!({ #l #k }))
            }
            Stmt::Expr(Expr::If(i), _) if has_ret(&Expr::If(i.clone())) => {
                let mut c = (*i.cond).clone();
                let mut hs = vec![];
                if let Expr::Let(l) = &mut c {
                    self.hoist(&mut l.expr, &mut hs)?;
                } else {
                    self.hoist(&mut c, &mut hs)?;
                }
                let mut t: Vec<Stmt> = i.then_branch.stmts.clone();
                if !ends_with_return(&t) {
                    t.extend(rest.iter().cloned());
                }
                let t = self.block(&t)?;
                let mut f: Vec<Stmt> = match &i.else_branch {
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => b.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), Some(Default::default()))],
                    },
                    None => vec![],
                };
                if !ends_with_return(&f) {
                    f.extend(rest.iter().cloned());
                }
                let f = self.block(&f)?;
                self.wrap(hs, parse_quote!(if #c { #t } else { #f }))
            }
            Stmt::Expr(Expr::Match(m), _) if m.arms.iter().any(|a| has_ret(&a.body)) => {
                let mut m = m.clone();
                let mut hs = vec![];
                self.hoist(&mut m.expr, &mut hs)?;
                for a in m.arms.iter_mut() {
                    let mut s: Vec<Stmt> = match &*a.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), Some(Default::default()))],
                    };
                    if !ends_with_return(&s) {
                        s.extend(rest.iter().cloned());
                    }
                    a.body = Box::new(self.block(&s)?);
                    a.comma = Some(Default::default());
                }
                self.wrap(hs, Expr::Match(m))
            }
            Stmt::Expr(e, semi) => {
                let mut x = e.clone();
                let mut hs = vec![];
                self.hoist(&mut x, &mut hs)?;
                let k = self.block(rest)?;
                let _ = semi;
                self.wrap(hs, parse_quote!({ #x; #k }))
            }
            s => {
                let k = self.block(rest)?;
                Ok(parse_quote!({ #s #k }))
            }
        }
    }
}
fn ends_with_return(s: &[Stmt]) -> bool {
    matches!(s.last(), Some(Stmt::Expr(Expr::Return(_), _)))
}

// ---------------------------------------------------------------- iterator chains
enum Ad {
    Enumerate,
    Map(Expr),
    Filter(Expr),
    FilterMap(Expr),
    Take(Expr),
    Skip(Expr),
    Copied,
    Rev,
    Zip(Expr),
}
struct Chain {
    base: Expr,
    range: bool,
    ads: Vec<Ad>,
}

impl<'a> Cx<'a> {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("__{}{}", p, self.n)
    }
    fn bind_name(&mut self, n: &str, t: Ty) {
        self.env.last_mut().unwrap().insert(n.to_string(), t);
    }
    pub fn bind(&mut self, p: &Pat, t: &Ty) {
        match p {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                    self.bind_name(&n, t.clone());
                }
            }
            Pat::Type(pt) => {
                let t = self.syn_ty(&pt.ty);
                self.bind(&pt.pat, &t);
            }
            Pat::Tuple(pt) => {
                for (i, x) in pt.elems.iter().enumerate() {
                    let ti = match t.strip() {
                        Ty::T(v) => v.get(i).cloned().unwrap_or(Ty::U),
                        _ => Ty::U,
                    };
                    self.bind(x, &ti);
                }
            }
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                for x in ts.elems.iter() {
                    let ti = match n.as_str() {
                        "Some" | "Ok" => t.strip().arg(0),
                        "Err" => t.strip().arg(1),
                        _ => Ty::U,
                    };
                    self.bind(x, &ti);
                }
            }
            Pat::Reference(r) => self.bind(&r.pat, &t.strip().clone()),
            Pat::Paren(r) => self.bind(&r.pat, t),
            Pat::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                for f in &s.fields {
                    let ft = if let Member::Named(i) = &f.member { self.field_ty(&n, &i.to_string()) } else { Ty::U };
                    self.bind(&f.pat, &ft);
                }
            }
            _ => {}
        }
    }
    fn field_ty(&self, ty: &str, f: &str) -> Ty {
        self.u.fields.get(&(ty.to_string(), f.to_string())).cloned().unwrap_or(Ty::U)
    }
    pub fn syn_ty(&self, t: &Type) -> Ty {
        from_syn(t, &self.u.alias, self.f.self_ty.as_deref().unwrap_or(""))
    }
    fn lookup(&self, n: &str) -> Ty {
        for s in self.env.iter().rev() {
            if let Some(t) = s.get(n) {
                return t.clone();
            }
        }
        Ty::U
    }
    /// arguments that themselves use the state are evaluated before the state is borrowed for the call
    fn hoist_world(&mut self, args: &mut syn::punctuated::Punctuated<Expr, Token![,]>) -> Vec<Stmt> {
        let uses = |a: &Expr| matches!(unparen(a), Expr::Call(c) if c.args.iter().any(|x| matches!(x, Expr::Path(p) if p.path.is_ident("w"))));
        if !self.world || !args.iter().any(uses) {
            return vec![];
        }
        let mut v = vec![];
        for a in args.iter_mut() {
            let n = self.fresh("a");
            let x = a.clone();
            v.push(parse_quote!(let #n = #x;));
            *a = parse_quote!(#n);
        }
        v
    }
    fn fn_ret(&self, key: &str) -> Option<Ty> {
        self.u.fn_ret.get(key).cloned()
    }

    pub fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if !i.suffix().is_empty() => Ty::p(i.suffix()),
                Lit::Bool(_) => Ty::p("bool"),
                _ => Ty::U,
            },
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let t = self.lookup(&i.to_string());
                    if t == Ty::U {
                        if let Some((_, _, c)) = self.ix.consts.iter().find(|(_, s, c)| s.is_none() && c.ident == *i) {
                            return self.syn_ty(&c.ty);
                        }
                        if i == "None" {
                            return Ty::opt(Ty::U);
                        }
                    }
                    return t;
                }
                let s = path_str(&p.path);
                let (q, l) = s.rsplit_once("::").unwrap_or(("", &s));
                let q = q.rsplit("::").next().unwrap_or("");
                let q = if q == "Self" { self.f.self_ty.clone().unwrap_or_default() } else { q.to_string() };
                if l.ends_with("_NBITS") || l == "BITS" {
                    return Ty::p("u32");
                }
                if l == "MAX" || l == "MIN" {
                    return self.u.alias.get(&q).cloned().unwrap_or(Ty::p(&q));
                }
                if q.chars().next().map_or(false, |c| c.is_uppercase()) {
                    return Ty::p(&q);
                }
                Ty::U
            }
            Expr::Reference(r) => Ty::R(Box::new(self.ty(&r.expr))),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => match self.ty(&u.expr) {
                    Ty::R(t) => *t,
                    t => t,
                },
                _ => self.ty(&u.expr),
            },
            Expr::Binary(b) => match b.op {
                BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_)
                | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_) => match self.ty(&b.left) {
                    Ty::U => self.ty(&b.right),
                    t => t.strip().clone(),
                },
                _ => Ty::p("bool"),
            },
            Expr::Cast(c) => self.syn_ty(&c.ty),
            Expr::Tuple(t) => Ty::T(t.elems.iter().map(|x| self.ty(x)).collect()),
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                if n == "Self" {
                    Ty::p(self.f.self_ty.as_deref().unwrap_or(""))
                } else {
                    Ty::p(&n)
                }
            }
            Expr::Field(f) => {
                let t = self.ty(&f.base);
                match &f.member {
                    Member::Named(i) => {
                        let n = t.name();
                        self.field_ty(&n, &i.to_string())
                    }
                    Member::Unnamed(i) => match t.strip() {
                        Ty::T(v) => v.get(i.index as usize).cloned().unwrap_or(Ty::U),
                        t => self.field_ty(&t.name(), &i.index.to_string()),
                    },
                }
            }
            Expr::Try(t) => self.ty(&t.expr).arg(0),
            Expr::If(i) => {
                let t = self.block_ty(&i.then_branch);
                if known(&t) {
                    return t;
                }
                match &i.else_branch {
                    Some((_, e)) => self.ty(e),
                    None => t,
                }
            }
            Expr::Match(m) => {
                let st = self.ty(&m.expr);
                let mut best = Ty::U;
                for a in &m.arms {
                    let mut cx = self.fork();
                    cx.bind(&a.pat, &st);
                    let t = cx.ty(&a.body);
                    if known(&t) {
                        return t;
                    }
                    if best == Ty::U || best == Ty::Never {
                        best = t;
                    }
                }
                best
            }
            Expr::Block(b) => self.block_ty(&b.block),
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => Ty::Never,
            Expr::Index(i) => {
                let t = self.ty(&i.expr);
                match t.strip() {
                    Ty::P(n, a) if (n == "Vec" || n == "Slice" || n == "BoundedVec") && !a.is_empty() => a[0].clone(),
                    _ => Ty::U,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = unparen(&c.func) else { return Ty::U };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let last = segs.last().unwrap().clone();
                let q = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
                let q = if q == "Self" { self.f.self_ty.clone().unwrap_or_default() } else { q };
                let a0 = c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::U);
                match (q.as_str(), last.as_str()) {
                    ("", "Some") => return Ty::opt(a0),
                    ("", "Ok") => return Ty::res(a0, Ty::U),
                    ("", "Err") => return Ty::res(Ty::U, a0),
                    _ => {}
                }
                if !q.is_empty() {
                    if let Some(t) = self.fn_ret(&format!("{q}::{last}")) {
                        return t;
                    }
                }
                if let Some(t) = self.fn_ret(&last) {
                    if q.is_empty() || q.chars().next().map_or(false, |c| c.is_lowercase()) || q == "Pallet" {
                        return t;
                    }
                }
                let qt = self.u.alias.get(&q).cloned().unwrap_or(Ty::p(&q));
                match last.as_str() {
                    "from" | "one" | "zero" | "new" | "default" | "max_value" | "min_value" | "from_inner" | "from_parts"
                    | "from_percent" | "saturating_from_integer" | "saturating_from_rational" | "from_rational" | "saturated_from"
                    | "unique_saturated_from" | "from_u32" | "from_num" | "from_bits"
                        if !q.is_empty() =>
                    {
                        qt
                    }
                    "try_from" => Ty::res(qt, Ty::U),
                    _ if last.starts_with("checked_") && !q.is_empty() => Ty::opt(qt),
                    "min" | "max" if c.args.len() == 2 => a0,
                    _ => {
                        // any function of the repository with that name
                        let mut r = None;
                        for f in self.ix.fns.iter().filter(|f| f.sig.ident == last) {
                            if let ReturnType::Type(_, t) = &f.sig.output {
                                r = Some(from_syn(t, &self.u.alias, f.self_ty.as_deref().unwrap_or("")));
                            }
                        }
                        r.unwrap_or(Ty::U)
                    }
                }
            }
            Expr::MethodCall(m) => {
                let rt = self.ty(&m.receiver);
                let r = rt.strip().clone();
                let n = m.method.to_string();
                let a0 = m.args.first().map(|a| self.ty(a)).unwrap_or(Ty::U);
                if let Some(t) = self.fn_ret(&format!("{}::{}", r.name(), n)) {
                    return t;
                }
                match n.as_str() {
                    "checked_mul_int" => Ty::opt(a0),
                    "saturating_mul_int" => a0,
                    "ok_or" => Ty::res(r.arg(0), a0),
                    "ok_or_else" => Ty::res(r.arg(0), Ty::U),
                    "ok" => Ty::opt(r.arg(0)),
                    "err" => Ty::opt(r.arg(1)),
                    "unwrap" | "expect" | "unwrap_or" | "unwrap_or_default" | "unwrap_or_else" => r.arg(0),
                    "or" | "or_else" | "filter" if r.is("Option") => r,
                    "copied" | "cloned" => match r.arg(0) {
                        Ty::R(t) if r.is("Option") => Ty::opt(*t),
                        _ => r,
                    },
                    "is_some" | "is_none" | "is_ok" | "is_err" | "is_zero" | "is_one" | "contains" | "is_empty" | "eq" | "lt" | "gt"
                    | "le" | "ge" | "is_negative" | "is_positive" => Ty::p("bool"),
                    "len" => Ty::p("usize"),
                    "clone" | "to_owned" | "min" | "max" | "abs" | "reciprocal" | "div" | "add" | "sub" | "mul" | "rem" | "abs_diff"
                    | "pow" | "clamp" | "integer_sqrt" | "inverted" | "one_minus" => r,
                    "to_vec" => Ty::P("Vec".into(), vec![r.arg(0)]),
                    "get" | "first" | "last" if r.is("Vec") || r.is("Slice") || r.is("BoundedVec") => Ty::opt(Ty::R(Box::new(r.arg(0)))),
                    "pop" => Ty::opt(r.arg(0)),
                    "as_u128" => Ty::p("u128"),
                    "as_u32" | "low_u32" => Ty::p("u32"),
                    "full_mul" => Ty::p("U512"),
                    "try_into" => Ty::res(Ty::U, Ty::U),
                    "into_inner" | "deconstruct" if r.is("FixedU128") => Ty::p("u128"),
                    "cmp" => Ty::p("Ordering"),
                    "partial_cmp" => Ty::opt(Ty::p("Ordering")),
                    _ if n.starts_with("saturating_") || n.starts_with("wrapping_") => r,
                    "checked_add_into" | "checked_mul_into" => Ty::opt(Ty::p("U256")),
                    _ if n.starts_with("checked_") || n == "ensure_add" => Ty::opt(r),
                    _ if n.starts_with("overflowing_") => Ty::T(vec![r, Ty::p("bool")]),
                    "map_err" => Ty::res(r.arg(0), Ty::U),
                    _ => Ty::U,
                }
            }
            _ => Ty::U,
        }
    }
    fn fork(&self) -> Cx<'a> {
        Cx {
            ix: self.ix,
            u: self.u,
            f: self.f.clone(),
            env: {
                let mut e = self.env.clone();
                e.push(HashMap::new());
                e
            },
            errs: vec![],
            notes: BTreeSet::new(),
            consts: BTreeSet::new(),
            autos: vec![],
            n: self.n,
            ret: self.ret.clone(),
            depth: self.depth,
            world: self.world,
        }
    }
    fn block_ty(&self, b: &Block) -> Ty {
        let mut cx = self.fork();
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    let t = l.init.as_ref().map(|i| cx.ty(&i.expr)).unwrap_or(Ty::U);
                    cx.bind(&l.pat, &t);
                }
                Stmt::Expr(e, None) => return cx.ty(e),
                Stmt::Expr(Expr::Return(_), _) => return Ty::Never,
                _ => {}
            }
        }
        Ty::T(vec![])
    }

    // ------------------------------------------------------------ closures
    /// The closure `c` applied to `arg` (an expression), as an expression without early exits.
    fn apply(&mut self, c: &Expr, args: Vec<(Expr, Ty)>) -> std::result::Result<Expr, String> {
        match unparen(c) {
            Expr::Closure(cl) => {
                let mut cl = cl.clone();
                self.env.push(HashMap::new());
                let mut lets: Vec<Stmt> = vec![];
                if cl.inputs.len() != args.len() {
                    self.env.pop();
                    return Err("closure arity".into());
                }
                for (p, (a, t)) in cl.inputs.iter().zip(args.iter()) {
                    self.bind(p, t);
                    let (pat, tyann): (Pat, Option<Type>) = match p {
                        Pat::Type(pt) => ((*pt.pat).clone(), Some((*pt.ty).clone())),
                        p => (p.clone(), None),
                    };
                    match (&pat, tyann) {
                        (Pat::Wild(_), _) => {}
                        (Pat::Ident(i), None) if i.by_ref.is_none() && toks(a) == i.ident.to_string() => {}
                        (Pat::Tuple(pt), None) if matches!(t, Ty::R(_)) || matches!(a, Expr::Reference(_)) => {
                            // tuple pattern matched through a reference
                            for (k, x) in pt.elems.iter().enumerate() {
                                let k = syn::Index::from(k);
                                let inner: Expr = match a {
                                    Expr::Reference(r) => (*r.expr).clone(),
                                    a => a.clone(),
                                };
                                match x {
                                    Pat::Wild(_) => {}
                                    x => lets.push(parse_quote!(let #x = &(#inner.#k);)),
                                }
                            }
                        }
                        (p, None) => lets.push(parse_quote!(let #p = #a;)),
                        (p, Some(t)) => lets.push(parse_quote!(let #p: #t = #a;)),
                    }
                }
                if cl.inputs.iter().any(|p| matches!(p, Pat::Tuple(_))) {
                    // element types were bound above
                }
                self.expr(&mut cl.body);
                let mut body = (*cl.body).clone();
                if has_ret(&body) {
                    let mut t = match &cl.output {
                        ReturnType::Type(_, t) => self.syn_ty(t).name(),
                        _ => String::new(),
                    };
                    if t.is_empty() {
                        t = self.ty(&body).name();
                    }
                    if t != "Option" && t != "Result" {
                        self.env.pop();
                        return Err("type of a closure with ? is not known".into());
                    }
                    let pre = format!("__q{}_", self.n);
                    self.n += 1;
                    let mut el = Elim { kind: t, n: 0, pre, conv: false };
                    body = el.tail(&body)?;
                }
                self.env.pop();
                if lets.is_empty() {
                    Ok(body)
                } else {
                    match body {
                        Expr::Block(b) => {
                            let s = &b.block.stmts;
                            Ok(parse_quote!({ #(#lets)* #(#s)* }))
                        }
                        b => Ok(parse_quote!({ #(#lets)* #b })),
                    }
                }
            }
            Expr::Path(_) => {
                let a: Vec<Expr> = args.into_iter().map(|(a, _)| a).collect();
                let mut call: Expr = parse_quote!(#c(#(#a),*));
                self.expr(&mut call);
                Ok(call)
            }
            _ => Err("combinator argument is neither a closure nor a path".into()),
        }
    }

    fn fail(&mut self, s: String) {
        self.errs.push(s);
    }

    /// name to use for the payload: the closure's own parameter when it is a plain identifier
    fn param(&mut self, c: &Expr) -> Ident {
        if let Expr::Closure(cl) = unparen(c) {
            if let Some(Pat::Ident(i)) = cl.inputs.first() {
                if i.by_ref.is_none() && i.mutability.is_none() {
                    return i.ident.clone();
                }
            }
        }
        self.fresh("v")
    }

    fn combinator(&mut self, m: &mut ExprMethodCall) -> Option<Expr> {
        let n = m.method.to_string();
        if !matches!(
            n.as_str(),
            "map" | "and_then" | "map_err" | "ok_or_else" | "unwrap_or_else" | "map_or" | "map_or_else" | "filter" | "is_some_and" | "or_else"
                | "unwrap_or_default" | "unwrap_or" | "ok_or" | "defensive_ok_or" | "is_ok_and"
        ) {
            return None;
        }
        let rt = self.ty(&m.receiver).strip().clone();
        let mut k = match &rt {
            Ty::P(s, _) if s == "Option" || s == "Result" => s.clone(),
            _ => String::new(),
        };
        let r = &m.receiver;
        if k.is_empty() {
            k = match n.as_str() {
                "map_err" | "or_else" => "Result".into(),
                "ok_or_else" | "filter" | "is_some_and" | "defensive_ok_or" | "ok_or" => "Option".into(),
                "unwrap_or" | "unwrap_or_default" => return None,
                _ => {
                    // guess from the closure: and_then's closure has the same kind
                    let mut g = String::new();
                    if n == "and_then" {
                        if let Some(Expr::Closure(c)) = m.args.first() {
                            let t = self.ty(&c.body);
                            if t.is("Option") || t.is("Result") {
                                g = t.name();
                            }
                        }
                    }
                    if g.is_empty() {
                        if let Ty::P(s, _) = &self.ret {
                            if s == "Option" || s == "Result" {
                                g = s.clone();
                                self.notes.insert(format!("kind of .{n}() receiver guessed as {g}"));
                            }
                        }
                    }
                    if g.is_empty() {
                        g = "Option".into();
                    }
                    g
                }
            };
        }
        let opt = k == "Option";
        let t0 = rt.arg(0);
        let a = m.args.first().cloned();
        let ev = self.fresh("e");
        let res: std::result::Result<Expr, String> = (|| {
            Ok(match (n.as_str(), opt) {
                ("map", true) => {
                    let c = a.unwrap();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    parse_quote!(match #r { Some(#v) => Some(#b), None => None })
                }
                ("map", false) => {
                    let c = a.unwrap();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    parse_quote!(match #r { Ok(#v) => Ok(#b), Err(#ev) => Err(#ev) })
                }
                ("and_then", true) => {
                    let c = a.unwrap();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    parse_quote!(match #r { Some(#v) => #b, None => None })
                }
                ("and_then", false) => {
                    let c = a.unwrap();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    parse_quote!(match #r { Ok(#v) => #b, Err(#ev) => Err(#ev) })
                }
                ("map_err", _) => {
                    let c = a.unwrap();
                    let v = self.fresh("v");
                    let b = self.apply(&c, vec![(parse_quote!(#ev), rt.arg(1))])?;
                    parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => Err(#b) })
                }
                ("ok_or_else", _) => {
                    let v = self.fresh("v");
                    let b = self.apply(&a.unwrap(), vec![])?;
                    parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
                }
                ("defensive_ok_or", _) => {
                    let v = self.fresh("v");
                    let mut b = a.unwrap();
                    if let Some(GenericArgument::Type(t)) = m.turbofish.as_ref().and_then(|t| t.args.first()) {
                        let ev = self.fresh("e");
                        b = parse_quote!({ let #ev: #t = #b; #ev });
                    }
                    parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
                }
                ("ok_or", _) => {
                    let v = self.fresh("v");
                    let b = a.unwrap();
                    parse_quote!(match #r { Some(#v) => Ok(#v), None => Err(#b) })
                }
                ("or_else", true) => {
                    let v = self.fresh("v");
                    let b = self.apply(&a.unwrap(), vec![])?;
                    parse_quote!(match #r { Some(#v) => Some(#v), None => #b })
                }
                ("or_else", false) => {
                    let v = self.fresh("v");
                    let b = self.apply(&a.unwrap(), vec![(parse_quote!(#ev), rt.arg(1))])?;
                    parse_quote!(match #r { Ok(#v) => Ok(#v), Err(#ev) => #b })
                }
                ("unwrap_or_else", true) => {
                    let v = self.fresh("v");
                    let b = self.apply(&a.unwrap(), vec![])?;
                    parse_quote!(match #r { Some(#v) => #v, None => #b })
                }
                ("unwrap_or_else", false) => {
                    let v = self.fresh("v");
                    let b = self.apply(&a.unwrap(), vec![(parse_quote!(#ev), rt.arg(1))])?;
                    parse_quote!(match #r { Ok(#v) => #v, Err(#ev) => #b })
                }
                ("unwrap_or", true) => {
                    let v = self.fresh("v");
                    let b = a.unwrap();
                    parse_quote!(match #r { Some(#v) => #v, None => #b })
                }
                ("unwrap_or", false) => {
                    let v = self.fresh("v");
                    let b = a.unwrap();
                    parse_quote!(match #r { Ok(#v) => #v, Err(#ev) => #b })
                }
                ("unwrap_or_default", true) => {
                    let v = self.fresh("v");
                    parse_quote!(match #r { Some(#v) => #v, None => Default::default() })
                }
                ("unwrap_or_default", false) => {
                    let v = self.fresh("v");
                    parse_quote!(match #r { Ok(#v) => #v, Err(#ev) => Default::default() })
                }
                ("map_or", _) => {
                    let d = a.unwrap();
                    let c = m.args[1].clone();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    if opt {
                        parse_quote!(match #r { Some(#v) => #b, None => #d })
                    } else {
                        parse_quote!(match #r { Ok(#v) => #b, Err(#ev) => #d })
                    }
                }
                ("map_or_else", _) => {
                    let c = m.args[1].clone();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    if opt {
                        let d = self.apply(&a.unwrap(), vec![])?;
                        parse_quote!(match #r { Some(#v) => #b, None => #d })
                    } else {
                        let d = self.apply(&a.unwrap(), vec![(parse_quote!(#ev), rt.arg(1))])?;
                        parse_quote!(match #r { Ok(#v) => #b, Err(#ev) => #d })
                    }
                }
                ("filter", _) => {
                    let c = a.unwrap();
                    let v = self.fresh("v");
                    let b = self.apply(&c, vec![(parse_quote!(&#v), Ty::R(Box::new(t0)))])?;
                    parse_quote!(match #r { Some(#v) => if #b { Some(#v) } else { None }, None => None })
                }
                ("is_some_and", _) | ("is_ok_and", _) => {
                    let c = a.unwrap();
                    let v = self.param(&c);
                    let b = self.apply(&c, vec![(parse_quote!(#v), t0)])?;
                    if opt {
                        parse_quote!(match #r { Some(#v) => #b, None => false })
                    } else {
                        parse_quote!(match #r { Ok(#v) => #b, Err(#ev) => false })
                    }
                }
                _ => return Err(format!("combinator {n}")),
            })
        })();
        match res {
            Ok(e) => {
                self.notes.insert("combinators with closures rewritten to match".into());
                Some(e)
            }
            Err(s) => {
                self.fail(s);
                None
            }
        }
    }

    // ------------------------------------------------------------ chains
    fn chain(&self, e: &Expr) -> Option<Chain> {
        match unparen(e) {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if matches!(n.as_str(), "iter" | "into_iter") {
                    if let Some(mut c) = self.chain(&m.receiver) {
                        // e.g. (a..b).into_iter()
                        if c.ads.is_empty() && c.range {
                            return Some(std::mem::replace(&mut c, Chain { base: parse_quote!(()), range: true, ads: vec![] }));
                        }
                    }
                    if n == "into_iter" {
                        let t = self.ty(&m.receiver);
                        let by_ref = matches!(t, Ty::R(_));
                        let mut ads = vec![];
                        if !by_ref {
                            ads.push(Ad::Copied);
                        }
                        return Some(Chain { base: (*m.receiver).clone(), range: false, ads });
                    }
                    return Some(Chain { base: (*m.receiver).clone(), range: false, ads: vec![] });
                }
                let mut c = self.chain(&m.receiver)?;
                let a = m.args.first().cloned();
                match n.as_str() {
                    "enumerate" => c.ads.push(Ad::Enumerate),
                    "map" => c.ads.push(Ad::Map(a?)),
                    "filter" => c.ads.push(Ad::Filter(a?)),
                    "filter_map" => c.ads.push(Ad::FilterMap(a?)),
                    "take" => c.ads.push(Ad::Take(a?)),
                    "skip" => c.ads.push(Ad::Skip(a?)),
                    "copied" | "cloned" => c.ads.push(Ad::Copied),
                    "rev" => c.ads.push(Ad::Rev),
                    "zip" => c.ads.push(Ad::Zip(a?)),
                    _ => return None,
                }
                Some(c)
            }
            Expr::Range(r) if r.start.is_some() && r.end.is_some() => Some(Chain { base: unparen(e).clone(), range: true, ads: vec![] }),
            Expr::Reference(r) if r.mutability.is_none() => {
                let t = self.ty(&r.expr);
                if t.strip().is("Vec") || t.strip().is("Slice") || t.strip().is("BoundedVec") {
                    Some(Chain { base: (*r.expr).clone(), range: false, ads: vec![] })
                } else {
                    None
                }
            }
            Expr::Path(_) | Expr::Field(_) => {
                let t = self.ty(e);
                if matches!(&t, Ty::R(_)) && (t.strip().is("Vec") || t.strip().is("Slice") || t.strip().is("BoundedVec")) {
                    Some(Chain { base: unparen(e).clone(), range: false, ads: vec![] })
                } else if t.is("Vec") || t.is("Slice") || t.is("BoundedVec") {
                    Some(Chain { base: unparen(e).clone(), range: false, ads: vec![Ad::Copied] })
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    /// `body` receives the element (expression, type) and yields statements.
    fn chain_loop(
        &mut self,
        c: Chain,
        body: &mut dyn FnMut(&mut Self, Expr, Ty) -> std::result::Result<Vec<Stmt>, String>,
    ) -> std::result::Result<Vec<Stmt>, String> {
        let k = self.fresh("k");
        let i = self.fresh("i");
        let mut pre: Vec<Stmt> = vec![];
        let (mut cur, mut ct, bound, auto): (Expr, Ty, Expr, String);
        let mut start: Expr = parse_quote!(0);
        let mut idx: Expr = parse_quote!(#i);
        let mut ads = c.ads.into_iter().peekable();
        if c.range {
            let Expr::Range(r) = &c.base else { unreachable!() };
            let (mut a, mut b) = (*r.start.clone().unwrap(), *r.end.clone().unwrap());
            self.expr(&mut a);
            self.expr(&mut b);
            let closed = matches!(r.limits, RangeLimits::Closed(_));
            if closed {
                return Err("closed range as iterator".into());
            }
            let t = self.ty(&b);
            ct = if t == Ty::U { self.ty(&a) } else { t };
            start = a;
            let bn = self.fresh("n");
            pre.push(parse_quote!(let #bn = #b;));
            bound = parse_quote!(#bn);
            cur = parse_quote!(#i);
            auto = format!("{k} <= {bn} || {k} == {}|{bn} - {k}", toks(&start));
            if ads.peek().is_some_and(|a| matches!(a, Ad::Rev)) {
                ads.next();
                if toks(&start) != "0" {
                    return Err("reversed range".into());
                }
                cur = parse_quote!((#bn - 1 - #i));
            }
        } else {
            let mut b = c.base.clone();
            self.expr(&mut b);
            let bt = self.ty(&b);
            let et = bt.strip().arg(0);
            let s: Expr = match &b {
                Expr::Path(_) => b.clone(),
                Expr::Field(f) if matches!(&*f.base, Expr::Path(_)) => b.clone(),
                _ => {
                    let s = self.fresh("s");
                    pre.push(parse_quote!(let #s = #b;));
                    self.bind_name(&s.to_string(), bt.clone());
                    parse_quote!(#s)
                }
            };
            let mut lim: Expr = parse_quote!(#s.len());
            loop {
                match ads.peek() {
                    Some(Ad::Rev) => {
                        ads.next();
                        idx = parse_quote!((#s.len() - 1 - #i));
                    }
                    Some(Ad::Skip(n)) => {
                        let mut n = n.clone();
                        ads.next();
                        self.expr(&mut n);
                        let sk = self.fresh("n");
                        pre.push(parse_quote!(let #sk: usize = if #n <= #s.len() { #n } else { #s.len() };));
                        start = parse_quote!(#sk);
                    }
                    Some(Ad::Take(n)) => {
                        let mut n = n.clone();
                        ads.next();
                        self.expr(&mut n);
                        let sk = self.fresh("n");
                        pre.push(parse_quote!(let #sk: usize = if #n <= #s.len() { #n } else { #s.len() };));
                        lim = parse_quote!(#sk);
                    }
                    _ => break,
                }
            }
            bound = lim.clone();
            cur = parse_quote!(&#s[#idx]);
            ct = Ty::R(Box::new(et));
            auto = format!("{k} <= {}|{} - {k}", toks(&lim), toks(&lim));
        }
        self.env.push(HashMap::new());
        let kt = if c.range { ct.clone() } else { Ty::p("usize") };
        self.bind_name(&i.to_string(), kt.clone());
        self.bind_name(&k.to_string(), kt.clone());
        let id = self.autos.len();
        self.autos.push(auto);
        let mut stmts: Vec<Stmt> = vec![];
        let mut closers: Vec<Expr> = vec![]; // conditions wrapping the rest
        let mut frames: Vec<(Vec<Stmt>, Expr)> = vec![];
        let mut filtered = false;
        let r = (|| -> std::result::Result<Vec<Stmt>, String> {
            for a in ads {
                match a {
                    Ad::Enumerate => {
                        if filtered || c.range {
                            return Err("enumerate after filter".into());
                        }
                        let st = &start;
                        let e: Expr = if toks(st) == "0" { parse_quote!((#i, #cur)) } else { parse_quote!((#i - #st, #cur)) };
                        cur = e;
                        ct = Ty::T(vec![Ty::p("usize"), ct.clone()]);
                    }
                    Ad::Copied => {
                        let x = cur.clone();
                        cur = match x {
                            Expr::Reference(r) => (*r.expr).clone(),
                            x => parse_quote!(*#x),
                        };
                        ct = ct.strip().clone();
                    }
                    Ad::Map(f) => {
                        let v = self.fresh("m");
                        let b = self.apply_elem(&f, cur.clone(), ct.clone())?;
                        let t = self.ty(&b);
                        stmts.push(parse_quote!(let #v = #b;));
                        self.bind_name(&v.to_string(), t.clone());
                        cur = parse_quote!(#v);
                        ct = t;
                    }
                    Ad::Filter(f) => {
                        let v = self.fresh("m");
                        stmts.push(parse_quote!(let #v = #cur;));
                        self.bind_name(&v.to_string(), ct.clone());
                        let b = self.apply(&f, vec![(parse_quote!(&#v), Ty::R(Box::new(ct.clone())))])?;
                        cur = parse_quote!(#v);
                        frames.push((std::mem::take(&mut stmts), b));
                        filtered = true;
                    }
                    Ad::FilterMap(f) => {
                        let v = self.fresh("m");
                        let b = self.apply_elem(&f, cur.clone(), ct.clone())?;
                        let t = self.ty(&b).arg(0);
                        stmts.push(parse_quote!(let #v = #b;));
                        let w = self.fresh("m");
                        self.bind_name(&w.to_string(), t.clone());
                        frames.push((std::mem::take(&mut stmts), parse_quote!(let Some(#w) = #v)));
                        cur = parse_quote!(#w);
                        ct = t;
                        filtered = true;
                    }
                    Ad::Zip(o) => {
                        let Some(oc) = self.chain(&o) else { return Err("zip with a non-slice".into()) };
                        if oc.range || oc.ads.iter().any(|a| !matches!(a, Ad::Copied)) {
                            return Err("zip with an adapted iterator".into());
                        }
                        let ob = oc.base;
                        let copied = !oc.ads.is_empty();
                        let ot = self.ty(&ob).strip().arg(0);
                        frames.push((std::mem::take(&mut stmts), parse_quote!(#i < #ob.len())));
                        let e: Expr = if copied { parse_quote!(#ob[#i]) } else { parse_quote!(&#ob[#i]) };
                        cur = parse_quote!((#cur, #e));
                        ct = Ty::T(vec![ct.clone(), if copied { ot } else { Ty::R(Box::new(ot)) }]);
                    }
                    _ => return Err("adaptor order".into()),
                }
            }
            let mut inner = body(self, cur.clone(), ct.clone())?;
            let mut s = std::mem::take(&mut stmts);
            s.append(&mut inner);
            while let Some((mut before, cond)) = frames.pop() {
                let x: Stmt = parse_quote!(if #cond { #(#s)* });
                before.push(x);
                s = before;
            }
            Ok(s)
        })();
        let _ = &mut closers;
        self.env.pop();
        let s = r?;
        let id = syn::Index::from(id);
        let kty: Option<Type> = if kt == Ty::U { None } else { parse_str(&kt.name()).ok() };
        match kty {
            Some(t) => pre.push(parse_quote!(let mut #k: #t = #start;)),
            None => pre.push(parse_quote!(let mut #k = #start;)),
        }
        pre.push(parse_quote!(while #k < #bound { __vx_auto!(#id); let #i = #k; #k = #k + 1; #(#s)* }));
        self.notes.insert("iterator chains rewritten to index loops".into());
        Ok(pre)
    }

    /// Apply an element closure `|pat| body` (tuple patterns against tuple expressions are taken apart).
    fn apply_elem(&mut self, f: &Expr, cur: Expr, ct: Ty) -> std::result::Result<Expr, String> {
        if let Expr::Closure(cl) = unparen(f) {
            if cl.inputs.len() == 1 {
                if let (Pat::Tuple(_), Expr::Tuple(_)) = (&cl.inputs[0], unparen(&cur)) {
                    return self.apply(f, vec![(cur, ct)]);
                }
            }
        }
        self.apply(f, vec![(cur, ct)])
    }

    fn bind_elem(&mut self, p: &Pat, cur: &Expr, ct: &Ty) -> Vec<Stmt> {
        let mut out = vec![];
        match (p, unparen(cur), ct) {
            (Pat::Wild(_), _, _) => {}
            (Pat::Tuple(pt), Expr::Tuple(et), Ty::T(tt)) if pt.elems.len() == et.elems.len() => {
                for ((x, e), t) in pt.elems.iter().zip(et.elems.iter()).zip(tt.iter()) {
                    out.extend(self.bind_elem(x, e, t));
                }
            }
            (Pat::Reference(r), Expr::Reference(e), _) => {
                let inner = (*e.expr).clone();
                out.extend(self.bind_elem(&r.pat, &inner, &ct.strip().clone()));
            }
            _ => {
                self.bind(p, ct);
                out.push(parse_quote!(let #p = #cur;));
            }
        }
        out
    }

    fn terminal(&mut self, m: &ExprMethodCall, want: &Ty) -> Option<Expr> {
        let n = m.method.to_string();
        if !matches!(
            n.as_str(),
            "collect" | "fold" | "try_fold" | "any" | "all" | "position" | "count" | "sum" | "for_each" | "find"
        ) {
            return None;
        }
        let c = self.chain(&m.receiver)?;
        let a: Vec<Expr> = m.args.iter().cloned().collect();
        let mut want = want.clone();
        if let Some(tf) = &m.turbofish {
            if let Some(GenericArgument::Type(t)) = tf.args.first() {
                want = self.syn_ty(t);
            }
        }
        let acc = self.fresh("a");
        let r: std::result::Result<Expr, String> = (|| match n.as_str() {
            "collect" => {
                if want.is("Vec") || want.is("BTreeSet") {
                    let mut et: Option<Type> = None;
                    let s = {
                        let et = &mut et;
                        self.chain_loop(c, &mut |cx, e, t| {
                            if t != Ty::U {
                                *et = ty_syn(&t);
                            }
                            let _ = cx;
                            Ok(vec![parse_quote!(#acc.push(#e);)])
                        })?
                    };
                    Ok(match et {
                        Some(t) => parse_quote!({ let mut #acc: Vec<#t> = Vec::new(); #(#s)* #acc }),
                        None => parse_quote!({ let mut #acc = Vec::new(); #(#s)* #acc }),
                    })
                } else if want.is("Option") {
                    let ok = self.fresh("ok");
                    let et = ty_syn(&want.arg(0).arg(0));
                    let v = self.fresh("v");
                    let s = self.chain_loop(c, &mut |_cx, e, _t| {
                        Ok(vec![parse_quote!(match #e { Some(#v) => { #acc.push(#v); } None => { #ok = false; break; } })])
                    })?;
                    Ok(match et {
                        Some(t) => parse_quote!({ let mut #acc: Vec<#t> = Vec::new(); let mut #ok = true; #(#s)* if #ok { Some(#acc) } else { None } }),
                        None => parse_quote!({ let mut #acc = Vec::new(); let mut #ok = true; #(#s)* if #ok { Some(#acc) } else { None } }),
                    })
                } else {
                    Err(format!("collect into {want:?}"))
                }
            }
            "fold" => {
                let mut init = a[0].clone();
                self.expr(&mut init);
                let t = self.ty(&init);
                self.bind_name(&acc.to_string(), t.clone());
                let f = a[1].clone();
                let s = self.chain_loop(c, &mut |cx, e, et| {
                    let b = cx.apply(&f, vec![(parse_quote!(#acc), t.clone()), (e, et)])?;
                    Ok(vec![parse_quote!(#acc = #b;)])
                })?;
                Ok(match ty_syn(&t) {
                    Some(ts) => parse_quote!({ let mut #acc: #ts = #init; #(#s)* #acc }),
                    None => parse_quote!({ let mut #acc = #init; #(#s)* #acc }),
                })
            }
            "try_fold" => {
                let mut init = a[0].clone();
                self.expr(&mut init);
                let t = self.ty(&init);
                let f = a[1].clone();
                let v = self.fresh("v");
                let fin = self.fresh("r");
                let mut kind = String::new();
                let s = {
                    let kind = &mut kind;
                    self.chain_loop(c, &mut |cx, e, et| {
                        let b = cx.apply(&f, vec![(parse_quote!(#acc), t.clone()), (e, et)])?;
                        let bt = cx.ty(&b);
                        *kind = bt.name();
                        if kind != "Option" && kind != "Result" {
                            if let Expr::Closure(cl) = unparen(&f) {
                                if let ReturnType::Type(_, t) = &cl.output {
                                    *kind = cx.syn_ty(t).name();
                                }
                            }
                        }
                        if kind == "Option" {
                            Ok(vec![parse_quote!(match #b { Some(#v) => { #acc = #v; #fin = Some(#acc); } None => { #fin = None; break; } })])
                        } else if kind == "Result" {
                            let w = cx.fresh("v");
                            Ok(vec![parse_quote!(match #b { Ok(#v) => { #acc = #v; #fin = Ok(#acc); } Err(#w) => { #fin = Err(#w); break; } })])
                        } else {
                            Err("try_fold over an unknown type".into())
                        }
                    })?
                };
                let first: Expr = if kind == "Result" { parse_quote!(Ok(#acc)) } else { parse_quote!(Some(#acc)) };
                Ok(parse_quote!({ let mut #acc = #init; let mut #fin = #first; #(#s)* #fin }))
            }
            "any" | "all" => {
                let f = a[0].clone();
                let any = n == "any";
                let s = self.chain_loop(c, &mut |cx, e, et| {
                    let b = cx.apply_elem(&f, e, et)?;
                    Ok(if any {
                        vec![parse_quote!(if #b { #acc = true; break; })]
                    } else {
                        vec![parse_quote!(if !(#b) { #acc = false; break; })]
                    })
                })?;
                Ok(if any {
                    parse_quote!({ let mut #acc = false; #(#s)* #acc })
                } else {
                    parse_quote!({ let mut #acc = true; #(#s)* #acc })
                })
            }
            "position" => {
                let f = a[0].clone();
                if !c.ads.is_empty() || c.range {
                    return Err("position on an adapted iterator".into());
                }
                let s = self.chain_loop(c, &mut |cx, e, et| {
                    let i = match unparen(&e) {
                        Expr::Reference(r) => match &*r.expr {
                            Expr::Index(i) => (*i.index).clone(),
                            _ => return Err("position".into()),
                        },
                        _ => return Err("position".into()),
                    };
                    let b = cx.apply_elem(&f, e, et)?;
                    Ok(vec![parse_quote!(if #b { #acc = Some(#i); break; })])
                })?;
                Ok(parse_quote!({ let mut #acc: Option<usize> = None; #(#s)* #acc }))
            }
            "count" => {
                let s = self.chain_loop(c, &mut |_cx, _e, _et| Ok(vec![parse_quote!(#acc = #acc + 1;)]))?;
                Ok(parse_quote!({ let mut #acc: usize = 0; #(#s)* #acc }))
            }
            _ => Err(format!("iterator terminal {n}")),
        })();
        match r {
            Ok(e) => Some(e),
            Err(s) => {
                self.fail(s);
                None
            }
        }
    }

    // ------------------------------------------------------------ inlining of helpers the unit does not know
    fn inline(&mut self, src: FnSrc, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 4 {
            self.fail(format!("inlining of {} too deep", src.sig.ident));
            return None;
        }
        if src.sig.generics.params.iter().any(|p| matches!(p, GenericParam::Const(_))) {
            self.fail(format!("helper {} has const generics", src.sig.ident));
            return None;
        }
        let name = src.sig.ident.to_string();
        let mut block = src.block.clone();
        let mut ex = Expander { ix: self.ix, frame: src.file.starts_with("pallets/"), errs: vec![], notes: BTreeSet::new() };
        ex.visit_block_mut(&mut block);
        self.errs.extend(ex.errs);
        let mut sub = Subst { u: self.u, self_ty: src.self_ty.clone(), file: src.file.clone() };
        let mut sig = src.sig.clone();
        sub.visit_signature_mut(&mut sig);
        sub.visit_block_mut(&mut block);
        if let Some(st) = &src.self_ty {
            let st = format_ident!("{}", st);
            struct SelfTy(Ident);
            impl VisitMut for SelfTy {
                fn visit_path_mut(&mut self, p: &mut Path) {
                    if p.segments.first().map_or(false, |s| s.ident == "Self") {
                        p.segments[0].ident = self.0.clone();
                    }
                    visit_mut::visit_path_mut(self, p);
                }
            }
            SelfTy(st).visit_block_mut(&mut block);
        }
        let mut params: Vec<(Pat, Option<Type>)> = vec![];
        let selfid = self.fresh("self");
        for i in &sig.inputs {
            match i {
                FnArg::Receiver(_) => params.push((parse_quote!(#selfid), None)),
                FnArg::Typed(t) => {
                    let ty = (*t.ty).clone();
                    let ty = if toks(&ty).contains("impl ") { None } else { Some(ty) };
                    params.push(((*t.pat).clone(), ty))
                }
            }
        }
        if params.len() != args.len() {
            self.fail(format!("helper {name}: arity"));
            return None;
        }
        struct SelfVal(Ident);
        impl VisitMut for SelfVal {
            fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                if p.path.is_ident("self") {
                    let i = &self.0;
                    p.path = parse_quote!(#i);
                }
            }
        }
        SelfVal(selfid.clone()).visit_block_mut(&mut block);
        let mut inner = self.fork();
        inner.errs = vec![];
        inner.env = vec![HashMap::new()];
        inner.depth += 1;
        inner.f = src.clone();
        inner.n = self.n + 100;
        inner.autos = std::mem::take(&mut self.autos);
        inner.ret = match &sig.output {
            ReturnType::Type(_, t) => self.syn_ty(t),
            _ => Ty::T(vec![]),
        };
        let mut lets: Vec<Stmt> = vec![];
        let mut tmp: Vec<Ident> = vec![];
        for a in &args {
            let t = self.fresh("p");
            lets.push(parse_quote!(let #t = #a;));
            tmp.push(t);
        }
        for ((p, t), (v, a)) in params.iter().zip(tmp.iter().zip(args.iter())) {
            let bt = match t {
                Some(t) => self.syn_ty(t),
                None => self.ty(a),
            };
            inner.bind(p, &bt);
            match t {
                Some(t) => lets.push(parse_quote!(let #p: #t = #v;)),
                None => lets.push(parse_quote!(let #p = #v;)),
            }
        }
        inner.visit_block_mut(&mut block);
        let ret = inner.ret.name();
        let (errs, notes, consts, autos, n) = (inner.errs, inner.notes, inner.consts, inner.autos, inner.n);
        self.errs.extend(errs);
        self.notes.extend(notes);
        self.consts.extend(consts);
        self.autos = autos;
        self.n = n;
        let body: Expr = if stmts_has_ret(&block.stmts) {
            let pre = format!("__h{}_", self.n);
            self.n += 1;
            let mut el = Elim { kind: ret, n: 0, pre, conv: false };
            match el.block(&block.stmts) {
                Ok(e) => e,
                Err(s) => {
                    self.fail(format!("helper {name}: {s}"));
                    return None;
                }
            }
        } else {
            let s = &block.stmts;
            parse_quote!({ #(#s)* })
        };
        self.notes.insert(format!("helper {name} inlined"));
        Some(match body {
            Expr::Block(b) => {
                let s = &b.block.stmts;
                parse_quote!({ #(#lets)* #(#s)* })
            }
            b => parse_quote!({ #(#lets)* #b }),
        })
    }

    fn candidates(&self, name: &str, ty: Option<&str>) -> Option<FnSrc> {
        let mut v: Vec<&FnSrc> = self
            .ix
            .fns
            .iter()
            .filter(|f| f.sig.ident == name && (ty.is_none() && f.self_ty.is_none() || ty.is_some() && f.self_ty.as_deref() == ty))
            .collect();
        if v.len() > 1 {
            let w: Vec<&FnSrc> = v.iter().filter(|f| f.file == self.f.file).cloned().collect();
            if w.len() == 1 {
                v = w;
            }
        }
        if v.len() == 1 {
            Some(v[0].clone())
        } else {
            None
        }
    }

    pub fn expr(&mut self, e: &mut Expr) {
        self.visit_expr_mut(e)
    }

    fn storage_path(&self, p: &Path) -> Option<(String, String)> {
        // Storage::method
        let n = p.segments.len();
        if n >= 2 {
            let s = p.segments[n - 2].ident.to_string();
            if self.u.storage.contains(&s) {
                return Some((s, p.segments[n - 1].ident.to_string()));
            }
        }
        None
    }
}

fn ty_syn(t: &Ty) -> Option<Type> {
    match t {
        Ty::U | Ty::Never => None,
        Ty::P(n, a) => {
            if n == "Slice" {
                return None;
            }
            let n = format_ident!("{}", n);
            if a.is_empty() {
                Some(parse_quote!(#n))
            } else {
                let v: Option<Vec<Type>> = a.iter().map(ty_syn).collect();
                let v = v?;
                Some(parse_quote!(#n<#(#v),*>))
            }
        }
        Ty::T(v) => {
            let v: Option<Vec<Type>> = v.iter().map(ty_syn).collect();
            let v = v?;
            Some(parse_quote!((#(#v),*)))
        }
        Ty::R(_) => None,
    }
}

fn known(t: &Ty) -> bool {
    match t {
        Ty::U | Ty::Never => false,
        Ty::P(n, a) if n == "Option" || n == "Result" => known(&a[0]),
        _ => true,
    }
}

impl<'a> VisitMut for Cx<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        // a literal constant used as a pattern: its value
        if let Pat::Ident(pi) = p {
            let n = pi.ident.to_string();
            if pi.subpat.is_none() && pi.by_ref.is_none() && pi.mutability.is_none() && n.chars().all(|c| c.is_uppercase() || c.is_ascii_digit() || c == '_') && n.chars().any(|c| c.is_uppercase()) {
                if let Some((_, _, c)) = self.ix.consts.iter().find(|(f, s, c)| *f == self.f.file && s.is_none() && c.ident == n) {
                    if let Expr::Lit(l) = &*c.expr {
                        *p = Pat::Lit(l.clone());
                        return;
                    }
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block_want(b, &Ty::U);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let decl = match &l.pat {
            Pat::Type(t) => Some(self.syn_ty(&t.ty)),
            _ => None,
        };
        let mut t = Ty::U;
        if let Some(i) = &mut l.init {
            let want = decl.clone().unwrap_or(Ty::U);
            self.expr_want(&mut i.expr, &want);
            t = self.ty(&i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.expr(d);
            }
        }
        let pat = l.pat.clone();
        self.bind(&pat, &t);
        visit_mut::visit_pat_mut(self, &mut l.pat);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.expr_want(e, &Ty::U);
    }
}

impl<'a> Cx<'a> {
    /// statement of a block; the tail expression has the type wanted of the block
    pub fn stmt_want(&mut self, s: &mut Stmt, want: &Ty) {
        match s {
            Stmt::Expr(e, None) if *want != Ty::U => self.expr_want(e, want),
            s => self.visit_stmt_mut(s),
        }
    }
    fn block_want(&mut self, b: &mut Block, want: &Ty) {
        self.env.push(HashMap::new());
        let mut out = vec![];
        for s in b.stmts.drain(..) {
            let mut s = s;
            self.stmt_want(&mut s, want);
            // `()` statements left by dropped macros
            if let Stmt::Expr(Expr::Tuple(t), Some(_)) = &s {
                if t.elems.is_empty() {
                    continue;
                }
            }
            // loops rewritten to blocks of statements keep their own block
            out.push(s);
        }
        b.stmts = out;
        self.env.pop();
    }
    fn expr_want(&mut self, e: &mut Expr, want: &Ty) {
        // bool match -> if
        if let Expr::Match(m) = e {
            if m.arms.len() == 2 {
                let lit = |p: &Pat| match p {
                    Pat::Lit(l) => match &l.lit {
                        Lit::Bool(b) => Some(b.value),
                        _ => None,
                    },
                    _ => None,
                };
                let (a, b) = (&m.arms[0], &m.arms[1]);
                if a.guard.is_none() && b.guard.is_none() {
                    let v = match (lit(&a.pat), lit(&b.pat), &b.pat) {
                        (Some(x), Some(_), _) => Some(x),
                        (Some(x), None, Pat::Wild(_)) => Some(x),
                        _ => None,
                    };
                    if let Some(v) = v {
                        let (t, f) = if v { (&a.body, &b.body) } else { (&b.body, &a.body) };
                        let c = &m.expr;
                        let is_unit = |x: &Expr| matches!(x, Expr::Tuple(t) if t.elems.is_empty());
                        let ne: Expr = if is_unit(t) {
                            parse_quote!(if !(#c) { #f })
                        } else {
                            parse_quote!(if #c { #t } else { #f })
                        };
                        *e = ne;
                        return self.expr_want(e, want);
                    }
                }
            }
        }
        // an integer from a truth value
        let of_bool: Option<(String, Expr)> = match &*e {
            Expr::Call(c) => match unparen(&c.func) {
                Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[1].ident == "from" && c.args.len() == 1 => Some((p.path.segments[0].ident.to_string(), c.args[0].clone())),
                _ => None,
            },
            Expr::Cast(c) => Some((toks(&c.ty), (*c.expr).clone())),
            _ => None,
        };
        if let Some((t, x)) = of_bool {
            if matches!(t.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i32" | "i64" | "i128") && self.ty(&x).name() == "bool" {
                let t: Type = parse_str(&t).unwrap();
                *e = parse_quote!(if #x { 1 as #t } else { 0 as #t });
                return self.expr_want(e, want);
            }
        }
        // the inner value of a fixed-point number: `.into()` is the identity once the generic is an integer
        if let Expr::Call(c) = e {
            let fx = matches!(&*c.func, Expr::Path(p) if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "FixedU128");
            if fx && (toks(&self.f.generics).contains("Into") || self.f.generics.where_clause.as_ref().map_or(false, |w| toks(w).contains("Into"))) {
                for a in c.args.iter_mut() {
                    let r = match &*a {
                        Expr::MethodCall(m) if m.method == "into" && m.args.is_empty() => Some((*m.receiver).clone()),
                        _ => None,
                    };
                    if let Some(r) = r {
                        *a = r;
                    }
                }
            }
        }
        // num-traits' by-reference arithmetic on a primitive is the primitive's own
        if let Expr::MethodCall(m) = e {
            if m.args.len() == 1 && m.method.to_string().starts_with("checked_") {
                if let Expr::Reference(r) = &m.args[0] {
                    let t = toks(&r.expr).replace(' ', "");
                    if ["u128::", "u64::", "u32::", "u16::", "u8::"].iter().any(|p| t.starts_with(p)) {
                        let x = (*r.expr).clone();
                        m.args[0] = x;
                    }
                }
            }
        }
        match e {
            Expr::MethodCall(m) => {
                // iterator terminals
                let mut w = want.clone();
                if m.method == "collect" && w == Ty::U {
                    w = Ty::U;
                }
                if let Some(x) = self.terminal(m, &w) {
                    *e = x;
                    return;
                }
                if self.errs.len() > 40 {
                    return;
                }
                self.expr(&mut m.receiver);
                let closures = m.args.iter().any(|a| matches!(unparen(a), Expr::Closure(_)));
                let patharg = m.args.iter().any(|a| matches!(unparen(a), Expr::Path(p) if p.path.segments.len() > 1 || p.path.get_ident().map_or(false, |i| self.candidates(&i.to_string(), None).is_some())));
                let n = m.method.to_string();
                for a in m.args.iter_mut() {
                    if !matches!(unparen(a), Expr::Closure(_)) {
                        self.expr(a);
                    }
                }
                let comb = match n.as_str() {
                    "map" | "and_then" | "map_err" | "map_or" | "map_or_else" | "or_else" | "unwrap_or_else" | "ok_or_else" | "is_some_and" | "filter" => {
                        closures || patharg
                    }
                    "unwrap_or_default" | "defensive_ok_or" => true,
                    _ => false,
                };
                if comb {
                    if let Some(x) = self.combinator(m) {
                        *e = x;
                        return;
                    }
                }
                // methods defined in the repository and unknown to the unit
                let rt = self.ty(&m.receiver);
                let tn = rt.name();
                if !self.u.known_fns.contains(&n) && !tn.is_empty() {
                    if let Some(src) = self.candidates(&n, Some(&tn)) {
                        let mut args: Vec<Expr> = vec![];
                        let r = &m.receiver;
                        let byref = matches!(src.sig.receiver(), Some(Receiver { reference: Some(_), mutability: None, .. }));
                        let bymut = matches!(src.sig.receiver(), Some(Receiver { reference: Some(_), mutability: Some(_), .. }));
                        let is_ref = matches!(rt, Ty::R(_)) || toks(r) == "self";
                        if bymut {
                            self.fail(format!("helper {n} takes &mut self"));
                            return;
                        }
                        args.push(if byref && !is_ref { parse_quote!(&#r) } else { (**r).clone() });
                        args.extend(m.args.iter().cloned());
                        if let Some(x) = self.inline(src, args) {
                            *e = x;
                        }
                        return;
                    }
                }
                // num_traits' Checked* take their operand by reference, the primitives' own methods by value
                if ((n.starts_with("checked_") && !n.ends_with("_into") && !n.ends_with("_inner")) || n.starts_with("saturating_") || matches!(n.as_str(), "add" | "sub" | "mul" | "div" | "rem")) && m.args.len() == 1 {
                    let prim = matches!(rt.strip(), Ty::P(s, a) if a.is_empty() && matches!(s.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i128" | "U256" | "U512"));
                    if prim {
                        if let Expr::Reference(r) = unparen(&m.args[0]).clone() {
                            m.args[0] = *r.expr;
                        }
                    }
                }
                if self.u.world_fns.contains(&n) && self.world {
                    m.args.push(parse_quote!(w));
                }
                let scoped = self.u.callmap.iter().find(|(k, _)| k.split_once("|.").map_or(false, |(f, k)| k == n && self.f.file.ends_with(f))).map(|x| x.1);
                if let Some(nm) = scoped.or(self.u.callmap.get(&format!(".{n}"))) {
                    m.method = format_ident!("{}", nm);
                    m.turbofish = None;
                }
                // generic type arguments are left to the shims
                return;
            }
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.expr(a);
                }
                // constants as const-generic arguments
                if let Expr::Path(p) = &mut *c.func {
                    if p.qself.is_none() && p.path.segments.last().is_some_and(|s| self.u.nogen.contains(&s.ident.to_string())) && !p.path.segments.iter().rev().skip(1).any(|s| s.ident.to_string().starts_with(char::is_uppercase)) {
                        // the instance under contract is not generic
                        p.path.segments.last_mut().unwrap().arguments = PathArguments::None;
                    }
                    for sg in p.path.segments.iter_mut() {
                        if let PathArguments::AngleBracketed(ab) = &mut sg.arguments {
                            for g in ab.args.iter_mut() {
                                if let GenericArgument::Type(Type::Path(tp)) = g {
                                    let before = toks(&tp.path);
                                    let mut ce = Expr::Path(ExprPath { attrs: vec![], qself: None, path: tp.path.clone() });
                                    let k = self.consts.len();
                                    self.collect_const(&mut ce);
                                    if self.consts.len() > k || toks(&ce) != before {
                                        if let Expr::Path(ep) = ce {
                                            tp.path = ep.path;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                if let Expr::Path(p) = unparen(&c.func).clone() {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().clone();
                    let key = segs.join("::");
                    if let Some(to) = self.u.callmap.get(&key) {
                        if let Ok(np) = parse_str::<Expr>(to) {
                            c.func = Box::new(np);
                        }
                        if to.starts_with("w.") {
                            // method on the world
                            let t: Expr = parse_str(to).unwrap();
                            let pre = self.hoist_world(&mut c.args);
                            let a = &c.args;
                            *e = if pre.is_empty() { parse_quote!(#t(#a)) } else { parse_quote!({ #(#pre)* #t(#a) }) };
                        } else if self.world && to.rsplit_once("::").map_or(false, |(_, n)| self.u.world_fns.contains(n)) {
                            c.args.push(parse_quote!(w));
                        }
                        return;
                    }
                    if let Some((s, meth)) = self.storage_path(&p.path) {
                        let s = format_ident!("{}", s);
                        if matches!(meth.as_str(), "insert" | "put" | "get" | "try_get" | "remove" | "take" | "contains_key" | "exists") {
                            for a in c.args.iter_mut() {
                                if let Expr::Reference(r) = unparen(a).clone() {
                                    *a = *r.expr;
                                }
                            }
                        }
                        let meth = format_ident!("{}", meth);
                        let pre = self.hoist_world(&mut c.args);
                        let a = &c.args;
                        *e = if pre.is_empty() { parse_quote!(w.#s.#meth(#a)) } else { parse_quote!({ #(#pre)* w.#s.#meth(#a) }) };
                        self.notes.insert("storage items become fields of an explicit state parameter".into());
                        return;
                    }
                    let q = if segs.len() >= 2 { segs[segs.len() - 2].clone() } else { String::new() };
                    if (q == "Self" || q == "Pallet") && self.world {
                        if let Some((_, _, st)) = self.ix.getters.iter().find(|(_, g, _)| *g == last) {
                            let s = format_ident!("{}", st);
                            for a in c.args.iter_mut() {
                                if let Expr::Reference(r) = unparen(a).clone() {
                                    *a = *r.expr;
                                }
                            }
                            let pre = self.hoist_world(&mut c.args);
                            let a = &c.args;
                            *e = if pre.is_empty() { parse_quote!(w.#s.get(#a)) } else { parse_quote!({ #(#pre)* w.#s.get(#a) }) };
                            return;
                        }
                    }
                    let tyq = if q == "Self" { self.f.self_ty.clone() } else { Some(q.clone()) };
                    let is_ty = q.chars().next().map_or(false, |c| c.is_uppercase()) || matches!(q.as_str(), "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128" | "bool" | "str");
                    let known = self.u.known_fns.contains(&last);
                    if !known && !last.chars().next().map_or(false, |c| c.is_uppercase()) {
                        let cand = if is_ty { self.candidates(&last, tyq.as_deref()) } else { self.candidates(&last, None) };
                        if let Some(src) = cand {
                            let args: Vec<Expr> = c.args.iter().cloned().collect();
                            if let Some(x) = self.inline(src, args) {
                                *e = x;
                            }
                            return;
                        }
                    }
                    if known && self.u.world_fns.contains(&last) && self.world {
                        c.args.push(parse_quote!(w));
                    }
                    // module-qualified calls of known functions lose their module path
                    if known && !is_ty && segs.len() > 1 {
                        let lastseg = p.path.segments.last().unwrap().clone();
                        c.func = Box::new(Expr::Path(ExprPath { attrs: vec![], qself: None, path: Path { leading_colon: None, segments: std::iter::once(lastseg).collect() } }));
                    } else if q == "Pallet" && known {
                        if let Expr::Path(pp) = &mut *c.func {
                            let nn = pp.path.segments.len();
                            pp.path.segments = pp.path.segments.iter().skip(nn - 2).cloned().collect();
                        }
                    }
                } else {
                    self.expr(&mut c.func);
                }
                self.collect_const(e);
                return;
            }
            Expr::Path(_) => {
                self.collect_const(e);
                return;
            }
            Expr::Match(m) => {
                self.expr(&mut m.expr);
                let t = self.ty(&m.expr);
                for a in m.arms.iter_mut() {
                    self.env.push(HashMap::new());
                    let p = a.pat.clone();
                    self.bind(&p, &t);
                    visit_mut::visit_pat_mut(self, &mut a.pat);
                    if let Some((_, g)) = &mut a.guard {
                        self.expr(g);
                    }
                    self.expr_want(&mut a.body, want);
                    self.env.pop();
                }
                return;
            }
            Expr::If(i) => {
                self.env.push(HashMap::new());
                if let Expr::Let(l) = &mut *i.cond {
                    self.expr(&mut l.expr);
                    let t = self.ty(&l.expr);
                    let p = (*l.pat).clone();
                    self.bind(&p, &t);
                    visit_mut::visit_pat_mut(self, &mut l.pat);
                } else {
                    self.expr(&mut i.cond);
                }
                self.block_want(&mut i.then_branch, want);
                self.env.pop();
                if let Some((_, x)) = &mut i.else_branch {
                    self.expr_want(x, want);
                }
                return;
            }
            Expr::Try(t) => {
                let w = match (want, &self.ret) {
                    (Ty::U, _) => Ty::U,
                    (w, Ty::P(n, _)) if n == "Option" => Ty::opt(w.clone()),
                    (w, _) => Ty::res(w.clone(), Ty::U),
                };
                self.expr_want(&mut t.expr, &w);
                return;
            }
            Expr::ForLoop(f) => {
                let plain_range = matches!(unparen(&f.expr), Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) && r.start.is_some() && r.end.is_some());
                if plain_range {
                    self.expr(&mut f.expr);
                    self.env.push(HashMap::new());
                    let t = match unparen(&f.expr) {
                        Expr::Range(r) => match self.ty(r.end.as_ref().unwrap()) {
                            Ty::U => self.ty(r.start.as_ref().unwrap()),
                            t => t,
                        },
                        _ => Ty::U,
                    };
                    if matches!(&*f.pat, Pat::Wild(_)) {
                        let i = self.fresh("w");
                        f.pat = Box::new(parse_quote!(#i));
                    }
                    let p = (*f.pat).clone();
                    self.bind(&p, &t);
                    self.visit_block_mut(&mut f.body);
                    self.env.pop();
                    return;
                }
                if let Some(c) = self.chain(&f.expr) {
                    let body = f.body.clone();
                    let pat = (*f.pat).clone();
                    let r = self.chain_loop(c, &mut |cx, cur, ct| {
                        let mut v = cx.bind_elem(&pat, &cur, &ct);
                        let mut b = body.clone();
                        cx.visit_block_mut(&mut b);
                        v.extend(b.stmts);
                        Ok(v)
                    });
                    match r {
                        Ok(s) => *e = parse_quote!({ #(#s)* }),
                        Err(x) => self.fail(x),
                    }
                    return;
                }
                // `for x in v.iter_mut()` over a local vector of Copy elements: take the element out, put it back
                if let (Expr::MethodCall(mc), Pat::Ident(pi)) = (unparen(&f.expr), &*f.pat) {
                    if mc.method == "iter_mut" && matches!(&*mc.receiver, Expr::Path(p) if p.path.get_ident().is_some()) && !has_cont(&f.body) && !matches!(self.ty(&mc.receiver), Ty::R(_) | Ty::U) {
                        let v = (*mc.receiver).clone();
                        let x = pi.ident.clone();
                        let body = f.body.clone();
                        if let Some(c) = self.chain(&parse_quote!(#v.iter())) {
                            let r = self.chain_loop(c, &mut |cx, cur, ct| {
                                let Expr::Reference(rf) = unparen(&cur).clone() else { return Err("iter_mut".into()) };
                                let Expr::Index(ix) = (*rf.expr).clone() else { return Err("iter_mut".into()) };
                                let i = (*ix.index).clone();
                                let mut b = body.clone();
                                Underef(x.clone()).visit_block_mut(&mut b);
                                cx.bind_name(&x.to_string(), ct.strip().clone());
                                cx.visit_block_mut(&mut b);
                                let mut o: Vec<Stmt> = vec![parse_quote!(let mut #x = #v[#i];)];
                                o.extend(b.stmts);
                                o.push(parse_quote!(#v.set(#i, #x);));
                                Ok(o)
                            });
                            match r {
                                Ok(s) => *e = parse_quote!({ #(#s)* }),
                                Err(x) => self.fail(x),
                            }
                            return;
                        }
                    }
                }
                self.fail(format!("for over {}", toks(&f.expr)));
                return;
            }
            Expr::Binary(b) => {
                self.expr(&mut b.left);
                self.expr(&mut b.right);
                let (l, r) = (&b.left, &b.right);
                let ne: Option<Expr> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(#l = #l + #r)),
                    BinOp::SubAssign(_) => Some(parse_quote!(#l = #l - #r)),
                    BinOp::MulAssign(_) => Some(parse_quote!(#l = #l * #r)),
                    BinOp::DivAssign(_) => Some(parse_quote!(#l = #l / #r)),
                    BinOp::RemAssign(_) => Some(parse_quote!(#l = #l % #r)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(#l = #l << #r)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(#l = #l >> #r)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(#l = #l & #r)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(#l = #l | #r)),
                    _ => None,
                };
                if let Some(x) = ne {
                    *e = x;
                }
                return;
            }
            Expr::Block(b) if b.label.is_none() => {
                let mut bl = b.block.clone();
                self.block_want(&mut bl, want);
                b.block = bl;
                return;
            }
            Expr::Closure(_) => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    let w = self.ret.clone();
                    self.expr_want(x, &w);
                }
                return;
            }
            Expr::Paren(p) => {
                self.expr_want(&mut p.expr, want);
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn collect_const(&mut self, e: &mut Expr) {
        let Expr::Path(p) = e else { return };
        let n = p.path.segments.len();
        let last = p.path.segments[n - 1].ident.to_string();
        let upper = last.chars().all(|c| c.is_uppercase() || c.is_ascii_digit() || c == '_') && last.chars().any(|c| c.is_uppercase());
        if !upper {
            return;
        }
        let q = if n >= 2 { Some(p.path.segments[n - 2].ident.to_string()) } else { None };
        let tyq = match &q {
            Some(q) if q == "Self" => self.f.self_ty.clone(),
            Some(q) if q.chars().next().map_or(false, |c| c.is_uppercase()) => Some(q.clone()),
            _ => None,
        };
        if tyq.is_none() && self.u.known_consts.contains(&last) {
            if n >= 2 {
                let l = p.path.segments.last().unwrap().clone();
                p.path = Path { leading_colon: None, segments: std::iter::once(l).collect() };
            }
            return;
        }
        let mut v: Vec<_> = self.ix.consts.iter().filter(|(_, s, c)| c.ident == last && *s == tyq).collect();
        if v.len() > 1 {
            let w: Vec<_> = v.iter().filter(|(f, _, _)| *f == self.f.file).cloned().collect();
            if !w.is_empty() {
                v = w;
            } else if let Some(q) = &q {
                let w: Vec<_> = v.iter().filter(|(f, _, _)| f.contains(q.as_str())).cloned().collect();
                if !w.is_empty() {
                    v = w;
                }
            }
        }
        if let Some((file, s, _)) = v.first() {
            let key = format!("{}|{}", file, s.clone().unwrap_or_default());
            self.consts.insert((Some(key), last.clone()));
            let nm = match s {
                Some(s) => format_ident!("{}_{}", s, last),
                None => format_ident!("{}", last),
            };
            *e = parse_quote!(#nm);
        }
    }
}

/// `Storage::try_mutate(key, |v| ..)` whose error leaves the function at once (tail position or `?`): read the value, run the body on it
/// in place, write it back when the body succeeds. `mutate` likewise, without errors.
pub struct StorageMut<'a> {
    pub storage: &'a HashSet<String>,
    pub errs: Vec<String>,
    pub n: usize,
}
struct Rets(bool);
impl<'ast> syn::visit::Visit<'ast> for Rets {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        match r.expr.as_deref() {
            Some(Expr::Call(c)) if toks(&c.func).replace(' ', "") == "Err" => {}
            _ => self.0 = true,
        }
    }
    fn visit_macro(&mut self, _: &'ast Macro) {}
}
struct Tries(bool);
impl<'ast> syn::visit::Visit<'ast> for Tries {
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_try(&mut self, _: &'ast ExprTry) {
        self.0 = true
    }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.0 = true
    }
}
impl<'a> StorageMut<'a> {
    fn is(&self, e: &Expr) -> Option<(String, String)> {
        let Expr::Call(c) = unparen(e) else { return None };
        let Expr::Path(p) = unparen(&c.func) else { return None };
        let n = p.path.segments.len();
        if n < 2 {
            return None;
        }
        let st = p.path.segments[n - 2].ident.to_string();
        let m = p.path.segments[n - 1].ident.to_string();
        if self.storage.contains(&st) && matches!(m.as_str(), "try_mutate" | "try_mutate_exists" | "mutate" | "mutate_exists") {
            Some((st, m))
        } else {
            None
        }
    }
    fn rewrite(&mut self, e: &mut Expr) {
        let Some((st, m)) = self.is(e) else { return };
        let Expr::Call(c) = unparen(e).clone() else { return };
        let (k, cl) = match c.args.len() {
            1 => (None, c.args[0].clone()),
            2 => (Some(c.args[0].clone()), c.args[1].clone()),
            3 => {
                // a double map: the two keys, by value
                let own = |e: &Expr| match unparen(e) {
                    Expr::Reference(r) => (*r.expr).clone(),
                    x => x.clone(),
                };
                let (a, b) = (own(&c.args[0]), own(&c.args[1]));
                (Some(parse_quote!((#a, #b))), c.args[2].clone())
            }
            _ => {
                self.errs.push(format!("{st}::{m}"));
                return;
            }
        };
        let Expr::Closure(cl) = unparen(&cl).clone() else {
            self.errs.push(format!("{st}::{m} without a closure"));
            return;
        };
        if cl.inputs.len() != 1 {
            self.errs.push(format!("{st}::{m}: arguments"));
            return;
        }
        let mut pat = cl.inputs[0].clone();
        if let Pat::Type(t) = &pat {
            pat = (*t.pat).clone();
        }
        let mut body = (*cl.body).clone();
        if m.starts_with("try_") {
            let mut r = Rets(false);
            syn::visit::Visit::visit_expr(&mut r, &body);
            if r.0 {
                self.errs.push(format!("{st}::{m}: early success in the closure"));
                return;
            }
            self.tail(&mut body);
        } else {
            let mut r = Tries(false);
            syn::visit::Visit::visit_expr(&mut r, &body);
            if r.0 {
                self.errs.push(format!("{st}::{m}: early exit in the closure"));
                return;
            }
        }
        self.visit_expr_mut(&mut body);
        self.n += 1;
        let v = quote::format_ident!("vx_m{}", self.n);
        let r = quote::format_ident!("vx_mr{}", self.n);
        let kk = quote::format_ident!("vx_mk{}", self.n);
        let s = quote::format_ident!("{}", st);
        let bind: Stmt = match &k {
            Some(k) => parse_quote!(let #kk = #k;),
            None => parse_quote!(let #kk = ();),
        };
        let (get, set): (Stmt, Stmt) = match &k {
            Some(_) if c.args.len() == 3 => (parse_quote!(let mut #v = w.#s.get(#kk.0, #kk.1);), parse_quote!(w.#s.set(#kk.0, #kk.1, #v);)),
            Some(_) => (parse_quote!(let mut #v = w.#s.get(#kk);), parse_quote!(w.#s.set(#kk, #v);)),
            None => (parse_quote!(let mut #v = w.#s.get();), parse_quote!(w.#s.put(#v);)),
        };
        let rt: Option<Type> = match &cl.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        };
        let rl: Stmt = match rt {
            Some(t) => parse_quote!(let #r: #t = { let #pat = &mut #v; #body };),
            None => parse_quote!(let #r = { let #pat = &mut #v; #body };),
        };
        *e = if m.starts_with("try_") {
            parse_quote!({ #bind #get #rl if #r.is_ok() { #set } #r })
        } else {
            parse_quote!({ #bind #get #rl #set #r })
        };
    }
    /// the value of `e` is what the function (or the enclosing closure) returns
    pub fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::Call(_) => self.rewrite(e),
            _ => {}
        }
    }
    pub fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
}
impl<'a> VisitMut for StorageMut<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Some((_, m)) = self.is(&t.expr) {
                if m.starts_with("try_") {
                    self.rewrite(&mut t.expr);
                    return;
                }
            }
        }
        if let Some((_, m)) = self.is(e) {
            if !m.starts_with("try_") {
                self.rewrite(e);
                return;
            }
            self.errs.push(format!("{m} outside tail position"));
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
