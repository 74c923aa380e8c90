//! Light type inference: only what is needed to tell Option, Result and iterators apart.
use std::collections::HashMap;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Opt(Box<Ty>), Res(Box<Ty>), Iter, Tup(Vec<Ty>), Named(String), Unknown }

impl Ty {
    pub fn inner(&self) -> Ty { match self { Ty::Opt(t) | Ty::Res(t) => (**t).clone(), _ => Ty::Unknown } }
}

pub struct Sigs { pub ret: HashMap<String, Ty>, pub fields: HashMap<String, Ty>, pub aliases: HashMap<String, (Vec<String>, Type)>, pub macros: HashMap<String, proc_macro2::TokenStream> }

pub fn ty_of(t: &Type, sigs: &HashMap<String, (Vec<String>, Type)>) -> Ty {
    match t {
        Type::Reference(r) => ty_of(&r.elem, sigs),
        Type::Paren(p) => ty_of(&p.elem, sigs),
        Type::Tuple(t) => Ty::Tup(t.elems.iter().map(|e| ty_of(e, sigs)).collect()),
        Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let name = seg.ident.to_string();
            let args: Vec<&Type> = match &seg.arguments {
                PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(t) } else { None }).collect(),
                _ => vec![],
            };
            match name.as_str() {
                "Option" => Ty::Opt(Box::new(args.first().map(|t| ty_of(t, sigs)).unwrap_or(Ty::Unknown))),
                "Result" => Ty::Res(Box::new(args.first().map(|t| ty_of(t, sigs)).unwrap_or(Ty::Unknown))),
                "VIt" => Ty::Iter,
                _ => {
                    if let Some((_params, target)) = sigs.get(&name) {
                        let mut base = ty_of(target, sigs);
                        // alias with one parameter: the inner type is the argument
                        if let (Ty::Res(i), Some(a)) = (&mut base, args.first()) { **i = ty_of(a, sigs); }
                        base
                    } else { Ty::Named(name) }
                }
            }
        }
        Type::ImplTrait(i) => {
            for b in &i.bounds { if let TypeParamBound::Trait(t) = b { let n = t.path.segments.last().unwrap().ident.to_string();
                if n.contains("Iterator") { return Ty::Iter; } } }
            Ty::Unknown
        }
        _ => Ty::Unknown,
    }
}

pub struct Env<'a> { pub vars: HashMap<String, Ty>, pub sigs: &'a Sigs }

impl<'a> Env<'a> {
    pub fn bind_pat(&mut self, p: &Pat, t: Ty) {
        match p {
            Pat::Ident(i) => { self.vars.insert(i.ident.to_string(), t); }
            Pat::Type(pt) => { let d = ty_of(&pt.ty, &self.sigs.aliases); self.bind_pat(&pt.pat, if d == Ty::Unknown { t } else { d }); }
            Pat::Reference(r) => self.bind_pat(&r.pat, t),
            Pat::Paren(r) => self.bind_pat(&r.pat, t),
            Pat::TupleStruct(ts) => {
                let n = ts.path.segments.last().unwrap().ident.to_string();
                let inner = match n.as_str() { "Some" | "Ok" => t.inner(), _ => Ty::Unknown };
                for e in &ts.elems { self.bind_pat(e, inner.clone()); }
            }
            Pat::Tuple(tp) => for (i, e) in tp.elems.iter().enumerate() { let u = match &t { Ty::Tup(v) => v.get(i).cloned().unwrap_or(Ty::Unknown), _ => Ty::Unknown }; self.bind_pat(e, u); },
            _ => {}
        }
    }
    pub fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Group(p) => self.ty(&p.expr),
            Expr::Reference(r) => self.ty(&r.expr),
            Expr::Unary(u) => self.ty(&u.expr),
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() { let s = i.to_string(); if s == "None" { return Ty::Opt(Box::new(Ty::Unknown)); } self.vars.get(&s).cloned().unwrap_or(Ty::Unknown) } else { Ty::Unknown }
            }
            Expr::Field(f) => { if let Member::Named(n) = &f.member { self.sigs.fields.get(&n.to_string()).cloned().unwrap_or(Ty::Unknown) } else { Ty::Unknown } }
            Expr::Try(t) => self.ty(&t.expr).inner(),
            Expr::Tuple(t) => Ty::Tup(t.elems.iter().map(|e| self.ty(e)).collect()),
            Expr::Block(b) => b.block.stmts.last().map(|s| if let Stmt::Expr(e, None) = s { self.ty(e) } else { Ty::Unknown }).unwrap_or(Ty::Unknown),
            Expr::If(i) => { let t = i.then_branch.stmts.last().map(|s| if let Stmt::Expr(e, None) = s { self.ty(e) } else { Ty::Unknown }).unwrap_or(Ty::Unknown);
                if t != Ty::Unknown { t } else if let Some((_, e)) = &i.else_branch { self.ty(e) } else { Ty::Unknown } }
            Expr::Match(m) => { for a in &m.arms { let t = self.ty(&a.body); if t != Ty::Unknown { return t; } } Ty::Unknown }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().unwrap().as_str();
                    match last {
                        "Some" => Ty::Opt(Box::new(c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unknown))),
                        "Ok" => Ty::Res(Box::new(c.args.first().map(|a| self.ty(a)).unwrap_or(Ty::Unknown))),
                        "Err" => Ty::Res(Box::new(Ty::Unknown)),
                        "v_rfind" | "v_strip_suffix" => Ty::Opt(Box::new(Ty::Unknown)),
                        "from_str_radix" | "try_from" | "v_u64_from_str_radix" | "v_i32_from_str_radix" | "v_usize_try_from" => Ty::Res(Box::new(Ty::Unknown)),
                        "new" if segs.len() >= 2 && segs[segs.len() - 2] == "Regex" => Ty::Res(Box::new(Ty::Named("Regex".into()))),
                        _ => self.sigs.ret.get(last).cloned().unwrap_or(Ty::Unknown),
                    }
                } else { Ty::Unknown }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = self.ty(&m.receiver);
                let name = name.strip_prefix("v_").unwrap_or(&name).to_string();
                match name.as_str() {
                    "ok" | "err" => Ty::Opt(Box::new(recv.inner())),
                    "ok_or" | "ok_or_else" => Ty::Res(Box::new(recv.inner())),
                    "map" | "and_then" => match recv {
                        Ty::Opt(_) => Ty::Opt(Box::new(self.closure_out(m, &recv, name == "and_then"))),
                        Ty::Res(_) => Ty::Res(Box::new(self.closure_out(m, &recv, name == "and_then"))),
                        x => x },
                    "or_else" | "or" | "map_err" | "filter" | "as_ref" | "cloned" | "copied" | "inspect_err" | "inspect" | "clone" | "by_ref" | "as_deref" | "as_mut" | "take" => recv,
                    "unwrap_or" | "unwrap_or_else" | "unwrap" | "expect" | "unwrap_or_default" => recv.inner(),
                    "chars" | "rev" | "skip" | "iter" | "keys" | "flatten" | "captures_iter" | "enumerate" | "take_while" | "skip_while" | "into_iter" | "zip" | "values" | "bytes" | "char_indices" | "split" => Ty::Iter,
                    "min" | "max" => if m.args.is_empty() { Ty::Opt(Box::new(Ty::Unknown)) } else { Ty::Unknown },
                    "find" => if let Ty::Iter = recv { Ty::Opt(Box::new(Ty::Unknown)) } else { Ty::Opt(Box::new(Ty::Unknown)) },
                    "get" | "first" | "last" | "next" | "strip_prefix" | "strip_suffix" | "captures" | "find_start" | "captures_start" | "find_map" | "position" | "rfind"
                    | "to_decimal_utf8" | "to_decimal" | "get_mut" | "checked_sub" | "checked_add" | "checked_div" | "checked_mul" | "split_once" => {
                        if self.sigs.ret.contains_key(&name) && !matches!(name.as_str(), "get" | "first" | "last" | "next") { self.sigs.ret[&name].clone() } else { Ty::Opt(Box::new(Ty::Unknown)) } }
                    "binary_search_by_key" | "binary_search" | "binary_search_by" | "or_try_insert_with" | "parse" if !self.sigs.ret.contains_key(&name) => Ty::Res(Box::new(Ty::Unknown)),
                    _ => self.sigs.ret.get(&name).cloned().unwrap_or(Ty::Unknown),
                }
            }
            _ => Ty::Unknown,
        }
    }
    fn closure_out(&self, m: &ExprMethodCall, recv: &Ty, flat: bool) -> Ty {
        if let Some(Expr::Closure(c)) = m.args.first() {
            let mut e2 = Env { vars: self.vars.clone(), sigs: self.sigs };
            if let Some(p) = c.inputs.first() { e2.bind_pat(p, recv.inner()); }
            let t = e2.ty(&c.body);
            if flat { t.inner() } else { t }
        } else { Ty::Unknown }
    }
}
