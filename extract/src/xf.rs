//! The syntactic rewriting of one function body into the subset Verus accepts.
use crate::kinds::*;
use crate::tail::*;
use proc_macro2::Span;
use quote::quote;
use std::collections::{BTreeSet, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ctx<'a> {
    pub env: Env<'a>,
    pub ret: Ty,
    pub closures: HashMap<String, ExprClosure>,
    pub inline: &'a HashMap<String, ImplItemFn>, // helper functions without contract
    pub inlined: BTreeSet<String>,
    pub inline_depth: usize,
    pub errors: Vec<String>,
    pub loops: usize,
    pub tmp: usize,
    pub lets: Vec<String>,
    pub after: BTreeSet<String>,
    pub after_seen: BTreeSet<String>,
    pub ghost_loops: BTreeSet<usize>,
    pub range_loops: Vec<usize>,
    pub ctor: bool,
    pub heads: std::collections::BTreeMap<usize, String>,
}

fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn peel(e: &Expr) -> &Expr { match e { Expr::Paren(p) => peel(&p.expr), Expr::Group(p) => peel(&p.expr), x => x } }
fn unref(e: &Expr) -> Expr { match e { Expr::Reference(r) if r.mutability.is_none() => unref(&r.expr), Expr::Paren(p) => unref(&p.expr), x => x.clone() } }

const LOGS: [&str; 5] = ["trace", "debug", "info", "warn", "error"];
/// `xs.iter().any(|x| *x == e)` is `xs.contains(&e)`
fn any_is_contains(m: &ExprMethodCall) -> Option<Expr> {
    let Expr::MethodCall(it) = peel(&m.receiver) else { return None }; if it.method != "iter" { return None; }
    let Expr::Closure(c) = peel(m.args.first()?) else { return None }; if c.inputs.len() != 1 { return None; }
    let (x, by_val) = match &c.inputs[0] { Pat::Ident(i) => (i.ident.clone(), false), Pat::Reference(r) => match &*r.pat { Pat::Ident(i) => (i.ident.clone(), true), _ => return None }, _ => return None };
    let body = match peel(&c.body) { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, None) => e.clone(), _ => return None }, e => e.clone() };
    let Expr::Binary(b) = peel(&body) else { return None }; if !matches!(b.op, BinOp::Eq(_)) { return None; }
    let is_x = |e: &Expr| matches!(peel(e), Expr::Path(p) if p.path.is_ident(&x));
    let deref_x = |e: &Expr| matches!(peel(e), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_x(&u.expr));
    let free = |e: &Expr| !quote!(#e).to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| x == w);
    let r = &it.receiver;
    for (l, o) in [(&*b.left, &*b.right), (&*b.right, &*b.left)] {
        if !free(o) { continue; }
        if by_val && is_x(l) || !by_val && deref_x(l) { return Some(parse_quote!(#r.contains(&#o))); }
        if !by_val && is_x(l) { if let Expr::Reference(k) = peel(o) { let k = &k.expr; return Some(parse_quote!(#r.contains(&#k))); } }
    }
    None
}
/// `Some(&x)` becomes `Some(x)`; the names whose references are to be dereferenced
fn deref_names(p: &mut Pat) -> Vec<Ident> {
    fn go(p: &mut Pat, out: &mut Vec<Ident>, top: bool) {
        match p {
            Pat::Reference(r) if !top && matches!(&*r.pat, Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none()) => { if let Pat::Ident(i) = &*r.pat { out.push(i.ident.clone()); let n = i.clone(); *p = Pat::Ident(n); } }
            Pat::TupleStruct(t) => for x in &mut t.elems { go(x, out, false) },
            Pat::Tuple(t) => for x in &mut t.elems { go(x, out, false) },
            Pat::Paren(x) => go(&mut x.pat, out, top),
            _ => {}
        }
    }
    let mut o = vec![]; go(p, &mut o, true); o
}
fn is_log(m: &Macro) -> bool { m.path.segments.last().map(|s| LOGS.contains(&s.ident.to_string().as_str())).unwrap_or(false) }

pub fn path_last(p: &Path) -> String { p.segments.last().unwrap().ident.to_string() }

impl<'a> Ctx<'a> {
    fn err(&mut self, s: String) { self.errors.push(s); }
    fn fresh(&mut self, p: &str) -> Ident { self.tmp += 1; id(&format!("{}{}", p, self.tmp)) }

    fn closure_of(&self, e: &Expr) -> Option<ExprClosure> {
        match peel(e) {
            Expr::Closure(c) => Some(c.clone()),
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.closures.get(&i.to_string())).cloned(),
            _ => None,
        }
    }
    /// A closure body as an expression, early exits turned into tail form.
    fn body_of(&mut self, c: &ExprClosure, out: &Ty) -> Expr {
        let opt = matches!(out, Ty::Opt(_));
        let mode = Mode::Closure { opt };
        let mut b = (*c.body).clone();
        if has_escape_expr(&b, &mode) {
            let mut t = Tail { mode, n: self.tmp * 100, budget: 24 };
            self.tmp += 1;
            match t.value(&b) { Ok(x) => b = x, Err(e) => self.err(format!("closure: {e}")) }
        }
        b
    }
    /// Apply a closure (or path) to argument expressions.
    fn apply(&mut self, f: &Expr, args: Vec<(Expr, Ty)>, out: &Ty) -> Expr {
        if let Some(c) = self.closure_of(f) {
            let mut body = self.body_of(&c, out);
            let mut stmts: Vec<Stmt> = vec![];
            if c.inputs.len() != args.len() { self.err("closure arity".into()); }
            for (p, (a, t)) in c.inputs.iter().zip(args) {
                self.env.bind_pat(p, t);
                let (pat, ty) = match p { Pat::Type(pt) => ((*pt.pat).clone(), Some((*pt.ty).clone())), x => (x.clone(), None) };
                if let Pat::Wild(_) = pat { continue; }
                let _ = ty;
                if let (Pat::Ident(pi), Expr::Path(ap)) = (&pat, &a) { if pi.by_ref.is_none() && ap.path.get_ident() == Some(&pi.ident) { continue; } }
                // `|&x|` / `|&(a, b)|` on a reference
                if let (Pat::Reference(r), a2) = (&pat, &a) { let inner = &r.pat; stmts.push(parse_quote!(let #inner = *#a2;)); continue; }
                stmts.push(parse_quote!(let #pat = #a;));
            }
            self.visit_expr_mut(&mut body);
            if stmts.is_empty() { return body; }
            match body {
                Expr::Block(b) if b.label.is_none() => stmts.extend(b.block.stmts),
                x => stmts.push(Stmt::Expr(x, None)),
            }
            let b = Block { brace_token: Default::default(), stmts };
            parse_quote!(#b)
        } else {
            let a: Vec<Expr> = args.into_iter().map(|x| x.0).collect();
            let mut call: Expr = parse_quote!(#f(#(#a),*));
            self.visit_expr_mut(&mut call);
            call
        }
    }

    fn next_loop(&mut self) -> usize { let n = self.loops; self.loops += 1; n }

    fn iter_expr(&mut self, e: &Expr) -> Expr {
        match peel(e) {
            Expr::Range(r) => {
                let a = r.start.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(0));
                let Some(b) = r.end.clone().map(|x| *x) else { self.err("open range loop".into()); return parse_quote!(()); };
                let (mut a, mut b) = (a, b);
                self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                match r.limits { RangeLimits::HalfOpen(_) => parse_quote!(v_range(#a, #b)), RangeLimits::Closed(_) => parse_quote!(v_range_incl(#a, #b)) }
            }
            Expr::MethodCall(m) if m.method == "rev" && matches!(peel(&m.receiver), Expr::Range(_)) => { let x = self.iter_expr(&m.receiver); parse_quote!(#x.v_rev()) }
            x => { let mut y = x.clone(); self.visit_expr_mut(&mut y); parse_quote!((#y).v_into_iter()) }
        }
    }

    fn elem_ty(&self, _base: &Expr) -> Ty { Ty::Unknown }
    fn simple_map(&self, e: &Expr) -> bool {
        let Expr::MethodCall(m) = peel(e) else { return false };
        let Some(c) = m.args.first().and_then(|a| self.closure_of(a)) else { return false };
        let b = &c.body; let s = quote!(#b).to_string().replace(' ', ""); let p = c.inputs.first().map(|p| quote!(#p).to_string()).unwrap_or_default();
        s == format!("{p}.as_str()") || s == format!("*{p}")
    }
    /// the adapters between an iterator source and its consumer
    fn chain(&self, e: &Expr) -> (Expr, Vec<(String, Expr)>) {
        if let Expr::MethodCall(m) = peel(e) {
            let n = m.method.to_string();
            if m.args.len() == 1 && matches!(n.as_str(), "filter" | "map" | "filter_map" | "take_while") && matches!(peel(&m.args[0]), Expr::Closure(_) | Expr::Path(_)) {
                let (b, mut v) = self.chain(&m.receiver); v.push((n, m.args[0].clone())); return (b, v);
            }
        }
        (e.clone(), vec![])
    }
    fn adapters(&mut self, ads: &[(String, Expr)], first: Ident) -> (Ident, Vec<(u8, Ident, Expr)>) {
        let mut cur = first; let mut out = vec![];
        for (k, (n, f)) in ads.iter().enumerate() {
            let nx = id(&format!("{cur}_{k}"));
            match n.as_str() {
                "filter" => { let p = self.apply(f, vec![(parse_quote!(&#cur), Ty::Unknown)], &Ty::Unknown); out.push((0, nx, p)); }
                "take_while" => { let p = self.apply(f, vec![(parse_quote!(&#cur), Ty::Unknown)], &Ty::Unknown); out.push((1, nx, p)); }
                "map" => { let p = self.apply(f, vec![(parse_quote!(#cur), Ty::Unknown)], &Ty::Unknown); out.push((2, nx.clone(), p)); cur = nx; }
                _ => { let p = self.apply(f, vec![(parse_quote!(#cur), Ty::Unknown)], &Ty::Opt(Box::new(Ty::Unknown))); out.push((3, nx.clone(), p)); cur = nx; }
            }
        }
        (cur, out)
    }
    fn wrap(wraps: Vec<(u8, Ident, Expr)>, mut b: Block) -> Block {
        for (k, x, p) in wraps.into_iter().rev() {
            b = match k { 0 => parse_quote!({ if #p #b }), 1 => parse_quote!({ if #p #b else { break; } }), 2 => { let st = b.stmts; parse_quote!({ let #x = #p; #(#st)* }) }, _ => parse_quote!({ match #p { Some(#x) => #b None => {} } }) };
        }
        b
    }

    /// desugared `match it.next() { Some(pat) => body, None => break }` loop
    fn make_loop(&mut self, n: usize, it: Expr, pat: Pat, body: Block, pre: Vec<Stmt>, post: Option<Expr>) -> Expr {
        let itn = id(&format!("it{n}"));
        let nl = Literal(n);
        let k = self.heads.get(&n).cloned().unwrap_or_default(); self.heads.insert(n, format!("{k} {}", quote!(#it)));
        let mut st: Vec<Stmt> = pre;
        st.push(parse_quote!(let mut #itn = #it;));
        st.push(parse_quote!(__GHOST__!(#nl);));
        st.push(parse_quote!(loop { __LOOP_SPEC__!(#nl); match #itn.v_next() { Some(#pat) => #body, None => { break; } } }));
        self.ghost_loops.insert(n);
        if let Some(p) = post { st.push(Stmt::Expr(p, None)); }
        let b = Block { brace_token: Default::default(), stmts: st };
        parse_quote!(#b)
    }

    fn inline_fn(&mut self, f: &ImplItemFn, args: Vec<Expr>) -> Option<Expr> {
        let name = f.sig.ident.to_string();
        if self.inline_depth >= 3 { return None; }
        // parameters except self
        let params: Vec<(Pat, Type)> = f.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(((*t.pat).clone(), (*t.ty).clone())) } else { None }).collect();
        if params.len() != args.len() { return None; }
        let out = match &f.sig.output { ReturnType::Type(_, t) => ty_of(t, &self.env.sigs.aliases), _ => Ty::Unknown };
        let body: Expr = { let b = &f.block; parse_quote!(#b) };
        let is_res = matches!(out, Ty::Res(_));
        let mode = Mode::Closure { opt: matches!(out, Ty::Opt(_)) };
        let mut b = body;
        if has_escape_expr(&b, &mode) {
            let mut t = Tail { mode, n: self.tmp * 100 + 7, budget: 24 };
            match t.value(&b) { Ok(x) => b = x, Err(_) => return None }
        }
        self.inlined.insert(name);
        self.inline_depth += 1;
        let saved = self.env.vars.clone();
        // evaluate the arguments first, then bind parameters
        let mut stmts: Vec<Stmt> = vec![];
        let tmps: Vec<Ident> = args.iter().map(|_| self.fresh("va")).collect();
        for (t, a) in tmps.iter().zip(&args) { stmts.push(parse_quote!(let #t = #a;)); }
        for ((p, ty), t) in params.iter().zip(&tmps) {
            self.env.bind_pat(p, ty_of(ty, &self.env.sigs.aliases));
            let ty2 = match ty { Type::ImplTrait(_) => None, t => Some(t) };
            match ty2 { Some(Type::Reference(r)) if r.mutability.is_none() => { stmts.push(parse_quote!(let #p = #t;)); } _ => { stmts.push(parse_quote!(let #p = #t;)); } }
        }
        let sret = std::mem::replace(&mut self.ret, out);
        self.visit_expr_mut(&mut b);
        self.ret = sret;
        self.env.vars = saved;
        self.inline_depth -= 1;
        match b { Expr::Block(x) if x.label.is_none() => stmts.extend(x.block.stmts), x => stmts.push(Stmt::Expr(x, None)) }
        let bl = Block { brace_token: Default::default(), stmts };
        if let (true, ReturnType::Type(_, t)) = (is_res, &f.sig.output) {
            let s = quote!(#t).to_string();
            if !s.contains('\'') && !s.contains("impl ") && !s.contains('&') { let mut t = (**t).clone(); fix_type(&mut t); let v = self.fresh("vi"); return Some(parse_quote!({ let #v: #t = #bl; #v })); }
        }
        Some(parse_quote!(#bl))
    }

    fn method(&mut self, m: &mut ExprMethodCall, e_ty: &Ty) -> Option<Expr> {
        let name = m.method.to_string();
        let _ = e_ty;
        if name == "any" { if let Some(mut e) = any_is_contains(m) { self.visit_expr_mut(&mut e); return Some(e); } }
        let recv_ty = self.env.ty(&m.receiver);
        let nargs = m.args.len();
        let arg0 = m.args.first().cloned();
        let clos0 = arg0.as_ref().and_then(|a| self.closure_of(a));
        if let ("any" | "all", true, Expr::MethodCall(it)) = (name.as_str(), clos0.is_some(), peel(&m.receiver)) {
            // over a short array literal: one disjunct (conjunct) per element
            let by_ref = it.method == "iter"; let base = match peel(&it.receiver) { Expr::Reference(r) => peel(&r.expr).clone(), x => x.clone() };
            if let (true, Expr::Array(a)) = (by_ref || it.method == "into_iter", base) { if (1..=8).contains(&a.elems.len()) {
                let mut acc: Option<Expr> = None;
                for x in &a.elems {
                    let mut x = x.clone(); self.visit_expr_mut(&mut x);
                    let x: Expr = if by_ref { parse_quote!(&#x) } else { x };
                    let p = self.apply(arg0.as_ref().unwrap(), vec![(x, Ty::Unknown)], &Ty::Unknown);
                    acc = Some(match acc { None => parse_quote!((#p)), Some(b) => if name == "any" { parse_quote!((#b || (#p))) } else { parse_quote!((#b && (#p))) } });
                }
                return acc;
            } }
        }
        // ---- iterator combinators with closures become loops ----
        if recv_ty == Ty::Iter || (clos0.is_some() && matches!(name.as_str(), "find" | "any" | "all" | "find_map" | "for_each" | "position") ) {
            match name.as_str() {
                "find" | "any" | "all" | "find_map" | "for_each" | "count" | "fold" | "last" if (clos0.is_some() || matches!(name.as_str(), "count" | "last")) || name == "fold" => {
                    let n = self.next_loop();
                    let (base, ads) = self.chain(&m.receiver);
                    let it = self.iter_expr(&base);
                    let vr = id(&format!("vr{n}")); let vx = id(&format!("vx{n}"));
                    let (cur, wraps) = self.adapters(&ads, vx.clone());
                    let cx: Expr = parse_quote!(#cur);
                    let ety = if wraps.is_empty() { self.elem_ty(&base) } else { Ty::Unknown };
                    let (init, body, post): (Option<Stmt>, Block, Option<Expr>) = match name.as_str() {
                        "find" => { let p = self.apply(&arg0.unwrap(), vec![(parse_quote!(&#cur), ety)], &Ty::Unknown); (Some(parse_quote!(let mut #vr = None;)), parse_quote!({ if #p { #vr = Some(#cx); break; } }), Some(parse_quote!(#vr))) }
                        "any" => { let p = self.apply(&arg0.unwrap(), vec![(cx, ety)], &Ty::Unknown); (Some(parse_quote!(let mut #vr = false;)), parse_quote!({ if #p { #vr = true; break; } }), Some(parse_quote!(#vr))) }
                        "all" => { let p = self.apply(&arg0.unwrap(), vec![(cx, ety)], &Ty::Unknown); (Some(parse_quote!(let mut #vr = true;)), parse_quote!({ if !(#p) { #vr = false; break; } }), Some(parse_quote!(#vr))) }
                        "find_map" => { let p = self.apply(&arg0.unwrap(), vec![(cx, ety)], &Ty::Opt(Box::new(Ty::Unknown))); (Some(parse_quote!(let mut #vr = None;)), parse_quote!({ match #p { Some(vv) => { #vr = Some(vv); break; } None => {} } }), Some(parse_quote!(#vr))) }
                        "count" => (Some(parse_quote!(let mut #vr: usize = 0;)), parse_quote!({ #vr = #vr + 1; }), Some(parse_quote!(#vr))),
                        "last" => (Some(parse_quote!(let mut #vr = None;)), parse_quote!({ #vr = Some(#cx); }), Some(parse_quote!(#vr))),
                        "fold" => { let mut z = arg0.unwrap(); self.visit_expr_mut(&mut z); let f = m.args[1].clone(); let p = self.apply(&f, vec![(parse_quote!(#vr), Ty::Unknown), (cx, ety)], &Ty::Unknown); (Some(parse_quote!(let mut #vr = #z;)), parse_quote!({ #vr = #p; }), Some(parse_quote!(#vr))) }
                        _ => { let p = self.apply(&arg0.unwrap(), vec![(cx, ety)], &Ty::Unknown); (None, parse_quote!({ #p; }), None) }
                    };
                    self.heads.insert(n, format!("{name} {}", ads.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join(" ")));
                    let body = Self::wrap(wraps, body);
                    return Some(self.make_loop(n, it, parse_quote!(#vx), body, init.into_iter().collect(), post));
                }
                "map" => {
                    // only element-wise conversions
                    if let Some(c) = &clos0 {
                        let b = &c.body; let s = quote!(#b).to_string().replace(' ', "");
                        let p = c.inputs.first().map(|p| quote!(#p).to_string()).unwrap_or_default();
                        let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                        if s == format!("{p}.as_str()") { return Some(parse_quote!(#r.v_map_as_str())); }
                        if s == format!("*{p}") { return Some(parse_quote!(#r.v_map_copied())); }
                    }
                    self.err("iterator map".into()); return None;
                }
                "take_while" | "filter" | "filter_map" | "fold" | "for_each" | "skip_while" | "flat_map" | "scan" | "collect" | "sum" | "max" | "min" | "last" => { self.err(format!("iterator method {name}")); return None; }
                _ => {}
            }
        }
        if let (true, Expr::Call(c)) = (name == "unwrap" || name == "expect", peel(&m.receiver)) {
            let f = &c.func; let s = quote!(#f).to_string().replace(' ', "");
            if (s == "Regex::new" || s == "regex::Regex::new") && self.ctor { let mut a = c.args[0].clone(); self.visit_expr_mut(&mut a); return Some(parse_quote!(v_static_regex(#a))); }
        }
        let is_opt = matches!(recv_ty, Ty::Opt(_));
        let is_res = matches!(recv_ty, Ty::Res(_));
        let in_ty = recv_ty.inner();
        let combin = matches!(name.as_str(), "map" | "and_then" | "or_else" | "map_or" | "map_or_else" | "unwrap_or_else" | "is_some_and" | "is_none_or" | "is_ok_and" | "is_err_and" | "filter" | "ok_or" | "ok_or_else" | "map_err" | "inspect_err" | "inspect" | "ok" | "err" | "unwrap_or" | "unwrap_or_default" | "or" | "copied" | "cloned" | "unwrap" | "expect" | "is_some" | "is_none" | "is_ok" | "is_err" | "and" | "expect_err");
        if combin && (is_opt || is_res || matches!(name.as_str(), "is_some_and" | "is_ok_and" | "is_err_and" | "ok_or" | "map_err" | "ok" | "unwrap_or" | "unwrap" | "expect" | "is_some" | "is_none" | "is_ok" | "is_err" | "unwrap_or_else")) {
            let mut r = (*m.receiver).clone();
            self.visit_expr_mut(&mut r);
            let vx = self.fresh("vx");
            let ve = self.fresh("ve");
            let unk = Ty::Unknown;
            let a = |i: usize| m.args.iter().nth(i).cloned().unwrap();
            let is_opt = is_opt || matches!(name.as_str(), "is_some_and" | "ok_or" | "is_some" | "is_none");
            let known = is_opt || is_res;
            let px: Expr = parse_quote!(#vx);
            let pe: Expr = parse_quote!(#ve);
            let res: Option<Expr> = match name.as_str() {
                "map" => { let b = self.apply(&a(0), vec![(px, in_ty)], &unk); Some(if is_opt { parse_quote!(match #r { Some(#vx) => Some(#b), None => None }) } else { parse_quote!(match #r { Ok(#vx) => Ok(#b), Err(#ve) => Err(#ve) }) }) }
                "and_then" => { let out = if is_opt { Ty::Opt(Box::new(unk)) } else { Ty::Res(Box::new(unk)) }; let b = self.apply(&a(0), vec![(px, in_ty)], &out); Some(if is_opt { parse_quote!(match #r { Some(#vx) => #b, None => None }) } else { parse_quote!(match #r { Ok(#vx) => #b, Err(#ve) => Err(#ve) }) }) }
                "or_else" => { if is_opt { let b = self.apply(&a(0), vec![], &Ty::Opt(Box::new(unk))); Some(parse_quote!(match #r { Some(#vx) => Some(#vx), None => #b })) } else { let b = self.apply(&a(0), vec![(pe, Ty::Unknown)], &Ty::Res(Box::new(Ty::Unknown))); Some(parse_quote!(match #r { Ok(#vx) => Ok(#vx), Err(#ve) => #b })) } }
                "or" => { let mut b = a(0); self.visit_expr_mut(&mut b); Some(if is_opt { parse_quote!(match #r { Some(#vx) => Some(#vx), None => #b }) } else { parse_quote!(match #r { Ok(#vx) => Ok(#vx), Err(_) => #b }) }) }
                "map_err" => { let b = self.apply(&a(0), vec![(pe, Ty::Unknown)], &unk); Some(parse_quote!(match #r { Ok(#vx) => Ok(#vx), Err(#ve) => Err(#b) })) }
                "inspect_err" => { match self.closure_of(&a(0)) { Some(c) => match peel(&c.body) { Expr::Macro(mm) if is_log(&mm.mac) => Some(r), _ => { self.err("inspect_err".into()); None } }, None => { self.err("inspect_err".into()); None } } }
                "map_or" => { let mut d = a(0); self.visit_expr_mut(&mut d); let b = self.apply(&a(1), vec![(px, in_ty)], &unk); Some(if is_opt { parse_quote!(match #r { Some(#vx) => #b, None => #d }) } else { parse_quote!(match #r { Ok(#vx) => #b, Err(_) => #d }) }) }
                "map_or_else" if is_opt => { let d = self.apply(&a(0), vec![], &unk); let b = self.apply(&a(1), vec![(px, in_ty)], &Ty::Unknown); Some(parse_quote!(match #r { Some(#vx) => #b, None => #d })) }
                "unwrap_or_else" if is_opt => { let d = self.apply(&a(0), vec![], &unk); Some(parse_quote!(match #r { Some(#vx) => #vx, None => #d })) }
                "unwrap_or_else" if is_res => { let d = self.apply(&a(0), vec![(pe, Ty::Unknown)], &unk); Some(parse_quote!(match #r { Ok(#vx) => #vx, Err(#ve) => #d })) }
                "unwrap_or" if known => { let mut d = a(0); self.visit_expr_mut(&mut d); Some(if is_opt { parse_quote!(match #r { Some(#vx) => #vx, None => #d }) } else { parse_quote!(match #r { Ok(#vx) => #vx, Err(_) => #d }) }) }
                "unwrap" | "expect" => Some(parse_quote!(#r.v_unwrap())),
                "is_some_and" => { let b = self.apply(&a(0), vec![(px, in_ty)], &unk); Some(parse_quote!(match #r { Some(#vx) => #b, None => false })) }
                "is_none_or" => { let b = self.apply(&a(0), vec![(px, in_ty)], &unk); Some(parse_quote!(match #r { Some(#vx) => #b, None => true })) }
                "is_ok_and" => { let b = self.apply(&a(0), vec![(px, in_ty)], &unk); Some(parse_quote!(match #r { Ok(#vx) => #b, Err(_) => false })) }
                "is_err_and" => { let b = self.apply(&a(0), vec![(pe, Ty::Unknown)], &unk); Some(parse_quote!(match #r { Err(#ve) => #b, Ok(_) => false })) }
                "filter" if is_opt => { let b = self.apply(&a(0), vec![(parse_quote!(&#vx), in_ty)], &unk); Some(parse_quote!(match #r { Some(#vx) => if #b { Some(#vx) } else { None }, None => None })) }
                "ok_or" => { let mut d = a(0); self.visit_expr_mut(&mut d); Some(parse_quote!(match #r { Some(#vx) => Ok(#vx), None => Err(#d) })) }
                "ok_or_else" => { let d = self.apply(&a(0), vec![], &unk); Some(parse_quote!(match #r { Some(#vx) => Ok(#vx), None => Err(#d) })) }
                "ok" => Some(parse_quote!(match #r { Ok(#vx) => Some(#vx), Err(_) => None })),
                "err" => Some(parse_quote!(match #r { Ok(_) => None, Err(#ve) => Some(#ve) })),
                "copied" if is_opt => Some(parse_quote!(match #r { Some(#vx) => Some(*#vx), None => None })),
                "cloned" if is_opt => Some(parse_quote!(match #r { Some(#vx) => Some(#vx.v_clone()), None => None })),
                "is_some" => Some(parse_quote!(match &#r { Some(_) => true, None => false })),
                "is_none" => Some(parse_quote!(match &#r { Some(_) => false, None => true })),
                "is_ok" => Some(parse_quote!(match &#r { Ok(_) => true, Err(_) => false })),
                "is_err" => Some(parse_quote!(match &#r { Ok(_) => false, Err(_) => true })),
                _ => { self.err(format!("combinator {name} on unknown kind")); None }
            };
            return res;
        }
        if combin && !(name == "err" || name == "and") && matches!(name.as_str(), "map" | "and_then" | "or_else" | "filter" | "map_or") { self.err(format!("combinator `{name}` on a receiver of unknown kind: {}", { let r = &m.receiver; quote!(#r) })); return None; }

        match name.as_str() {
            "or_try_insert_with" => {
                let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                let b = self.apply(&arg0.unwrap(), vec![], &Ty::Res(Box::new(Ty::Unknown)));
                return Some(parse_quote!(match #r.v_cur() { Ok(vx) => Ok(vx), Err(ve) => match #b { Ok(vv) => Ok(ve.v_put(vv)), Err(vz) => Err(vz) } }));
            }
            "or_insert_with" => {
                let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                let b = self.apply(&arg0.unwrap(), vec![], &Ty::Unknown);
                return Some(parse_quote!(match #r.v_cur() { Ok(vx) => vx, Err(ve) => ve.v_put(#b) }));
            }
            "binary_search_by_key" => {
                let ok = m.args.iter().nth(1).and_then(|c| self.closure_of(c)).map(|c| {
                    let b = &c.body; let s = quote!(#b).to_string().replace(' ', "");
                    match c.inputs.first() { Some(Pat::Tuple(t)) if t.elems.len() == 2 => { let p = &t.elems[0]; s == format!("*{}", quote!(#p)) } Some(Pat::Ident(i)) => s == format!("{}.0", i.ident), _ => false }
                }).unwrap_or(false);
                if !ok { self.err("binary_search_by_key key".into()); return None; }
                let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                let mut k = arg0.unwrap(); self.visit_expr_mut(&mut k);
                return Some(parse_quote!(v_bsearch_key0(&#r, #k)));
            }
            "sort_by_key" | "sort_unstable_by_key" => {
                let ok = clos0.as_ref().map(|c| {
                    let b = &c.body; let s = quote!(#b).to_string().replace(' ', "");
                    match c.inputs.first() { Some(Pat::Tuple(t)) if t.elems.len() == 2 => { let p = &t.elems[0]; s == format!("*{}", quote!(#p)) } Some(Pat::Reference(r)) => match &*r.pat { Pat::Tuple(t) if t.elems.len() == 2 => { let p = &t.elems[0]; s == quote!(#p).to_string() } _ => false }, Some(Pat::Ident(i)) => s == format!("{}.0", i.ident), _ => false }
                }).unwrap_or(false);
                if !ok { self.err(format!("{name} key")); return None; }
                let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                return Some(parse_quote!(v_sort_key0(&mut #r)));
            }
            "extend" => {
                if let Some(Expr::MethodCall(mm)) = arg0.as_ref().map(peel) {
                    if mm.method == "map" { if let Some(c) = mm.args.first().and_then(|a| self.closure_of(a)) {
                        let n = self.next_loop();
                        let it = self.iter_expr(&mm.receiver);
                        let vx = id(&format!("vx{n}"));
                        let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                        let b = self.apply(&Expr::Closure(c), vec![(parse_quote!(#vx), Ty::Unknown)], &Ty::Unknown);
                        self.heads.insert(n, "extend".into());
                        return Some(self.make_loop(n, it, parse_quote!(#vx), parse_quote!({ #r.v_push(#b); }), vec![], None));
                    } }
                }
            }
            "drain" => {
                if let Some(Expr::Range(rg)) = arg0.as_ref().map(peel) {
                    let mut r = (*m.receiver).clone(); self.visit_expr_mut(&mut r);
                    let mut a: Expr = rg.start.clone().map(|x| *x).unwrap_or_else(|| parse_quote!(0));
                    if let (Some(b), RangeLimits::HalfOpen(_)) = (rg.end.clone(), &rg.limits) { let mut b = *b; self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); return Some(parse_quote!(#r.v_drain(#a, #b))); }
                }
                self.err("drain".into()); return None;
            }
            _ => {}
        }
        if m.args.iter().any(|a| self.closure_of(a).is_some()) && !self.env.sigs.ret.contains_key(&name) { self.err(format!("closure passed to `{name}`")); return None; }
        // helper without contract: inline
        if let (Expr::Path(p), Some(f)) = (peel(&m.receiver), self.inline.get(&name)) {
            if p.path.is_ident("self") {
                let f = f.clone();
                let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                for a in &mut args { self.visit_expr_mut(a); }
                if let Some(e) = self.inline_fn(&f, args) { return Some(e); }
            }
        }
        let turbo = m.turbofish.as_ref().map(|t| { let a = &t.args; quote!(#a).to_string() });
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() { self.visit_expr_mut(a); }
        { // free-function forms, so that every string type is accepted
            let r = &m.receiver; let a = m.args.first();
            match (name.as_str(), nargs) {
                ("parse", 0) => match turbo.as_deref() { Some("u64") => return Some(parse_quote!(v_u64_from_str_radix(#r.v_str(), 10))), Some("i32") => return Some(parse_quote!(v_i32_from_str_radix(#r.v_str(), 10))), _ => { self.err("parse".into()); return None; } },
                ("char_indices", 0) => return Some(parse_quote!(v_char_indices(#r.v_str()))),
                ("trim" | "trim_start" | "trim_end", 0) => { let f = id(&format!("v_{name}")); return Some(parse_quote!(#f(#r.v_str()))); }
                ("trim_start_matches" | "trim_end_matches" | "strip_suffix" | "rfind" | "split" | "split_once" | "rsplit_once", 1) => { let f = id(&format!("v_{name}")); return Some(parse_quote!(#f(#r.v_str(), #a))); }
                _ => {}
            }
        }
        const REN: &[(&str, usize)] = &[("len", 0), ("is_empty", 0), ("find", 1), ("starts_with", 1), ("ends_with", 1), ("strip_prefix", 1), ("replace", 2), ("repeat", 1), ("to_string", 0), ("to_owned", 0), ("clone", 0),
            ("chars", 0), ("rev", 0), ("iter", 0), ("skip", 1), ("push_str", 1), ("push", 1), ("clear", 0), ("truncate", 1), ("contains", 1), ("contains_key", 1), ("get_mut", 1), ("push_front", 1), ("push_back", 1), ("keys", 0), ("get", 1), ("first", 0), ("last", 0), ("insert", 2), ("insert", 1),
            ("sort", 0), ("sort_unstable", 0), ("extend_from_slice", 1), ("is_decimal_utf8", 0), ("to_decimal_utf8", 0), ("len_utf8", 0), ("to_ascii_uppercase", 0), ("to_ascii_lowercase", 0), ("next", 0), ("into", 0), ("into_iter", 0), ("flatten", 0), ("is_ascii_digit", 0), ("rposition", 1), ("saturating_sub", 1), ("wrapping_add", 1), ("as_bytes", 0), ("eq_ignore_ascii_case", 1), ("abs", 0), ("checked_div", 1), ("min", 1), ("max", 1), ("pop", 0), ("remove", 1), ("get_or_insert", 1), ("extend", 1), ("nth", 1), ("take", 1), ("is_ascii", 0), ("is_whitespace", 0), ("is_alphabetic", 0), ("is_numeric", 0), ("is_alphanumeric", 0), ("is_ascii_alphabetic", 0), ("is_ascii_alphanumeric", 0), ("is_ascii_uppercase", 0), ("is_ascii_lowercase", 0)];
        if REN.iter().any(|(n, k)| *n == name && *k == nargs) {
            let nm = match name.as_str() { "to_owned" => "v_to_string".into(), "is_decimal_utf8" => "v_is_decimal".into(), "to_decimal_utf8" => "v_to_decimal".into(), "sort_unstable" => "v_sort".into(), x => format!("v_{x}") };
            // methods of extracted types keep their names
            let own = matches!(name.as_str(), "format");
            if !own { m.method = id(&nm); }
            m.turbofish = None;
        }
        None
    }
}

pub struct LitUsize(pub usize);
#[allow(non_snake_case)]
fn Literal(n: usize) -> LitInt { LitInt::new(&n.to_string(), Span::call_site()) }

impl<'a> VisitMut for Ctx<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.env.vars.clone();
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let total = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            match &mut s {
                Stmt::Macro(m) if is_log(&m.mac) => { if i + 1 == total && m.semi_token.is_none() { out.push(Stmt::Expr(parse_quote!(()), None)); } continue; }
                Stmt::Macro(m) if m.semi_token.is_some() => {
                    let mac = m.mac.clone(); let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac });
                    self.visit_expr_mut(&mut e); out.push(Stmt::Expr(e, Some(Default::default()))); continue;
                }
                Stmt::Macro(m) => { let mac = m.mac.clone(); let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac }); self.visit_expr_mut(&mut e); out.push(Stmt::Expr(e, None)); continue; }
                Stmt::Local(l) => {
                    l.attrs.clear();
                    if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                        if let Expr::Closure(c) = peel(&init.expr) { self.closures.insert(p.ident.to_string(), c.clone()); continue; }
                    }
                    let t = l.init.as_ref().map(|i| self.env.ty(&i.expr)).unwrap_or(Ty::Unknown);
                    if let Some(init) = &mut l.init { self.visit_expr_mut(&mut init.expr); if let Some((_, d)) = &mut init.diverge { self.visit_expr_mut(d); } }
                    self.visit_pat_mut(&mut l.pat);
                    self.env.bind_pat(&l.pat.clone(), t);
                    let mut names = vec![]; pat_names(&l.pat, &mut names);
                    if let Pat::Type(pt) = &mut l.pat { fix_type(&mut pt.ty); }
                    // rewrite `let else` to a match-free form Verus accepts natively
                    out.push(s.clone());
                    for n in names { if self.after.contains(&n) && self.inline_depth == 0 && !self.after_seen.contains(&n) { self.after_seen.insert(n.clone()); let i2 = id(&n); out.push(parse_quote!(__AFTER__!(#i2);)); } }
                    continue;
                }
                Stmt::Item(Item::Const(_)) if self.inline_depth == 0 => {}
                Stmt::Item(Item::Const(c)) => { let (n, t, mut e) = (c.ident.clone(), c.ty.clone(), (*c.expr).clone()); self.visit_expr_mut(&mut e); out.insert(0, parse_quote!(let #n: #t = #e;)); continue; }
                Stmt::Item(Item::Use(_)) => { continue; }
                Stmt::Item(_) => { self.err("nested item".into()); }
                Stmt::Expr(e, _) => { self.visit_expr_mut(e); }
            }
            out.push(s);
        }
        b.stmts = out;
        self.env.vars = saved;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.visit_pat_mut(&mut a.pat);
        if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
        self.visit_expr_mut(&mut a.body);
    }
    fn visit_type_mut(&mut self, t: &mut Type) { fix_type(t); }
    fn visit_path_mut(&mut self, p: &mut Path) { fix_path(p); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // drop attributes
        match e {
            Expr::Block(b) if b.label.is_some() => {
                let l = b.label.as_ref().unwrap().name.clone();
                let mut t = Tail { mode: Mode::Label(l), n: self.tmp * 100 + 3, budget: 40 };
                self.tmp += 1;
                let mut b2 = b.clone(); b2.label = None;
                match t.value(&Expr::Block(b2)) { Ok(x) => { *e = x; self.visit_expr_mut(e); } Err(x) => self.err(format!("labelled block: {x}")) }
                return;
            }
            Expr::Let(l) => {
                let t = self.env.ty(&l.expr);
                self.visit_expr_mut(&mut l.expr);
                self.visit_pat_mut(&mut l.pat);
                self.env.bind_pat(&l.pat.clone(), t);
                return;
            }
            Expr::If(i) => {
                let saved = self.env.vars.clone();
                let mut names = vec![]; if let Expr::Let(l) = &*i.cond { pat_names(&l.pat, &mut names); }
                let refs = if let Expr::Let(l) = &mut *i.cond { deref_names(&mut l.pat) } else { vec![] };
                self.visit_expr_mut(&mut i.cond);
                for r in refs.iter().rev() { i.then_branch.stmts.insert(0, parse_quote!(let #r = *#r;)); }
                self.visit_block_mut(&mut i.then_branch);
                for n in names { if self.after.contains(&n) && self.inline_depth == 0 && !self.after_seen.contains(&n) { self.after_seen.insert(n.clone()); let i2 = id(&n); i.then_branch.stmts.insert(0, parse_quote!(__AFTER__!(#i2);)); } }
                self.env.vars = saved;
                if let Some((_, x)) = &mut i.else_branch { self.visit_expr_mut(x); }
                return;
            }
            Expr::Match(m) => {
                let t = self.env.ty(&m.expr);
                self.visit_expr_mut(&mut m.expr);
                for a in &mut m.arms {
                    if let Some(c) = lift_str_pats(&mut a.pat) { a.guard = Some(match a.guard.take() { Some((i, g)) => (i, parse_quote!(#c && (#g))), None => (Default::default(), Box::new(c)) }); }
                    for r in deref_names(&mut a.pat).iter().rev() { let b = &a.body; a.body = Box::new(parse_quote!({ let #r = *#r; #b })); if let Some((_, g)) = &mut a.guard { let g0 = g.clone(); **g = parse_quote!({ let #r = *#r; #g0 }); } }
                    let saved = self.env.vars.clone(); self.env.bind_pat(&a.pat.clone(), t.clone()); self.visit_arm_mut(a); self.env.vars = saved; }
                return;
            }
            Expr::Try(t) => {
                let k = self.env.ty(&t.expr);
                let k = match k { Ty::Opt(_) => true, Ty::Res(_) => false, _ => matches!(self.ret, Ty::Opt(_)) };
                self.visit_expr_mut(&mut t.expr);
                let x = &t.expr;
                *e = if k { parse_quote!((match #x { Some(vt) => vt, None => return None })) } else { parse_quote!((match #x { Ok(vt) => vt, Err(ve) => return Err(ve.v_into()) })) };
                return;
            }
            Expr::ForLoop(f) => {
                let n = self.next_loop();
                let (base, ads) = if self.env.ty(&f.expr) == Ty::Iter { self.chain(&f.expr) } else { ((*f.expr).clone(), vec![]) };
                let ads = if ads.iter().all(|(n, _)| n == "map") && self.simple_map(&f.expr) { vec![] } else { ads };
                let it = if ads.is_empty() { self.iter_expr(&f.expr) } else { self.iter_expr(&base) };
                let vx = id(&format!("vx{n}"));
                let (cur, wraps) = self.adapters(&ads, vx.clone());
                self.visit_pat_mut(&mut f.pat);
                self.env.bind_pat(&f.pat.clone(), Ty::Unknown);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let mut pat = (*f.pat).clone();
                if !ads.is_empty() { let p = pat; let st = body.stmts; body = Self::wrap(wraps, parse_quote!({ let #p = #cur; #(#st)* })); pat = parse_quote!(#vx); }
                if f.label.is_some() { self.err("labelled for".into()); }
                self.heads.insert(n, format!("for {}", ads.iter().map(|a| a.0.as_str()).collect::<Vec<_>>().join(" ")));
                *e = self.make_loop(n, it, pat, body, vec![], None);
                return;
            }
            Expr::While(w) => {
                let n = self.next_loop(); let nl = Literal(n);
                { let c = &w.cond; self.heads.insert(n, format!("while {}", quote!(#c))); }
                if let Expr::Let(l) = &*w.cond {
                    let mut s = (*l.expr).clone(); let mut body = w.body.clone(); let pat = (*l.pat).clone();
                    let t = self.env.ty(&s);
                    self.visit_expr_mut(&mut s); self.env.bind_pat(&pat, t); self.visit_block_mut(&mut body);
                    *e = parse_quote!(loop { __LOOP_SPEC__!(#nl); match #s { #pat => #body, _ => { break; } } });
                } else {
                    self.visit_expr_mut(&mut w.cond); self.visit_block_mut(&mut w.body);
                    w.body.stmts.insert(0, parse_quote!(__LOOP_SPEC__!(#nl);));
                }
                return;
            }
            Expr::Loop(l) => {
                let n = self.next_loop(); let nl = Literal(n); self.heads.insert(n, "loop".into());
                self.visit_block_mut(&mut l.body);
                l.body.stmts.insert(0, parse_quote!(__LOOP_SPEC__!(#nl);));
                return;
            }
            Expr::Macro(m) => {
                let name = path_last(&m.mac.path);
                let toks = m.mac.tokens.clone();
                match name.as_str() {
                    x if LOGS.contains(&x) => { *e = parse_quote!(()); }
                    "concat_str" => {
                        let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                        match syn::parse::Parser::parse2(p, toks) {
                            Ok(args) => {
                                let mut a: Vec<Expr> = args.into_iter().map(|x| unref(&x)).collect();
                                for x in &mut a { self.visit_expr_mut(x); }
                                if a.len() < 2 || a.len() > 8 { self.err("concat_str arity".into()); }
                                let f = id(&format!("v_cat{}", a.len()));
                                // temporaries for buffers live until the end of the call
                                *e = parse_quote!(#f(#(#a.v_str()),*));
                            }
                            Err(_) => self.err("concat_str args".into()),
                        }
                    }
                    "matches" => {
                        let r = syn::parse::Parser::parse2(|input: syn::parse::ParseStream| -> syn::Result<(Expr, Pat, Option<Expr>)> {
                            let e: Expr = input.parse()?; input.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(input)?;
                            let g = if input.peek(Token![if]) { input.parse::<Token![if]>()?; Some(input.parse()?) } else { None };
                            let _ = input.parse::<Option<Token![,]>>()?; Ok((e, p, g)) }, toks);
                        match r {
                            Ok((mut x, mut p, g)) => { let g = match (lift_str_pats(&mut p), g) { (Some(c), Some(g)) => Some(parse_quote!(#c && (#g))), (Some(c), None) => Some(c), (None, g) => g }; let t = self.env.ty(&x); self.visit_expr_mut(&mut x); self.visit_pat_mut(&mut p); self.env.bind_pat(&p, t);
                                let g = g.map(|mut g| { self.visit_expr_mut(&mut g); quote!(if #g) });
                                *e = parse_quote!((match #x { #p #g => true, _ => false })); }
                            Err(_) => self.err("matches!".into()),
                        }
                    }
                    "debug_assert" | "debug_assert_eq" | "debug_assert_ne" => { *e = parse_quote!(()); }
                    "assert" | "unreachable" | "panic" | "unimplemented" | "todo" => { *e = parse_quote!(v_panic()); }
                    "__LOOP_SPEC__" | "__GHOST__" | "__AFTER__" => {}
                    "format" => {
                        match fmt_args(toks) { Some(mut parts) => {
                                for x in &mut parts { self.visit_expr_mut(x); }
                                let mut acc: Option<Expr> = None;
                                for p in parts { acc = Some(match acc { None => parse_quote!(#p.v_str().v_to_string()), Some(a) => parse_quote!(v_cat2(#a.as_str(), #p.v_str())) }); }
                                *e = acc.unwrap_or_else(|| parse_quote!(v_string_new()));
                            } None => self.err("format!".into()) }
                    }
                    x => match self.env.sigs.macros.get(x).and_then(|d| expand_macro(d.clone(), toks)) {
                        Some(mut b) => { self.visit_expr_mut(&mut b); *e = b; }
                        None => self.err(format!("macro {x}!")),
                    },
                }
                return;
            }
            Expr::Closure(_) => { self.err("closure in unsupported position".into()); return; }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = peel(&r.expr) {
                    if let Some(x) = self.slice(&ix.clone()) { *e = x; return; }
                }
            }
            Expr::Index(ix) => { if let Some(x) = self.slice(&ix.clone()) { *e = parse_quote!((*#x)); return; } }
            Expr::Call(c) => {
                if let Expr::Path(p) = peel(&c.func) {
                    if let Some(i) = p.path.get_ident() {
                        if let Some(cl) = self.closures.get(&i.to_string()).cloned() {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in &mut args { self.visit_expr_mut(a); }
                            let out = cl_out(&cl, &self.env);
                            let args2 = args.into_iter().map(|a| (a, Ty::Unknown)).collect();
                            *e = self.apply(&Expr::Closure(cl), args2, &out);
                            return;
                        }
                    }
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let full = segs.join("::");
                    let last = segs.last().unwrap().clone();
                    if segs.len() == 2 && last == "iter" && c.args.is_empty() && segs[0].chars().next().map_or(false, |c| c.is_uppercase()) { let t = id(&segs[0]); *e = parse_quote!(#t::v_variants()); return; }
                    let rep = match full.as_str() {
                        "u64::from_str_radix" => Some("v_u64_from_str_radix"), "i32::from_str_radix" => Some("v_i32_from_str_radix"),
                        "usize::try_from" => Some("v_usize_try_from"), "String::new" => Some("v_string_new"), "String::with_capacity" => Some("v_string_with_capacity"),
                        "String::from" => Some("v_string_from"), "Default::default" => Some("VDefault::v_default"), "Vec::from" => Some("v_vec_from"), "Box::new" => Some("v_box_new"),
                        "dec_from_char::normalize_decimals_filtering" | "normalize_decimals_filtering" => Some("v_normalize_decimals_filtering"),
                        "itoa::Buffer::new" => Some("ItoaBuffer::new"), "regex::Regex::new" => Some("Regex::new"),
                        _ => None };
                    if let Some(r) = rep { let pth: Path = syn::parse_str(r).unwrap(); c.func = Box::new(parse_quote!(#pth)); for a in c.args.iter_mut() { self.visit_expr_mut(a); } return; }
                    // free helper / Self::helper without contract
                    if segs.len() == 1 || segs[0] == "Self" || segs[0] == "helper_functions" || segs[0] == "super" || segs[0] == "crate" {
                        if let Some(f) = self.inline.get(&last).cloned() {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in &mut args { self.visit_expr_mut(a); }
                            if let Some(x) = self.inline_fn(&f, args) { *e = x; return; }
                        }
                    }
                }
                let mut f = (*c.func).clone();
                self.visit_expr_mut(&mut f); c.func = Box::new(f);
                for a in c.args.iter_mut() { self.visit_expr_mut(a); }
                return;
            }
            Expr::MethodCall(m) => {
                let t = Ty::Unknown;
                let mut m2 = m.clone();
                if let Some(x) = self.method(&mut m2, &t) { *e = x; } else { *e = Expr::MethodCall(m2); }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn cl_out(c: &ExprClosure, env: &Env) -> Ty { match &c.output { ReturnType::Type(_, t) => ty_of(t, &env.sigs.aliases), _ => env.ty(&c.body) } }

impl<'a> Ctx<'a> {
    fn slice(&mut self, ix: &ExprIndex) -> Option<Expr> {
        if let Expr::Range(r) = peel(&ix.index) {
            let mut b = (*ix.expr).clone(); self.visit_expr_mut(&mut b);
            let (s, t) = (r.start.clone(), r.end.clone());
            let mut vs = s.map(|x| *x); let mut vt = t.map(|x| *x);
            if let Some(x) = &mut vs { self.visit_expr_mut(x); }
            if let Some(x) = &mut vt { self.visit_expr_mut(x); }
            if let (RangeLimits::Closed(_), Some(x)) = (&r.limits, &vt) { vt = Some(parse_quote!((#x + 1))); }
            return Some(match (vs, vt) { (Some(a), Some(c)) => parse_quote!(#b.v_slice(#a, #c)), (Some(a), None) => parse_quote!(#b.v_slice_from(#a)), (None, Some(c)) => parse_quote!(#b.v_slice_to(#c)), (None, None) => parse_quote!(#b.v_slice_from(0)) });
        }
        None
    }
}

pub fn pat_names(p: &Pat, out: &mut Vec<String>) {
    match p { Pat::Ident(i) => out.push(i.ident.to_string()), Pat::Type(t) => pat_names(&t.pat, out), Pat::Tuple(t) => for e in &t.elems { pat_names(e, out) }, Pat::TupleStruct(t) => for e in &t.elems { pat_names(e, out) }, Pat::Reference(r) => pat_names(&r.pat, out), _ => {} }
}

/// format!("lit{}", args): only `{}` placeholders and inline identifiers
fn fmt_args(t: proc_macro2::TokenStream) -> Option<Vec<Expr>> {
    let p = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
    let args = syn::parse::Parser::parse2(p, t).ok()?;
    let mut it = args.into_iter();
    let f = match it.next()? { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
    let mut rest: std::collections::VecDeque<Expr> = it.collect();
    let mut out: Vec<Expr> = vec![]; let mut lit = String::new();
    let cs: Vec<char> = f.chars().collect(); let mut i = 0;
    while i < cs.len() {
        if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' { lit.push('{'); i += 2; continue; }
        if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' { lit.push('}'); i += 2; continue; }
        if cs[i] == '{' {
            let j = (i..cs.len()).find(|k| cs[*k] == '}')?;
            let name: String = cs[i + 1..j].iter().collect();
            if !lit.is_empty() { let l = lit.clone(); out.push(parse_quote!(#l)); lit.clear(); }
            if name.is_empty() { out.push(unref(&rest.pop_front()?)); } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') { let i2 = id(&name); out.push(parse_quote!(#i2)); } else { return None; }
            i = j + 1; continue;
        }
        lit.push(cs[i]); i += 1;
    }
    if !lit.is_empty() { let l = lit.clone(); out.push(parse_quote!(#l)); }
    Some(out)
}

pub fn fix_path(p: &mut Path) {
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let full = segs.join("::");
    match full.as_str() {
        "regex::Error" => { *p = syn::parse_str("RegexError").unwrap(); return; }
        "itoa::Buffer" => { *p = syn::parse_str("ItoaBuffer").unwrap(); return; }
        _ => {}
    }
    if segs.len() > 1 {
        // drop module prefixes (lower-case leading segments), keep Type::Assoc
        let prim = ["str", "u8", "u32", "u64", "i32", "i64", "usize", "char", "bool"];
        let mut k = 0;
        while k + 1 < segs.len() && (segs[k].chars().next().unwrap().is_lowercase() && !prim.contains(&segs[k].as_str()) || segs[k] == "super" || segs[k] == "crate") { k += 1; }
        if k > 0 {
            let rest: Vec<PathSegment> = p.segments.iter().skip(k).cloned().collect();
            p.segments = rest.into_iter().collect(); p.leading_colon = None;
        }
    }
    for s in p.segments.iter_mut() {
        if let PathArguments::AngleBracketed(a) = &mut s.arguments {
            if s.ident == "Cow" {
                let keep: Vec<GenericArgument> = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                if keep.is_empty() { s.arguments = PathArguments::AngleBracketed(parse_quote!(<'_>)); continue; }
                a.args = keep.into_iter().collect();
            } else { for x in a.args.iter_mut() { if let GenericArgument::Type(t) = x { fix_type(t); } } }
        }
    }
}

pub fn fix_type(t: &mut Type) {
    match t {
        Type::Reference(r) => {
            if let Type::ImplTrait(i) = &*r.elem { if i.bounds.iter().any(|b| quote!(#b).to_string().replace(' ', "").contains("AsRef<str>")) { *r.elem = parse_quote!(str); return; } }
            fix_type(&mut r.elem)
        }
        Type::Paren(p) => { fix_type(&mut p.elem); }
        Type::Slice(s) => fix_type(&mut s.elem),
        Type::Array(a) => { fix_type(&mut a.elem); }
        Type::Tuple(x) => for e in x.elems.iter_mut() { fix_type(e); },
        Type::ImplTrait(i) => {
            for b in &i.bounds {
                if let TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    let n = seg.ident.to_string();
                    if n.ends_with("Iterator") {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            for g in &a.args { if let GenericArgument::AssocType(at) = g { let mut ty = at.ty.clone(); fix_type(&mut ty); *t = parse_quote!(VIt<#ty>); return; } }
                        }
                    }
                    if n == "AsRef" { *t = parse_quote!(&str); return; }
                }
            }
        }
        Type::Path(p) => {
            let s = quote!(#p).to_string().replace(' ', "");
            if s == "Box<dynMatcherApi>" || s == "Box<dyncrate::interfaces::MatcherApi>" { *t = parse_quote!(RegexBasedMatcher); return; }
            fix_path(&mut p.path);
        }
        _ => {}
    }
}

/// string literals in a pattern become bindings compared in the guard (the verifier compares `&str` values, not their texts, in patterns)
fn lift_str_pats(p: &mut Pat) -> Option<Expr> {
    fn lits(p: &Pat) -> Option<Vec<Expr>> { match p {
        Pat::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(vec![parse_quote!(#s)]),
        Pat::Paren(q) => lits(&q.pat),
        Pat::Or(o) => { let mut v = vec![]; for c in &o.cases { v.extend(lits(c)?); } Some(v) }
        _ => None } }
    struct V { conds: Vec<Expr> }
    impl VisitMut for V {
        fn visit_pat_mut(&mut self, p: &mut Pat) {
            if let Some(v) = lits(p) {
                let b = id(&format!("strpat{}", self.conds.len()));
                let mut c: Option<Expr> = None; for l in v { let q: Expr = parse_quote!(#b.v_str() == #l); c = Some(match c { None => q, Some(a) => parse_quote!(#a || #q) }); }
                if let Some(c) = c { self.conds.push(parse_quote!((#c))); *p = parse_quote!(#b); }
                return;
            }
            visit_mut::visit_pat_mut(self, p);
        }
        fn visit_expr_mut(&mut self, _: &mut Expr) {}
    }
    let mut v = V { conds: vec![] }; v.visit_pat_mut(p);
    v.conds.into_iter().reduce(|a, b| parse_quote!(#a && #b))
}

/// a `macro_rules!` with one rule whose parameters are expressions, expanded (None: another shape, or an argument that the body's own names would capture)
fn expand_macro(def: proc_macro2::TokenStream, args: proc_macro2::TokenStream) -> Option<Expr> {
    use proc_macro2::{TokenStream, TokenTree};
    let d: Vec<TokenTree> = def.into_iter().collect();
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (d.first()?, d.get(3)?) else { return None };
    if d.len() > 5 || d.len() == 5 && d[4].to_string() != ";" { return None; }
    let pt: Vec<TokenTree> = pat.stream().into_iter().collect(); let mut names = vec![];
    for c in pt.chunks(5) { if c.len() < 4 || c[0].to_string() != "$" || c[2].to_string() != ":" || c[3].to_string() != "expr" || c.len() == 5 && c[4].to_string() != "," { return None; } names.push(c[1].to_string()); }
    let a = syn::parse::Parser::parse2(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, args).ok()?;
    if a.len() != names.len() { return None; }
    fn idents(t: TokenStream, out: &mut BTreeSet<String>) { let mut dollar = false; for x in t { match x { TokenTree::Group(g) => idents(g.stream(), out), TokenTree::Ident(i) => if !dollar { out.insert(i.to_string()); }, TokenTree::Punct(ref p) if p.as_char() == '$' => { dollar = true; continue; } _ => {} } dollar = false; } }
    fn subst(t: TokenStream, m: &HashMap<String, TokenStream>) -> TokenStream {
        let v: Vec<TokenTree> = t.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
        while i < v.len() {
            if v[i].to_string() == "$" { if let Some(r) = v.get(i + 1).and_then(|n| m.get(&n.to_string())) { out.extend(quote!((#r))); i += 2; continue; } }
            out.extend([match &v[i] { TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), m))), x => x.clone() }]); i += 1;
        }
        out
    }
    // names the body binds must not occur in the arguments
    let (mut bi, mut ai) = (BTreeSet::new(), BTreeSet::new()); idents(body.stream(), &mut bi); idents(quote!(#a), &mut ai);
    let kw = ["if", "let", "else", "match", "std", "borrow", "self", "true", "false", "return", "mut", "ref"];
    if bi.iter().any(|x| ai.contains(x) && x.chars().next().map_or(false, |c| c.is_lowercase()) && !kw.contains(&x.as_str())) { return None; }
    let m: HashMap<String, TokenStream> = names.into_iter().zip(a.iter().map(|x| quote!(#x))).collect();
    let b = subst(body.stream(), &m);
    let blk: Block = syn::parse2(quote!({ #b })).ok()?;
    Some(parse_quote!(#blk))
}
