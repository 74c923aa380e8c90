//! Turns early exits inside an inlined closure / helper body or a labelled block into tail form:
//! `if c { return a } rest`  ==>  `if c { a } else { rest }`.  Control flow is preserved exactly;
//! code after a branch that may fall through is duplicated into the branches.
use quote::quote;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
pub enum Mode { Closure { opt: bool }, Label(Lifetime) }

struct Finder<'a> { mode: &'a Mode, found: bool, in_loop: usize, bad: bool }
impl<'a, 'ast> Visit<'ast> for Finder<'a> {
    fn visit_expr(&mut self, e: &'ast Expr) {
        match (e, self.mode) {
            (Expr::Closure(_), _) => return,
            (Expr::Return(_), Mode::Closure { .. }) | (Expr::Try(_), Mode::Closure { .. }) => { self.found = true; if self.in_loop > 0 { self.bad = true; } }
            (Expr::Break(b), Mode::Label(l)) if b.label.as_ref() == Some(l) => { self.found = true; if self.in_loop > 0 { self.bad = true; } }
            _ => {}
        }
        let is_loop = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
        if is_loop { self.in_loop += 1; }
        visit::visit_expr(self, e);
        if is_loop { self.in_loop -= 1; }
    }
    fn visit_item(&mut self, _: &'ast Item) {}
}
pub fn has_escape_expr(e: &Expr, m: &Mode) -> bool { let mut f = Finder { mode: m, found: false, in_loop: 0, bad: false }; f.visit_expr(e); f.found }
fn has_escape_stmt(s: &Stmt, m: &Mode) -> bool { let mut f = Finder { mode: m, found: false, in_loop: 0, bad: false }; f.visit_stmt(s); f.found }
fn bad_expr(e: &Expr, m: &Mode) -> bool { let mut f = Finder { mode: m, found: false, in_loop: 0, bad: false }; f.visit_expr(e); f.bad }

fn is_exit(e: &Expr, m: &Mode) -> bool { match (e, m) { (Expr::Return(_), Mode::Closure { .. }) => true, (Expr::Break(b), Mode::Label(l)) => b.label.as_ref() == Some(l), _ => false } }
fn exit_val(e: &Expr) -> Expr { match e { Expr::Return(r) => r.expr.as_ref().map(|x| (**x).clone()), Expr::Break(b) => b.expr.as_ref().map(|x| (**x).clone()), _ => None }.unwrap_or_else(|| parse_quote!(())) }

pub struct Tail { pub mode: Mode, pub n: usize, pub budget: usize }
type R<T> = std::result::Result<T, String>;

fn expr_block(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(), x => vec![Stmt::Expr(x.clone(), None)] } }
fn blk(s: Vec<Stmt>) -> Block { Block { brace_token: Default::default(), stmts: s } }
fn diverges(s: &[Stmt], m: &Mode) -> bool { match s.last() { Some(Stmt::Expr(e, _)) => is_exit(e, m) || matches!(e, Expr::Return(_) | Expr::Continue(_)), _ => false } }

impl Tail {
    pub fn value(&mut self, e: &Expr) -> R<Expr> {
        if !has_escape_expr(e, &self.mode) { return Ok(e.clone()); }
        if bad_expr(e, &self.mode) { return Err("early exit inside a loop of an inlined body".into()); }
        if is_exit(e, &self.mode) { return self.value(&exit_val(e)); }
        match e {
            Expr::Block(b) if b.label.is_none() => { let s = self.stmts(&b.block.stmts)?; let b = blk(s); Ok(parse_quote!(#b)) }
            Expr::Paren(p) => self.value(&p.expr),
            Expr::If(_) | Expr::Match(_) if self.cond_clean(e) => self.distribute(e, None, &[]),
            _ => {
                // hoist the first `?`
                let mut h = Hoist { tmp: format!("vq{}", self.n), inner: None, bad: false };
                self.n += 1;
                let mut e2 = e.clone();
                h.visit_expr_mut(&mut e2);
                let inner = match h.inner { Some(x) if !h.bad => x, _ => return Err(format!("cannot linearise early exit in `{}`", quote!(#e))) };
                let tmp: Ident = Ident::new(&h.tmp, proc_macro2::Span::call_site());
                let inner = self.hoisted(inner)?;
                let rest = self.value(&e2)?;
                Ok(self.branch(inner, parse_quote!(#tmp), rest))
            }
        }
    }
    fn hoisted(&mut self, inner: Expr) -> R<Expr> { if has_escape_expr(&inner, &self.mode) { Err("nested `?`".into()) } else { Ok(inner) } }
    fn branch(&self, inner: Expr, pat: Pat, rest: Expr) -> Expr {
        let opt = matches!(self.mode, Mode::Closure { opt: true });
        if opt { parse_quote!(match #inner { Some(#pat) => #rest, None => None }) }
        else { parse_quote!(match #inner { Ok(#pat) => #rest, Err(ve) => Err(ve.into()) }) }
    }
    fn cond_clean(&self, e: &Expr) -> bool { match e { Expr::If(i) => !has_escape_expr(&i.cond, &self.mode), Expr::Match(m) => !has_escape_expr(&m.expr, &self.mode), _ => true } }
    /// `e` is an if / match / block whose branches contain exits; bind its value to `bind` and continue with `rest`.
    fn distribute(&mut self, e: &Expr, bind: Option<&Local>, rest: &[Stmt]) -> R<Expr> {
        if self.budget == 0 { return Err("tail form too large".into()); }
        self.budget -= 1;
        let tail_pos = bind.is_none() && rest.is_empty();
        let mut cont = |this: &mut Self, stmts: Vec<Stmt>| -> R<Expr> {
            let mut st = stmts;
            if !diverges(&st, &this.mode) && !tail_pos {
                match (bind, st.last().cloned()) {
                    (Some(l), Some(Stmt::Expr(v, None))) => { st.pop(); let mut l2 = l.clone(); l2.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(v), diverge: l.init.as_ref().and_then(|i| i.diverge.clone()) }); st.push(Stmt::Local(l2)); }
                    (Some(_), _) => return Err("branch without value".into()),
                    (None, Some(Stmt::Expr(v, None))) => { st.pop(); st.push(Stmt::Expr(v, Some(Default::default()))); }
                    _ => {}
                }
                st.extend(rest.iter().cloned());
            }
            let b = blk(this.stmts(&st)?);
            Ok(parse_quote!(#b))
        };
        match e {
            Expr::If(i) => {
                let c = &i.cond;
                let t = cont(self, i.then_branch.stmts.clone())?;
                let el = match &i.else_branch { Some((_, x)) => cont(self, expr_block(x))?, None => cont(self, vec![])? };
                Ok(parse_quote!(if #c #t else #el))
            }
            Expr::Match(m) => {
                let s = &m.expr;
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms { let b = cont(self, expr_block(&a.body))?; let p = &a.pat; let g = a.guard.as_ref().map(|(_, g)| quote!(if #g)); arms.push(parse_quote!(#p #g => #b,)); }
                Ok(parse_quote!(match #s { #(#arms)* }))
            }
            Expr::Block(b) if b.label.is_none() => cont(self, b.block.stmts.clone()),
            _ => Err("unsupported branching expression".into()),
        }
    }
    pub fn stmts(&mut self, stmts: &[Stmt]) -> R<Vec<Stmt>> {
        let mut out = vec![];
        for (i, s) in stmts.iter().enumerate() {
            if !has_escape_stmt(s, &self.mode) { out.push(s.clone()); continue; }
            let rest = &stmts[i + 1..];
            match s {
                Stmt::Expr(e, _) if is_exit(e, &self.mode) => { out.push(Stmt::Expr(self.value(&exit_val(e))?, None)); return Ok(out); }
                Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)), semi) if self.cond_clean(e) => {
                    if bad_expr(e, &self.mode) { return Err("early exit inside a loop of an inlined body".into()); }
                    let rest2: Vec<Stmt> = if rest.is_empty() && semi.is_some() { vec![Stmt::Expr(parse_quote!(()), None)] } else { rest.to_vec() };
                    out.push(Stmt::Expr(self.distribute(e, None, &rest2)?, None)); return Ok(out);
                }
                Stmt::Expr(e, None) if rest.is_empty() => { out.push(Stmt::Expr(self.value(e)?, None)); return Ok(out); }
                Stmt::Local(l) => {
                    let init = l.init.as_ref().ok_or("let without init")?;
                    if let Some((_, d)) = &init.diverge {
                        if !has_escape_expr(&init.expr, &self.mode) {
                            let (p, x) = (&l.pat, &init.expr);
                            let r = blk(self.stmts(rest)?);
                            let d2 = self.value(d)?;
                            out.push(Stmt::Expr(parse_quote!(match #x { #p => #r, _ => #d2 }), None));
                            return Ok(out);
                        }
                    }
                    match &*init.expr {
                        Expr::Try(t) if !has_escape_expr(&t.expr, &self.mode) && init.diverge.is_none() => {
                            let r = blk(self.stmts(rest)?);
                            let pat = if let Pat::Type(pt) = &l.pat { (*pt.pat).clone() } else { l.pat.clone() };
                            out.push(Stmt::Expr(self.branch((*t.expr).clone(), pat, parse_quote!(#r)), None)); return Ok(out);
                        }
                        e @ (Expr::If(_) | Expr::Match(_) | Expr::Block(_)) if self.cond_clean(e) => { out.push(Stmt::Expr(self.distribute(e, Some(l), rest)?, None)); return Ok(out); }
                        e => { // hoist one `?`
                            let mut h = Hoist { tmp: format!("vq{}", self.n), inner: None, bad: false };
                            self.n += 1;
                            let mut e2 = e.clone(); h.visit_expr_mut(&mut e2);
                            let inner = match h.inner { Some(x) if !h.bad => x, _ => return Err("cannot linearise early exit".into()) };
                            let mut l2 = l.clone(); l2.init.as_mut().unwrap().expr = Box::new(e2);
                            let mut st = vec![Stmt::Local(l2)]; st.extend(rest.iter().cloned());
                            let tmp: Ident = Ident::new(&h.tmp, proc_macro2::Span::call_site());
                            let r = blk(self.stmts(&st)?);
                            out.push(Stmt::Expr(self.branch(inner, parse_quote!(#tmp), parse_quote!(#r)), None)); return Ok(out);
                        }
                    }
                }
                Stmt::Expr(e, semi) => {
                    let mut h = Hoist { tmp: format!("vq{}", self.n), inner: None, bad: false };
                    self.n += 1;
                    let mut e2 = e.clone(); h.visit_expr_mut(&mut e2);
                    let inner = match h.inner { Some(x) if !h.bad => x, _ => return Err("cannot linearise early exit".into()) };
                    let mut st = vec![Stmt::Expr(e2, *semi)]; st.extend(rest.iter().cloned());
                    let tmp: Ident = Ident::new(&h.tmp, proc_macro2::Span::call_site());
                    let r = blk(self.stmts(&st)?);
                    out.push(Stmt::Expr(self.branch(inner, parse_quote!(#tmp), parse_quote!(#r)), None)); return Ok(out);
                }
                _ => return Err("unsupported statement with early exit".into()),
            }
        }
        Ok(out)
    }
}

/// Replaces the first (innermost, leftmost) `?` expression by a temporary.
struct Hoist { tmp: String, inner: Option<Expr>, bad: bool }
impl VisitMut for Hoist {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.inner.is_some() { return; }
        match e {
            Expr::Closure(_) => return,
            Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => { let m = Mode::Closure { opt: false }; if has_escape_expr(e, &m) { self.bad = true; } return; }
            Expr::Binary(b) if matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => { self.visit_expr_mut(&mut b.left); if self.inner.is_none() { let m = Mode::Closure { opt: false }; if has_escape_expr(&b.right, &m) { self.bad = true; } } return; }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if self.inner.is_none() {
            if let Expr::Try(t) = e {
                self.inner = Some((*t.expr).clone());
                let id = Ident::new(&self.tmp, proc_macro2::Span::call_site());
                *e = parse_quote!(#id);
            }
        }
    }
}
