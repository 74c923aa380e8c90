//! Token printer: readable lines, string literals normalised, placeholders replaced by contract text.
use crate::contracts::FnC;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
struct P<'a> { o: String, ind: usize, c: Option<&'a FnC>, last_joint: bool, errs: Vec<String> }
pub fn tokens(t: TokenStream, ind: usize) -> String { let mut p = P { o: String::new(), ind, c: None, last_joint: false, errs: vec![] }; p.ts(t); p.o }
/// body of a function without the outer braces
pub fn body(t: TokenStream, c: &FnC, errs: &mut Vec<String>) -> String {
    let g = t.into_iter().next();
    let mut p = P { o: String::new(), ind: 1, c: Some(c), last_joint: false, errs: vec![] };
    if let Some(TokenTree::Group(g)) = g { p.ts(g.stream()); }
    errs.extend(p.errs);
    p.o.push('\n');
    p.o
}
fn macro_at(v: &[TokenTree], i: usize, name: &str) -> Option<(String, usize)> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2)) {
        if id == name && p.as_char() == '!' { let mut n = 3; if let Some(TokenTree::Punct(p)) = v.get(i + 3) { if p.as_char() == ';' { n = 4; } } return Some((g.stream().to_string(), n)); }
    }
    None
}
impl<'a> P<'a> {
    fn nl(&mut self) { while self.o.ends_with(' ') { self.o.pop(); } if !self.o.ends_with('\n') { self.o.push('\n'); } for _ in 0..self.ind { self.o.push_str("    "); } }
    fn sp(&mut self) { if !self.last_joint && !self.o.ends_with(' ') && !self.o.ends_with('\n') && !self.o.is_empty() && !self.o.ends_with("    ") { self.o.push(' '); } self.last_joint = false; }
    fn text(&mut self, s: &str) { self.nl(); for l in s.lines() { self.o.push_str(l); self.o.push('\n'); } self.nl(); }
    fn ts(&mut self, t: TokenStream) { let v: Vec<TokenTree> = t.into_iter().collect(); self.vs(&v) }
    fn vs(&mut self, v: &[TokenTree]) {
        let mut i = 0;
        while i < v.len() {
            if let Some((n, k)) = macro_at(v, i, "__GHOST__") { self.text(&format!("let ghost it{n}_all = it{n}.rem();")); i += k; continue; }
            if let Some((n, k)) = macro_at(v, i, "__AFTER__") { if let Some(c) = self.c { if let Some(t) = c.after.get(&n) { let t = t.clone(); self.text(&t); } } i += k; continue; }
            if let Some((_, k)) = macro_at(v, i, "__LOOP_SPEC__") { i += k; continue; }
            match &v[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut body0 = None;
                            if let Some((n, _)) = macro_at(&inner, 0, "__LOOP_SPEC__") {
                                let n: usize = n.parse().unwrap_or(999);
                                if let Some(c) = self.c { if let Some(s) = c.loops.get(&n) { let s = s.clone(); self.text(&s); } body0 = c.body.get(&n).cloned(); }
                            }
                            self.sp(); self.o.push('{'); self.ind += 1; self.nl();
                            if let Some(b) = body0 { self.text(&b); }
                            self.vs(&inner); self.ind -= 1; self.nl(); self.o.push('}');
                            // newline unless followed by else / , / . / ) / ;
                            match v.get(i + 1) { Some(TokenTree::Ident(id)) if id == "else" => {} Some(TokenTree::Punct(p)) if ",.;?".contains(p.as_char()) => {} None => {} _ => self.nl() }
                        }
                        Delimiter::Parenthesis => { if !self.o.ends_with(|c: char| c.is_alphanumeric() || c == '_' || c == '>' || c == '!' || c == ')' ) { self.sp(); } self.last_joint = false; self.o.push('('); self.vs(&inner); while self.o.ends_with(' ') { self.o.pop(); } self.o.push(')'); }
                        Delimiter::Bracket => { self.sp(); self.o.push('['); self.vs(&inner); self.o.push(']'); }
                        Delimiter::None => self.vs(&inner),
                    }
                }
                TokenTree::Ident(id) => { self.sp(); self.o.push_str(&id.to_string()); }
                TokenTree::Literal(l) => { self.sp(); let s = l.to_string();
                    if s.starts_with('r') || s.starts_with('"') { if let Ok(ls) = syn::parse_str::<syn::LitStr>(&s) { self.o.push_str(&format!("{:?}", ls.value()).replace("\\'", "'")); i += 1; continue; } }
                    self.o.push_str(&s); }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    let tight = matches!(ch, ',' | ';' | '.' | '?') || (ch == ':' && false);
                    if !tight { self.sp(); } else { while self.o.ends_with(' ') { self.o.pop(); } }
                    self.o.push(ch);
                    self.last_joint = p.spacing() == Spacing::Joint || ch == '.' || ch == '&' && false;
                    if ch == ';' { self.nl(); }
                }
            }
            i += 1;
        }
    }
}
