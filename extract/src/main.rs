//! Mechanical extraction: /repo sources + /verif/contracts  ->  one Verus file.
mod kinds; mod tail; mod xf; mod print; mod proto; mod contracts;
use kinds::*; use xf::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs; use std::path::{Path as FPath, PathBuf};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Clone)]
struct FnInfo { key: String, owner: Option<(Type, Generics)>, f: ImplItemFn, file: String, line: usize }

fn rs_files(d: &FPath, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    es.sort();
    for p in es {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        if p.is_dir() { if n != "tests" && n != "generated" { rs_files(&p, out); } } else if n.ends_with(".rs") && !n.contains("test") { out.push(p); }
    }
}
fn has_cfg(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg")) }
fn ty_name(t: &Type) -> String { match t { Type::Path(p) => path_last(&p.path), Type::Reference(r) => ty_name(&r.elem), _ => quote!(#t).to_string().replace(' ', "") } }

struct All { macros: HashMap<String, proc_macro2::TokenStream>, consts: Vec<ItemConst>, enums: Vec<ItemEnum>, structs: Vec<ItemStruct>, aliases: Vec<ItemType>, fns: Vec<FnInfo>, froms: Vec<(Type, Type, ImplItemFn)>, traits: HashMap<String, ItemTrait> }

fn to_impl_fn(sig: &Signature, b: &Block) -> ImplItemFn { ImplItemFn { attrs: vec![], vis: parse_quote!(pub), defaultness: None, sig: sig.clone(), block: b.clone() } }

fn collect(items: Vec<Item>, file: &str, all: &mut All) {
    for it in items {
        match it {
            Item::Const(c) => if !has_cfg(&c.attrs) { all.consts.push(c) },
            Item::Enum(e) => if !has_cfg(&e.attrs) { all.enums.push(e) },
            Item::Struct(s) => if !has_cfg(&s.attrs) { all.structs.push(s) },
            Item::Type(t) => if !has_cfg(&t.attrs) { all.aliases.push(t) },
            Item::Macro(m) => if let (true, Some(n)) = (m.mac.path.is_ident("macro_rules") && !has_cfg(&m.attrs), &m.ident) { all.macros.insert(n.to_string(), m.mac.tokens); },
            Item::Trait(t) => { all.traits.insert(t.ident.to_string(), t); }
            Item::Fn(f) => if !has_cfg(&f.attrs) { let line = f.sig.ident.span().start().line; all.fns.push(FnInfo { key: f.sig.ident.to_string(), owner: None, f: to_impl_fn(&f.sig, &f.block), file: file.into(), line }) },
            Item::Mod(m) => if !has_cfg(&m.attrs) { if let Some((_, c)) = m.content { collect(c, file, all) } },
            Item::Impl(im) => {
                if has_cfg(&im.attrs) { continue; }
                let tn = ty_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().clone());
                if let Some(seg) = &tr {
                    if seg.ident == "From" {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments { if let Some(GenericArgument::Type(src)) = a.args.first() {
                            for x in &im.items { if let ImplItem::Fn(f) = x { all.froms.push((src.clone(), (*im.self_ty).clone(), f.clone())); } } } }
                        continue;
                    }
                    if !["RegexFullMatch", "RegexConsume", "MatcherApi"].contains(&seg.ident.to_string().as_str()) { continue; }
                }
                let mut names = BTreeSet::new();
                for x in &im.items { if let ImplItem::Fn(f) = x { if has_cfg(&f.attrs) { continue; }
                    names.insert(f.sig.ident.to_string());
                    let line = f.sig.ident.span().start().line;
                    all.fns.push(FnInfo { key: format!("{tn}::{}", f.sig.ident), owner: Some(((*im.self_ty).clone(), im.generics.clone())), f: to_impl_fn(&f.sig, &f.block), file: file.into(), line }); } }
                // default methods of the trait
                if let Some(seg) = &tr { if let Some(t) = all.traits.get(&seg.ident.to_string()).cloned() {
                    for x in &t.items { if let TraitItem::Fn(f) = x { if let Some(b) = &f.default { if !names.contains(&f.sig.ident.to_string()) {
                        let line = f.sig.ident.span().start().line;
                        all.fns.push(FnInfo { key: format!("{tn}::{}", f.sig.ident), owner: Some(((*im.self_ty).clone(), im.generics.clone())), f: to_impl_fn(&f.sig, b), file: file.into(), line }); } } } } } }
            }
            _ => {}
        }
    }
}

fn fieldless(e: &ItemEnum) -> bool { e.variants.iter().all(|v| v.fields.is_empty()) }
fn j(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn jl<'a>(v: impl Iterator<Item = &'a String>) -> String { format!("[{}]", v.map(|x| j(x)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let repo = get("--repo").unwrap_or("/repo".into());
    let cdir = get("--contracts").unwrap_or("/verif/contracts".into());
    let no_hints: Vec<String> = get("--nohints").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let targets: Vec<String> = get("--targets").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let lemmas: Vec<String> = get("--lemmas").unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let out_path = get("--out").expect("--out"); let meta_path = get("--meta").expect("--meta");

    let mut files = vec![]; rs_files(&FPath::new(&repo).join("src"), &mut files);
    let mut all = All { macros: HashMap::new(), consts: vec![], enums: vec![], structs: vec![], aliases: vec![], fns: vec![], froms: vec![], traits: HashMap::new() };
    let mut parse_errors: Vec<String> = vec![];
    let mut parsed = vec![];
    for p in &files {
        match fs::read_to_string(p).map_err(|e| e.to_string()).and_then(|s| parse_file(&s).map_err(|e| e.to_string())) {
            Ok(f) => parsed.push((p.strip_prefix(&repo).unwrap().to_string_lossy().to_string(), f)),
            Err(e) => parse_errors.push(format!("{}: {e}", p.display())),
        }
    }
    for (_, f) in &parsed { for it in &f.items { if let Item::Trait(t) = it { all.traits.insert(t.ident.to_string(), t.clone()); } } }
    for (n, f) in parsed { collect(f.items, &n, &mut all); }

    let cs = contracts::load(&FPath::new(&cdir), &lemmas);
    let protos = proto::load(&FPath::new(&repo).join("resources"));

    // signatures
    let mut sigs = Sigs { ret: HashMap::new(), fields: HashMap::new(), aliases: HashMap::new(), macros: all.macros.clone() };
    for al in &all.aliases { let ps = al.generics.params.iter().filter_map(|p| if let GenericParam::Type(t) = p { Some(t.ident.to_string()) } else { None }).collect(); sigs.aliases.insert(al.ident.to_string(), (ps, (*al.ty).clone())); }
    for f in &all.fns { if let ReturnType::Type(_, t) = &f.f.sig.output { let t = ty_of(t, &sigs.aliases); let n = f.f.sig.ident.to_string(); if !(f.key.starts_with("PhoneNumberUtil::") && sigs.ret.contains_key(&n)) { if n != "new" && n != "get" { sigs.ret.insert(n, t); } } } }
    for s in &all.structs { for f in &s.fields { if let Some(n) = &f.ident { sigs.fields.insert(n.to_string(), ty_of(&f.ty, &sigs.aliases)); } } }
    for (n, t) in proto::rets(&protos) { sigs.ret.entry(n).or_insert(t); }

    let contracted: BTreeSet<String> = cs.fns.keys().cloned().collect();
    let mut inline: HashMap<String, ImplItemFn> = HashMap::new();
    for f in &all.fns { if !contracted.contains(&f.key) && !f.key.starts_with("PhoneNumberUtil::") && !f.key.ends_with("::new") { inline.insert(f.f.sig.ident.to_string(), f.f.clone()); } }
    // names that are contracted somewhere must not be inlined
    for f in &all.fns { if contracted.contains(&f.key) { inline.remove(&f.f.sig.ident.to_string()); } }

    let mut o = String::new();
    o.push_str("#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, non_camel_case_types, unused_assignments, unreachable_code, unused_braces, unreachable_patterns, non_snake_case, redundant_semicolons)]\nuse vstd::prelude::*;\nuse std::sync::Arc;\nverus! {\n");
    o.push_str(&cs.prelude);
    o.push_str(&proto::emit(&protos));
    // ---- constants ----
    for c in &all.consts {
        let n = &c.ident; let mut ty = (*c.ty).clone(); fix_type(&mut ty);
        let ok = matches!(&*c.expr, Expr::Lit(_)) || matches!(&*c.expr, Expr::Unary(_));
        if !ok { continue; }
        let v = match &*c.expr { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => format!("{:?}", s.value()).replace("\\'", "'"), e => quote!(#e).to_string() };
        let t = print::tokens(quote!(#ty), 0);
        o.push_str(&format!("pub const {n}: {} = {v};\n", t.trim()));
    }
    // ---- enums, structs ----
    let mut vinto: Vec<(String, String, String)> = vec![];
    for e in &all.enums {
        let n = e.ident.to_string();
        if fieldless(e) { o.push_str("#[derive(Structural, PartialEq, Eq, Clone, Copy)]\n"); }
        o.push_str(&format!("pub enum {n} {{\n"));
        for v in &e.variants {
            let vn = &v.ident;
            match &v.fields {
                Fields::Unit => o.push_str(&format!("    {vn},\n")),
                Fields::Unnamed(u) => {
                    let ts: Vec<String> = u.unnamed.iter().map(|f| { let mut t = f.ty.clone(); fix_type(&mut t); print::tokens(quote!(#t), 0).trim().to_string() }).collect();
                    if u.unnamed.len() == 1 && u.unnamed[0].attrs.iter().any(|a| a.path().is_ident("from")) { vinto.push((ts[0].clone(), n.clone(), format!("{n}::{vn}"))); }
                    o.push_str(&format!("    {vn}({}),\n", ts.join(", ")));
                }
                Fields::Named(_) => { parse_errors.push(format!("enum {n}: named fields")); }
            }
        }
        o.push_str("}\n");
        if fieldless(e) { o.push_str(&format!("impl HKey for {n} {{ type KV = {n}; open spec fn kv(&self) -> {n} {{ *self }} }}\n")); }
        if fieldless(e) && e.attrs.iter().any(|a| a.path().is_ident("derive") && a.to_token_stream().to_string().contains("EnumIter")) {
            let vs: Vec<String> = e.variants.iter().map(|v| format!("{n}::{}", v.ident)).collect();
            o.push_str(&format!("impl {n} {{ #[verifier::external_body] pub fn v_variants() -> (r: VIt<{n}>) ensures r.rem() == seq![{}] {{ unimplemented!() }} }}\n", vs.join(", ")));
        }
    }
    let known: BTreeSet<&str> = ["PhoneNumberUtilInternal", "PhoneNumberRegExpsAndMappings", "RegexCache", "RegexBasedMatcher", "PhoneNumberWithCountryCodeSource", "InvalidRegexError", "InvalidNumberError", "InvalidMetadataForValidRegionError", "RegionCode", "PhoneNumberUtil"].into();
    for s in &all.structs {
        let n = s.ident.to_string();
        if !known.contains(n.as_str()) { let all_plain = true; let _ = all_plain; }
        let g = &s.generics; let gs = print::tokens(quote!(#g), 0);
        match &s.fields {
            Fields::Unit => o.push_str(&format!("pub struct {n};\n")),
            Fields::Unnamed(u) => {
                let ts: Vec<String> = u.unnamed.iter().map(|f| { let mut t = f.ty.clone(); fix_type(&mut t); print::tokens(quote!(#t), 0).trim().to_string() }).collect();
                if u.unnamed.len() == 1 && u.unnamed[0].attrs.iter().any(|a| a.path().is_ident("from")) { vinto.push((ts[0].clone(), n.clone(), n.clone())); }
                o.push_str(&format!("pub struct {n}{}({});\n", gs.trim(), ts.iter().map(|t| format!("pub {t}")).collect::<Vec<_>>().join(", ")));
            }
            Fields::Named(nf) => {
                o.push_str(&format!("pub struct {n}{} {{\n", gs.trim()));
                for f in &nf.named { let mut t = f.ty.clone(); fix_type(&mut t); o.push_str(&format!("    pub {}: {},\n", f.ident.as_ref().unwrap(), print::tokens(quote!(#t), 0).trim())); }
                o.push_str("}\n");
            }
        }
    }
    for al in &all.aliases { let mut t = (*al.ty).clone(); fix_type(&mut t); let g = &al.generics; o.push_str(&format!("pub type {}{} = {};\n", al.ident, print::tokens(quote!(#g), 0).trim(), print::tokens(quote!(#t), 0).trim())); }
    // ---- conversions ----
    for (src, dst, ctor) in &vinto {
        o.push_str(&format!("impl VInto<{dst}> for {src} {{ open spec fn into_s(self) -> {dst} {{ {ctor}(self) }} fn v_into(self) -> (r: {dst}) {{ {ctor}(self) }} }}\n"));
    }
    let mut froms = all.froms.clone();
    for (src, dst, f) in froms.iter_mut() {
        fix_type(src); fix_type(dst);
        let dn = ty_name(dst);
        let pn = match f.sig.inputs.first() { Some(FnArg::Typed(t)) => t.pat.to_token_stream().to_string(), _ => continue };
        struct S<'x>(&'x str, String);
        impl<'x> VisitMut for S<'x> { fn visit_expr_mut(&mut self, e: &mut Expr) {
            syn::visit_mut::visit_expr_mut(self, e);
            if let Expr::MethodCall(m) = e { if m.method == "into" { m.method = Ident::new(self.0, proc_macro2::Span::call_site()); } } }
            fn visit_path_mut(&mut self, p: &mut Path) { if p.segments.len() > 0 && p.segments[0].ident == "Self" { p.segments[0].ident = Ident::new(&self.1, proc_macro2::Span::call_site()); } } }
        let mut b1 = f.block.clone(); S("into_s", dn.clone()).visit_block_mut(&mut b1);
        let mut b2 = f.block.clone(); S("v_into", dn.clone()).visit_block_mut(&mut b2);
        let (s, d) = (print::tokens(quote!(#src), 0), print::tokens(quote!(#dst), 0));
        o.push_str(&format!("impl VInto<{d}> for {s} {{ open spec fn into_s(self) -> {d} {{ let {pn} = self; {} }} fn v_into(self) -> (r: {d}) {{ let {pn} = self; {} }} }}\n", print::tokens(quote!(#b1), 1), print::tokens(quote!(#b2), 1), d = d.trim(), s = s.trim()));
    }
    o.push_str(&cs.specs);

    // ---- functions ----
    let mut by_key: BTreeMap<String, FnInfo> = BTreeMap::new();
    for f in &all.fns { by_key.entry(f.key.clone()).or_insert(f.clone()); }
    let mut fmeta: Vec<String> = vec![];
    for (key, c0) in &cs.fns {
        let nohints = no_hints.contains(key);
        let c1; let c = if nohints { let mut x = c0.clone(); x.start.clear(); x.exit.clear(); x.after.clear(); x.body.clear(); c1 = x; &c1 } else { c0 };
        let mut soft: Vec<String> = vec![];
        let is_target = targets.iter().any(|t| t == key || t == "all");
        let Some(fi) = by_key.get(key) else { if is_target { fmeta.push(format!("{{\"fn\":{},\"status\":\"missing\",\"target\":true}}", j(key))); } else { fmeta.push(format!("{{\"fn\":{},\"status\":\"missing\",\"target\":false}}", j(key))); } continue; };
        let mut f = fi.f.clone();
        let mut errs: Vec<String> = vec![]; let mut inlined: BTreeSet<String> = BTreeSet::new(); let mut loops = 0;
        // parameters
        let env = Env { vars: HashMap::new(), sigs: &sigs };
        let ret = match &f.sig.output { ReturnType::Type(_, t) => ty_of(t, &sigs.aliases), _ => Ty::Unknown };
        let mut ctx = Ctx { env, ret, closures: HashMap::new(), inline: &inline, inlined: BTreeSet::new(), inline_depth: 0, errors: vec![], loops: 0, tmp: 0, lets: vec![], after: c.after.keys().cloned().collect(), after_seen: BTreeSet::new(), ghost_loops: BTreeSet::new(), range_loops: vec![], ctor: key == "PhoneNumberRegExpsAndMappings::new", heads: Default::default() };
        for p in &f.sig.inputs { if let FnArg::Typed(t) = p { let ty = ty_of(&t.ty, &sigs.aliases); ctx.env.bind_pat(&t.pat, ty); } }
        // helper function bodies with a closure parameter etc. are handled by the rewriting
        let body_text = if is_target {
            ctx.visit_block_mut(&mut f.block);
            errs = ctx.errors.clone(); inlined = ctx.inlined.clone(); loops = ctx.loops;
            let lost: Vec<String> = c.after.keys().filter(|k| !ctx.after_seen.contains(*k)).cloned().collect();
            for l in lost { soft.push(format!("lost anchor: variable {l}")); }
            for n in c.loops.keys() { if *n >= loops { soft.push(format!("lost anchor: loop {n}")); } }
            if nohints { soft.push("hints left out".into()); }
            if std::env::var("SMOKE").is_err() { for n in 0..loops { if !c.loops.contains_key(&n) { errs.push(format!("loop {n} without invariant")); } } }
            let b = &f.block;
            Some(print::body(quote!(#b), c, &mut errs))
        } else { None };
        // signature
        let mut sig = f.sig.clone();
        let mut params: Vec<String> = vec![];
        for p in sig.inputs.iter_mut() { match p {
            FnArg::Receiver(r) => params.push(print::tokens(quote!(#r), 0).trim().to_string()),
            FnArg::Typed(t) => { fix_type(&mut t.ty); let (p, ty) = (&t.pat, &t.ty); params.push(format!("{}: {}", print::tokens(quote!(#p), 0).trim(), print::tokens(quote!(#ty), 0).trim())); } } }
        let rt = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => { let mut t = (**t).clone();
            if ty_name(&t) == "Self" { if let Some((o, _)) = &fi.owner { t = o.clone(); } }
            fix_type(&mut t); format!(" -> (r: {})", print::tokens(quote!(#t), 0).trim()) } };
        let gen = { let g = &sig.generics; print::tokens(quote!(#g), 0).trim().to_string() };
        let mut head = String::new();
        let mut tail = String::new();
        if let Some((t, g)) = &fi.owner { let mut t = t.clone(); fix_type(&mut t); head = format!("impl{} {} {{\n", print::tokens(quote!(#g), 0).trim(), print::tokens(quote!(#t), 0).trim()); tail = "}\n".into(); }
        let ok = errs.is_empty();
        o.push_str(&head);
        let emit_body = is_target && ok;
        if emit_body { o.push_str("#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n"); if loops > 0 { o.push_str("#[verifier::allow_complex_invariants]\n"); } if std::env::var("SMOKE").is_ok() { o.push_str("#[verifier::exec_allows_no_decreases_clause]\n"); } } else { o.push_str("#[verifier::external_body]\n"); }
        for at in &c.attrs { if emit_body { o.push_str(at); o.push('\n'); } }
        let l0 = o.matches('\n').count() + 1;
        o.push_str(&format!("pub fn {}{}({}){}\n", sig.ident, gen, params.join(", "), rt));
        o.push_str(&c.spec);
        if emit_body {
            o.push_str("{\n"); 
            o.push_str(&c.start);
            o.push_str(&body_text.unwrap());
            o.push_str("}\n");
        } else { o.push_str("{ unimplemented!() }\n"); }
        let l1 = o.matches('\n').count() + 1;
        o.push_str(&tail);
        fmeta.push(format!("{{\"fn\":{},\"status\":{},\"target\":{},\"errors\":{},\"soft\":{},\"inlined\":{},\"heads\":{},\"loops\":{},\"file\":{},\"src_line\":{},\"line0\":{},\"line1\":{},\"clauses\":{}}}", j(key), j(if !is_target { "assumed" } else if ok { "verify" } else { "unsupported" }), is_target, jl(errs.iter()), jl(soft.iter()), jl(inlined.iter()), jl(ctx.heads.values()), loops, j(&fi.file), fi.line, l0, l1, c.clauses()));
    }
    let p0 = o.matches('\n').count() + 1;
    o.push_str(&cs.lemmas);
    o.push_str("\n} // verus!\nfn main() {}\n");
    fs::write(&out_path, &o).unwrap();
    let miss: Vec<String> = targets.iter().filter(|t| *t != "all" && !cs.fns.contains_key(*t)).cloned().collect();
    fs::write(&meta_path, format!("{{\"fns\":[\n{}\n],\"parse_errors\":{},\"unknown_targets\":{},\"lemma_line0\":{}}}\n", fmeta.join(",\n"), jl(parse_errors.iter()), jl(miss.iter()), p0)).unwrap();
}
