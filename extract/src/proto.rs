//! Structures of the protobuf messages (rust-protobuf code generated from resources/*.proto at build time):
//! fields, accessors with protobuf default semantics, and specification accessors `s_<field>()`.
use crate::kinds::Ty; use std::fs; use std::path::Path;
#[derive(Clone)] pub struct Field { label: String, ty: String, name: String, default: Option<String> }
#[derive(Clone)] pub struct Msg { name: String, fields: Vec<Field>, enums: Vec<(String, Vec<String>)> }
pub fn load(d: &Path) -> Vec<Msg> {
    let mut out = vec![];
    for f in ["phonenumber.proto", "phonemetadata.proto"] {
        let t = fs::read_to_string(d.join(f)).unwrap_or_default();
        let mut s = String::new(); let mut it = t.chars().peekable();
        while let Some(c) = it.next() {
            if c == '/' && it.peek() == Some(&'/') { while let Some(c) = it.next() { if c == '\n' { s.push('\n'); break; } } }
            else if c == '/' && it.peek() == Some(&'*') { it.next(); let mut p = ' '; while let Some(c) = it.next() { if p == '*' && c == '/' { break; } p = c; } }
            else { s.push(c); }
        }
        let s = s.replace('{', " { ").replace('}', " } ").replace(';', " ; ").replace('=', " = ").replace('[', " [ ").replace(']', " ] ");
        let w: Vec<&str> = s.split_whitespace().collect();
        let mut i = 0; let mut cur: Option<Msg> = None; let mut en: Option<(String, Vec<String>)> = None;
        while i < w.len() {
            match w[i] {
                "message" => { cur = Some(Msg { name: w[i + 1].into(), fields: vec![], enums: vec![] }); i += 3; }
                "enum" => { en = Some((w[i + 1].into(), vec![])); i += 3; }
                "}" => { if let Some(e) = en.take() { if let Some(m) = &mut cur { m.enums.push(e); } } else if let Some(m) = cur.take() { out.push(m); } i += 1; }
                "optional" | "required" | "repeated" if cur.is_some() => {
                    let mut f = Field { label: w[i].into(), ty: w[i + 1].into(), name: w[i + 2].into(), default: None };
                    while w[i] != ";" { if w[i] == "default" && w[i + 1] == "=" { f.default = Some(w[i + 2].into()); } i += 1; }
                    cur.as_mut().unwrap().fields.push(f);
                }
                _ => { if let Some(e) = &mut en { if w.get(i + 1) == Some(&"=") { e.1.push(w[i].into()); } } while i < w.len() && w[i] != ";" && w[i] != "}" { i += 1; } if i < w.len() && w[i] == ";" { i += 1; } }
            }
        }
    }
    out
}
fn prim(t: &str) -> Option<&'static str> { Some(match t { "int32" => "i32", "uint64" => "u64", "bool" => "bool", "string" => "String", _ => return None }) }
pub fn rets(m: &[Msg]) -> Vec<(String, Ty)> { let mut v = vec![]; for m in m { for f in &m.fields { if f.label != "repeated" { v.push((f.name.clone(), Ty::Named(f.ty.clone()))); v.push((format!("has_{}", f.name), Ty::Named("bool".into()))); } } } v }
pub fn emit(ms: &[Msg]) -> String {
    let mut o = String::new();
    for m in ms {
        for (en, vs) in &m.enums {
            o.push_str(&format!("#[derive(Structural, PartialEq, Eq, Clone, Copy)]\n#[allow(non_camel_case_types)]\npub enum {en} {{ {} }}\n", vs.join(", ")));
            o.push_str(&format!("#[verifier::external_body] pub struct EnumOrUnknown{en} {{ v: i32 }}\nimpl EnumOrUnknown{en} {{ pub uninterp spec fn ev(&self) -> {en}; \n#[verifier::external_body] pub fn new(e: {en}) -> (r: Self) ensures r.ev() == e {{ unimplemented!() }}\n#[verifier::external_body] pub fn enum_value_or(&self, d: {en}) -> (r: {en}) ensures r == self.ev() {{ unimplemented!() }} }}\n"));
        }
        let n = &m.name;
        o.push_str(&format!("pub struct {n} {{\n"));
        for f in &m.fields {
            let t = match prim(&f.ty) { Some(p) if f.label == "repeated" => format!("Vec<{p}>"), Some(p) => format!("Option<{p}>"), None if f.label == "repeated" => format!("Vec<{}>", f.ty), None if f.ty == "CountryCodeSource" => "Option<EnumOrUnknownCountryCodeSource>".into(), None => f.ty.clone() };
            o.push_str(&format!("    pub {}: {t},\n", f.name));
        }
        o.push_str(&format!("}}\nimpl VClone for {n} {{ #[verifier::external_body] fn v_clone(&self) -> (r: {n}) {{ unimplemented!() }} }}\n"));
        if m.fields.iter().all(|f| f.label != "repeated" && (prim(&f.ty).is_some() || f.ty == "CountryCodeSource")) {
            let conds: Vec<String> = m.fields.iter().map(|f| { let k = &f.name; match prim(&f.ty) {
                Some("String") => format!("(self.{k} is Some <==> o.{k} is Some) && self.s_{k}() == o.s_{k}()"),
                Some(_) => format!("self.{k} == o.{k}"),
                None => format!("(self.{k} is Some <==> o.{k} is Some) && self.s_{k}() == o.s_{k}()") } }).collect();
            o.push_str(&format!("impl PartialEq for {n} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> bool {{ unimplemented!() }} }}\nimpl vstd::std_specs::cmp::PartialEqSpecImpl for {n} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ self.same(o) }} }}\nimpl {n} {{ pub open spec fn same(&self, o: &Self) -> bool {{ {} }} }}\n", conds.join(" && ")));
        }
        o.push_str(&format!("impl {n} {{\n"));
        // new()
        if m.fields.iter().all(|f| f.label != "repeated" && (prim(&f.ty).is_some() || f.ty == "CountryCodeSource")) {
            o.push_str(&format!("    pub fn new() -> (r: {n}) ensures {} {{ {n} {{ {} }} }}\n", m.fields.iter().map(|f| format!("r.{} is None", f.name)).collect::<Vec<_>>().join(", "), m.fields.iter().map(|f| format!("{}: None", f.name)).collect::<Vec<_>>().join(", ")));
        }
        let small = m.fields.len() <= 10;
        for f in &m.fields {
            if f.label == "repeated" { continue; }
            let k = &f.name;
            let frame = |x: &str| m.fields.iter().filter(|g| g.name != *x).map(|g| format!("final(self).{0} == old(self).{0}", g.name)).collect::<Vec<_>>().join(", ");
            match prim(&f.ty) {
                Some("String") => {
                    o.push_str(&format!("    pub open spec fn s_{k}(&self) -> Seq<char> {{ match self.{k} {{ Some(v) => v@, None => Seq::empty() }} }}\n    pub fn {k}(&self) -> (r: &str) ensures r@ == self.s_{k}() {{ match &self.{k} {{ Some(v) => v.as_str(), None => v_empty_str() }} }}\n"));
                    if small { o.push_str(&format!("    pub fn set_{k}(&mut self, v: String) ensures final(self).{k} == Some(v), final(self).s_{k}() == v@, {} {{ self.{k} = Some(v); }}\n", frame(k))); }
                }
                Some(p) => {
                    let d = f.default.clone().unwrap_or(if p == "bool" { "false".into() } else { "0".into() });
                    o.push_str(&format!("    pub open spec fn s_{k}(&self) -> {p} {{ match self.{k} {{ Some(v) => v, None => {d} }} }}\n    pub fn {k}(&self) -> (r: {p}) ensures r == self.s_{k}() {{ match self.{k} {{ Some(v) => v, None => {d} }} }}\n"));
                    if small { o.push_str(&format!("    pub fn set_{k}(&mut self, v: {p}) ensures final(self).{k} == Some(v), {} {{ self.{k} = Some(v); }}\n", frame(k))); }
                }
                None if f.ty == "CountryCodeSource" => {
                    o.push_str(&format!("    pub open spec fn s_{k}(&self) -> CountryCodeSource {{ match self.{k} {{ Some(v) => v.ev(), None => CountryCodeSource::UNSPECIFIED }} }}\n    pub fn {k}(&self) -> (r: CountryCodeSource) ensures r == self.s_{k}() {{ match &self.{k} {{ Some(v) => v.enum_value_or(CountryCodeSource::UNSPECIFIED), None => CountryCodeSource::UNSPECIFIED }} }}\n"));
                    if small { o.push_str(&format!("    pub fn set_{k}(&mut self, v: CountryCodeSource) ensures final(self).{k} is Some, final(self).s_{k}() == v, {} {{ self.{k} = Some(EnumOrUnknownCountryCodeSource::new(v)); }}\n", frame(k))); }
                }
                None => continue,
            }
            o.push_str(&format!("    pub open spec fn h_{k}(&self) -> bool {{ self.{k} is Some }}\n    pub fn has_{k}(&self) -> (r: bool) ensures r == self.h_{k}() {{ match &self.{k} {{ Some(_) => true, None => false }} }}\n"));
            if small { o.push_str(&format!("    pub fn clear_{k}(&mut self) ensures final(self).{k} is None, {} {{ self.{k} = None; }}\n", frame(k))); }
        }
        o.push_str("}\n");
    }
    o
}
