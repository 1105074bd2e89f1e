//! C15: the generated Rust code compiles on its own and declares what the schema declares.
//!
//! Every enumerated set of schemas is parsed, validated, resolved and generated by the real code. The
//! result is read back with a Rust parser (items, comments, names) and handed to the compiler,
//! together with a witness module that takes every declared type apart, assigns each field to the
//! type it must have, compares every constant and requires the codec traits.
use crate::sem::{self, *};
use mabo_build::{BytesType, Opts};
use model::report::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

#[derive(Clone)]
pub struct Case {
    pub group: &'static str,
    pub schemas: Vec<(String, Vec<D>)>,
}
pub fn case(group: &'static str, defs: Vec<D>) -> Case {
    Case { group, schemas: vec![("sample".into(), defs)] }
}

// ---- reference: Rust type of a schema type --------------------------------------------------------
struct Scope<'a> {
    schemas: &'a [(String, Vec<D>)],
    /// schema and modules of the definition
    at: Vec<String>,
    defs: &'a [D],
    /// representation of `bytes`
    bytes: bool,
}
/// Names of the items as they are declared in the generated code, by their path in the schemas.
type Names = BTreeMap<Vec<String>, String>;

impl Scope<'_> {
    /// Path of the definition a reference leads to.
    fn target(&self, path: &[String], name: &str) -> Option<Vec<String>> {
        let mut v;
        let has = |n: &str| self.defs.iter().any(|d| d.name == n && matches!(d.kind, K::Struct(_) | K::Enum(_)));
        if path.is_empty() {
            if has(name) {
                v = self.at.clone();
            } else {
                v = self.defs.iter().find_map(|d| match &d.kind {
                    K::Use(segs, true) if d.name == name => Some(segs.clone()),
                    _ => None,
                })?;
            }
        } else {
            v = if self.defs.iter().any(|d| d.name == path[0] && matches!(d.kind, K::Mod(_))) {
                let mut v = self.at.clone();
                v.push(path[0].clone());
                v
            } else {
                self.defs.iter().find_map(|d| match &d.kind {
                    K::Use(segs, false) if d.name == path[0] => Some(segs.clone()),
                    _ => None,
                })?
            };
            v.extend(path[1..].iter().cloned());
        }
        v.push(name.to_string());
        let _ = self.schemas;
        Some(v)
    }
    fn path(&self, names: &Names, p: &[String]) -> String {
        let mut o = String::from("super");
        for i in 0..p.len() {
            o.push_str("::");
            o.push_str(names.get(&p[..=i]).map_or(p[i].as_str(), String::as_str));
        }
        o
    }
    fn ty(&self, names: &Names, gens: &[String], t: &T) -> String {
        let go = |t: &T| self.ty(names, gens, t);
        let bytes = if self.bytes { "::mabo::buf::Bytes" } else { "::std::vec::Vec<u8>" };
        match t {
            T::P(s) => match *s {
                "string" | "&string" => "::std::string::String".into(),
                "bytes" | "&bytes" => bytes.into(),
                "box<string>" => "::std::boxed::Box<str>".into(),
                "box<bytes>" => "::std::boxed::Box<[u8]>".into(),
                s => format!("::std::primitive::{s}"),
            },
            T::Vec(t) => format!("::std::vec::Vec<{}>", go(t)),
            T::Map(k, v) => format!("::std::collections::HashMap<{}, {}>", go(k), go(v)),
            T::Set(t) => format!("::std::collections::HashSet<{}>", go(t)),
            T::Opt(t) => format!("::std::option::Option<{}>", go(t)),
            T::Nz(t) => match &**t {
                T::P(s) if s.starts_with(['u', 'i']) => format!("::std::num::NonZero{}", s.to_uppercase()),
                t => format!("::mabo::NonZero<{}>", go(t)),
            },
            T::Arr(t, n) => format!("[{}; {n}]", go(t)),
            T::Tup(v) => format!("({},)", v.iter().map(go).collect::<Vec<_>>().join(", ")),
            T::Ext(path, name, args) => {
                if path.is_empty() && args.is_empty() {
                    if let Some(i) = gens.iter().position(|g| g == name) {
                        return format!("G{i}");
                    }
                }
                let p = self.target(path, name).expect("resolved");
                let mut o = self.path(names, &p);
                if !args.is_empty() {
                    o.push_str(&format!("<{}>", args.iter().map(go).collect::<Vec<_>>().join(", ")));
                }
                o
            }
        }
    }
}

// ---- items of the generated code ------------------------------------------------------------------
fn docs(a: &[syn::Attribute]) -> Vec<String> {
    a.iter()
        .filter_map(|a| match &a.meta {
            syn::Meta::NameValue(nv) if nv.path.is_ident("doc") => match &nv.value {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => Some(s.value()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}
fn same_docs(got: &[syn::Attribute], want: &[String]) -> bool {
    let g: Vec<String> = docs(got).iter().flat_map(|d| d.split('\n').map(|l| l.trim().to_string()).collect::<Vec<_>>()).collect();
    let w: Vec<String> = want.iter().map(|l| l.trim().to_string()).collect();
    g == w
}
const NOT_RAW: [&str; 5] = ["self", "super", "crate", "Self", "_"];
/// A declared name has to appear as it is; only names that Rust can't represent may be altered.
fn same_name(got: &str, want: &str) -> bool {
    got == want || got.strip_prefix("r#") == Some(want) || (NOT_RAW.contains(&want) && got.contains(want))
}
fn is_pub(v: &syn::Visibility) -> bool {
    matches!(v, syn::Visibility::Public(_))
}
struct Reader<'a> {
    scope_schemas: &'a [(String, Vec<D>)],
    names: Names,
    bad: Vec<String>,
    /// names of fields, by path of the struct or variant
    fields: BTreeMap<Vec<String>, Vec<String>>,
}
impl Reader<'_> {
    fn fields(&mut self, at: &[String], f: &syn::Fields, want: &Fs, in_struct: bool) {
        let at_s = at.join("::");
        let n = want.list().len();
        let kind_ok = match (f, want) {
            (syn::Fields::Named(_), Fs::Named(_)) | (syn::Fields::Unnamed(_), Fs::Unnamed(_)) | (syn::Fields::Unit, Fs::Unit) => true,
            _ => n == 0 && f.is_empty(),
        };
        if !kind_ok || f.len() != n {
            self.bad.push(format!("{at_s} declares {} fields instead of {n}, or of another kind", f.len()));
            return;
        }
        let mut names = vec![];
        for (g, w) in f.iter().zip(want.list()) {
            if in_struct && !is_pub(&g.vis) {
                self.bad.push(format!("a field of {at_s} is not public"));
            }
            if let Some(i) = &g.ident {
                let i = i.to_string();
                if !same_name(&i, &w.name) {
                    self.bad.push(format!("field {} of {at_s} is called {i}", w.name));
                }
                names.push(i);
                if !same_docs(&g.attrs, &w.comment) {
                    self.bad.push(format!("field {} of {at_s} is documented as {:?} instead of {:?}", w.name, docs(&g.attrs), w.comment));
                }
            }
        }
        self.fields.insert(at.to_vec(), names);
    }
    fn scope(&mut self, at: &[String], items: &[syn::Item], defs: &[D]) {
        let at_s = at.join("::");
        // only what the schema declares counts: implementations and private imports are up to the generator
        let items: Vec<&syn::Item> = items
            .iter()
            .filter(|i| match i {
                syn::Item::Struct(i) => is_pub(&i.vis),
                syn::Item::Enum(i) => is_pub(&i.vis),
                syn::Item::Type(i) => is_pub(&i.vis),
                syn::Item::Const(i) => is_pub(&i.vis),
                syn::Item::Mod(i) => is_pub(&i.vis),
                syn::Item::Use(i) => is_pub(&i.vis),
                syn::Item::Impl(_) => false,
                _ => true,
            })
            .collect();
        let want: Vec<&D> = defs.iter().filter(|d| !matches!(d.kind, K::Use(..))).collect();
        if items.len() != want.len() {
            self.bad.push(format!("{at_s} has {} public items for {} definitions", items.len(), want.len()));
            return;
        }
        for (i, d) in items.iter().zip(want) {
            let mut p = at.to_vec();
            p.push(d.name.clone());
            let (ident, attrs, gens): (_, &[syn::Attribute], Option<&syn::Generics>) = match (i, &d.kind) {
                (syn::Item::Struct(s), K::Struct(f)) => {
                    self.fields(&p, &s.fields, f, true);
                    (&s.ident, &s.attrs, Some(&s.generics))
                }
                (syn::Item::Enum(e), K::Enum(vs)) => {
                    if e.variants.len() != vs.len() {
                        self.bad.push(format!("{} has {} variants", p.join("::"), e.variants.len()));
                    }
                    for (g, w) in e.variants.iter().zip(vs) {
                        let mut p = p.clone();
                        p.push(w.name.clone());
                        self.names.insert(p.clone(), g.ident.to_string());
                        if !same_name(&g.ident.to_string(), &w.name) || !same_docs(&g.attrs, &w.comment) {
                            self.bad.push(format!("variant {} is {} with the comment {:?}", p.join("::"), g.ident, docs(&g.attrs)));
                        }
                        self.fields(&p, &g.fields, &w.fields, false);
                    }
                    (&e.ident, &e.attrs, Some(&e.generics))
                }
                (syn::Item::Type(t), K::Alias(_)) => (&t.ident, &t.attrs, Some(&t.generics)),
                (syn::Item::Const(c), K::Const(..)) => (&c.ident, &c.attrs, None),
                (syn::Item::Mod(m), K::Mod(ds)) => {
                    self.names.insert(p.clone(), m.ident.to_string());
                    let empty = vec![];
                    self.scope(&p, m.content.as_ref().map_or(&empty, |c| &c.1), ds);
                    (&m.ident, &m.attrs, None)
                }
                _ => {
                    self.bad.push(format!("{} is declared as something else", p.join("::")));
                    continue;
                }
            };
            if !same_name(&ident.to_string(), &d.name) {
                self.bad.push(format!("{} is called {ident}", p.join("::")));
            }
            if !same_docs(attrs, &d.comment) {
                self.bad.push(format!("{} is documented as {:?} instead of {:?}", p.join("::"), docs(attrs), d.comment));
            }
            let g: Vec<String> = gens.map_or(vec![], |g| g.type_params().map(|p| p.ident.to_string()).collect());
            if g.len() != d.gens.len() || !g.iter().zip(&d.gens).all(|(g, w)| same_name(g, w)) {
                self.bad.push(format!("{} has the generics {g:?} instead of {:?}", p.join("::"), d.gens));
            }
            self.names.insert(p, ident.to_string());
        }
    }
    /// Code that only compiles if the generated items are what they should be.
    fn witness(&self, at: &[String], defs: &[D], bytes: bool, n: &mut usize, o: &mut String) {
        let sc = Scope { schemas: self.scope_schemas, at: at.to_vec(), defs, bytes };
        for d in defs {
            let mut p = at.to_vec();
            p.push(d.name.clone());
            let path = sc.path(&self.names, &p);
            let gs: Vec<String> = (0..d.gens.len()).map(|i| format!("G{i}")).collect();
            let g = if gs.is_empty() { String::new() } else { format!("<{}>", gs.join(", ")) };
            *n += 1;
            let arm = |path: &str, fs: &Fs, p: &[String]| -> String {
                let names = self.fields.get(p).cloned().unwrap_or_default();
                let pat = match fs {
                    Fs::Named(v) => format!("{{ {} }}", (0..v.len()).map(|i| format!("{}: f{i}", names[i])).collect::<Vec<_>>().join(", ")),
                    Fs::Unnamed(v) => format!("({})", (0..v.len()).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")),
                    Fs::Unit => String::new(),
                };
                let lets: String = fs.list().iter().enumerate().map(|(i, f)| format!(" let _: {} = f{i};", sc.ty(&self.names, &d.gens, f.ty.as_ref().unwrap()))).collect();
                format!("{path}{pat} => {{{lets} }}\n")
            };
            let traits = |o: &mut String| {
                let b: String = gs.iter().map(|g| format!("{g}: ::std::fmt::Debug + ::mabo::Encode + ::mabo::Decode + ::mabo::buf::Size,")).collect();
                o.push_str(&format!("fn t{n}{g}() where {b} {{ fn t<X: ::mabo::Encode + ::mabo::Decode + ::mabo::buf::Size>() {{}} t::<{path}{g}>() }}\n"));
            };
            match &d.kind {
                K::Mod(ds) => self.witness(&p, ds, bytes, n, o),
                K::Struct(fs) => {
                    o.push_str(&format!("fn w{n}{g}(x: {path}{g}) {{ match x {{ {} }} }}\n", arm(&path, fs, &p)));
                    traits(o);
                }
                K::Enum(vs) => {
                    let arms: String = vs
                        .iter()
                        .map(|v| {
                            let mut q = p.clone();
                            q.push(v.name.clone());
                            arm(&format!("{path}::{}", self.names[&q]), &v.fields, &q)
                        })
                        .collect();
                    o.push_str(&format!("fn w{n}{g}(x: {path}{g}) {{ match x {{ {arms} }} }}\n"));
                    traits(o);
                }
                K::Alias(t) => {
                    let used: Vec<String> = gs.clone();
                    let g = if used.is_empty() { String::new() } else { format!("<{}>", used.join(", ")) };
                    o.push_str(&format!("fn w{n}{g}(x: {path}{g}) {{ let _: {} = x; }}\n", sc.ty(&self.names, &d.gens, t)));
                }
                K::Const(t, lit) => {
                    let T::P(t) = t else { continue };
                    let v = rust_literal(t, lit);
                    o.push_str(&match *t {
                        "bool" => format!("const _: () = assert!({path} == {v}); const _: bool = {path};\n"),
                        "f32" => format!("const _: () = assert!(f32::to_bits({path}) == f32::to_bits({v}));\n"),
                        "f64" => format!("const _: () = assert!(f64::to_bits({path}) == f64::to_bits({v}));\n"),
                        "string" | "&string" => format!("const _: () = assert!(same(str::as_bytes({path}), str::as_bytes({v})));\n"),
                        "bytes" | "&bytes" => format!("const _: () = assert!(same({path}, {v}));\n"),
                        t => format!("const _: () = assert!({path} == {v}); const _: {t} = {path};\n"),
                    });
                }
                K::Use(..) => {}
            }
        }
    }
}
const SAME: &str = "const fn same(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut i = 0; while i < a.len() { if a[i] != b[i] { return false; } i += 1; } true }\n";

/// The Rust expression for a schema literal. The literals used here mean the same in both languages,
/// except for byte strings and escapes, which are spelled out in `consts`.
fn rust_literal(t: &str, lit: &str) -> String {
    if let Some((_, r)) = SPECIAL.iter().find(|s| s.0 == lit) {
        return r.to_string();
    }
    if lit.starts_with('[') && t.ends_with("bytes") {
        return format!("&{lit}");
    }
    lit.to_string()
}
const SPECIAL: [(&str, &str); 8] = [
    ("[]", "&[]"),
    ("[1, 2, 3]", "&[1, 2, 3]"),
    ("[0, 255, 34, 92, 10]", "&[0, 255, 34, 92, 10]"),
    ("\"\\0\"", "\"\\0\""),
    ("\"\\b\\f\"", "\"\\u{8}\\u{c}\""),
    ("\"a\\/b\"", "\"a/b\""),
    ("\"line\\\n   joined\"", "\"linejoined\""),
    ("\"two\nlines\"", "\"two\\nlines\""),
];

// ---- known deviations -----------------------------------------------------------------------------
/// Type names of the language's prelude that the generated code uses without a full path.

/// The finding that explains why the code for a schema does not compile, if there is one.
fn known(c: &Case) -> Option<&'static str> {
    all_known(c).first().copied()
}
fn all_known(c: &Case) -> Vec<&'static str> {
    let mut v = vec![];
    c.schemas.iter().for_each(|s| known_scope(&s.1, &mut v));
    v
}
/// Whether the problem is what the finding says.
fn explains(key: &str, problem: &str) -> bool {
    let panics = problem.starts_with("the generator panicked");
    let code = |c: &[&str]| problem.starts_with("the code does not compile") && c.iter().any(|c| problem.contains(&format!("error[{c}]")));
    match key {
        "non-zero-invalid" => panics,
        "const-type" => panics || code(&["E0308", "E0600", "E0277"]) || problem.contains("out of range"),
        "hash-key" => code(&["E0369", "E0277", "E0599"]),
        "no-trait" => code(&["E0277", "E0599"]),
        "recursive" => code(&["E0072", "E0391", "E0275", "E0320"]),
        _ => problem.starts_with("the code does not compile"),
    }
}
fn known_scope(defs: &[D], all: &mut Vec<&'static str>) {
    let key_ok = |gens: &[String], t: &T| hashable(gens, t);
    for d in defs {
        if !matches!(d.kind, K::Mod(_) | K::Use(_, false)) && ["Encode", "Decode", "Size", "Option", "Vec", "String", "Box", "Ok", "Err", "Some", "None"].contains(&d.name.as_str()) {
            all.push("shadowed-name");
        }
        if d.gens.iter().any(|g| ["Option", "Vec", "String", "Box", "Ok", "Some", "None"].contains(&g.as_str()) || *g == d.name) {
            all.push("shadowed-name");
        }
        let (ts, alias): (Vec<&T>, bool) = match &d.kind {
            K::Struct(f) => (f.list().iter().map(|f| f.ty.as_ref().unwrap()).collect(), false),
            K::Enum(v) => (v.iter().flat_map(|v| v.fields.list().iter().map(|f| f.ty.as_ref().unwrap())).collect(), false),
            K::Alias(t) => (vec![t], true),
            K::Const(t, lit) => {
                all.extend(const_mismatch(t, lit));
                continue;
            }
            K::Mod(ds) => {
                known_scope(ds, all);
                continue;
            }
            _ => continue,
        };
        for t in ts {
            t.walk(&mut |t| {
                all.extend(match t {
                    T::Nz(i) => (!matches!(**i, T::Vec(_) | T::Map(..) | T::Set(_)) && !matches!(**i, T::P(s) if s.starts_with(['u', 'i', 's', '&']) || s == "bytes"))
                        .then_some("non-zero-invalid"),
                    T::Set(kk) | T::Map(kk, _) => (!alias && !key_ok(&d.gens, kk)).then_some("hash-key"),
                    T::Ext(_, _, a) => {
                        let bad = |t: &T| matches!(t, T::Tup(_) | T::Nz(_));
                        (!alias && a.iter().any(bad)).then_some("no-trait")
                    }
                    _ => None,
                });
            });
            if d.gens.is_empty() && recursive(defs, d) {
                all.push("recursive");
            }
        }
    }
}
fn hashable(gens: &[String], t: &T) -> bool {
    match t {
        T::P(s) => !matches!(*s, "f32" | "f64"),
        T::Vec(t) | T::Arr(t, _) | T::Opt(t) => hashable(gens, t),
        T::Nz(t) => hashable(gens, t),
        T::Tup(v) => v.iter().all(|t| hashable(gens, t)),
        _ => false,
    }
}
pub fn const_mismatch(t: &T, lit: &str) -> Option<&'static str> {
    let T::P(t) = t else { return Some("const-type") };
    if t.starts_with("box") {
        return Some("const-type");
    }
    let kind = if lit.starts_with('"') { 's' } else if lit.starts_with('[') { 'y' } else if lit == "true" || lit == "false" { 'b' } else if lit.contains(['.', 'e']) { 'f' } else { 'i' };
    let ok = match *t {
        "bool" => kind == 'b',
        "string" | "&string" => kind == 's',
        "bytes" | "&bytes" => kind == 'y',
        "f32" => kind == 'f' && lit.replace('_', "").parse::<f32>().is_ok_and(f32::is_finite),
        "f64" => kind == 'f',
        _ => {
            kind == 'i' && {
                let bits: u32 = t[1..].parse().unwrap();
                let l = lit.replace('_', "");
                match (t.starts_with('u'), l.parse::<i128>()) {
                    (_, Err(_)) => false,
                    (true, Ok(n)) => n >= 0 && (bits == 128 || (n as u128) < 1 << bits),
                    (false, Ok(n)) => bits == 128 || (n >= -(1i128 << (bits - 1)) && n < 1i128 << (bits - 1)),
                }
            }
        }
    };
    (!ok).then_some("const-type")
}
/// Whether a value of the definition contains another one of the same definition without indirection.
fn recursive(defs: &[D], d: &D) -> bool {
    fn direct<'a>(t: &'a T, o: &mut Vec<&'a str>) {
        match t {
            T::Ext(p, n, a) => {
                if p.is_empty() {
                    o.push(n);
                }
                a.iter().for_each(|t| direct(t, o));
            }
            T::Tup(v) => v.iter().for_each(|t| direct(t, o)),
            T::Arr(t, _) | T::Opt(t) => direct(t, o),
            _ => {}
        }
    }
    let of = |d: &D| -> Vec<String> {
        let mut o = vec![];
        match &d.kind {
            K::Struct(f) => f.list().iter().for_each(|f| direct(f.ty.as_ref().unwrap(), &mut o)),
            K::Enum(v) => v.iter().flat_map(|v| v.fields.list()).for_each(|f| direct(f.ty.as_ref().unwrap(), &mut o)),
            _ => {}
        }
        o.into_iter().map(String::from).collect()
    };
    let mut todo = of(d);
    let mut seen: Vec<String> = vec![];
    while let Some(n) = todo.pop() {
        if n == d.name {
            return true;
        }
        if !seen.contains(&n) {
            if let Some(x) = defs.iter().find(|x| x.name == n) {
                todo.extend(of(x));
            }
            seen.push(n);
        }
    }
    false
}

// ---- one case -------------------------------------------------------------------------------------
pub struct Built {
    /// file name and content
    pub files: Vec<(String, String)>,
    pub mods: Vec<(String, String)>,
}
pub fn show(c: &Case) -> String {
    c.schemas.iter().map(|(n, d)| format!("schema {n}:\n{}", sem::text(d))).collect()
}
/// Whether the schemas are valid, and accepted as such.
pub fn accepted(c: &Case, st: &mut Stats) -> bool {
    let texts: Vec<(String, String)> = c.schemas.iter().map(|(n, d)| (n.clone(), sem::text(d))).collect();
    let mine = c.schemas.iter().all(|s| sem::validate(&s.1).is_empty())
        && sem::resolve(&c.schemas.iter().map(|s| (s.0.as_str(), &s.1[..])).collect::<Vec<_>>()).is_ok();
    if !mine {
        st.count("invalid_skipped", 1);
        return false;
    }
    let parsed: Vec<(&str, mabo_parser::Schema)> = texts
        .iter()
        .filter_map(|(n, t)| Some((n.as_str(), mabo_parser::Schema::parse(t, Some(Path::new(n))).ok()?)))
        .collect();
    let ok = parsed.len() == texts.len()
        && parsed.iter().all(|p| mabo_compiler::validate_schema(&p.1).is_ok())
        && mabo_compiler::resolve_schemas(&parsed.iter().map(|p| (p.0, &p.1)).collect::<Vec<_>>()).is_ok();
    if !ok {
        // whether the schema should be accepted is decided by C10, C12 and C13
        st.count("rejected_by_mabo", 1);
    }
    ok
}
/// Generate twice through the library interface.
fn generate(c: &Case) -> Result<Vec<syn::File>, String> {
    let mut files = vec![];
    for (n, d) in &c.schemas {
        let text = sem::text(d);
        let parsed = mabo_parser::Schema::parse(&text, Some(Path::new(n))).map_err(|e| format!("{e}"))?;
        let s = mabo_compiler::simplify_schema(&parsed);
        let run = || quiet(|| mabo_build::compile_schema(&Opts::default(), &s).to_string()).map_err(|e| format!("the generator panicked: {e}"));
        let one = run()?;
        if one != run()? {
            return Err("two runs generate different code".into());
        }
        files.push(quiet(|| syn::parse_str(&one)).map_err(|e| format!("reading the code panicked: {e}"))?.map_err(|e| format!("the code is no valid Rust: {e}"))?);
    }
    Ok(files)
}
/// Run the generator like a build script does, on a project with the given schema files.
fn project(rc: &Rustc, name: &str, files: &[(String, String)], bytes: bool) -> Result<(), String> {
    let dir = rc.dir.join(format!("project_{name}"));
    std::fs::create_dir_all(dir.join("schemas")).unwrap();
    std::fs::write(dir.join("Mabo.toml"), "[package]\nname = \"sample\"\nfiles = [\"schemas/*.mabo\"]\n").unwrap();
    for (n, t) in files {
        std::fs::write(dir.join(format!("schemas/{n}.mabo")), t).unwrap();
    }
    let r = quiet(|| {
        let c = mabo_build::Compiler::default();
        let c = if bytes { c.with_bytes_type(BytesType::Bytes) } else { c };
        c.compile(dir.to_str().unwrap())
    });
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Err(e) => Err(format!("the generator panicked: {e}")),
        Ok(Err(e)) => Err(format!("the generator failed: {e:?}")),
        Ok(Ok(())) => Ok(()),
    }
}
static ALONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
fn stem(i: usize, bytes: bool) -> String {
    format!("{}{i}", if bytes { "b" } else { "v" })
}
/// Generate all cases with one representation of bytes; the result is the code of each schema.
fn generate_all(rc: &Rustc, cases: &[(usize, &Case)], bytes: bool) -> Vec<Result<Vec<String>, String>> {
    let out = rc.dir.join("mabo");
    let single: Vec<(usize, &Case)> = cases.iter().filter(|c| c.1.schemas.len() == 1 && known(c.1).is_none()).copied().collect();
    let files: Vec<(String, String)> = single.iter().map(|(i, c)| (stem(*i, bytes), sem::text(&c.schemas[0].1))).collect();
    let together = !single.is_empty() && project(rc, &format!("{}_all", stem(single[0].0, bytes)), &files, bytes).is_ok();
    let take = |n: &str| std::fs::read_to_string(out.join(format!("{n}.rs"))).map_err(|e| format!("the generator wrote no {n}.rs: {e}"));
    cases
        .iter()
        .map(|(i, c)| {
            let n = stem(*i, bytes);
            if c.schemas.len() == 1 {
                if !(together && single.iter().any(|s| s.0 == *i)) {
                    project(rc, &n, &[(n.clone(), sem::text(&c.schemas[0].1))], bytes)?;
                }
                return Ok(vec![take(&n)?]);
            }
            let _l = ALONE.lock();
            for (s, _) in &c.schemas {
                let _ = std::fs::remove_file(out.join(format!("{s}.rs")));
            }
            project(rc, &n, &c.schemas.iter().map(|(s, d)| (s.clone(), sem::text(d))).collect::<Vec<_>>(), bytes)?;
            c.schemas.iter().map(|(s, _)| take(s)).collect()
        })
        .collect()
}
/// Read the generated files back and write the witness.
fn read_back(i: usize, c: &Case, codes: Vec<String>, bytes: bool) -> Result<Built, String> {
    let mut r = Reader { scope_schemas: &c.schemas, names: Names::new(), bad: vec![], fields: BTreeMap::new() };
    for ((n, d), code) in c.schemas.iter().zip(&codes) {
        let file: syn::File = syn::parse_str(code).map_err(|e| format!("the code is no valid Rust: {e}"))?;
        r.scope(&[n.clone()], &file.items, d);
    }
    if let Some(b) = r.bad.first() {
        return Err(format!("the code does not mirror the schema: {b}"));
    }
    let mut w = String::from(SAME);
    let mut n = 0;
    for (name, d) in &c.schemas {
        r.witness(&[name.clone()], d, bytes, &mut n, &mut w);
    }
    let mut b = Built { files: vec![], mods: vec![] };
    for ((n, _), code) in c.schemas.iter().zip(codes) {
        let f = format!("c{i}_{}_{n}.rs", stem(i, bytes));
        b.mods.push((n.clone(), f.clone()));
        b.files.push((f, code));
    }
    let f = format!("c{i}_{}_witness_.rs", stem(i, bytes));
    b.mods.push(("witness_".into(), f.clone()));
    b.files.push((f, w));
    Ok(b)
}

// ---- the compiler ---------------------------------------------------------------------------------
pub struct Rustc {
    lib: PathBuf,
    deps: PathBuf,
    dir: PathBuf,
}
impl Rustc {
    pub fn new(dir: PathBuf) -> Rustc {
        let lib = PathBuf::from(std::env::var_os("MABO_RLIB").expect("MABO_RLIB"));
        let deps = lib.parent().unwrap().to_path_buf();
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Rustc { lib, deps, dir }
    }
    /// Compile the given files as modules of one crate; returns the output if that fails.
    fn check(&self, name: &str, cases: &[(usize, &Built)]) -> Option<String> {
        let mut root = String::from("#![allow(warnings)]\n");
        for (i, b) in cases {
            root.push_str(&format!("pub mod c{i} {{\n"));
            for (m, f) in &b.mods {
                let m = if syn::parse_str::<syn::Ident>(m).is_ok() { m.clone() } else { format!("r#{m}") };
                root.push_str(&format!("  #[path = \"{}\"] pub mod {m};\n", self.dir.join(f).display()));
            }
            root.push_str("}\n");
            for (f, c) in &b.files {
                std::fs::write(self.dir.join(f), c).unwrap();
            }
        }
        let file = self.dir.join(format!("{name}.rs"));
        std::fs::write(&file, root).unwrap();
        let out = Command::new("rustc")
            .args(["--edition", "2024", "--crate-type", "lib", "--emit", "metadata", "--error-format", "short", "--crate-name", name, "-A", "warnings"])
            .arg("--out-dir")
            .arg(&self.dir)
            .arg("--extern")
            .arg(format!("mabo={}", self.lib.display()))
            .arg("-L")
            .arg(format!("dependency={}", self.deps.display()))
            .arg(&file)
            .output()
            .expect("rustc");
        (!out.status.success()).then(|| String::from_utf8_lossy(&out.stderr).into_owned())
    }
}
/// Cases named in the compiler's output, with the first error of each.
fn blamed(out: &str) -> BTreeMap<usize, String> {
    let mut m = BTreeMap::new();
    for l in out.lines() {
        let Some(i) = l.rfind("/c").map(|i| i + 2).filter(|_| l.contains(".rs:")) else { continue };
        let n: String = l[i..].chars().take_while(char::is_ascii_digit).collect();
        if let (Ok(n), true) = (n.parse(), l.contains("error")) {
            m.entry(n).or_insert_with(|| l.to_string());
        }
    }
    m
}

fn verdict(i: usize, c: &Case, bytes: bool, problem: &str, code: &str, st: &mut Stats) {
    let detail = || format!("{problem}\n\nrepresentation of bytes: {}\n\n{}\n\ngenerated code:\n{code}", if bytes { "Bytes" } else { "Vec<u8>" }, show(c));
    if std::env::var_os("C15_DUMP").is_some() {
        println!("D {i} {} {bytes} {:?} | {} | {}", c.group, known(c), problem.lines().take(2).collect::<String>(), c.schemas.iter().map(|s| sem::text(&s.1)).collect::<String>().replace('\n', " "));
    }
    match all_known(c).into_iter().find(|k| explains(k, problem)) {
        Some(k) => st.known(k, || format!("{} -> {}", show(c).replace('\n', " "), problem.lines().next().unwrap_or(""))),
        None => st.violation(format!("{}: {}", c.group, problem.split_once("error").map_or(problem, |p| p.1)), detail),
    }
}

pub fn c15() -> i32 {
    let th = thorough();
    let mut r = Report::new("C15");
    let count = crate::rustcases::cases(th).len();
    let rc = Rustc::new(root().join("target/c15"));
    // where the generator's build script interface puts its results
    std::env::set_var("OUT_DIR", &rc.dir);
    let mut batches: Vec<(bool, Vec<usize>)> = vec![];
    for bytes in [false, true] {
        let all: Vec<usize> = (0..count).collect();
        batches.extend(all.chunks(60).map(|c| (bytes, c.to_vec())));
    }
    let st = parallel(&batches, |(bytes, b), st| {
        let bytes = *bytes;
        let cases = crate::rustcases::cases(th);
        let mut todo: Vec<(usize, &Case)> = vec![];
        for &i in b {
            let c = &cases[i];
            if !accepted(c, st) {
                continue;
            }
            st.states += 1;
            st.count(&format!("schemas_{}", c.group), 1);
            if bytes {
                todo.push((i, c));
                continue;
            }
            match generate(c) {
                Ok(f) => {
                    st.transitions += 2 * f.len() as u64;
                    todo.push((i, c));
                }
                Err(e) => verdict(i, c, bytes, &e, "", st),
            }
        }
        let mut built: Vec<(usize, Built)> = vec![];
        for ((i, c), codes) in todo.iter().zip(generate_all(&rc, &todo, bytes)) {
            st.transitions += 1;
            match codes.and_then(|codes| read_back(*i, c, codes, bytes)) {
                Ok(x) => built.push((*i, x)),
                Err(e) => verdict(*i, c, bytes, &e, "", st),
            }
        }
        // schemas with a known problem get a compilation of their own
        let (odd, mut good): (Vec<_>, Vec<_>) = built.into_iter().partition(|(i, _)| known(&cases[*i]).is_some());
        let tag = if bytes { "b" } else { "v" };
        for (i, x) in &odd {
            if let Some(out) = rc.check(&format!("k{tag}{i}"), &[(*i, x)]) {
                let first = blamed(&out).remove(i).unwrap_or(out);
                verdict(*i, &cases[*i], bytes, &format!("the code does not compile: {first}"), &x.files[0].1, st);
            }
            st.traces += 1;
        }
        let name = format!("g{tag}{}", b[0]);
        while !good.is_empty() {
            let set: Vec<(usize, &Built)> = good.iter().map(|(i, x)| (*i, x)).collect();
            st.count("compiler_runs", 1);
            let Some(out) = rc.check(&name, &set) else { break };
            let bad = blamed(&out);
            if bad.is_empty() {
                eprintln!("the compiler failed on {name}: {out}");
                std::process::exit(2);
            }
            for (i, e) in &bad {
                let x = &good.iter().find(|g| g.0 == *i).unwrap().1;
                verdict(*i, &cases[*i], bytes, &format!("the code does not compile: {e}"), &x.files.iter().map(|f| format!("// {}\n{}", f.0, f.1)).collect::<String>(), st);
            }
            good.retain(|g| !bad.contains_key(&g.0));
        }
        st.traces += good.len() as u64;
        if let Some((i, _)) = good.first() {
            st.sample(|| show(&cases[*i]));
        }
    });
    r.stats.merge(st);
    let _ = std::fs::remove_dir_all(&rc.dir);
    r.note("bounds", "all schemas of the groups counted as schemas_*, with bytes as vectors and as Bytes: every type shape of the type universe in every position, every reserved and colliding name in every position, generics, modules, imports; every generated file read back and compiled against the runtime".to_string());
    r.finish()
}
