//! C16: the generated Go code is syntactically valid, the same every time, and mirrors the schema.
//!
//! Every enumerated schema is generated by the real code. A Go program reads the result with Go's
//! own parser and type checker and writes down what it declares, in a canonical form: structs, new
//! functions, constants, and for each of the encoding, decoding and size functions the list of
//! (identifier, field, tree of operations). The same form is derived from the schema by the rules of
//! the documentation; both have to agree.
use crate::compile::{in_contexts, type_sites};
use crate::rust::{accepted, case, show, Case};
use crate::rustcases::{base_types, depth, gen1, helpers};
use crate::sem::{self, *};
use heck::{ToLowerCamelCase, ToSnakeCase, ToUpperCamelCase};
use model::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

const KEYWORDS: [&str; 25] = [
    "break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if", "import", "interface", "map",
    "package", "range", "return", "select", "struct", "switch", "type", "var",
];

// ---- reference: what the Go code has to declare ---------------------------------------------------
fn up(n: &str) -> String {
    n.to_upper_camel_case()
}
fn go_ty(t: &T) -> String {
    let l = |v: &[T]| v.iter().map(go_ty).collect::<Vec<_>>().join(", ");
    match t {
        T::P(s) => match *s {
            "u8" | "u16" | "u32" | "u64" => format!("uint{}", &s[1..]),
            "i8" | "i16" | "i32" | "i64" => format!("int{}", &s[1..]),
            "u128" | "i128" => "*big.Int".into(),
            "f32" | "f64" => format!("float{}", &s[1..]),
            "string" | "&string" | "box<string>" => "string".into(),
            "bytes" | "&bytes" | "box<bytes>" => "[]byte".into(),
            s => s.into(),
        },
        T::Vec(t) => format!("[]{}", go_ty(t)),
        T::Map(k, v) => format!("map[{}]{}", go_ty(k), go_ty(v)),
        T::Set(t) => format!("map[{}]struct{{}}", go_ty(t)),
        T::Opt(t) => format!("*{}", go_ty(t)),
        T::Nz(t) => match &**t {
            T::Vec(t) => format!("mabo.NonZeroVec[{}]", go_ty(t)),
            T::Map(k, v) => format!("mabo.NonZeroHashMap[{}, {}]", go_ty(k), go_ty(v)),
            T::Set(t) => format!("mabo.NonZeroHashSet[{}]", go_ty(t)),
            t => format!("mabo.NonZero{}", op_name(t)),
        },
        T::Arr(t, n) => format!("[{n}]{}", go_ty(t)),
        T::Tup(v) => format!("mabo.Tuple{}[{}]", v.len(), l(v)),
        T::Ext(path, n, args) => format!(
            "{}{}{}",
            path.last().map_or(String::new(), |p| format!("{}.", package(p))),
            up(n),
            if args.is_empty() { String::new() } else { format!("[{}]", l(args)) }
        ),
    }
}
fn package(n: &str) -> String {
    let p = n.to_snake_case();
    if KEYWORDS.contains(&p.as_str()) { format!("{p}_") } else { p }
}
/// The part of the name that the operations of a built-in type have in common.
fn op_name(t: &T) -> String {
    match t {
        T::P(s) => match *s {
            "bool" => "Bool".into(),
            "string" | "&string" | "box<string>" => "String".into(),
            "bytes" | "&bytes" | "box<bytes>" => "Bytes".into(),
            s => s.to_uppercase(),
        },
        _ => "?".into(),
    }
}
/// The tree of operations that writes (or measures) the value.
fn put(t: &T, x: &str, d: usize) -> String {
    let body = |t: &T, d: usize| format!("|${d} {}| {}", go_ty(t), put(t, &format!("${d}"), d + 1));
    match t {
        T::P(_) => format!("{}({x})", op_name(t)),
        T::Vec(t) => format!("Vec[{}]({x}, {})", go_ty(t), body(t, d)),
        T::Set(t) => format!("HashSet[{}]({x}, {})", go_ty(t), body(t, d)),
        T::Opt(t) => format!("Option[{}]({x}, {})", go_ty(t), body(t, d)),
        T::Map(k, v) => format!("HashMap[{}, {}]({x}, {}, {})", go_ty(k), go_ty(v), body(k, d), body(v, d)),
        T::Arr(t, n) => format!("Array{n}[{}]({x}, {})", go_ty(t), body(t, d)),
        T::Nz(t) => put(t, &format!("{x}.Get()"), d),
        T::Tup(v) => format!("seq({})", v.iter().enumerate().map(|(i, t)| put(t, &format!("{x}.F{i}"), d)).collect::<Vec<_>>().join("; ")),
        T::Ext(..) => format!("call({x})"),
    }
}
fn get(t: &T) -> String {
    let body = |t: &T| format!("|{}| {}", go_ty(t), get(t));
    let one = |n: &str, t: &T| format!("{n}[{}]({})", go_ty(t), body(t));
    let two = |n: &str, k: &T, v: &T| format!("{n}[{}, {}]({}, {})", go_ty(k), go_ty(v), body(k), body(v));
    match t {
        T::P(_) => format!("{}()", op_name(t)),
        T::Vec(t) => one("Vec", t),
        T::Set(t) => one("HashSet", t),
        T::Opt(t) => one("Option", t),
        T::Map(k, v) => two("HashMap", k, v),
        T::Arr(t, n) => one(&format!("Array{n}"), t),
        T::Nz(t) => match &**t {
            T::Vec(t) => one("NonZeroVec", t),
            T::Set(t) => one("NonZeroHashSet", t),
            T::Map(k, v) => two("NonZeroHashMap", k, v),
            t => format!("NonZero{}()", op_name(t)),
        },
        // without its type arguments, see the known finding `tuple-decode`
        T::Tup(v) => format!("seq buf.Tuple{} ({})", v.len(), v.iter().enumerate().map(|(i, t)| format!("F{i}={}", get(t))).collect::<Vec<_>>().join("; ")),
        T::Ext(..) => format!("call({})", go_ty(t)),
    }
}

#[derive(Default)]
struct File {
    blocks: Vec<String>,
    /// Names that only an import declares.
    imported: BTreeSet<String>,
    generics: BTreeSet<String>,
    /// Generated names that are declared more than once.
    twice: bool,
    seen: BTreeSet<String>,
}
impl File {
    fn declare(&mut self, n: String) {
        if !self.seen.insert(n) {
            self.twice = true;
        }
    }
}
fn doc(ind: &str, c: &[String]) -> String {
    c.iter().map(|l| format!("{ind}doc {}\n", quote(l.replace(['\0', '\u{feff}'], "").trim()))).collect()
}
/// Strings as Go's `strconv.Quote` writes them are compared after both sides were unescaped alike.
fn quote(s: &str) -> String {
    s.bytes().map(|b| if b.is_ascii_graphic() || b == b' ' { (b as char).to_string() } else { format!("\\x{b:02x}") }).collect()
}
fn gens_decl(g: &[String]) -> String {
    if g.is_empty() { String::new() } else { format!("[{}]", g.iter().map(|g| format!("{} any", up(g))).collect::<Vec<_>>().join(", ")) }
}
fn gens_use(g: &[String]) -> String {
    if g.is_empty() { String::new() } else { format!("[{}]", g.iter().map(|g| up(g)).collect::<Vec<_>>().join(", ")) }
}
fn uses(f: &Fs, g: &str) -> bool {
    let mut u = false;
    for f in f.list() {
        f.ty.as_ref().unwrap().walk(&mut |t| u |= matches!(t, T::Ext(p, n, a) if p.is_empty() && a.is_empty() && n == g));
    }
    u
}
fn record(file: &mut File, name: &str, gens: &[String], fs: &Fs, comment: &[String], variant: bool) {
    let (decl, used) = (gens_decl(gens), gens_use(gens));
    let me = format!("{name}{used}");
    file.declare(name.to_string());
    file.declare(format!("New{name}"));
    file.generics.extend(gens.iter().map(|g| up(g)));
    let ids = fs.ids();
    let named = matches!(fs, Fs::Named(_));
    let list: Vec<(String, &T, u32, String)> = fs
        .list()
        .iter()
        .zip(&ids)
        .enumerate()
        .map(|(i, (f, id))| {
            let n = if named { f.name.clone() } else { format!("n{i}") };
            (go_field(&n), f.ty.as_ref().unwrap(), *id, n)
        })
        .collect();
    if list.iter().map(|f| &f.0).collect::<BTreeSet<_>>().len() != list.len() || list.iter().map(|f| f.3.to_lower_camel_case()).collect::<BTreeSet<_>>().len() != list.len() {
        file.twice = true;
    }
    if list.iter().any(|f| ["Encode", "Decode", "Size"].contains(&f.0.as_str())) {
        // a field and a method of the same name
        file.twice = true;
    }
    let mut s = format!("struct {name}{decl}\n{}", doc("  ", comment));
    for ((n, t, ..), f) in list.iter().zip(fs.list()) {
        s.push_str(&format!("  field {n} {}\n{}", go_ty(t), doc("    ", &f.comment)));
    }
    file.blocks.push(s);
    if variant {
        file.blocks.push(format!("sealed {me}\n"));
    }
    let mut s = format!("new {name}{decl}({}) {me}\n  make {me}\n", list.iter().map(|f| go_ty(f.1)).collect::<Vec<_>>().join("; "));
    for (i, f) in list.iter().enumerate() {
        s.push_str(&format!("  set {} = p{i}\n", f.0));
    }
    file.blocks.push(s);
    for t in ["Encode", "Decode", "Size"] {
        file.blocks.push(format!("assert buf.{t} = (*{me})(nil)\n"));
    }
    for f in ["encode", "size"] {
        let mut s = format!("{f} *{me}\n");
        for (n, t, id, _) in &list {
            match t {
                T::Opt(t) => s.push_str(&format!("  optional {id} [{}] &R.{n} |$0 {}| {}\n", go_ty(t), go_ty(t), put(t, "$0", 1))),
                t => s.push_str(&format!("  required {id} {}\n", put(t, &format!("R.{n}"), 0))),
            }
        }
        if !matches!(fs, Fs::Unit) {
            s.push_str("  end\n");
        }
        file.blocks.push(s);
    }
    let mut s = format!("decode *{me}\n");
    for (i, (n, t, id, _)) in list.iter().enumerate() {
        s.push_str(&format!("  case {id} R.{n} flag {i} {}\n", get(t)));
    }
    s.push_str("  end\n");
    for (i, (_, _, id, n)) in list.iter().enumerate() {
        s.push_str(&format!("  missing flag {i}: ID={id} Field=\"{}\"\n", if named { n } else { "" }));
    }
    file.blocks.push(s);
}
fn go_field(n: &str) -> String {
    up(n)
}
fn expected(path: &str, pkg: &str, comment: &[String], defs: &[D], out: &mut BTreeMap<String, File>) {
    let mut f = File::default();
    f.blocks.push(format!("package {}\n{}", package(pkg), doc("  ", comment)));
    f.blocks.push("import mabo \"github.com/dnaka91/mabo-go\"\n".into());
    f.blocks.push("import buf \"github.com/dnaka91/mabo-go/buf\"\n".into());
    for d in defs {
        let name = up(&d.name);
        match &d.kind {
            K::Mod(ds) => expected(&format!("{path}/{}", d.name), &d.name, &d.comment, ds, out),
            K::Struct(fs) => record(&mut f, &name, &d.gens, fs, &d.comment, false),
            K::Enum(vs) => {
                f.declare(name.clone());
                f.declare(format!("{name}Variant"));
                f.blocks.push(format!("interface {name}Variant\n  method sealed func()\n"));
                f.blocks.push(format!("type {name} = {name}Variant\n{}", doc("  ", &d.comment)));
                for v in vs {
                    let gens: Vec<String> = d.gens.iter().filter(|g| uses(&v.fields, g)).cloned().collect();
                    record(&mut f, &format!("{name}_{}", up(&v.name)), &gens, &v.fields, &v.comment, true);
                }
            }
            K::Alias(t) => {
                f.declare(name.clone());
                f.blocks.push(format!("type {name}{} = {}\n{}", gens_decl(&d.gens), go_ty(t), doc("  ", &d.comment)));
            }
            K::Const(t, lit) => {
                f.declare(name.clone());
                let kind = if matches!(t, T::P("bytes" | "&bytes" | "u128" | "i128")) { "var" } else { "const" };
                f.blocks.push(format!("{kind} {name} {} = {}\n{}", go_ty(t), literal(t, lit), doc("  ", &d.comment)));
            }
            K::Use(segs, element) => {
                f.imported.insert(if *element { name } else { package(&segs[segs.len() - 1]) });
            }
        }
        let mut ext = |t: &T| {
            t.walk(&mut |t| {
                if let T::Ext(p, ..) = t {
                    if let Some(p) = p.last() {
                        f.imported.insert(package(p));
                    }
                }
            })
        };
        match &d.kind {
            K::Struct(fs) => fs.list().iter().for_each(|f| ext(f.ty.as_ref().unwrap())),
            K::Enum(vs) => vs.iter().for_each(|v| v.fields.list().iter().for_each(|f| ext(f.ty.as_ref().unwrap()))),
            K::Alias(t) => ext(t),
            _ => {}
        }
    }
    out.insert(path.to_string(), f);
}
fn literal(t: &T, lit: &str) -> String {
    let T::P(t) = t else { return "?".into() };
    match *t {
        "bool" => format!("bool {lit}"),
        "f32" | "f64" => {
            let f: f64 = lit.replace('_', "").parse().unwrap_or(f64::NAN);
            // Go's constants have no negative zero
            format!("float {:x}", if f == 0.0 { 0 } else { f.to_bits() })
        }
        "string" | "&string" => format!("string {}", lower_hex(string_value(lit).as_bytes())),
        "bytes" | "&bytes" => format!("bytes {}", lower_hex(&lit.trim_matches(['[', ']']).split(',').filter_map(|x| x.trim().parse().ok()).collect::<Vec<u8>>())),
        _ => format!("number {}", lit.replace('_', "").parse::<i128>().map_or("?".into(), |n| n.to_string())),
    }
}
/// The text of a string literal of a schema.
pub fn string_value(lit: &str) -> String {
    let mut o = String::new();
    if lit.len() < 2 {
        return o;
    }
    let mut c = lit[1..lit.len() - 1].chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            o.push(x);
            continue;
        }
        match c.next().unwrap() {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'b' => o.push('\x08'),
            'f' => o.push('\x0c'),
            '0' => o.push('\0'),
            'u' => {
                let h: String = c.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap());
            }
            '\n' => c = c.as_str().trim_start().chars(),
            x => o.push(x),
        }
    }
    o
}
fn lower_hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

// ---- known findings -------------------------------------------------------------------------------
/// Schemas that the generator refuses or breaks on, by the part of them that is to blame.
fn unsupported(defs: &[D]) -> Option<&'static str> {
    defs.iter().find_map(|d| {
        // names that consist of nothing but underscores and digits have no form in Go
        let odd = |n: &str| !n.trim_start_matches('_').starts_with(|c: char| c.is_ascii_alphabetic());
        let fields = |f: &Fs| matches!(f, Fs::Named(l) if l.iter().any(|f| odd(&f.name)));
        if odd(&d.name)
            || match &d.kind {
                K::Struct(f) => fields(f),
                K::Enum(v) => v.iter().any(|v| fields(&v.fields)),
                K::Use(s, _) => s.iter().any(|s| odd(s)),
                _ => false,
            }
        {
            return Some("underscore-names");
        }
        let (ts, alias): (Vec<&T>, bool) = match &d.kind {
            K::Mod(ds) => return unsupported(ds),
            K::Struct(f) => (f.list().iter().map(|f| f.ty.as_ref().unwrap()).collect(), false),
            K::Enum(v) => (v.iter().flat_map(|v| v.fields.list().iter().map(|f| f.ty.as_ref().unwrap())).collect(), false),
            K::Alias(t) => (vec![t], true),
            K::Const(t, lit) => {
                if crate::rust::const_mismatch(t, lit).is_some() {
                    return Some("const-type");
                }
                let s = matches!(t, T::P("string" | "&string")).then(|| format!("{:?}", string_value(lit)));
                return s.is_some_and(|s| s.contains("\\u{") || s.contains("\\0")).then_some("string-escape");
            }
            _ => return None,
        };
        ts.iter().find_map(|t| {
            let mut k = None;
            t.walk(&mut |t| {
                if k.is_some() {
                    return;
                }
                k = match t {
                    T::Nz(i) => {
                        let ok = matches!(**i, T::Vec(_) | T::Map(..) | T::Set(_)) || matches!(**i, T::P(s) if s.starts_with(['u', 'i']) || s == "string" || s == "&string" || s == "bytes" || s == "&bytes");
                        (!ok).then_some("non-zero-invalid")
                    }
                    T::Arr(_, n) => (!alias && (*n == 0 || *n > 32)).then_some("array-size"),
                    _ => None,
                };
            });
            k
        })
    })
}

// ---- cases ----------------------------------------------------------------------------------------
fn own_cases(th: bool) -> Vec<Case> {
    let mut v = vec![];
    // types, deeper than the compiler of another language could be asked for
    let all = base_types();
    let deep: Vec<T> = all.iter().flat_map(|t| in_contexts(t, 2)).filter(|t| depth(t) == 2).collect();
    let deeper: Vec<T> = if th { all.clone() } else { vec![p("u16"), ext(&[], "Plain", vec![])] };
    let deeper = deeper.iter().flat_map(|t| in_contexts(t, 3)).filter(|t| depth(t) == 3);
    for t in deep.into_iter().chain(deeper) {
        let mut d = helpers();
        for (i, mut s) in type_sites(&t, &[]).into_iter().enumerate() {
            s.name = format!("Sample{i}");
            d.push(s);
        }
        v.push(case("types", d));
    }
    for n in 1..=32 {
        v.push(case("arrays", type_sites(&T::Arr(Box::new(p("u8")), n), &[]).into_iter().enumerate().map(|(i, mut d)| { d.name = format!("S{i}"); d }).collect()));
    }
    for n in 2..=12 {
        v.push(case("tuples", type_sites(&T::Tup((0..n).map(|i| all[i].clone()).collect()), &[]).into_iter().enumerate().map(|(i, mut d)| { d.name = format!("S{i}"); d }).collect::<Vec<_>>().into_iter().chain(helpers()).collect()));
    }
    // names
    let f = |n: &str| vec![field(n, p("u8"), None), field("other", T::Opt(Box::new(p("string"))), None)];
    let go_names = ["nil", "iota", "len", "append", "error", "int", "byte", "uint8", "make", "new", "any", "big", "w", "r", "r2", "err", "found", "init", "main", "v2", "a1b", "a_b", "a_1", "abc_def_ghi", "x_y_z", "a1_b2", "u8_x", "http_url", "a_", "a__b", "_a", "_", "__", "_1", "a_b_"];
    for n in KEYWORDS.iter().chain(&go_names) {
        v.push(case("field_names", vec![strct("S", &[], Fs::Named(f(n))), enm("E", &[], vec![variant("One", Fs::Named(f(n)), None)])]));
        v.push(case("module_names", vec![module(n, vec![strct("Inner", &[], Fs::Unit), module("deep", vec![module(n, vec![strct("Inner", &[], Fs::Unit)])])]), strct("User", &[], Fs::Named(vec![field("a", ext(&[n], "Inner", vec![]), None), field("b", T::Vec(Box::new(ext(&[n, "deep", n], "Inner", vec![]))), None)]))]));
    }
    for n in ["ABC", "AbC", "A1", "A1B2", "HTTPUrl", "X", "New", "Variant", "Sealed", "String", "Encode", "KEY", "TValue", "T1", "AAb", "IDs"] {
        v.push(case("type_names", vec![strct(n, &[], Fs::Named(f("a"))), strct("User", &[], Fs::Named(vec![field("a", ext(&[], n, vec![]), None)]))]));
        v.push(case("type_names", vec![enm(n, &[], vec![variant(n, Fs::Named(f("a")), None), variant("Other", Fs::Unit, None)]), strct("User", &[], Fs::Named(vec![field("a", T::Opt(Box::new(ext(&[], n, vec![]))), None)]))]));
        v.push(case("type_names", vec![alias(n, &[], T::Vec(Box::new(p("u8"))))]));
        let g = || ext(&[], n, vec![]);
        v.push(case("generic_names", vec![
            strct("S", &[n], Fs::Named(vec![field("a", g(), None), field("b", T::Opt(Box::new(g())), None)])),
            enm("E", &["First", n], vec![variant("One", Fs::Unnamed(vec![field("", g(), None)]), None), variant("Two", Fs::Unnamed(vec![field("", T::Vec(Box::new(ext(&[], "First", vec![]))), None), field("", g(), None)]), None), variant("Three", Fs::Unit, None)]),
            alias("L", &[n], T::Vec(Box::new(g()))),
        ]));
        v.push(case("const_names", vec![cnst(&format!("X_{}", n.to_uppercase()), p("u8"), "1")]));
    }
    // generics that only appear as arguments
    for t in [ext(&[], "Gen", vec![ext(&[], "T", vec![])]), ext(&[], "Gen", vec![ext(&[], "Gen", vec![ext(&[], "T", vec![])])]), T::Vec(Box::new(ext(&[], "Gen", vec![T::Opt(Box::new(ext(&[], "T", vec![])))])))] {
        v.push(case("generics", vec![gen1("Gen"), strct("S", &["T"], Fs::Unnamed(vec![field("", t.clone(), None)])), enm("E", &["T", "U"], vec![variant("A", Fs::Unnamed(vec![field("", t.clone(), None)]), None), variant("B", Fs::Unnamed(vec![field("", ext(&[], "U", vec![]), None)]), None)]), alias("L", &["T"], t)]));
    }
    // names that only differ in the way they are written
    v.push(case("collisions", vec![strct("AB", &[], Fs::Unit), strct("Ab", &[], Fs::Unit)]));
    v.push(case("collisions", vec![strct("S", &[], Fs::Named(vec![field("a_b", p("u8"), None), field("a__b", p("u8"), None)]))]));
    v.push(case("collisions", vec![strct("S", &[], Fs::Named(vec![field("size", p("u8"), None)]))]));
    v.push(case("collisions", vec![strct("EVariant", &[], Fs::Unit), enm("E", &[], vec![variant("A", Fs::Unit, None)])]));
    v.push(case("collisions", vec![strct("NewA", &[], Fs::Unit), strct("A", &[], Fs::Unit)]));
    // identifiers
    for (a, b) in [(None, None), (Some(3), None), (None, Some(9)), (Some(536_870_911), Some(1)), (Some(7), Some(2))] {
        for c in [None, Some(5)] {
            let l = |names: bool| -> Vec<F> { [a, b, c].iter().enumerate().map(|(i, id)| field(if names { ["x", "y", "z"][i] } else { "" }, if i == 1 { T::Opt(Box::new(p("u32"))) } else { p("u64") }, *id)).collect() };
            v.push(case("identifiers", vec![strct("S", &[], Fs::Named(l(true))), strct("T", &[], Fs::Unnamed(l(false))), enm("E", &[], vec![variant("A", Fs::Named(l(true)), None), variant("B", Fs::Unnamed(l(false)), a), variant("C", Fs::Unit, b)])]));
        }
    }
    // comments
    for c in ["go:build ignore", "line x:1", "\u{feff}", "+build x", "export X", " indented", "tab\there"] {
        v.push(case("comments", crate::rustcases::commented(&[c])));
    }
    v
}
fn cases(th: bool) -> Vec<Case> {
    let mut v = crate::rustcases::cases(th);
    v.extend(own_cases(th));
    v
}

// ---- the check ------------------------------------------------------------------------------------
fn describe(bin: &Path, files: &[(String, String)]) -> Vec<Vec<String>> {
    let mut ch = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("reader of Go code");
    let mut input = vec![];
    for (i, (_, c)) in files.iter().enumerate() {
        input.extend(format!("{i} {}\n", c.len()).as_bytes());
        input.extend(c.as_bytes());
        input.push(b'\n');
    }
    let mut stdin = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || stdin.write_all(&input));
    let mut o = String::new();
    ch.stdout.take().unwrap().read_to_string(&mut o).expect("text");
    w.join().unwrap().expect("reader of Go code ended early");
    if !ch.wait().expect("wait").success() {
        eprintln!("the reader of Go code failed");
        std::process::exit(2);
    }
    let mut v: Vec<Vec<String>> = vec![];
    for l in o.lines() {
        if l.starts_with("== ") {
            v.push(vec![]);
        } else if l.starts_with(' ') {
            let b = v.last_mut().unwrap().last_mut().unwrap();
            b.push_str(l);
            b.push('\n');
        } else {
            v.last_mut().unwrap().push(format!("{l}\n"));
        }
    }
    assert_eq!(v.len(), files.len());
    v
}
/// Compare the declarations; the rest of the result are deviations with the finding they belong to.
fn judge(got: &[String], want: &File, defs_big: bool) -> (Vec<String>, BTreeSet<&'static str>) {
    let mut bad = vec![];
    let mut known = BTreeSet::new();
    let (mut g, mut w) = (vec![], want.blocks.clone());
    for b in got {
        if let Some(n) = b.strip_prefix("note ") {
            let n = n.trim();
            match n {
                "size of a tuple called with an argument" | "tuple decoded into an undeclared name" => known.insert("tuple-decode"),
                "decoding does not stop at the end marker" | "unknown fields are not skipped" => known.insert("decode-loop"),
                "decoder of another type returned with two values" => known.insert("nested-decode"),
                n if n.starts_with("assertion undefined: ") && want.generics.contains(&n[21..]) => known.insert("generic-assertion"),
                n if n.starts_with("encoding discarded") && n.contains('_') => known.insert("enum-encode"),
                n => {
                    bad.push(n.to_string());
                    false
                }
            };
        } else if let Some(n) = b.strip_prefix("name ") {
            let n = n.trim();
            match n.strip_prefix("undefined: ") {
                Some("tuple" | "value") => known.insert("tuple-decode"),
                Some("big") if defs_big => known.insert("imports"),
                Some(x) if want.imported.contains(x) => known.insert("imports"),
                None if want.twice => known.insert("name-collision"),
                _ => {
                    bad.push(n.to_string());
                    false
                }
            };
        } else {
            g.push(b.clone());
        }
    }
    if !bad.is_empty() {
        return (bad, known);
    }
    g.sort();
    w.sort();
    if g != w && !want.twice {
        let only = |a: &[String], b: &[String]| a.iter().filter(|x| !b.contains(x)).cloned().collect::<String>();
        bad.push(format!("found:\n{}expected:\n{}", only(&g, &w), only(&w, &g)));
    } else if g != w {
        known.insert("name-collision");
    }
    (bad, known)
}
/// Doc lines of the reader are quoted by Go's rules.
fn normal(b: String) -> String {
    if !b.contains("doc \"") {
        return b;
    }
    b.lines()
        .map(|l| match l.split_once("doc \"") {
            Some((i, q)) if i.trim().is_empty() => format!("{i}doc {}\n", quote(&unquote(q.strip_suffix('"').unwrap_or(q)))),
            _ => format!("{l}\n"),
        })
        .collect()
}
fn unquote(s: &str) -> String {
    let mut o = String::new();
    let mut c = s.chars();
    while let Some(x) = c.next() {
        if x != '\\' {
            o.push(x);
            continue;
        }
        let wide = |c: &mut std::str::Chars, n: usize| {
            let h: String = c.by_ref().take(n).collect();
            u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?')
        };
        match c.next() {
            Some('x') => o.push(wide(&mut c, 2)),
            Some('u') => o.push(wide(&mut c, 4)),
            Some('U') => o.push(wide(&mut c, 8)),
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('a') => o.push('\x07'),
            Some('b') => o.push('\x08'),
            Some('f') => o.push('\x0c'),
            Some('v') => o.push('\x0b'),
            Some(x) => o.push(x),
            None => {}
        }
    }
    o
}
fn files(d: &[D]) -> Result<Vec<(String, String)>, String> {
    let text = sem::text(d);
    let run = || quiet(|| crate::extract::simplified(&text, crate::extract::go_files)).map_err(|e| format!("the generator panicked: {e}"));
    let one = run()?.ok_or("not parsed")?;
    if Some(&one) != run()?.as_ref() {
        return Err("two runs generate different code".into());
    }
    Ok(one)
}

pub fn c16() -> i32 {
    let th = thorough();
    let mut r = Report::new("C16");
    let bin = PathBuf::from(std::env::var_os("GOHELP").expect("GOHELP"));
    let count = cases(th).len();
    let all: Vec<usize> = (0..count).collect();
    let batches: Vec<Vec<usize>> = all.chunks(400).map(<[usize]>::to_vec).collect();
    let st = parallel(&batches, |b, st| {
        let cases = cases(th);
        let mut todo: Vec<(usize, usize, usize, usize)> = vec![];
        let mut texts: Vec<(String, String)> = vec![];
        for &i in b {
            let c = &cases[i];
            if !accepted(c, st) {
                continue;
            }
            st.states += 1;
            st.count(&format!("schemas_{}", c.group), 1);
            for (s, (_, d)) in c.schemas.iter().enumerate() {
                st.transitions += 2;
                match files(d) {
                    Ok(f) => {
                        todo.push((i, s, texts.len(), f.len()));
                        texts.extend(f);
                    }
                    Err(e) => match unsupported(d).filter(|k| e.starts_with("the generator panicked") && *k != "string-escape") {
                        Some(k) => st.known(k, || format!("{} -> {e}", sem::text(d).replace('\n', " "))),
                        None => st.violation(format!("{}: {e}", c.group), || show(c)),
                    },
                }
            }
        }
        let got = describe(&bin, &texts);
        for (i, s, at, n) in todo {
            let (c, d) = (&cases[i], &cases[i].schemas[s].1);
            let mut want = BTreeMap::new();
            expected("/sample", "sample", &[], d, &mut want);
            let paths: BTreeSet<&String> = texts[at..at + n].iter().map(|t| &t.0).collect();
            if paths != want.keys().collect() || n != want.len() {
                st.violation(format!("{}: files", c.group), || format!("files {:?} instead of {:?}\n{}", paths, want.keys(), show(c)));
                continue;
            }
            for k in at..at + n {
                st.traces += 1;
                let blocks: Vec<String> = got[k].iter().map(|b| flags(normal(b.clone()))).collect();
                let (bad, known) = judge(&blocks, &want[&texts[k].0], texts[k].1.contains("*big.Int"));
                for k in known {
                    st.known(k, || sem::text(d).replace('\n', " "));
                }
                if bad.is_empty() {
                    continue;
                }
                if std::env::var_os("C16_DUMP").is_some() {
                    println!("D {:?} {:?} {} | {}", c.group, unsupported(d), bad.join(" ").replace('\n', " ; "), sem::text(d).replace('\n', " "));
                }
                // findings about panics explain nothing else
                match unsupported(d).filter(|k| *k != "array-size" && *k != "non-zero-invalid") {
                    Some(k) => st.known(k, || format!("{} -> {}", sem::text(d).replace('\n', " "), bad[0])),
                    None => st.violation(format!("{}: {}", c.group, bad[0].lines().take(2).collect::<Vec<_>>().join(" ")), || format!("{}\n{}\n{}\ngenerated code:\n{}", bad.join("\n"), texts[k].0, show(c), texts[k].1)),
                }
            }
            st.sample(|| sem::text(d));
        }
    });
    r.stats.merge(st);
    r.note("bounds", "all schemas of the groups counted as schemas_*: every type shape of the type universe in every position, names, modules, constants, generics, imports; every generated file parsed and compared declaration by declaration".to_string());
    r.finish()
}
/// The variables that record which fields were found, by their order.
fn flags(b: String) -> String {
    if !b.starts_with("decode ") {
        return b;
    }
    let mut names: Vec<String> = vec![];
    b.lines()
        .map(|l| {
            let Some(a) = l.find(" flag ") else { return format!("{l}\n") };
            let rest = &l[a + 6..];
            let n = rest.split([' ', ':']).next().unwrap_or("").to_string();
            let i = names.iter().position(|x| *x == n).unwrap_or_else(|| {
                names.push(n.clone());
                names.len() - 1
            });
            format!("{} flag {i}{}\n", &l[..a], &rest[n.len()..])
        })
        .collect()
}
