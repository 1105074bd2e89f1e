//! The schemas that the generators are checked with.
use crate::compile::{in_contexts, type_sites};
use crate::rust::{case, Case};
use crate::sem::*;

const LOWER: [&str; 86] = [
    "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod",
    "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async",
    "await", "dyn", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "typeof", "unsized", "virtual", "yield", "try", "gen",
    "union", "auto", "default", "raw", "id", "r", "w", "k", "v", "n0", "n1", "value", "size", "encoding", "f", "self_", "id_", "r_", "w_", "x", "std", "core",
    "alloc", "mabo", "buf", "bool", "u8", "i32", "str", "string", "bytes", "vec", "option", "func", "package",
];
const UPPER: [&str; 30] = [
    "Self", "Option", "Some", "None", "Ok", "Err", "Result", "Vec", "String", "Box", "Encode", "Decode", "Size", "Clone", "Debug", "PartialEq", "Copy",
    "Buf", "BufMut", "FieldId", "Default", "HashMap", "HashSet", "NonZero", "Error", "T", "A1", "X", "Bytes", "Iterator",
];
const CONST: [&str; 10] = ["A", "T", "MAX", "END_MARKER", "SELF", "X1", "A_B_C", "OK", "NONE", "STRUCT"];

fn u8t() -> T {
    p("u8")
}
fn named(f: Vec<F>) -> Fs {
    Fs::Named(f)
}
pub fn gen1(name: &str) -> D {
    strct(name, &["T"], Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)]))
}
pub fn helpers() -> Vec<D> {
    vec![
        strct("Plain", &[], named(vec![field("a", u8t(), None), field("b", p("string"), None)])),
        enm("Choice", &[], vec![variant("One", Fs::Unit, None), variant("Two", Fs::Unnamed(vec![field("", p("u32"), None)]), None)]),
        gen1("Gen"),
        strct("Gen2", &["A", "B"], named(vec![field("a", ext(&[], "A", vec![]), None), field("b", ext(&[], "B", vec![]), None)])),
        module("mods", vec![strct("Deep", &[], named(vec![field("x", p("bool"), None)]))]),
    ]
}
pub fn base_types() -> Vec<T> {
    let mut v: Vec<T> = [
        "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "&string", "box<string>", "bytes", "&bytes",
        "box<bytes>",
    ]
    .iter()
    .map(|s| p(s))
    .collect();
    v.push(ext(&[], "Plain", vec![]));
    v.push(ext(&[], "Choice", vec![]));
    v.push(ext(&["mods"], "Deep", vec![]));
    v
}
/// Definitions next to each other that all use the type, the alias last.
fn renamed(t: &T, gens: &[&str]) -> Vec<D> {
    let mut v = type_sites(t, gens);
    for (i, d) in v.iter_mut().enumerate() {
        d.name = format!("Sample{i}");
    }
    v
}
fn types(th: bool) -> Vec<Case> {
    let mut ts: Vec<T> = base_types().iter().flat_map(|t| in_contexts(t, 1)).collect();
    let deep: Vec<T> = if th { base_types() } else { vec![p("u32"), p("string"), p("bytes"), ext(&[], "Plain", vec![])] };
    for t in &deep {
        ts.extend(in_contexts(t, 2).into_iter().filter(|t| depth(t) == 2));
    }
    for n in [2, 3, 5, 12] {
        ts.push(T::Tup((0..n).map(|i| if i % 3 == 0 { p("u16") } else if i % 3 == 1 { p("string") } else { T::Vec(Box::new(p("i64"))) }).collect()));
    }
    for n in [0, 1, 2, 31, 32, 33, 100, 65536, 4_294_967_295u64] {
        ts.push(T::Arr(Box::new(p("u8")), n));
        ts.push(T::Arr(Box::new(p("string")), n.min(100)));
    }
    let mut v = vec![];
    for t in ts {
        let mut d = helpers();
        let mut s = renamed(&t, &[]);
        let alias = s.pop().unwrap();
        d.extend(s);
        v.push(case("types", d));
        let mut d = helpers();
        d.push(alias);
        v.push(case("alias", d));
    }
    v
}
pub fn depth(t: &T) -> usize {
    t.children().into_iter().map(|c| depth(c) + 1).max().unwrap_or(0)
}
fn names() -> Vec<Case> {
    let mut v = vec![];
    let tys = || vec![u8t(), p("string"), T::Opt(Box::new(p("u32"))), T::Vec(Box::new(p("u16"))), T::Tup(vec![p("u8"), p("string")]), T::Nz(Box::new(p("u32"))), T::Arr(Box::new(p("u8")), 4)];
    for n in LOWER {
        let n = &n;
        let all: Vec<F> = tys().into_iter().enumerate().map(|(i, t)| field(&if i == 0 { n.to_string() } else { format!("f{i}") }, t, None)).collect();
        let mut d: Vec<D> = tys()
            .into_iter()
            .enumerate()
            .flat_map(|(i, t)| {
                [
                    strct(&format!("S{i}"), &[], named(vec![field(n, t.clone(), None)])),
                    strct(&format!("O{i}"), &[], named(vec![field("other", p("u8"), None), field(n, t.clone(), None), field("last", T::Opt(Box::new(p("u8"))), None)])),
                    enm(&format!("E{i}"), &[], vec![variant("One", named(vec![field(n, t.clone(), None), field("other", p("u8"), None)]), None), variant("Two", Fs::Unit, None)]),
                ]
            })
            .collect();
        d.push(strct("All", &[], named(all)));
        d.push(strct("Gen", &["T"], named(vec![field(n, ext(&[], "T", vec![]), None)])));
        v.push(case("field_names", d));
        v.push(case(
            "module_names",
            vec![
                module(n, vec![strct("Inner", &[], named(vec![field("a", u8t(), None)])), module("deep", vec![strct("Inner", &[], Fs::Unit)])]),
                strct("User", &[], named(vec![field("a", ext(&[n], "Inner", vec![]), None), field("b", T::Vec(Box::new(ext(&[n, "deep"], "Inner", vec![]))), None)])),
            ],
        ));
        v.push(Case {
            group: "import_names",
            schemas: vec![
                ("sample".into(), vec![import(&["other", n], None), import(&["other", n], Some("Inner")), strct("User", &[], named(vec![field("a", ext(&[n], "Inner", vec![]), None), field("b", ext(&[], "Inner", vec![]), None)]))]),
                ("other".into(), vec![module(n, vec![strct("Inner", &[], Fs::Unit)])]),
            ],
        });
    }
    // every pair of the names that the generated code has a use for
    let own = ["id", "r", "w", "k", "v", "n0", "_", "value", "type", "id_", "r_", "w_", "self", "self_"];
    for a in own {
        for b in own {
            if a != b && a != "_" && b != "_" {
                v.push(case("field_name_pairs", vec![strct("S", &[], named(vec![field(a, u8t(), None), field(b, T::Opt(Box::new(p("string"))), None)])), enm("E", &[], vec![variant("V", named(vec![field(a, p("string"), None), field(b, u8t(), None)]), None)])]));
            }
        }
    }
    for n in UPPER {
        let user = || strct("User", &[], named(vec![field("a", T::Opt(Box::new(p("string"))), None), field("b", T::Vec(Box::new(p("box<string>"))), None)]));
        v.push(case("type_names", vec![strct(n, &[], named(vec![field("a", u8t(), None)])), user()]));
        v.push(case("type_names", vec![strct(n, &[], Fs::Unnamed(vec![field("", T::Opt(Box::new(u8t())), None)])), user()]));
        v.push(case("type_names", vec![strct(n, &[], Fs::Unit), user()]));
        v.push(case("type_names", vec![enm(n, &[], vec![variant("One", Fs::Unit, None)]), user()]));
        v.push(case("type_names", vec![alias(n, &[], u8t()), user()]));
        v.push(case("variant_names", vec![enm("E", &[], vec![variant(n, Fs::Unit, None), variant("Other", Fs::Unnamed(vec![field("", T::Opt(Box::new(u8t())), None)]), None)])]));
        v.push(case("variant_names", vec![enm("E", &[], vec![variant(n, Fs::Unnamed(vec![field("", T::Opt(Box::new(u8t())), None)]), None)])]));
        v.push(case("variant_names", vec![enm("E", &[], vec![variant(n, named(vec![field("a", p("string"), None)]), None)])]));
        v.push(case("generic_names", vec![strct("S", &[n], named(vec![field("a", ext(&[], n, vec![]), None), field("b", T::Opt(Box::new(p("string"))), None)]))]));
        v.push(case("generic_names", vec![enm("S", &["First", n], vec![variant("V", Fs::Unnamed(vec![field("", ext(&[], n, vec![]), None), field("", T::Vec(Box::new(ext(&[], "First", vec![]))), None)]), None)])]));
        v.push(case("names_in_modules", vec![module("m", vec![strct(n, &[], named(vec![field("a", u8t(), None)]))]), strct("User", &[], named(vec![field("a", ext(&["m"], n, vec![]), None)]))]));
    }
    for n in CONST {
        v.push(case("const_names", vec![cnst(n, u8t(), "7"), strct("User", &[], named(vec![field("a", u8t(), None), field("id", p("u32"), None)]))]));
    }
    // a name on several levels
    for n in ["Same", "T"] {
        v.push(case("generic_names", vec![strct(n, &[n], named(vec![field("a", ext(&[], n, vec![]), None)]))]));
    }
    v
}
fn structure(th: bool) -> Vec<Case> {
    let mut v = vec![];
    let lib = |deep: bool| -> Vec<D> {
        let mut m = vec![strct("A", &[], named(vec![field("x", u8t(), None)])), gen1("G"), enm("E", &[], vec![variant("One", Fs::Unit, None)])];
        if deep {
            m.push(module("m1", vec![strct("B", &[], Fs::Unit), gen1("G"), module("m2", vec![strct("C", &[], Fs::Unit), enm("E", &["T"], vec![variant("V", Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)]), None)])])]));
        }
        m
    };
    let imports: Vec<(D, T)> = vec![
        (import(&["other"], None), ext(&["other"], "A", vec![])),
        (import(&["other"], None), ext(&["other", "m1"], "B", vec![])),
        (import(&["other"], None), ext(&["other", "m1", "m2"], "E", vec![u8t()])),
        (import(&["other"], Some("A")), ext(&[], "A", vec![])),
        (import(&["other"], Some("G")), ext(&[], "G", vec![p("string")])),
        (import(&["other"], Some("E")), ext(&[], "E", vec![])),
        (import(&["other", "m1"], None), ext(&["m1"], "B", vec![])),
        (import(&["other", "m1"], None), ext(&["m1", "m2"], "C", vec![])),
        (import(&["other", "m1"], None), ext(&["m1"], "G", vec![p("u32")])),
        (import(&["other", "m1"], Some("B")), ext(&[], "B", vec![])),
        (import(&["other", "m1", "m2"], None), ext(&["m2"], "C", vec![])),
        (import(&["other", "m1", "m2"], Some("C")), ext(&[], "C", vec![])),
        (import(&["other", "m1", "m2"], Some("E")), ext(&[], "E", vec![T::Vec(Box::new(p("u8")))])),
        (import(&["third"], None), ext(&["third"], "A", vec![])),
        (import(&["third"], Some("E")), ext(&[], "E", vec![])),
    ];
    let user = |ts: &[T]| strct("User", &[], named(ts.iter().enumerate().map(|(i, t)| field(&format!("f{i}"), t.clone(), None)).collect()));
    let nest = |mut d: Vec<D>, levels: usize| {
        for l in 0..levels {
            d = vec![module(&format!("n{l}"), d), strct(&format!("Level{l}"), &[], Fs::Unit)];
        }
        d
    };
    let go = |d: Vec<D>| Case { group: "imports", schemas: vec![("sample".into(), d), ("other".into(), lib(true)), ("third".into(), lib(false))] };
    for levels in 0..=3 {
        for (i, t) in &imports {
            let opt = T::Opt(Box::new(t.clone()));
            v.push(go(nest(vec![i.clone(), user(&[t.clone(), opt.clone(), T::Vec(Box::new(t.clone()))])], levels)));
            v.push(go(nest(vec![i.clone(), alias("L", &[], t.clone()), enm("U", &[], vec![variant("V", Fs::Unnamed(vec![field("", t.clone(), None)]), None)])], levels)));
        }
        if levels > 0 && !th {
            continue;
        }
        for (a, ta) in &imports {
            for (b, tb) in &imports {
                if a.name != b.name {
                    v.push(go(nest(vec![a.clone(), b.clone(), user(&[ta.clone(), tb.clone()])], levels)));
                }
            }
        }
    }
    // imports on several levels of one schema
    for (a, ta) in &imports {
        for (b, tb) in imports.iter().step_by(if th { 1 } else { 4 }) {
            v.push(go(vec![a.clone(), user(&[ta.clone()]), module("n", vec![b.clone(), user(&[tb.clone()]), module("o", vec![a.clone(), user(&[ta.clone()])])])]));
        }
    }
    // schemas that import each other
    v.push(Case {
        group: "imports",
        schemas: vec![
            ("one".into(), vec![import(&["two"], Some("B")), strct("A", &[], Fs::Unit), strct("UseB", &[], named(vec![field("b", ext(&[], "B", vec![]), None)]))]),
            ("two".into(), vec![import(&["one"], Some("A")), strct("B", &[], Fs::Unit), strct("UseA", &[], named(vec![field("a", ext(&[], "A", vec![]), None)]))]),
        ],
    });
    // local modules
    for levels in 0..3 {
        let inner = vec![strct("A", &[], named(vec![field("x", p("string"), None)])), module("m", vec![enm("A", &["T"], vec![variant("V", Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)]), None)]), module("m", vec![strct("A", &[], Fs::Unit)])])];
        let mut d = inner.clone();
        d.push(user(&[ext(&[], "A", vec![]), ext(&["m"], "A", vec![u8t()]), ext(&["m", "m"], "A", vec![]), T::Map(Box::new(p("u8")), Box::new(ext(&["m"], "A", vec![ext(&["m", "m"], "A", vec![])])))]));
        v.push(case("modules", nest(d, levels)));
    }
    v.push(case("modules", vec![module("a", vec![]), module("b", vec![module("c", vec![])])]));
    v.push(case("modules", vec![]));
    v
}
fn generics() -> Vec<Case> {
    let g = |n: &str| ext(&[], n, vec![]);
    let o = |t: T| T::Opt(Box::new(t));
    let vc = |t: T| T::Vec(Box::new(t));
    let ctx: Vec<fn(T) -> T> = vec![
        |t| t,
        |t| T::Vec(Box::new(t)),
        |t| T::Opt(Box::new(t)),
        |t| T::Arr(Box::new(t), 3),
        |t| T::Map(Box::new(p("u8")), Box::new(t)),
        |t| T::Map(Box::new(t), Box::new(p("u8"))),
        |t| T::Set(Box::new(t)),
        |t| T::Nz(Box::new(T::Vec(Box::new(t)))),
        |t| T::Tup(vec![t, p("u8")]),
        |t| T::Tup(vec![p("string"), t]),
        |t| ext(&[], "Gen", vec![t]),
        |t| ext(&[], "Gen2", vec![p("u8"), t]),
        |t| ext(&[], "Gen2", vec![t.clone(), t]),
    ];
    let mut v = vec![];
    for a in &ctx {
        for b in &ctx {
            let mut d = helpers();
            d.extend([
                strct("S1", &["T"], named(vec![field("a", a(b(g("T"))), None)])),
                strct("S2", &["T", "U"], Fs::Unnamed(vec![field("", a(g("T")), None), field("", b(g("U")), None)])),
                enm("E", &["T", "U"], vec![variant("One", Fs::Unnamed(vec![field("", a(g("T")), None)]), None), variant("Two", named(vec![field("x", b(g("U")), None)]), None), variant("Three", Fs::Unit, None)]),
            ]);
            v.push(case("generics", d));
            let mut d = helpers();
            d.push(alias("L", &["T"], a(b(g("T")))));
            d.push(alias("M", &["T", "U"], T::Tup(vec![a(g("T")), b(g("U"))])));
            v.push(case("generic_alias", d));
        }
    }
    // three parameters, used in another order
    v.push(case("generics", vec![strct("S", &["A", "B", "C"], named(vec![field("c", vc(g("C")), None), field("a", o(g("A")), None), field("b", g("B"), None)])), strct("U", &[], named(vec![field("x", ext(&[], "S", vec![p("u8"), p("string"), vc(p("bool"))]), None)]))]));
    v
}
fn consts() -> Vec<Case> {
    let ints: Vec<(&'static str, i128, Option<i128>)> = vec![
        ("u8", 0, Some(255)), ("u16", 0, Some(65535)), ("u32", 0, Some(u32::MAX as i128)), ("u64", 0, Some(u64::MAX as i128)), ("u128", 0, Some(i128::MAX)),
        ("i8", -128, Some(127)), ("i16", -32768, Some(32767)), ("i32", i32::MIN as i128, Some(i32::MAX as i128)), ("i64", i64::MIN as i128, Some(i64::MAX as i128)), ("i128", i128::MIN, Some(i128::MAX)),
    ];
    let mut v = vec![];
    let mut d = vec![];
    for (t, lo, hi) in &ints {
        for n in [*lo, lo + 1, -1, 0, 1, 10, 100, hi.unwrap() - 1, hi.unwrap()] {
            d.push((p(t), n.to_string()));
        }
        d.push((p(t), "1_0".into()));
        d.push((p(t), (hi.unwrap().saturating_add(1)).to_string()));
    }
    for l in ["true", "false"] {
        d.push((p("bool"), l.into()));
    }
    for t in ["f32", "f64"] {
        for l in ["0.0", "-0.0", "1.0", "1.5", "-2.25", "0.1", "123456789.125", "1e10", "1.5e-7", "3.4028235e38", "1e300", "5e-324", "100000000000000000000000.0", "1.0e38"] {
            d.push((p(t), l.into()));
        }
    }
    for t in ["string", "&string"] {
        for l in ["\"\"", "\"a\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"\\n\\r\\t\"", "\"\\0\"", "\"\\b\\f\"", "\"a\\/b\"", "\"'\"", "\"\\u{0}\"", "\"\\u{7f}\"", "\"\\u{1f600}\"", "\"äöü€😀\"", "\"\u{301}\u{200b}\u{feff}\"", "\"{}%s`\"", "\"two\nlines\"", "\"line\\\n   joined\""] {
            d.push((p(t), l.into()));
        }
    }
    for t in ["bytes", "&bytes"] {
        for l in ["[]", "[1, 2, 3]", "[0, 255, 34, 92, 10]"] {
            d.push((p(t), l.into()));
        }
    }
    for (t, l) in &d {
        v.push(case("consts", vec![cnst("VALUE", t.clone(), l)]));
        v.push(case("consts", vec![module("m", vec![cnst("VALUE", t.clone(), l)]), cnst("LAST", p("bool"), "true")]));
    }
    // every kind of literal for every type
    for t in ["bool", "u8", "i64", "u128", "f32", "f64", "string", "bytes", "&string", "&bytes", "box<string>", "box<bytes>"] {
        for l in ["true", "1", "-1", "300", "1.5", "\"a\"", "[1, 2, 3]"] {
            v.push(case("const_types", vec![cnst("VALUE", p(t), l)]));
        }
    }
    for t in [T::Vec(Box::new(u8t())), T::Opt(Box::new(u8t())), T::Nz(Box::new(u8t())), T::Arr(Box::new(u8t()), 2), T::Tup(vec![u8t(), u8t()])] {
        v.push(case("const_types", vec![cnst("VALUE", t, "1")]));
    }
    v
}
pub const COMMENTS: [&[&str]; 14] = [
    &["Plain text"], &["Two", "lines"], &["First", "", "third"], &[""], &["\"quoted\" 'text'"], &["*/ closes"], &["/* opens"], &["back\\slash \\n \\u{41}"], &["<b>html</b> & more"],
    &["[link](../x.html)"], &["äöü € 😀"], &["# heading", "- list", "```", "code", "```"], &["{braces} {0} %d `tick`"], &["/ slash", "! bang"],
];
pub fn commented(c: &[&str]) -> Vec<D> {
    let with = |mut f: F| {
        f.comment = c.iter().map(|s| s.to_string()).collect();
        f
    };
    let withv = |mut v: V| {
        v.comment = c.iter().map(|s| s.to_string()).collect();
        v
    };
    vec![
        strct("S", &[], named(vec![with(field("a", u8t(), None)), field("b", u8t(), None), with(field("c", T::Opt(Box::new(p("string"))), None))])).commented(c),
        strct("Unit", &[], Fs::Unit).commented(c),
        strct("Tuple", &[], Fs::Unnamed(vec![field("", u8t(), None)])).commented(c),
        enm("E", &[], vec![withv(variant("One", Fs::Unit, None)), variant("Two", Fs::Unit, None), withv(variant("Three", named(vec![with(field("x", u8t(), None))]), None)), withv(variant("Four", Fs::Unnamed(vec![field("", u8t(), None)]), None))]).commented(c),
        alias("L", &[], p("string")).commented(c),
        cnst("VALUE", u8t(), "1").commented(c),
        module("m", vec![strct("S", &[], Fs::Unit).commented(c), module("n", vec![enm("E", &[], vec![withv(variant("One", Fs::Unit, None))]).commented(c)]).commented(c)]).commented(c),
    ]
}
/// Comments of many lines: so many in each of the paragraphs.
pub fn long_comments() -> Vec<Vec<String>> {
    let mut v: Vec<Vec<usize>> = (1..=9).map(|n| vec![n]).collect();
    v.extend((1..=9).map(|n| vec![n, 10 - n]));
    v.extend([vec![1; 12], vec![2, 3, 4, 5], vec![33], vec![130, 2]]);
    v.iter()
        .map(|p| {
            let p: Vec<Vec<String>> = p.iter().enumerate().map(|(i, n)| (0..*n).map(|k| format!("line{k} of part{i}")).collect()).collect();
            p.join(&String::new())
        })
        .collect()
}
fn comments() -> Vec<Case> {
    let long = long_comments();
    let long: Vec<Vec<&str>> = long.iter().map(|c| c.iter().map(String::as_str).collect()).collect();
    COMMENTS.iter().copied().chain(long.iter().map(Vec::as_slice)).map(|c| case("comments", commented(c))).collect()
}
fn identifiers() -> Vec<Case> {
    let f = [None, Some(1), Some(2), Some(MAX_FIELD_ID - 1), Some(MAX_FIELD_ID)];
    let e = [None, Some(0), Some(1), Some(7), Some(u32::MAX - 1), Some(u32::MAX)];
    let mut v = vec![];
    for a in f {
        for b in f {
            v.push(case("identifiers", vec![strct("S", &[], named(vec![field("a", u8t(), a), field("b", T::Opt(Box::new(p("string"))), b)])), strct("T", &[], Fs::Unnamed(vec![field("", T::Vec(Box::new(p("string"))), a), field("", p("u64"), b)]))]));
        }
    }
    for a in e {
        for b in e {
            v.push(case("identifiers", vec![enm("E", &[], vec![variant("A", Fs::Unit, a), variant("B", Fs::Unnamed(vec![field("", u8t(), Some(MAX_FIELD_ID))]), b)])]));
        }
    }
    v
}
/// Every pair of definitions in a scope, and how they can use each other.
fn pairs() -> Vec<Case> {
    let kinds = |n: &str, of: Option<T>| -> Vec<D> {
        let t = of.unwrap_or(u8t());
        vec![
            strct(n, &[], named(vec![field("a", t.clone(), None)])),
            strct(n, &[], Fs::Unnamed(vec![field("", T::Opt(Box::new(t.clone())), None)])),
            strct(n, &[], named(vec![field("a", T::Vec(Box::new(t.clone())), None)])),
            strct(n, &[], Fs::Unit),
            enm(n, &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unnamed(vec![field("", t.clone(), None)]), None)]),
            enm(n, &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unnamed(vec![field("", T::Vec(Box::new(t.clone())), None)]), None)]),
            alias(n, &[], t.clone()),
        ]
    };
    let mut v = vec![];
    for a in kinds("A", None) {
        for b in kinds("B", None) {
            v.push(case("pairs", vec![a.clone(), b.clone()]));
        }
    }
    for a in kinds("A", Some(ext(&[], "B", vec![]))) {
        for b in kinds("B", None).into_iter().chain(kinds("B", Some(ext(&[], "A", vec![])))).chain(kinds("B", Some(ext(&[], "B", vec![])))) {
            v.push(case("pairs", vec![a.clone(), b.clone()]));
            v.push(case("pairs", vec![b.clone(), a.clone()]));
        }
    }
    // no fields, no variants
    v.push(case("pairs", vec![strct("A", &[], named(vec![]))]));
    v.push(case("pairs", vec![strct("A", &[], Fs::Unnamed(vec![]))]));
    v.push(case("pairs", vec![enm("A", &[], vec![])]));
    v.push(case("pairs", vec![enm("A", &[], vec![variant("V", named(vec![]), None), variant("W", Fs::Unnamed(vec![]), None)])]));
    v
}
/// Definitions with every number of fields, variants and generics, of every kind.
fn shapes(th: bool) -> Vec<Case> {
    let tys = [u8t(), T::Opt(Box::new(p("string"))), T::Vec(Box::new(p("u32"))), p("string"), T::Tup(vec![p("u16"), p("bool")])];
    let list = |n: usize, from: usize, named: bool, ids: bool| -> Vec<F> {
        (0..n).map(|i| field(&if named { format!("f{i}") } else { String::new() }, tys[(from + i) % tys.len()].clone(), ids.then(|| 1 + (n - i) as u32 * 3))).collect()
    };
    let shape = |k: usize, n: usize, from: usize, ids: bool| match k {
        0 => Fs::Unit,
        1 => Fs::Unnamed(list(n, from, false, ids)),
        _ => Fs::Named(list(n, from, true, ids)),
    };
    let mut v = vec![];
    for n in 1..=if th { 8 } else { 5 } {
        for from in 0..tys.len() {
            for ids in [false, true] {
                let d = [1, 2].into_iter().flat_map(|k| {
                    let s = shape(k, n, from, ids);
                    [
                        strct(&format!("S{k}"), &[], s.clone()),
                        enm(&format!("E{k}"), &[], vec![variant("A", s.clone(), None)]),
                        enm(&format!("F{k}"), &[], vec![variant("A", Fs::Unit, Some(4)), variant("B", s.clone(), None), variant("C", s, Some(9))]),
                    ]
                });
                v.push(case("shapes", d.collect()));
            }
        }
    }
    // all lists of variants
    for n in 1..=if th { 4 } else { 3 } {
        for code in 0..5usize.pow(n) {
            let vs = (0..n).map(|i| {
                let (k, l) = [(0, 0), (1, 1), (1, 3), (2, 1), (2, 3)][code / 5usize.pow(i) % 5];
                variant(["First", "Second", "Third", "Fourth"][i as usize], shape(k, l, i as usize, false), None)
            });
            v.push(case("shapes", vec![enm("E", &[], vs.collect())]));
        }
    }
    // generics
    for n in 1..=5 {
        let names = ["A", "B", "C", "D", "E"];
        let g = &names[..n];
        let fs = |named: bool| g.iter().map(|x| field(&if named { x.to_lowercase() } else { String::new() }, ext(&[], x, vec![]), None)).collect::<Vec<_>>();
        let args: Vec<T> = (0..n).map(|i| tys[i % 4].clone()).collect();
        v.push(case("shapes", vec![
            strct("S", g, Fs::Named(fs(true))),
            strct("U", g, Fs::Unnamed(fs(false))),
            enm("V", g, g.iter().enumerate().map(|(i, x)| variant(&format!("V{i}"), Fs::Unnamed(vec![field("", ext(&[], x, vec![]), None)]), None)).collect()),
            alias("L", g, T::Tup(g.iter().map(|x| ext(&[], x, vec![])).chain([u8t()]).collect())),
            strct("User", &[], Fs::Named(vec![field("a", ext(&[], "S", args.clone()), None), field("b", T::Opt(Box::new(ext(&[], "U", args.clone()))), None), field("c", T::Vec(Box::new(ext(&[], "V", args))), None)])),
        ]));
    }
    v
}
/// Modules and imports with names that generated code refers to, next to users of every type.
fn shadows() -> Vec<Case> {
    let mut v = vec![];
    for n in ["std", "core", "alloc", "mabo", "buf", "super_", "crate_"] {
        for b in [u8t(), p("string"), p("bytes"), p("box<bytes>")] {
            for t in in_contexts(&b, 1) {
                let inner = vec![strct("Inner", &[], named(vec![field("a", u8t(), None)]))];
                let mut d = helpers();
                d.push(module(n, inner.clone()));
                d.extend(renamed(&t, &[]));
                v.push(case("module_users", d));
                if b == u8t() {
                    let mut d = helpers();
                    d.push(import(&["other", n], None));
                    d.extend(renamed(&t, &[]));
                    v.push(Case { group: "import_users", schemas: vec![("sample".into(), d), ("other".into(), vec![module(n, inner)])] });
                }
            }
        }
    }
    v
}
pub fn cases(th: bool) -> Vec<Case> {
    let mut v = types(th);
    v.extend(shapes(th));
    v.extend(shadows());
    v.extend(names());
    v.extend(structure(th));
    v.extend(generics());
    v.extend(consts());
    v.extend(comments());
    v.extend(identifiers());
    v.extend(pairs());
    v.extend(large(th));
    v
}
/// Many elements of one kind.
fn large(th: bool) -> Vec<Case> {
    let sizes = if th { crate::large::sizes(false) } else { vec![8, 11, 13, 17, 27, 33, 65, 129, 257] };
    let mut v = vec![];
    for n in sizes {
        // types nested that deep are beyond the limits of the Rust compiler
        v.extend(crate::large::valid(n).into_iter().filter(|d| d.0 != "chain" || n <= 101).map(|d| case("large", d.1)));
        v.push(Case { group: "large", schemas: crate::large::imports(n).swap_remove(0).into_iter().map(|(n, d)| (if n == "main" { "sample".into() } else { n.into() }, d)).collect() });
    }
    v
}
