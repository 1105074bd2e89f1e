//! C12 and C13: validation and resolution on enumerated schemas.
use crate::large;
use crate::parsing::{labels, render};
use crate::sem::*;
use mabo_parser::Schema;
use model::report::{parallel, quiet, thorough, Report, Stats};
use std::ops::Range;
use std::path::PathBuf;
use std::sync::atomic::AtomicBool;

/// Whether the contents of resolution errors are judged instead of the verdict.
static ERRORS: AtomicBool = AtomicBool::new(false);

// ---- C12 ------------------------------------------------------------------------------------------
/// The error that the validator reports, in terms of the rules.
fn reported(e: &mabo_compiler::validate::Error) -> (&'static str, Vec<String>, Vec<Range<usize>>) {
    use mabo_compiler::validate::*;
    let s = |x: &str| x.to_owned();
    match e {
        Error::DuplicateId(DuplicateId::EnumVariant(e)) => (
            "variant-id",
            vec![e.id.get().to_string(), s(&e.name), s(&e.other_name)],
            vec![e.first.clone(), e.second.clone()],
        ),
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Named(e))) => (
            "field-id",
            vec![e.id.get().to_string(), s(&e.name), s(&e.other_name)],
            vec![e.first.clone(), e.second.clone()],
        ),
        Error::DuplicateId(DuplicateId::Field(DuplicateFieldId::Unnamed(e))) => (
            "field-id",
            vec![e.id.get().to_string(), e.position.to_string(), e.other_position.to_string()],
            vec![e.first.clone(), e.second.clone()],
        ),
        Error::FieldIdRange(e) => ("field-range", vec![e.id.get().to_string()], vec![e.used.clone()]),
        Error::DuplicateName(DuplicateName::EnumVariant(e)) => {
            ("variant-name", vec![s(&e.name)], vec![e.first.clone(), e.second.clone()])
        }
        Error::DuplicateName(DuplicateName::Field(e)) => {
            ("field-name", vec![s(&e.name)], vec![e.first.clone(), e.second.clone()])
        }
        Error::DuplicateName(DuplicateName::InModule(e)) => {
            ("module-name", vec![s(&e.name)], vec![e.first.clone(), e.second.clone()])
        }
        Error::InvalidGeneric(InvalidGenericType::Duplicate(e)) => {
            ("generic-duplicate", vec![s(&e.name)], vec![e.first.clone(), e.second.clone()])
        }
        Error::InvalidGeneric(InvalidGenericType::Unused(e)) => {
            ("generic-unused", vec![s(&e.name)], vec![e.declared.clone()])
        }
        Error::TupleSize(e) => (
            "tuple",
            vec![match e.amount {
                InvalidTupleAmount::Empty => s("empty"),
                InvalidTupleAmount::Single => s("single"),
                InvalidTupleAmount::TooLarge => s("large"),
            }],
            vec![e.declared.clone()],
        ),
    }
}
fn explains(text: &str, v: &Viol, r: &(&'static str, Vec<String>, Vec<Range<usize>>)) -> bool {
    if v.rule != r.0 {
        return false;
    }
    if v.rule == "tuple" {
        return v.names[0] == r.1[0] && text.get(r.2[0].clone()).is_some_and(|t| t.contains(&v.names[1]));
    }
    v.names == r.1
        && v.at.len() == r.2.len()
        && v.at.iter().zip(&r.2).all(|(a, b)| {
            // surrounding white space is of no interest
            let Some(t) = text.get(b.clone()) else { return false };
            let start = b.start + (t.len() - t.trim_start().len());
            let end = b.end - (t.len() - t.trim_end().len());
            a.0 <= start && end <= a.1 && start < end
        })
}
pub fn check_valid(defs: &[D], st: &mut Stats) {
    let src = text(defs);
    let want = validate(defs);
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let schema = match Schema::parse(&src, None) {
        Ok(s) => s,
        // the grammar is C10's matter
        Err(_) => {
            st.violation("an enumerated schema does not parse", || src.clone());
            return;
        }
    };
    match quiet(|| mabo_compiler::validate_schema(&schema)) {
        Err(p) => st.violation(format!("validation panicked: {p}"), || src.clone()),
        Ok(Ok(())) => {
            if want.is_empty() {
                st.count("accepted", 1);
            } else {
                st.violation(format!("accepted although a rule is violated: {}", want[0].rule), || format!("{src}\n{want:?}"));
            }
        }
        Ok(Err(e)) => {
            st.count("rejected", 1);
            let r = reported(&e);
            st.count(r.0, 1);
            if want.is_empty() {
                st.violation(format!("rejected although every rule holds: {}", r.0), || format!("{src}\n{r:?}"));
            } else if !want.iter().any(|v| explains(&src, v, &r)) {
                st.violation(format!("the reported error is not what is wrong: {}", r.0), || format!("{src}\nreported {r:?}\nexpected one of {want:?}"));
            } else {
                let mut l = vec![];
                labels(&e, &mut l);
                let bad = l.is_empty() || l.iter().any(|(o, n)| o + n > src.len());
                if bad || !matches!(render(&e), Ok(s) if !s.is_empty()) {
                    st.violation("the error cannot be shown", || format!("{src}\n{l:?}"));
                }
            }
        }
    }
}
/// Every list of up to `n` elements of `a`, shortest first.
pub fn lists<X: Clone>(a: &[X], n: usize) -> Vec<Vec<X>> {
    let mut all: Vec<Vec<X>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|l| a.iter().map(move |x| { let mut l = l.clone(); l.push(x.clone()); l })).collect();
        all.extend(last.iter().cloned());
    }
    all
}
/// Places a field list can stand at.
pub fn field_sites(f: &[F]) -> Vec<D> {
    let named: Vec<F> = f.iter().enumerate().map(|(i, f)| { let mut f = f.clone(); if f.name.is_empty() { f.name = format!("f{i}"); } f }).collect();
    let other = || variant("Other", Fs::Unnamed(vec![field("", p("u8"), Some(1))]), None);
    vec![
        strct("Sample", &[], Fs::Named(named.clone())),
        strct("Sample", &[], Fs::Unnamed(f.to_vec())),
        enm("Sample", &[], vec![variant("One", Fs::Named(named.clone()), None), other()]),
        enm("Sample", &[], vec![other(), variant("One", Fs::Unnamed(f.to_vec()), None)]),
    ]
}
/// One-hole type contexts up to the given depth.
pub fn contexts(depth: usize) -> Vec<fn(T) -> T> {
    let _ = depth;
    vec![
        |t| t,
        |t| T::Vec(Box::new(t)),
        |t| T::Set(Box::new(t)),
        |t| T::Opt(Box::new(t)),
        |t| T::Nz(Box::new(t)),
        |t| T::Arr(Box::new(t), 4),
        |t| T::Map(Box::new(t), Box::new(p("u8"))),
        |t| T::Map(Box::new(p("string")), Box::new(t)),
        |t| T::Tup(vec![t, p("u8")]),
        |t| T::Tup(vec![p("u8"), p("bool"), t]),
        |t| ext(&[], "Gen", vec![t]),
        |t| ext(&[], "Gen2", vec![p("u8"), t]),
    ]
}
/// All types made of the hole filler inside of up to `depth` nested contexts.
pub fn in_contexts(t: &T, depth: usize) -> Vec<T> {
    let mut all = vec![t.clone()];
    let mut last = all.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|t| contexts(1).into_iter().skip(1).map(|c| c(t.clone()))).collect();
        all.extend(last.iter().cloned());
    }
    all
}
pub fn type_sites(t: &T, gens: &[&str]) -> Vec<D> {
    let f = |n: &str| field(n, t.clone(), None);
    let o = |n: &str| field(n, p("u32"), None);
    vec![
        strct("Sample", gens, Fs::Named(vec![o("first"), f("second")])),
        strct("Sample", gens, Fs::Unnamed(vec![f(""), o("")])),
        enm("Sample", gens, vec![variant("One", Fs::Unit, None), variant("Two", Fs::Named(vec![f("field")]), None)]),
        enm("Sample", gens, vec![variant("One", Fs::Unnamed(vec![o(""), f("")]), None), variant("Two", Fs::Unit, None)]),
        alias("Sample", gens, t.clone()),
    ]
}
fn wrapped(d: &[D]) -> Vec<Vec<D>> {
    vec![
        d.to_vec(),
        vec![module("inner", d.to_vec())],
        vec![strct("Before", &[], Fs::Unit), module("outer", vec![module("inner", d.to_vec()), strct("After", &[], Fs::Unit)]), cnst("LAST", p("u8"), "1")],
    ]
}

pub enum Job {
    Fields(Option<u32>, usize),
    Variants(Option<u32>, usize),
    Names(usize),
    Scope(usize, usize),
    Generics(usize),
    Tuples(usize, usize),
    Mixed,
    /// Many elements.
    Large(usize),
}
const FIELD_IDS: [Option<u32>; 9] = [
    None, Some(0), Some(1), Some(2), Some(3), Some(MAX_FIELD_ID), Some(MAX_FIELD_ID + 1), Some(u32::MAX - 1), Some(u32::MAX),
];
const VARIANT_IDS: [Option<u32>; 8] = [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(u32::MAX - 1), Some(u32::MAX)];

pub fn scope_defs() -> Vec<D> {
    vec![
        module("a", vec![]),
        module("b", vec![strct("A", &[], Fs::Unit)]),
        strct("A", &[], Fs::Unit),
        strct("B", &[], Fs::Named(vec![field("a", p("u8"), None)])),
        enm("A", &[], vec![variant("A", Fs::Unit, None)]),
        enm("B", &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unit, None)]),
        alias("A", &[], p("u8")),
        alias("B", &[], p("bool")),
        cnst("A", p("u8"), "1"),
        cnst("B", p("bool"), "true"),
        import(&["a"], None),
        import(&["x", "a"], None),
        import(&["x", "b"], None),
        import(&["x"], Some("A")),
        import(&["x", "y"], Some("B")),
        import(&["a", "b"], Some("A")),
        import(&["a", "x"], None),
    ]
}

/// Every schema of the job.
pub fn run12(j: &Job, th: bool, st: &mut Stats, go: &mut dyn FnMut(&[D], &mut Stats)) {
    match j {
        Job::Fields(first, n) => {
            for l in lists(&FIELD_IDS, *n) {
                let mut l2 = vec![*first];
                l2.extend(l);
                let f: Vec<F> = l2.iter().map(|i| field("", p("u8"), *i)).collect();
                for d in field_sites(&f) {
                    go(&[d], st);
                }
            }
        }
        Job::Variants(first, n) => {
            for l in lists(&VARIANT_IDS, *n) {
                let mut l2 = vec![*first];
                l2.extend(l);
                let vs = |f: &dyn Fn(usize) -> Fs| -> Vec<V> {
                    l2.iter().enumerate().map(|(i, id)| variant(&format!("V{i}"), f(i), *id)).collect()
                };
                go(&[enm("Sample", &[], vs(&|_| Fs::Unit))], st);
                // identifiers of variants and of their fields do not mix
                go(&[enm("Sample", &[], vs(&|i| Fs::Unnamed(vec![field("", p("u8"), Some(i as u32 + 1)), field("", p("u8"), None)])))], st);
                go(&[enm("Sample", &[], vs(&|i| if i == 1 { Fs::Named(vec![field("a", p("u8"), Some(3)), field("b", p("u8"), Some(2)), field("c", p("u8"), None)]) } else { Fs::Unit }))], st);
            }
        }
        Job::Names(n) => {
            for l in lists(&["a", "b", "ab", "a_b"], *n) {
                let f: Vec<F> = l.iter().map(|n| field(n, p("u8"), None)).collect();
                if !f.is_empty() {
                    for d in [
                        strct("Sample", &[], Fs::Named(f.clone())),
                        enm("Sample", &[], vec![variant("One", Fs::Named(vec![field("a", p("u8"), None)]), None), variant("Two", Fs::Named(f.clone()), None)]),
                    ] {
                        for w in wrapped(&[d]) {
                            go(&w, st);
                        }
                    }
                }
                let vs: Vec<V> = l.iter().map(|n| variant(match *n { "a" => "A", "b" => "B", "ab" => "Ab", _ => "Sample" }, Fs::Unit, None)).collect();
                if !vs.is_empty() {
                    for w in wrapped(&[enm("Sample", &[], vs)]) {
                        go(&w, st);
                    }
                }
            }
        }
        Job::Scope(i, n) => {
            let ds = scope_defs();
            for l in lists(&ds, *n) {
                let mut l2 = vec![ds[*i].clone()];
                l2.extend(l);
                for w in wrapped(&l2) {
                    go(&w, st);
                }
            }
            // a name may be used again in another scope
            for e in &ds {
                go(&[ds[*i].clone(), module("c", vec![e.clone()]), module("d", vec![e.clone(), ds[*i].clone()])], st);
                go(&[module("c", vec![module("c", vec![e.clone(), ds[*i].clone()])]), e.clone()], st);
            }
        }
        Job::Generics(d) => {
            let names = ["T", "U", "Sample", "T1"];
            for gl in lists(&names, 3) {
                for ul in lists(&["T", "U", "Sample", "Other"], if gl.len() < 3 || th { 2 } else { 1 }) {
                    let fs: Vec<F> = ul.iter().map(|n| field("", ext(&[], n, vec![]), None)).chain([field("", p("u8"), None)]).collect();
                    for mut d in field_sites(&fs) {
                        d.gens = gl.iter().map(|s| s.to_string()).collect();
                        d.gen_sp = gl.iter().map(|_| Sp::default()).collect();
                        go(&[d], st);
                    }
                }
            }
            for t in [
                ext(&[], "T", vec![]),
                ext(&[], "U", vec![]),
                ext(&["a"], "T", vec![]),
                ext(&[], "T", vec![p("u8")]),
                ext(&[], "U", vec![ext(&[], "T", vec![])]),
                ext(&["a", "b"], "U", vec![ext(&[], "T", vec![])]),
            ] {
                for t in in_contexts(&t, *d) {
                    for d in type_sites(&t, &["T"]) {
                        go(&[d], st);
                    }
                }
            }
        }
        Job::Tuples(n, d) => {
            let t = T::Tup(vec![p("u8"); *n]);
            for t in in_contexts(&t, *d) {
                let mut ds = type_sites(&t, &[]);
                ds.push(cnst("SAMPLE", t.clone(), "1"));
                for d in ds {
                    if *n <= 2 || *n >= 12 {
                        for w in wrapped(&[d]) {
                            go(&w, st);
                        }
                    } else {
                        go(&[d], st);
                    }
                }
            }
        }
        Job::Mixed => {
            // every pair of definitions out of one valid and one invalid per rule, in every order and nesting
            let u = |n: usize| field("", T::Tup(vec![p("u8"); n]), None);
            let pool: Vec<D> = vec![
                strct("Aa", &[], Fs::Unnamed(vec![u(2), u(12)])),
                strct("Ab", &[], Fs::Unnamed(vec![u(1)])),
                strct("Ac", &[], Fs::Unnamed(vec![u(13)])),
                strct("Ad", &["T"], Fs::Unit),
                strct("Ae", &["T", "T"], Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)])),
                strct("Af", &[], Fs::Named(vec![field("a", p("u8"), Some(1)), field("b", p("u8"), Some(1))])),
                strct("Ag", &[], Fs::Named(vec![field("a", p("u8"), None), field("a", p("u8"), None)])),
                strct("Ah", &[], Fs::Named(vec![field("a", p("u8"), Some(0))])),
                enm("Ba", &[], vec![variant("A", Fs::Unit, Some(2)), variant("B", Fs::Unit, Some(1)), variant("C", Fs::Unit, None)]),
                enm("Bb", &[], vec![variant("A", Fs::Unit, None), variant("A", Fs::Unit, None)]),
                enm("Bc", &["T"], vec![variant("A", Fs::Unit, None)]),
                enm("Bd", &[], vec![variant("A", Fs::Unnamed(vec![u(1)]), None)]),
                enm("Be", &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unnamed(vec![field("", p("u8"), Some(1)), field("", p("u8"), Some(1))]), None)]),
                enm("Bf", &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unnamed(vec![field("", p("u8"), Some(1 << 29))]), None)]),
                alias("Ca", &[], T::Tup(vec![p("u8")])),
                alias("Cb", &["T"], p("u8")),
                cnst("DA", T::Tup(vec![p("u8")]), "1"),
                import(&["x"], Some("Aa")),
            ];
            for a in &pool {
                for b in &pool {
                    for w in wrapped(&[a.clone(), b.clone()]) {
                        go(&w, st);
                    }
                    go(&[module("m", vec![a.clone()]), b.clone()], st);
                    go(&[a.clone(), module("m", vec![b.clone()])], st);
                    go(&[module("m", vec![a.clone(), module("n", vec![b.clone()])])], st);
                }
            }
        }
        Job::Large(n) => {
            for d in large::valid(*n) {
                go(&d.1, st);
            }
            for p in large::places(*n) {
                for d in large::broken(*n, p) {
                    go(&d, st);
                }
            }
        }
    }
}
/// The depth is relative to that of the quick tier of C12.
pub fn jobs12(more: i32) -> Vec<Job> {
    let n = |n: i32| (n + more).max(0) as usize;
    let mut js = vec![Job::Mixed, Job::Names(n(5)), Job::Generics(n(3))];
    for i in FIELD_IDS {
        js.push(Job::Fields(i, n(4)));
    }
    for i in VARIANT_IDS {
        js.push(Job::Variants(i, n(4)));
    }
    for i in 0..scope_defs().len() {
        js.push(Job::Scope(i, n(3)));
    }
    for i in 1..=14 {
        js.push(Job::Tuples(i, n(3)));
    }
    js.extend(large::sizes(more > 0).into_iter().filter(|n| more >= 0 || [9, 17, 33, 65, 129].contains(n)).map(Job::Large));
    js
}
pub fn c12() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C12");
    let js = jobs12(if th { 1 } else { 0 });
    let s = parallel(&js, |j, st| run12(j, th, st, &mut check_valid));
    rep.stats.merge(s);
    rep.note("bounds", "all identifier lists up to 5 (6 in thorough) fields or variants over 9 boundary identifiers, all name lists up to 5 (6), all scopes of up to 4 (5) definitions of every kind, generic lists up to 3 with every use, tuples of 1 to 14 elements inside of every type context of depth 3 (4), all pairs of violations; in every place a type or field list can stand at and up to two modules deep".to_string());
    rep.finish()
}

// ---- C13 ------------------------------------------------------------------------------------------
fn u8f(n: &str) -> Fs {
    Fs::Named(vec![field(n, p("u8"), None)])
}
fn gen_struct(name: &str) -> D {
    strct(name, &["T"], Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)]))
}
/// Definitions that references can point to.
fn targets() -> Vec<D> {
    vec![
        strct("A", &[], u8f("a")),
        gen_struct("G"),
        enm("E", &["T", "U"], vec![variant("One", Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None), field("", ext(&[], "U", vec![]), None)]), None)]),
        alias("L", &[], p("u8")),
        cnst("C", p("u8"), "1"),
    ]
}
fn other(level: usize) -> Vec<D> {
    let mut inner = vec![];
    if level < 2 {
        inner.push(module("m", other(level + 1)));
    }
    let mut v = targets();
    if level > 0 {
        // names that exist in modules only
        v.push(strct(&format!("D{level}"), &[], Fs::Unit));
    }
    inner.append(&mut v);
    inner
}
pub fn check_resolve(schemas: &[(&str, Vec<D>)], st: &mut Stats, orders: bool) {
    let view: Vec<(&str, &[D])> = schemas.iter().map(|(n, d)| (*n, &d[..])).collect();
    if view.iter().any(|(_, d)| !validate(d).is_empty()) {
        st.count("invalid_skipped", 1);
        return;
    }
    let want = resolve(&view);
    let texts: Vec<String> = schemas.iter().map(|(_, d)| text(d)).collect();
    one_resolve(&schemas.iter().map(|s| s.0).zip(&texts).collect::<Vec<_>>(), &want, st);
    if orders {
        // other orders of schemas and definitions mean the same
        let mut rev: Vec<(&str, String)> = schemas.iter().map(|(n, d)| (*n, text(&reversed(d)))).collect();
        one_resolve(&rev.iter().map(|s| (s.0, &s.1)).collect::<Vec<_>>(), &want, st);
        rev.reverse();
        one_resolve(&rev.iter().map(|s| (s.0, &s.1)).collect::<Vec<_>>(), &want, st);
        let mut rot: Vec<(&str, String)> = schemas.iter().map(|(n, d)| { let mut d = d.clone(); if !d.is_empty() { d.rotate_left(1); } (*n, text(&d)) }).collect();
        rot.rotate_left(1);
        one_resolve(&rot.iter().map(|s| (s.0, &s.1)).collect::<Vec<_>>(), &want, st);
    }
}
fn reversed(d: &[D]) -> Vec<D> {
    d.iter()
        .rev()
        .map(|d| {
            let mut d = d.clone();
            if let K::Mod(ds) = &mut d.kind {
                *ds = reversed(ds);
            }
            d
        })
        .collect()
}
fn one_resolve(texts: &[(&str, &String)], want: &Result<(), String>, st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let mut parsed = vec![];
    let errors = ERRORS.load(std::sync::atomic::Ordering::Relaxed);
    // locations in different files must not look alike
    let texts: Vec<(&str, String)> = texts
        .iter()
        .enumerate()
        .map(|(i, (n, t))| (*n, if errors { format!("/// {}\n{t}", "\u{e9}\u{20ac}\u{1d11e}".repeat(i + 1)) } else { (*t).clone() }))
        .collect();
    let detail = || texts.iter().map(|(n, t)| format!("// {n}.mabo\n{t}")).collect::<String>();
    for (n, t) in &texts {
        let path = PathBuf::from(format!("{n}.mabo"));
        match Schema::parse(t, errors.then_some(&*path)) {
            Ok(s) => parsed.push((*n, s)),
            Err(_) => return st.violation("an enumerated schema does not parse", detail),
        }
    }
    let refs: Vec<(&str, &Schema)> = parsed.iter().map(|(n, s)| (*n, s)).collect();
    for (_, s) in &refs {
        if mabo_compiler::validate_schema(s).is_err() {
            return st.violation("an enumerated schema is rejected by the validator", detail);
        }
    }
    match (quiet(|| mabo_compiler::resolve_schemas(&refs)), want) {
        (Ok(Err(e)), Err(_)) if errors => {
            let files: Vec<(String, &String)> = texts.iter().map(|(n, t)| (format!("{n}.mabo"), t)).collect();
            crate::unresolved::judge(&refs, &files, &e, st);
        }
        // the verdict itself is C13's matter
        (Ok(_), _) if errors => st.count("no_error", 1),
        (Err(p), _) => st.violation(format!("resolution panicked: {p}"), detail),
        (Ok(Ok(())), Ok(())) => st.count("resolved", 1),
        (Ok(Ok(())), Err(w)) => st.violation("resolved although something does not exist", || format!("{w}\n{}", detail())),
        (Ok(Err(e)), Ok(())) => st.violation("an existing definition is not found", || format!("{:?}\n{}", e.cause, detail())),
        (Ok(Err(e)), Err(_)) => {
            st.count("unresolved", 1);
            if !matches!(render(&e), Ok(s) if !s.is_empty()) {
                st.violation("the error cannot be shown", detail);
            }
        }
    }
}
fn refs(th: bool) -> Vec<T> {
    let mut v = vec![];
    let paths: &[&[&str]] = if th {
        &[&[], &["other"], &["m"], &["m", "m"], &["other", "m"], &["other", "m", "m"], &["x"], &["main"], &["m", "x"], &["third"], &["m", "m", "m"]]
    } else {
        &[&[], &["other"], &["m"], &["m", "m"], &["other", "m"], &["other", "m", "m"], &["x"], &["main"], &["m", "x"]]
    };
    for path in paths {
        for n in ["A", "G", "E", "L", "C", "D1", "D2", "X", "T"] {
            for args in [vec![], vec![p("u8")], vec![p("u8"), p("bool")]] {
                v.push(ext(path, n, args));
            }
        }
    }
    v.extend(dangling());
    v
}
/// Long paths that end in nothing.
fn dangling() -> Vec<T> {
    let paths: &[&[&str]] = &[&["m", "m", "m"], &["m", "m", "x"], &["other", "m", "x"], &["m", "x", "m"], &["other", "m", "m", "m"], &["other", "m", "m", "x"], &["m", "m", "m", "x"], &["other", "x", "m", "y"], &["other", "m", "x", "y"]];
    paths.iter().flat_map(|s| [ext(s, "A", vec![]), ext(s, "X", vec![p("u8")])]).collect()
}
fn imports(th: bool) -> Vec<D> {
    let mut v = vec![];
    let segs: &[&[&str]] = &[&["other"], &["other", "m"], &["other", "m", "m"], &["other", "x"], &["none"], &["none", "m"], &["other", "m", "x"], &["other", "m", "m", "x"], &["other", "m", "x", "m"], &["main"], &["third"], &["third", "m"]];
    for s in segs {
        v.push(import(s, None));
        for n in ["A", "G", "E", "L", "C", "D1", "D2", "X"] {
            if th || s.len() < 3 || n != "E" {
                v.push(import(s, Some(n)));
            }
        }
    }
    v
}
enum J13 {
    /// Local definitions: mask of the targets and whether modules exist.
    Local(usize, usize),
    Import(usize),
    Pair(usize),
    Context(usize),
    Scopes,
    Random(usize),
    /// Many elements.
    Large(usize),
}
fn run13(j: &J13, th: bool, st: &mut Stats) {
    let user = |t: &T, gens: &[&str], site: usize| -> Vec<D> {
        // `T` has to be used to be valid
        let mut d = type_sites(t, gens).swap_remove(site);
        d.name = "User".into();
        let all = || -> Vec<F> { gens.iter().enumerate().map(|(i, g)| field(&format!("last{i}"), ext(&[], g, vec![]), None)).collect() };
        let unnamed = || -> Vec<F> { gens.iter().map(|g| field("", ext(&[], g, vec![]), None)).collect() };
        if !gens.is_empty() {
            match &mut d.kind {
                K::Struct(Fs::Unnamed(f)) => f.extend(unnamed()),
                K::Struct(Fs::Named(f)) => f.extend(all()),
                K::Enum(v) => v.push(variant("Last", Fs::Unnamed(unnamed()), None)),
                K::Alias(t) => gens.iter().for_each(|g| *t = T::Tup(vec![t.clone(), ext(&[], g, vec![])])),
                _ => {}
            }
        }
        vec![d]
    };
    match j {
        J13::Local(mask, level) => {
            let ts = targets();
            let some: Vec<D> = ts.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1.clone()).collect();
            for (k, t) in refs(th).iter().enumerate() {
                for gens in [&[][..], &["T"][..], &["A"][..], &["U", "T", "X"][..], &["T", "A", "V", "W"][..], &["V", "W", "D1", "D2", "T"][..]] {
                    let mut main = user(t, gens, k % 5);
                    match level {
                        0 => main.extend(some.clone()),
                        1 => main.push(module("m", some.clone())),
                        2 => main.push(module("m", vec![module("m", some.clone())])),
                        _ => {
                            // outer definitions are not visible inside
                            main = vec![module("m", main)];
                            main.extend(some.clone());
                        }
                    }
                    check_resolve(&[("main", main)], st, k % 7 == 0);
                }
            }
        }
        J13::Import(i) => {
            let imp = imports(th)[*i].clone();
            for (k, t) in refs(th).iter().enumerate() {
                for local in [vec![], vec![strct("D1", &[], Fs::Unit), module("x", targets())]] {
                    let mut main = vec![imp.clone()];
                    main.extend(user(t, &[], k % 5));
                    main.extend(local);
                    let third = vec![module("m", vec![strct("A", &["T"], Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None)]))])];
                    check_resolve(&[("main", main), ("other", other(0)), ("third", third)], st, true);
                }
            }
            // a schema, its modules and those inside of them have the same name
            let same = |path: &[String]| -> Vec<String> { path.iter().map(|s| if s == "other" { "m".to_owned() } else { s.clone() }).collect() };
            let mut imp = imp;
            if let K::Use(path, element) = &mut imp.kind {
                *path = same(path);
                if !*element {
                    imp.name = path.last().unwrap().clone();
                }
            }
            for (k, t) in refs(th).iter().enumerate() {
                let T::Ext(path, name, args) = t else { continue };
                let t = T::Ext(same(path), name.clone(), args.clone());
                for main_name in ["main", "m"] {
                    for local in [vec![], vec![module("m", targets())]] {
                        let mut main = vec![imp.clone()];
                        main.extend(user(&t, &[], k % 5));
                        main.extend(local);
                        if main_name == "m" {
                            let mut all = other(0);
                            all.extend(main);
                            check_resolve(&[("m", all)], st, false);
                        } else {
                            check_resolve(&[("main", main), ("m", other(0))], st, false);
                        }
                    }
                }
            }
        }
        J13::Pair(i) => {
            let all = imports(th);
            for b in &all {
                for t in refs(false).iter().step_by(if th { 1 } else { 3 }) {
                    let mut main = vec![all[*i].clone(), b.clone()];
                    main.extend(user(t, &[], 0));
                    check_resolve(&[("main", main), ("other", other(0))], st, false);
                }
            }
        }
        J13::Context(site) => {
            // every place inside of a type is looked at
            let mut base = targets();
            base.push(gen_struct("Gen"));
            base.push(strct("Gen2", &["T", "U"], Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None), field("", ext(&[], "U", vec![]), None)])));
            base.push(import(&["other", "m"], None));
            base.push(import(&["other", "m"], Some("D1")));
            for t in [
                ext(&[], "A", vec![]),
                ext(&[], "X", vec![]),
                ext(&[], "D1", vec![]),
                ext(&[], "D1", vec![p("u8")]),
                ext(&[], "G", vec![p("u8")]),
                ext(&[], "G", vec![]),
                ext(&[], "G", vec![p("u8"), p("u8")]),
                ext(&["m"], "A", vec![]),
                ext(&["m", "m"], "D2", vec![]),
                ext(&["m"], "D2", vec![]),
                ext(&["n"], "A", vec![]),
                ext(&[], "L", vec![]),
                ext(&[], "C", vec![]),
                ext(&[], "T", vec![]),
                ext(&[], "User", vec![p("u8")]),
                ext(&[], "User", vec![]),
            ] {
                for (k, t) in in_contexts(&t, if th { 3 } else { 2 }).into_iter().enumerate() {
                    for gens in [&[][..], &["T"][..], &["V", "U", "T"][..]] {
                        let mut main = base.clone();
                        main.extend(user(&t, gens, *site));
                        check_resolve(&[("main", main), ("other", other(0))], st, k < 12);
                    }
                }
            }
        }
        J13::Scopes => {
            // imports belong to the scope they stand in
            for imp in imports(th) {
                for t in refs(th) {
                    for (pos, used) in [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)] {
                        let mut scopes: Vec<Vec<D>> = vec![vec![]; 4];
                        scopes[pos].push(imp.clone());
                        scopes[used].extend(user(&t, &[], 0));
                        let [a, b, c, d] = <[Vec<D>; 4]>::try_from(scopes).unwrap();
                        let mut b = b;
                        b.push(module("inner", c));
                        let mut a = a;
                        a.push(module("outer", b));
                        a.push(module("beside", d));
                        check_resolve(&[("main", a), ("other", other(0))], st, false);
                    }
                }
            }
        }
        J13::Large(n) => {
            for d in large::valid(*n) {
                check_resolve(&[("main", d.1)], st, true);
            }
            for s in large::imports(*n) {
                check_resolve(&s, st, true);
            }
        }
        J13::Random(i) => {
            // graphs of schemas that import each other, with cycles
            let names = ["main", "other", "third"];
            let opts: Vec<Vec<D>> = vec![
                vec![],
                vec![import(&["main"], None)],
                vec![import(&["other"], Some("A"))],
                vec![import(&["third", "m"], None)],
                vec![import(&["third"], Some("B"))],
                vec![import(&["main"], Some("M"))],
                vec![import(&["main"], None), import(&["other"], None)],
            ];
            let uses: Vec<Option<T>> = vec![
                None,
                Some(ext(&[], "A", vec![])),
                Some(ext(&["main"], "M", vec![])),
                Some(ext(&["m"], "B", vec![])),
                Some(ext(&["other"], "A", vec![])),
                Some(ext(&[], "M", vec![])),
            ];
            let mk = |i: usize, imports: &[D], u: &Option<T>| -> Vec<D> {
                let mut v = imports.to_vec();
                let own = ["M", "A", "B"][i];
                v.push(strct(own, &[], u8f("a")));
                if i == 2 {
                    v.push(module("m", vec![strct("B", &[], Fs::Unit)]));
                }
                if let Some(t) = u {
                    v.push(strct("User", &[], Fs::Unnamed(vec![field("", t.clone(), None)])));
                }
                v
            };
            for u0 in &uses {
                for i1 in &opts {
                    for u1 in &uses {
                        for i2 in &opts {
                            for u2 in uses.iter().take(if th { 6 } else { 3 }) {
                                let s = vec![
                                    (names[0], mk(0, &opts[*i], u0)),
                                    (names[1], mk(1, i1, u1)),
                                    (names[2], mk(2, i2, u2)),
                                ];
                                check_resolve(&s, st, true);
                            }
                        }
                    }
                }
            }
        }
    }
}
pub fn c24() -> i32 {
    ERRORS.store(true, std::sync::atomic::Ordering::Relaxed);
    c13("C24")
}
pub fn c13(id: &'static str) -> i32 {
    let th = thorough();
    let mut rep = Report::new(id);
    let mut js = vec![J13::Scopes];
    for m in 0..32 {
        for l in 0..4 {
            js.push(J13::Local(m, l));
        }
    }
    for i in 0..imports(th).len() {
        js.push(J13::Import(i));
        js.push(J13::Pair(i));
    }
    for s in 0..5 {
        js.push(J13::Context(s));
    }
    for i in 0..7 {
        js.push(J13::Random(i));
    }
    js.extend(large::sizes(th).into_iter().map(J13::Large));
    let s = parallel(&js, |j, st| run13(j, th, st));
    rep.stats.merge(s);
    rep.note("bounds", "every subset of 5 kinds of targets in 4 scopes x 261 references x 6 lists of up to 5 declared generics; every import and pair of imports out of 90 x every reference; every type context of depth 2 (3); imports and uses in all pairs of 4 scopes; all graphs of 3 schemas out of 7 import lists and 6 uses each; 4 orders".to_string());
    rep.finish()
}
