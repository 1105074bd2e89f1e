//! C14 (identifiers) and C17 (wire sizes).
use crate::compile::{field_sites, lists};
use crate::extract::*;
use crate::sem::*;
use mabo_compiler::simplify::{self, Definition};
use model::report::{parallel, quiet, thorough, Report, Stats};

// ---- C14 ------------------------------------------------------------------------------------------
/// Fields or variants of one definition: explicit identifiers and the ones that have to result.
struct Group<'a> {
    /// `None` for a struct, the variant's identifier otherwise.
    variant: Option<u32>,
    fields: &'a Fs,
    ids: Vec<u32>,
}
fn groups(d: &D) -> Vec<Group<'_>> {
    match &d.kind {
        K::Struct(f) => vec![Group { variant: None, fields: f, ids: f.ids() }],
        K::Enum(v) => {
            let ids = ids(v.iter().map(|v| v.id));
            v.iter().zip(ids).map(|(v, i)| Group { variant: Some(i), fields: &v.fields, ids: v.fields.ids() }).collect()
        }
        _ => vec![],
    }
}
fn optional(f: &F) -> bool {
    matches!(f.ty, Some(T::Opt(_)))
}
/// Checks the identifiers of one definition in every tool.
pub fn check_ids(d: &D, st: &mut Stats) {
    let valid = validate(std::slice::from_ref(d)).is_empty();
    let src = text(std::slice::from_ref(d));
    st.states += 1;
    // only identifiers make these schemas valid or not, so the verdict tells which ones the validator uses
    let verdict = quiet(|| {
        let schema = mabo_parser::Schema::parse(&src, Some(std::path::Path::new("schema.mabo"))).ok()?;
        Some(mabo_compiler::validate_schema(&schema).is_ok())
    });
    if let Ok(Some(ok)) = verdict {
        if ok != valid {
            st.violation("the validator uses other identifiers", || format!("{src}\nthe schema is {}, but should {}be", if ok { "accepted" } else { "rejected" }, if ok { "not " } else { "" }));
        }
    }
    let r = quiet(|| simplified(&src, |s| one(d, s, valid, st)));
    match r {
        Err(p) => st.violation(format!("a tool panicked: {p}"), || src.clone()),
        Ok(None) => st.violation("an enumerated schema does not parse", || src.clone()),
        Ok(Some(bad)) => {
            for (what, detail) in bad {
                st.violation(what, || format!("{src}\n{detail}"));
            }
        }
    }
}
fn one(d: &D, s: &simplify::Schema, valid: bool, st: &mut Stats) -> Vec<(String, String)> {
    let mut bad: Vec<(String, String)> = vec![];
    let gs = groups(d);
    st.transitions += 1;
    st.traces += 1;
    // what the compiler hands to every other tool
    let (vids, fids): (Vec<u32>, Vec<Vec<u32>>) = match &s.definitions[0] {
        Definition::Struct(x) => (vec![], vec![x.fields.fields.iter().map(|f| f.id).collect()]),
        Definition::Enum(x) => (
            x.variants.iter().map(|v| v.id).collect(),
            x.variants.iter().map(|v| v.fields.fields.iter().map(|f| f.id).collect()).collect(),
        ),
        _ => return bad,
    };
    let want_v: Vec<u32> = gs.iter().filter_map(|g| g.variant).collect();
    let want_f: Vec<Vec<u32>> = gs.iter().map(|g| g.ids.clone()).collect();
    if vids != want_v || fids != want_f {
        bad.push(("identifiers are not the previous plus one".into(), format!("variants {vids:?}, fields {fids:?}\nexpected {want_v:?}, {want_f:?}")));
    }
    // suggestions
    let suggest = |what: &str, used: &[u32], next: u32, limit: u32, bad: &mut Vec<(String, String)>| {
        let free = used.len() < limit as usize;
        if free && (used.contains(&next) || next == 0 || next > limit) {
            bad.push((format!("the suggested next identifier of {what} is not free"), format!("{next} after {used:?}")));
        }
    };
    match &s.definitions[0] {
        Definition::Struct(x) => {
            let n = mabo_meta::next_field_id(&x.fields);
            match (n, matches!(gs[0].fields, Fs::Unit)) {
                (Some(n), false) => suggest("a struct", &gs[0].ids, n, MAX_FIELD_ID, &mut bad),
                (None, true) => {}
                _ => bad.push(("a suggestion is missing or superfluous".into(), format!("{n:?}"))),
            }
        }
        Definition::Enum(x) => {
            suggest("an enum", &want_v, mabo_meta::next_variant_id(&x.variants), u32::MAX, &mut bad);
            for (v, g) in x.variants.iter().zip(&gs) {
                match (mabo_meta::next_field_id(&v.fields), matches!(g.fields, Fs::Unit)) {
                    (Some(n), false) => suggest("a variant", &g.ids, n, MAX_FIELD_ID, &mut bad),
                    (None, true) => {}
                    n => bad.push(("a suggestion is missing or superfluous".into(), format!("{n:?}"))),
                }
            }
        }
        _ => {}
    }
    if !valid {
        return bad;
    }
    st.count("generated", 1);
    // generated Rust
    let code = squeezed(&rust_code(s));
    let imp = |t: &str| -> Option<&str> {
        let a = code.find(&format!("impl{t}for{}{{", d.name))?;
        Some(&code[a..code[a..].find("#[automatically_derived]").map_or(code.len(), |n| a + n)])
    };
    let seq = |missing: bool| -> Vec<(&str, u64)> {
        let mut v = vec![];
        for g in &gs {
            v.extend(g.variant.map(|i| ("variant", u64::from(i))));
            v.extend(g.ids.iter().map(|i| ("field", u64::from(*i))));
            if missing {
                v.extend(g.fields.list().iter().zip(&g.ids).filter(|f| !optional(f.0)).map(|f| ("missing", u64::from(*f.1))));
            }
        }
        v
    };
    let more = std::cell::RefCell::new(vec![]);
    let compare = |what: &str, got: Vec<(&str, u64)>, want: Vec<(&str, u64)>| {
        if got != want {
            more.borrow_mut().push((format!("{what} uses other identifiers"), format!("{got:?}\nexpected {want:?}")));
        }
    };
    match (imp("::mabo::Encode"), imp("::mabo::Decode"), imp("::mabo::buf::Size")) {
        (Some(e), Some(dec), Some(sz)) => {
            compare("generated Rust encoding", numbers(e, &[("FieldId::new(", "field"), ("VariantId::new(", "variant")]), seq(false));
            compare(
                "generated Rust sizes",
                numbers(sz, &[("size_field(", "field"), ("size_field_option(", "field"), ("size_variant_id(", "variant")]),
                seq(false),
            );
            // match arms: a number in front of an arrow
            let mut got = vec![];
            let b = dec.as_bytes();
            let mut i = 0;
            while i < b.len() {
                if dec[i..].starts_with("MissingField{id:") {
                    let n = numbers(&dec[i..], &[("MissingField{id:", "missing")]);
                    got.extend(n.first().copied());
                } else if b[i].is_ascii_digit() && !b[i - 1].is_ascii_alphanumeric() && b[i - 1] != b'_' {
                    let n: String = dec[i..].chars().take_while(char::is_ascii_digit).collect();
                    let rest = &dec[i + n.len()..];
                    if rest.starts_with("=>") {
                        // variants construct or open a block with variables, fields assign
                        let field = rest[2..].find(['=', '{', '(']).is_some_and(|k| rest.as_bytes()[2 + k] == b'=');
                        got.push((if field { "field" } else { "variant" }, n.parse().unwrap()));
                    }
                    i += n.len();
                    continue;
                }
                i += 1;
            }
            compare("generated Rust decoding", got, seq(true));
        }
        _ => bad.push(("generated Rust lacks an implementation".into(), code.clone())),
    }
    // generated Go: one type per struct and per variant
    let go = go_files(s);
    let go = &go[0].1;
    let names: Vec<String> = match &d.kind {
        K::Enum(v) => v.iter().map(|v| format!("{}_{}", d.name, v.name)).collect(),
        _ => vec![d.name.clone()],
    };
    for (g, n) in gs.iter().zip(&names) {
        let body = |f: &str| -> &str {
            let head = format!("func (v *{n}) {f}(");
            let Some(a) = go.find(&head) else { return "" };
            let e = go[a..].find("\n}\n").map_or(go.len(), |k| a + k);
            &go[a..e]
        };
        let want: Vec<(&str, u64)> = g.ids.iter().map(|i| ("field", u64::from(*i))).collect();
        let lines = |f: &str, marks: &[&str]| -> Vec<(&'static str, u64)> {
            let mut v = vec![];
            for l in body(f).lines() {
                let l = l.trim();
                for m in marks {
                    if let Some(r) = l.find(m).map(|k| &l[k + m.len()..]) {
                        let r = if m.ends_with('[') { r.rfind("](").map_or("", |k| r[k + 2..].trim_start_matches("w, ")) } else { r };
                        let n: String = r.trim_start().chars().take_while(char::is_ascii_digit).collect();
                        if let Ok(n) = n.parse() {
                            v.push((if m.starts_with("ID") { "missing" } else { "field" }, n));
                        }
                    }
                }
            }
            v
        };
        compare("generated Go encoding", lines("Encode", &["buf.EncodeField(w,", "buf.EncodeFieldOption["]), want.clone());
        compare("generated Go sizes", lines("Size", &["buf.SizeField(", "buf.SizeFieldOption["]), want.clone());
        let mut w = want.clone();
        w.extend(g.ids.iter().map(|i| ("missing", u64::from(*i))));
        compare("generated Go decoding", lines("Decode", &["case ", "ID:"]), w);
    }
    bad.extend(more.take());
    // documentation
    match doc_files(s) {
        Err(e) => bad.push(("documentation failed".into(), e)),
        Ok(files) => {
            let page = &files[1].1;
            let mut got = numbers(page, &[("<span class=\"field-id\">@", "field"), ("<span class=\"variant-id\">@", "variant")]);
            let want = seq(false);
            if got != want {
                bad.push(("the documentation shows other identifiers".into(), format!("{got:?}\nexpected {want:?}")));
            }
            // the definition at the top puts a variant's identifier behind its fields
            let pre = page.split_once("<pre").and_then(|p| p.1.split_once("</pre>")).map_or("", |p| p.0);
            got = numbers(pre, &[("@", "any"), (" &#64;", "any")]);
            let mut w = vec![];
            for g in &gs {
                w.extend(g.ids.iter().map(|i| ("any", u64::from(*i))));
                w.extend(g.variant.map(|i| ("any", u64::from(i))));
            }
            if got != w {
                bad.push(("the documented definition shows other identifiers".into(), format!("{got:?}\nexpected {w:?}")));
            }
            if let K::Struct(f) = &d.kind {
                let next = numbers(page, &[("The next free ID is <code class=\"font-bold\">", "next")]);
                let ok = match next[..] {
                    [] => matches!(f, Fs::Unit),
                    [(_, n)] => !matches!(f, Fs::Unit) && (!gs[0].ids.iter().any(|i| u64::from(*i) == n) && n > 0 && n <= u64::from(MAX_FIELD_ID)),
                    _ => false,
                };
                if !ok {
                    bad.push(("the documented next identifier is not free".into(), format!("{next:?} after {:?}", gs[0].ids)));
                }
            }
        }
    }
    bad
}

pub fn c14() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C14");
    let fid: Vec<Option<u32>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(127), Some(128), Some(MAX_FIELD_ID - 1), Some(MAX_FIELD_ID), Some(u32::MAX - 1), Some(u32::MAX)];
    let vid: Vec<Option<u32>> = vec![None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(127), Some(128), Some(300), Some(1 << 29), Some(u32::MAX - 1), Some(u32::MAX)];
    let jobs: Vec<(usize, usize)> = (0..fid.len()).flat_map(|a| (0..=fid.len()).map(move |b| (a, b))).collect();
    let n = if th { 3 } else { 2 };
    let s = parallel(&jobs, |(a, b), st| {
        // the prefix [a] alone is job (a, len)
        let tails = if *b == fid.len() { vec![vec![]] } else { lists(&fid, n) };
        for t in tails {
            let mut l = vec![fid[*a]];
            if *b < fid.len() {
                l.push(fid[*b]);
            }
            l.extend(t);
            let f: Vec<F> = l.iter().enumerate().map(|(i, id)| field("", if i % 3 == 1 { T::Opt(Box::new(p("u8"))) } else { p("u32") }, *id)).collect();
            for d in field_sites(&f) {
                check_ids(&d, st);
            }
        }
        let tails = if *b == vid.len() { vec![vec![]] } else { lists(&vid, n) };
        for t in tails {
            let mut l = vec![vid[*a]];
            if *b < vid.len() {
                l.push(vid[*b]);
            }
            l.extend(t);
            let kinds: [&dyn Fn(usize) -> Fs; 3] = [
                &|_| Fs::Unit,
                &|i| Fs::Unnamed(vec![field("", p("u8"), Some(i as u32 + 7)), field("", p("u8"), None)]),
                &|i| match i % 3 {
                    0 => Fs::Named(vec![field("a", p("u8"), None), field("b", T::Opt(Box::new(p("u8"))), None)]),
                    1 => Fs::Unit,
                    _ => Fs::Unnamed(vec![field("", p("u8"), None), field("", p("u8"), Some(9)), field("", p("u8"), None)]),
                },
            ];
            for k in kinds {
                let vs = l.iter().enumerate().map(|(i, id)| variant(&format!("V{}", (b'a' + i as u8) as char), k(i), *id)).collect();
                check_ids(&enm("Sample", &[], vs), st);
            }
        }
    });
    rep.stats.merge(s);
    // long lists without any explicit identifier
    let s = parallel(&(1..if th { 600 } else { 200 }).collect::<Vec<usize>>(), |n, st| {
        let f: Vec<F> = (0..*n).map(|_| field("", p("u8"), None)).collect();
        for d in field_sites(&f) {
            check_ids(&d, st);
        }
    });
    rep.stats.merge(s);
    // long lists where one of them, or every few, has an explicit identifier
    let sizes: Vec<usize> = crate::large::sizes(th).into_iter().filter(|n| *n <= if th { 300 } else { 130 }).collect();
    let s = parallel(&sizes, |n, st| {
        let n = *n;
        let some: Vec<usize> = [0, 1, 2, 7, 8, 15, 16, n / 2, n - 2, n - 1].into_iter().filter(|i| *i < n).collect();
        let mut lists: Vec<Vec<Option<u32>>> = vec![];
        for i in some {
            for id in [1, i as u32 + 1, i as u32 + 2, n as u32 * 2, 127, 1000, MAX_FIELD_ID - n as u32, MAX_FIELD_ID] {
                lists.push((0..n).map(|k| (k == i).then_some(id)).collect());
            }
        }
        for step in [2, 3, 5, 10] {
            lists.push((0..n).map(|k| (k % step == 1).then_some(k as u32 * 3 + 500)).collect());
            lists.push((0..n).map(|k| (k % step == 0).then_some((n - k) as u32 * 16 + 1)).collect());
        }
        lists.push((0..n).map(|k| Some((n - k) as u32)).collect());
        for l in lists {
            let f: Vec<F> = l.iter().enumerate().map(|(i, id)| field("", if i % 3 == 1 { T::Opt(Box::new(p("u8"))) } else { p("u32") }, *id)).collect();
            for d in field_sites(&f) {
                check_ids(&d, st);
            }
            let vs = l.iter().enumerate().map(|(i, id)| variant(&format!("V{i}"), if i % 4 == 1 { Fs::Unnamed(vec![field("", p("u8"), None)]) } else { Fs::Unit }, *id)).collect();
            check_ids(&enm("Sample", &[], vs), st);
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", format!("all lists of up to {} explicit or omitted identifiers out of 12 values for fields (struct and variant, named and unnamed) and variants; omitted lists up to {} long; compiler, both suggestions, generated Rust and Go (encode, decode, size, missing-field errors) and documentation", n + 2, if th { 600 } else { 200 }));
    rep.finish()
}

// ---- C17 ------------------------------------------------------------------------------------------
use model::codec::{field_inner, varint_len, Ctx, NONE};
use model::ty::{self, Env, Ty};
use model::universe;

/// Smallest and largest number of bytes; no largest one if there is no limit.
type Range = (u128, Option<u128>);
fn vl(n: u128) -> u128 {
    varint_len(n) as u128
}
/// Sizes that values of a type have as an element of something.
fn element(env: &Env, t: &Ty) -> Range {
    let fixed = |n| (n, Some(n));
    let prefixed = |r: Range| (r.0 + vl(r.0), r.1.map(|m| m + vl(m)));
    match t {
        Ty::Bool | Ty::U(8) | Ty::I(8) => fixed(1),
        // zigzag numbers have the same magnitude
        Ty::U(n) | Ty::I(n) => (1, Some(vl(if *n == 128 { u128::MAX } else { (1u128 << n) - 1 }))),
        Ty::F32 => fixed(4),
        Ty::F64 => fixed(8),
        Ty::Str | Ty::StrRef | Ty::BoxStr | Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => (1, None),
        Ty::Vec(_) | Ty::Set(_) | Ty::Map(..) => (1, None),
        Ty::Opt(t) => {
            let r = element(env, t);
            (1, r.1.map(|m| m + 1))
        }
        Ty::NonZero(t) => element(env, t),
        Ty::Array(t, n) => {
            let r = element(env, t);
            let n = u128::from(*n);
            prefixed((r.0 * n, if n == 0 { Some(0) } else { r.1.map(|m| m * n) }))
        }
        Ty::Tuple(ts) => ts.iter().map(|t| element(env, t)).fold((0, Some(0)), |a, r| (a.0 + r.0, a.1.zip(r.1).map(|(a, b)| a + b))),
        Ty::Ext(..) => {
            let c = Ctx { env, q: NONE };
            (universe::values(env, t, 1).iter().map(|v| c.size(t, v) as u128).min().unwrap_or(0), None)
        }
        Ty::Gen(_) => (0, None),
    }
}
/// Sizes that the value of a field has: optional ones can be left out, tuples carry their length.
fn payload(env: &Env, t: &Ty) -> Range {
    let (inner, optional) = match t {
        Ty::Opt(t) => (&**t, true),
        t => (t, false),
    };
    let mut r = element(env, inner);
    if matches!(inner, Ty::Tuple(_)) {
        r = (r.0 + vl(r.0), r.1.map(|m| m + vl(m)));
    }
    (if optional { 0 } else { r.0 }, r.1)
}
#[derive(Debug)]
struct Size {
    label: String,
    /// `None` for an unknown size.
    range: Option<Range>,
    inner: Vec<Size>,
}
/// Read the tree that is shown to users.
fn read_size(text: &str) -> Option<Size> {
    let mut stack: Vec<(usize, Size)> = vec![];
    let close = |stack: &mut Vec<(usize, Size)>| {
        let (_, s) = stack.pop().unwrap();
        match stack.last_mut() {
            Some(p) => p.1.inner.push(s),
            None => stack.push((0, s)),
        }
    };
    for (i, l) in text.lines().enumerate() {
        let ind = l.len() - l.trim_start().len();
        let (label, rest) = if i == 0 { (String::new(), l) } else { l.trim_start().strip_prefix("- ")?.split_once(": ").map(|(a, b)| (a.to_owned(), b))? };
        let range = if rest == "_unknown_" {
            None
        } else {
            let r = rest.strip_suffix('`')?.rsplit_once('`')?.1;
            Some(match r.split_once("..") {
                None => (r.parse().ok()?, Some(r.parse().ok()?)),
                Some((a, "")) => (a.parse().ok()?, None),
                Some((a, b)) => (a.parse().ok()?, Some(b.parse().ok()?)),
            })
        };
        while stack.len() > 1 && stack.last()?.0 >= ind {
            close(&mut stack);
        }
        if stack.last().is_some_and(|s| s.0 >= ind) && i > 0 {
            return None;
        }
        stack.push((if i == 0 { 0 } else { ind }, Size { label, range, inner: vec![] }));
    }
    while stack.len() > 1 {
        close(&mut stack);
    }
    stack.pop().map(|s| s.1)
}
fn bounds(got: Option<Range>, want: Range) -> bool {
    // a size that is not known is no claim
    got.is_none_or(|g| g.0 <= want.0 && g.1.is_none_or(|m| want.1.is_some_and(|w| m >= w)))
}
fn check_parts(env: &Env, s: &Size, t: &Ty, bad: &mut Vec<String>) {
    let parts: Vec<(String, Option<&Ty>, Range)> = match t {
        Ty::Vec(t) | Ty::Set(t) => vec![("length".into(), None, (1, Some(10))), ("element".into(), Some(t), element(env, t))],
        Ty::Map(k, v) => vec![
            ("length".into(), None, (1, Some(10))),
            ("key".into(), Some(k), element(env, k)),
            ("value".into(), Some(v), element(env, v)),
        ],
        Ty::Opt(t) | Ty::NonZero(t) => vec![("value".into(), Some(t), element(env, t))],
        Ty::Array(e, n) => {
            let r = element(env, e);
            let n = u128::from(*n);
            // lengths are 64-bit numbers
            let max = if n == 0 { 1 } else { r.1.map_or(10, |m| vl(m * n)) };
            vec![("length".into(), None, (vl(r.0 * n), Some(max))), ("element".into(), Some(e), r)]
        }
        Ty::Tuple(ts) => ts.iter().enumerate().map(|(i, t)| (i.to_string(), Some(t), element(env, t))).collect(),
        _ => vec![],
    };
    if s.inner.len() != parts.len() {
        bad.push(format!("{} has {} parts", t.text(), s.inner.len()));
        return;
    }
    for (p, i) in parts.iter().zip(&s.inner) {
        if p.0 != i.label {
            bad.push(format!("part {} instead of {}", i.label, p.0));
        }
        if !bounds(i.range, p.2) {
            bad.push(format!("part {} of {}: {:?} instead of {:?}", p.0, t.text(), i.range, p.2));
        }
        match p.1 {
            Some(t) if i.range.is_some() => check_parts(env, i, t, bad),
            Some(Ty::Ext(..) | Ty::Gen(_)) => {}
            Some(_) => bad.push(format!("part {} has no size", p.0)),
            None => {}
        }
    }
}
fn check_size(env: &Env, t: &Ty, gens: bool, st: &mut Stats) {
    let src = format!("struct Sample{}({})\n", if gens { "<T>" } else { "" }, t.text());
    st.states += 1;
    st.transitions += 1;
    let printed = quiet(|| {
        simplified(&src, |s| match &s.definitions[0] {
            Definition::Struct(x) => mabo_meta::wire_size(&x.fields.fields[0].ty).map(|w| {
                let mut b = String::new();
                w.print(&mut b, 0);
                b
            }),
            _ => None,
        })
    });
    let text = match printed {
        Err(p) => return st.violation(format!("the analysis panicked: {p}"), || src),
        Ok(None) => return st.violation("an enumerated schema does not parse", || src),
        Ok(Some(None)) => {
            if !matches!(t, Ty::Ext(..) | Ty::Gen(_)) {
                st.violation("a built-in type has no size", || src);
            }
            st.count("unknown", 1);
            return;
        }
        Ok(Some(Some(t))) => t,
    };
    let Some(s) = read_size(&text) else {
        return st.violation("the size cannot be read back", || format!("{src}\n{text}"));
    };
    let want = payload(env, t);
    let top = if let Ty::Opt(t) = t { t } else { t };
    if !bounds(s.range, want) {
        // the sum over the elements, without the length in front of them
        let tuple = if matches!(t, Ty::Opt(_)) { s.inner.first() } else { Some(&s) };
        let sum = tuple.and_then(|s| s.inner.iter().map(|i| i.range.and_then(|r| r.1)).try_fold(0u128, |a, m| Some(a + m?)));
        let extra = u128::from(matches!(t, Ty::Opt(_)));
        let is = s.range.is_some_and(|r| r.0 <= want.0 && r.1.is_some_and(|m| Some(m) == sum.map(|s| s + extra)))
            && want.1.zip(sum).is_some_and(|(w, s)| s + vl(s) >= w);
        if matches!(top, Ty::Tuple(_)) && is {
            st.known("tuple-prefix", || format!("`{}`: {:?} instead of {want:?}", t.text(), s.range.unwrap()));
        } else {
            st.violation("the reported size does not bound the encoded length", || format!("{src}\n{text}\nsizes are {want:?}"));
        }
    }
    let mut bad = vec![];
    check_parts(env, &s, t, &mut bad);
    if !bad.is_empty() {
        st.violation(format!("a part's size does not bound its length: {}", bad[0]), || format!("{src}\n{text}\n{bad:?}"));
    }
}
/// Encoded lengths of boundary values against the reported bounds and against the reference bounds.
fn check_values(env: &Env, t: &Ty, st: &mut Stats) {
    let want = payload(env, t);
    let c = Ctx { env, q: NONE };
    let f = ty::uf(t.clone(), 1);
    let (inner, optional) = field_inner(&f);
    for v in universe::values(env, t, 0) {
        st.traces += 1;
        let n = match (optional, &v) {
            (true, model::val::Val::Opt(None)) => 0,
            (true, model::val::Val::Opt(Some(v))) => size_in_field(&c, inner, v),
            _ => size_in_field(&c, t, &v),
        };
        if n < want.0 || want.1.is_some_and(|m| n > m) {
            st.violation("the reference bounds are wrong", || format!("{} {} {n} {want:?}", t.text(), v.short()));
        }
    }
}
fn size_in_field(c: &Ctx, t: &Ty, v: &model::val::Val) -> u128 {
    let n = c.size(t, v) as u128;
    n + if matches!(t, Ty::Tuple(_)) { vl(n) } else { 0 }
}
fn size_wrap(t: &Ty, th: bool) -> Vec<Ty> {
    let b = || t.clone();
    let mut v = universe::wrap(t);
    v.pop();
    for n in [0, 2, 12, 13, 25, 26, 42, 43, 127, 128, 16383, 16384, 2_097_151, 2_097_152, u32::MAX] {
        v.push(ty::arr(b(), n));
    }
    v.push(ty::tup(&[b(), b()]));
    v.push(ty::tup(&vec![b(); 12]));
    v.push(ty::tup(&[Ty::U(8), Ty::Bool, b(), Ty::F64]));
    if th {
        v.push(ty::tup(&vec![b(); 7]));
        v.push(ty::map(b(), b()));
    }
    v
}
pub fn c17() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C17");
    let mut base = universe::scalars();
    base.extend(universe::externals());
    base.push(Ty::Gen("T".into()));
    let s = parallel(&base, |b, st| {
        let env = Env::new(&universe::prelude());
        let gens = matches!(b, Ty::Gen(_));
        check_size(&env, b, gens, st);
        for a in size_wrap(b, true) {
            check_size(&env, &a, gens, st);
            for c in size_wrap(&a, true) {
                check_size(&env, &c, gens, st);
                // nested arrays of more than a thousand million elements each do not fit any number
                let deep = th || matches!(b, Ty::U(_) | Ty::F32 | Ty::Str | Ty::Ext(..));
                for d in size_wrap(&c, th) {
                    if deep && !overflows(&d) {
                        check_size(&env, &d, gens, st);
                    } else if deep {
                        no_panic(&d, gens, st);
                    }
                }
            }
        }
    });
    rep.stats.merge(s);
    let shapes = universe::shapes(th);
    let s = parallel(&shapes, |t, st| {
        let env = Env::new(&universe::prelude());
        check_size(&env, t, false, st);
        check_values(&env, t, st);
    });
    rep.stats.merge(s);
    rep.note("bounds", "every type of nesting depth 3 out of 20 scalars, 7 user types and a generic, 25 contexts each (arrays up to 2^32-1 elements); reported tree compared part by part with the analytic range of the wire format, which in turn is compared with the reference encoding of every boundary value of the codec universe".to_string());
    rep.finish()
}
/// Whether the exact sizes could exceed 64 bits.
fn overflows(t: &Ty) -> bool {
    fn product(t: &Ty) -> u128 {
        let c = t.children().into_iter().map(product).max().unwrap_or(1);
        match t {
            Ty::Array(_, n) => c.saturating_mul(u128::from((*n).max(1))),
            Ty::Tuple(v) => c.saturating_mul(v.len() as u128),
            _ => c,
        }
    }
    product(t) > 1 << 55
}
fn no_panic(t: &Ty, gens: bool, st: &mut Stats) {
    let src = format!("struct Sample{}({})\n", if gens { "<T>" } else { "" }, t.text());
    st.states += 1;
    st.transitions += 1;
    let r = quiet(|| {
        simplified(&src, |s| match &s.definitions[0] {
            Definition::Struct(x) => {
                if let Some(w) = mabo_meta::wire_size(&x.fields.fields[0].ty) {
                    w.print(&mut String::new(), 0);
                }
            }
            _ => {}
        })
    });
    if !matches!(r, Ok(Some(()))) {
        st.violation("the analysis panicked", || format!("{src}\n{r:?}"));
    }
    st.count("huge", 1);
}
