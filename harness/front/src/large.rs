//! Schemas with many elements of one kind, and the same with one rule broken far apart.
use crate::sem::*;

pub fn sizes(th: bool) -> Vec<usize> {
    let mut v = vec![6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 18, 24, 25, 26, 27, 31, 32, 33, 34, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 300];
    if th {
        v.extend([500, 1000, 1024, 1025]);
    }
    v
}
fn ty(i: usize) -> T {
    match i % 7 {
        0 => p("u8"),
        1 => T::Opt(Box::new(p("u32"))),
        2 => p("string"),
        3 => T::Vec(Box::new(p("u16"))),
        4 => T::Tup(vec![p("u8"), p("bool")]),
        5 => T::Opt(Box::new(p("string"))),
        _ => T::Map(Box::new(p("u8")), Box::new(p("i64"))),
    }
}
fn fields(n: usize, named: bool, ids: bool) -> Fs {
    let f = (0..n).map(|i| field(&if named { format!("f{i}") } else { String::new() }, ty(i), ids.then(|| 1 + 3 * (n - i) as u32))).collect();
    if named {
        Fs::Named(f)
    } else {
        Fs::Unnamed(f)
    }
}
fn variants(n: usize, ids: bool) -> Vec<V> {
    (0..n)
        .map(|i| {
            let f = match i % 3 {
                0 => Fs::Unit,
                1 => fields(1 + i % 4, false, ids),
                _ => fields(1 + i % 5, true, ids),
            };
            variant(&format!("V{i}"), f, ids.then(|| 2 * (n - i) as u32))
        })
        .collect()
}
fn definition(kind: usize, i: usize) -> D {
    match kind % 5 {
        0 => strct(&format!("S{i}"), &[], fields(2, true, false)),
        1 => enm(&format!("E{i}"), &[], variants(3, false)),
        2 => alias(&format!("L{i}"), &[], ty(i)),
        3 => cnst(&format!("C{i}"), p("u32"), &i.to_string()),
        _ => module(&format!("m{i}"), vec![strct(&format!("S{i}"), &[], Fs::Unit)]),
    }
}
/// Valid schemas in which `n` is the number of something.
pub fn valid(n: usize) -> Vec<(&'static str, Vec<D>)> {
    let mut v = vec![];
    for ids in [false, true] {
        for named in [false, true] {
            v.push(("fields", vec![strct("S", &[], fields(n, named, ids))]));
            v.push(("variant fields", vec![enm("E", &[], vec![variant("A", Fs::Unit, None), variant("B", fields(n, named, ids), None), variant("C", fields(2, !named, ids), None)])]));
        }
        v.push(("variants", vec![enm("E", &[], variants(n, ids))]));
    }
    v.push(("mixed identifiers", vec![strct("S", &[], Fs::Named((0..n).map(|i| field(&format!("f{i}"), ty(i), (i % 4 == 1).then_some(i as u32 * 2 + 1000))).collect()))]));
    v.push(("definitions", (0..n).map(|i| definition(i, i)).collect()));
    for k in 0..5 {
        v.push(("definitions", (0..n).map(|i| definition(k, i)).collect()));
    }
    // each refers to the one behind it
    v.push(("chain", (0..n).map(|i| strct(&format!("S{i}"), &[], Fs::Named(vec![field("next", if i + 1 < n { T::Vec(Box::new(ext(&[], &format!("S{}", i + 1), vec![]))) } else { p("u8") }, None)]))).collect()));
    v.push(("users", std::iter::once(strct("S", &[], Fs::Unit)).chain((0..n).map(|i| strct(&format!("U{i}"), &[], Fs::Unnamed(vec![field("", ext(&[], "S", vec![]), None)])))).collect()));
    if n <= 65 {
        let g: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
        let g: Vec<&str> = g.iter().map(|s| &s[..]).collect();
        let args: Vec<T> = (0..n).map(ty).map(|t| if matches!(t, T::Tup(_)) { p("u8") } else { t }).collect();
        v.push(("generics", vec![
            strct("S", &g, Fs::Unnamed(g.iter().rev().map(|g| field("", ext(&[], g, vec![]), None)).collect())),
            enm("E", &g, g.iter().enumerate().map(|(i, g)| variant(&format!("V{i}"), Fs::Unnamed(vec![field("", ext(&[], g, vec![]), None)]), None)).collect()),
            strct("User", &[], Fs::Named(vec![field("a", ext(&[], "S", args.clone()), None), field("b", ext(&[], "E", args), None)])),
        ]));
    }
    if n <= 34 {
        let path: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
        let path: Vec<&str> = path.iter().map(|s| &s[..]).collect();
        let mut d = vec![strct("Deep", &[], Fs::Unit)];
        for m in path.iter().rev() {
            d = vec![module(m, d)];
        }
        d.push(strct("User", &[], Fs::Unnamed(vec![field("", ext(&path, "Deep", vec![]), None)])));
        v.push(("nested modules", d));
    }
    if n <= 18 {
        let mut t = p("u8");
        for i in 0..n {
            t = match i % 3 {
                0 => T::Vec(Box::new(t)),
                1 => T::Opt(Box::new(t)),
                _ => T::Map(Box::new(p("u32")), Box::new(t)),
            };
        }
        v.push(("nested types", vec![strct("S", &[], Fs::Named(vec![field("a", t, None)]))]));
    }
    let lines: Vec<String> = (0..n).map(|i| if i % 5 == 4 { String::new() } else { format!("line {i}") }).collect();
    let lines: Vec<&str> = lines.iter().map(|s| &s[..]).collect();
    let mut f = field("a", p("u8"), None);
    f.comment = lines.iter().map(|s| s.to_string()).collect();
    v.push(("comment lines", vec![strct("S", &[], Fs::Named(vec![f])).commented(&lines)]));
    v.push(("comment length", vec![strct("S", &[], Fs::Unit).commented(&[&"word ".repeat(n)[..]])]));
    let name = "a".repeat(n);
    let upper = format!("A{}", "b".repeat(n));
    v.push(("name length", vec![
        module(&name, vec![enm(&upper, &["T"], vec![variant(&upper, Fs::Named(vec![field(&name, ext(&[], "T", vec![]), None)]), None)])]),
        strct("S", &[], Fs::Named(vec![field(&name, ext(&[&name], &upper, vec![p("u8")]), None)])),
        cnst(&upper.to_uppercase(), p("u8"), "1"),
    ]));
    v.push(("literals", vec![
        cnst("TEXT", p("string"), &format!("\"{}\"", "aé\\n".repeat(n))),
        cnst("RAW", p("bytes"), &format!("[{}]", (0..n).map(|i| (i % 256).to_string()).collect::<Vec<_>>().join(", "))),
    ]));
    v
}
/// Pairs of schemas: `n` imports of `n` definitions and modules of another one, whole and with one of them missing.
pub fn imports(n: usize) -> Vec<Vec<(&'static str, Vec<D>)>> {
    let names: Vec<String> = (0..n).map(|i| format!("A{i}")).collect();
    let mods: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
    let mut main: Vec<D> = names.iter().map(|n| import(&["other"], Some(n))).collect();
    main.extend(mods.iter().map(|m| import(&["other", m], None)));
    main.push(strct("User", &[], Fs::Unnamed(names.iter().map(|n| field("", ext(&[], n, vec![]), None)).chain(mods.iter().map(|m| field("", ext(&[m], "Inner", vec![]), None))).collect())));
    let mut other: Vec<D> = names.iter().map(|n| strct(n, &[], Fs::Unit)).collect();
    other.extend(mods.iter().map(|m| module(m, vec![strct("Inner", &[], Fs::Unit)])));
    let mut all = vec![vec![("main", main.clone()), ("other", other.clone())]];
    for i in [0, 1, n / 2, n - 1] {
        for (from_main, at) in [(true, i), (true, n + i), (false, i), (false, n + i)] {
            let (mut m, mut o) = (main.clone(), other.clone());
            if from_main {
                m.remove(at);
            } else {
                o.remove(at);
            }
            all.push(vec![("main", m), ("other", o)]);
        }
    }
    all
}
/// Where two elements collide in a list of `n`.
pub fn places(n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 1), (0, n / 2), (0, n - 1), (n / 2, n - 1), (n - 2, n - 1), (n / 3, n / 3 + 1)];
    if n <= 18 {
        v = (0..n).flat_map(|j| (0..j).map(move |i| (i, j))).collect();
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// Schemas of that size with two colliding elements at these places.
pub fn broken(n: usize, (i, j): (usize, usize)) -> Vec<Vec<D>> {
    let mut v = vec![];
    let list = |named: bool, what: usize| -> Fs {
        let mut f: Vec<F> = (0..n).map(|k| field(&if named { format!("f{k}") } else { String::new() }, p("u8"), Some(k as u32 + 1))).collect();
        match what {
            0 => f[j].id = f[i].id,
            1 => f[j].name = f[i].name.clone(),
            _ => {
                // the later one's identifier is derived
                if i + 1 < n {
                    f[i].id = Some(n as u32 * 2);
                    for x in f.iter_mut().skip(i + 1) {
                        x.id = None;
                    }
                    f[j].id = Some(n as u32 * 2 + 1 + ((j - i) as u32).saturating_sub(2));
                }
            }
        }
        if named {
            Fs::Named(f)
        } else {
            Fs::Unnamed(f)
        }
    };
    for (named, what) in [(false, 0), (true, 0), (true, 1), (false, 2), (true, 2)] {
        v.push(vec![strct("S", &[], list(named, what))]);
        v.push(vec![enm("E", &[], vec![variant("A", Fs::Unit, None), variant("B", list(named, what), None)])]);
    }
    for what in 0..2 {
        let mut l: Vec<V> = (0..n).map(|k| variant(&format!("V{k}"), Fs::Unit, Some(k as u32 + 1))).collect();
        if what == 0 {
            l[j].id = l[i].id;
        } else {
            l[j].name = l[i].name.clone();
        }
        v.push(vec![enm("E", &[], l)]);
    }
    for k in 0..5 {
        for shift in [0, 1] {
            let mut l: Vec<D> = (0..n).map(|x| definition(k, x)).collect();
            l[j] = definition(k + shift, j);
            l[j].name = l[i].name.clone();
            // a constant's name is not that of a type
            if shift == 0 || k < 2 {
                v.push(vec![module("outer", l.clone())]);
                v.push(l);
            }
        }
    }
    if n <= 65 {
        let mut g: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
        g[j] = g[i].clone();
        let g: Vec<&str> = g.iter().map(|s| &s[..]).collect();
        v.push(vec![strct("S", &g, Fs::Unnamed(g.iter().map(|g| field("", ext(&[], g, vec![]), None)).collect()))]);
        // one that is not used
        let g: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
        let g: Vec<&str> = g.iter().map(|s| &s[..]).collect();
        v.push(vec![strct("S", &g, Fs::Unnamed(g.iter().enumerate().filter(|x| x.0 != j).map(|x| field("", ext(&[], x.1, vec![]), None)).collect()))]);
        v.push(vec![enm("S", &g, vec![variant("V", Fs::Unnamed(g.iter().enumerate().filter(|x| x.0 != i).map(|x| field("", ext(&[], x.1, vec![]), None)).collect()), None)])]);
    }
    // one bad element among many
    let mut f: Vec<F> = (0..n).map(|k| field(&format!("f{k}"), p("u8"), None)).collect();
    f[j].ty = Some(T::Tup(vec![p("u8")]));
    v.push(vec![strct("S", &[], Fs::Named(f.clone()))]);
    f[j].ty = Some(T::Vec(Box::new(T::Tup(vec![p("u8"); 13]))));
    v.push(vec![enm("E", &[], vec![variant("A", Fs::Named(f.clone()), None)])]);
    f[j].ty = Some(p("u8"));
    f[j].id = Some(MAX_FIELD_ID + 1);
    v.push(vec![strct("S", &[], Fs::Named(f))]);
    v
}
