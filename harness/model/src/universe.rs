//! Bounded universes of type shapes and of values.
use crate::codec::{max_varint, unzigzag};
use crate::ty::*;
use crate::val::Val;

/// Definitions shared by every shape.
pub fn prelude() -> Vec<Def> {
    let g = |n: &str| Ty::Gen(n.into());
    vec![
        st("Empty", unit()),
        st("Point", named(vec![f("x", Ty::U(8), 1), f("y", opt(Ty::U(16)), 2)])),
        st("Pos", unnamed(vec![uf(Ty::I(32), 1), uf(Ty::Str, 2)])),
        en(
            "Color",
            vec![
                ("Red", unit(), 1),
                ("Rgb", unnamed(vec![uf(Ty::U(8), 1), uf(opt(Ty::U(32)), 2)]), 2),
                ("Named", named(vec![f("name", Ty::Str, 1)]), 200),
            ],
        ),
        Def {
            name: "Wrap".into(),
            generics: vec!["T".into()],
            body: Body::Struct(named(vec![f("v", g("T"), 1), f("o", opt(g("T")), 3)])),
        },
        Def {
            name: "Either".into(),
            generics: vec!["A".into(), "B".into()],
            body: Body::Enum(vec![
                Variant { name: "Left".into(), fields: unnamed(vec![uf(g("A"), 1)]), id: 1, explicit: true },
                Variant { name: "Right".into(), fields: named(vec![f("val", vec(g("B")), 2)]), id: 2, explicit: true },
            ]),
        },
        alias("Number", Ty::U(32)),
        alias("Words", vec(Ty::Str)),
        alias("Maybe", opt(Ty::U(16))),
        st("Coord", named(vec![f("at", tup(&[Ty::U(8), Ty::U(16)]), 1)])),
    ]
}

pub fn scalars() -> Vec<Ty> {
    let mut v = vec![Ty::Bool];
    v.extend([8, 16, 32, 64, 128].map(Ty::U));
    v.extend([8, 16, 32, 64, 128].map(Ty::I));
    v.extend([
        Ty::F32,
        Ty::F64,
        Ty::Str,
        Ty::StrRef,
        Ty::BoxStr,
        Ty::Bytes,
        Ty::BytesRef,
        Ty::BoxBytes,
    ]);
    v
}
pub fn externals() -> Vec<Ty> {
    vec![
        ext("Empty"),
        ext("Point"),
        ext("Pos"),
        ext("Color"),
        ext("Coord"),
        Ty::Ext("Wrap".into(), vec![Ty::U(16)]),
        Ty::Ext("Either".into(), vec![Ty::Str, Ty::U(64)]),
    ]
}

/// One layer of every wrapper around `t`.
pub fn wrap(t: &Ty) -> Vec<Ty> {
    let b = || t.clone();
    vec![
        vec(b()),
        opt(b()),
        set(b()),
        map(b(), Ty::U(8)),
        map(Ty::Str, b()),
        arr(b(), 1),
        arr(b(), 3),
        tup(&[b(), Ty::U(16)]),
        tup(&[Ty::Str, b(), b()]),
        nz(b()),
        Ty::Ext("Wrap".into(), vec![b()]),
    ]
}

/// All shapes of nesting depth 0 and 1 over every base, depth 2 over a reduced base.
pub fn shapes(thorough: bool) -> Vec<Ty> {
    let mut out = vec![];
    let mut base = scalars();
    base.extend(externals());
    out.extend(base.iter().cloned());
    for b in &base {
        out.extend(wrap(b));
    }
    let small: Vec<Ty> = if thorough {
        vec![Ty::U(8), Ty::U(32), Ty::Str, Ty::Bytes, Ty::Bool, Ty::F64, ext("Color"), ext("Point"), ext("Pos"), ext("Empty")]
    } else {
        vec![Ty::U(32), Ty::Str, ext("Color")]
    };
    for b in &small {
        for w in wrap(b) {
            out.extend(wrap(&w));
        }
    }
    if thorough {
        for b in [Ty::U(32), ext("Color")] {
            for w in wrap(&b) {
                for w2 in wrap(&w) {
                    out.extend(wrap(&w2));
                }
            }
        }
    }
    out.push(arr(Ty::U(16), 0));
    out.push(arr(Ty::Str, 128));
    for n in [2usize, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] {
        let ts: Vec<Ty> = (0..n).map(|i| [Ty::U(8), Ty::U(32), Ty::Str, Ty::Bool][i % 4].clone()).collect();
        out.push(Ty::Tuple(ts.clone()));
        if thorough || n == 12 {
            out.push(vec(Ty::Tuple(ts)));
        }
    }
    let mut seen = std::collections::BTreeSet::new();
    out.retain(|t| seen.insert(t.clone()));
    out
}

/// Whether the type can be a hash key (implements Eq and Hash in the generated Rust).
pub fn hashable(env: &Env, t: &Ty) -> bool {
    match t {
        Ty::F32 | Ty::F64 | Ty::Map(..) | Ty::Set(_) => false,
        Ty::Ext(n, g) => {
            let d = env.get(n);
            match &d.body {
                Body::Alias(t) => hashable(env, &t.subst(&d.generics, g)),
                _ => false,
            }
        }
        t => t.children().into_iter().all(|c| hashable(env, c)),
    }
}

/// Reasons for which a shape is known not to compile (or is not a valid schema type at all).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Excl {
    /// Not a meaningful schema: non_zero of something without a zero.
    Invalid,
    /// hash key without Eq + Hash
    HashKey,
    /// a type without Encode/Decode (tuple, non_zero) as generic argument or alias target
    NoTrait,
}

pub fn excluded(env: &Env, t: &Ty) -> Option<Excl> {
    let rec = |t: &Ty| excluded(env, t);
    match t {
        Ty::NonZero(i) => {
            if !matches!(
                **i,
                Ty::U(_) | Ty::I(_) | Ty::Str | Ty::StrRef | Ty::Bytes | Ty::BytesRef | Ty::Vec(_) | Ty::Map(..) | Ty::Set(_)
            ) {
                return Some(Excl::Invalid);
            }
        }
        Ty::Set(k) | Ty::Map(k, _) => {
            if !hashable(env, k) {
                return Some(rec(k).unwrap_or(Excl::HashKey));
            }
        }
        Ty::Ext(n, g) => {
            for a in g {
                if let Some(e) = rec(a) {
                    return Some(e);
                }
                if !has_trait(env, a) {
                    return Some(Excl::NoTrait);
                }
            }
            if let Body::Alias(t) = &env.get(n).body {
                let t = t.subst(&env.get(n).generics, g);
                if let Some(e) = rec(&t) {
                    return Some(e);
                }
                if !has_trait(env, &t) {
                    return Some(Excl::NoTrait);
                }
            }
        }
        _ => {}
    }
    t.children().into_iter().find_map(rec)
}

/// Whether the Rust type has Encode + Decode + Size implementations of its own.
fn has_trait(env: &Env, t: &Ty) -> bool {
    match t {
        Ty::Tuple(_) | Ty::NonZero(_) => false,
        Ty::Vec(t) | Ty::Opt(t) | Ty::Array(t, _) | Ty::Set(t) => has_trait(env, t),
        Ty::Map(k, v) => has_trait(env, k) && has_trait(env, v),
        Ty::Ext(n, g) => match &env.get(n).body {
            Body::Alias(t) => has_trait(env, &t.subst(&env.get(n).generics, g)),
            _ => true,
        },
        _ => true,
    }
}

// ------------------------------------------------------------------------------------------------
// Values

pub fn uints(bits: u32, lvl: u8) -> Vec<u128> {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match lvl {
        0 => {
            let mut v = vec![0, 1, 2, max - 1, max, 1u128 << (bits - 1), (1u128 << (bits - 1)) - 1];
            for i in 1..=max_varint(bits) {
                let s = 7 * i as u32;
                if s < bits {
                    v.extend([(1u128 << s) - 1, 1u128 << s, (1u128 << s) + 1]);
                }
            }
            v.sort();
            v.dedup();
            v
        }
        1 => {
            if bits == 8 {
                vec![0, 1, 255]
            } else {
                vec![0, 127, 128, max]
            }
        }
        _ => vec![1, max],
    }
}
pub fn sints(bits: u32, lvl: u8) -> Vec<i128> {
    if lvl == 0 {
        return uints(bits, 0)
            .into_iter()
            .map(|v| {
                let v = unzigzag(v);
                if bits == 8 { v as i8 as i128 } else { v }
            })
            .collect();
    }
    let max = if bits == 128 { i128::MAX } else { (1i128 << (bits - 1)) - 1 };
    let min = -max - 1;
    match lvl {
        1 => vec![0, -1, 64, min],
        _ => vec![-1, max],
    }
}
pub fn strings(lvl: u8) -> Vec<String> {
    match lvl {
        0 => vec![
            "".into(),
            "a".into(),
            "\0".into(),
            "é".into(),
            "日本😀".into(),
            "x".repeat(127),
            "y".repeat(128),
            "é".repeat(64),
        ],
        1 => vec!["".into(), "a".into(), "é😀".into()],
        _ => vec!["".into(), "b".into()],
    }
}

fn cart(parts: &[Vec<Val>], cap: usize) -> Vec<Vec<Val>> {
    let total: usize = parts.iter().map(|p| p.len().max(1)).fold(1, |a, b| a.saturating_mul(b));
    if total <= cap {
        let mut out: Vec<Vec<Val>> = vec![vec![]];
        for p in parts {
            let mut n = vec![];
            for o in &out {
                for v in p {
                    let mut o = o.clone();
                    o.push(v.clone());
                    n.push(o);
                }
            }
            out = n;
        }
        return out;
    }
    // vary each part alone, then all pairs of parts on their first two values
    let first: Vec<Val> = parts.iter().map(|p| p[0].clone()).collect();
    let mut out = vec![first.clone()];
    for (i, p) in parts.iter().enumerate() {
        for v in &p[1..] {
            let mut o = first.clone();
            o[i] = v.clone();
            out.push(o);
        }
    }
    let last: Vec<Val> = parts.iter().map(|p| p[p.len() - 1].clone()).collect();
    if parts.len() > 16 {
        // neighbours, beginnings, ends and every few of the parts
        for i in 0..parts.len() {
            let mut o = first.clone();
            o[i..].clone_from_slice(&last[i..]);
            out.push(o);
            let mut o = first.clone();
            o[..i].clone_from_slice(&last[..i]);
            out.push(o);
        }
        for step in 2..=9 {
            for at in 0..step {
                let pick = |k: usize| if k % step == at { &last[k] } else { &first[k] };
                out.push((0..parts.len()).map(|k| pick(k).clone()).collect());
            }
        }
    }
    for i in 0..parts.len() {
        for j in i + 1..if parts.len() > 16 { (i + 2).min(parts.len()) } else { parts.len() } {
            let mut o = first.clone();
            o[i] = parts[i][parts[i].len() - 1].clone();
            o[j] = parts[j][parts[j].len() - 1].clone();
            out.push(o);
        }
    }
    out
}

fn is_zero(v: &Val) -> bool {
    match v {
        Val::U(0) | Val::I(0) => true,
        Val::Str(s) => s.is_empty(),
        Val::List(l) => l.is_empty(),
        Val::Set(l) => l.is_empty(),
        Val::Map(l) => l.is_empty(),
        _ => false,
    }
}

/// Boundary values of a type; `lvl` 0 is the richest.
pub fn values(env: &Env, t: &Ty, lvl: u8) -> Vec<Val> {
    let lists = |t: &Ty| -> Vec<Vec<Val>> {
        let e = values(env, t, lvl + 1);
        let mut out = vec![vec![]];
        out.extend(e.iter().map(|v| vec![v.clone()]));
        if lvl == 0 {
            for a in &e {
                for b in &e {
                    out.push(vec![a.clone(), b.clone()]);
                }
            }
            if let Some(l) = e.last() {
                out.push(vec![l.clone(); 127]);
                out.push(vec![l.clone(); 130]);
            }
        } else if e.len() > 1 {
            out.push(vec![e[0].clone(), e[e.len() - 1].clone()]);
        }
        if lvl >= 2 {
            out.truncate(2);
        }
        out
    };
    let v: Vec<Val> = match t {
        Ty::Bool => vec![Val::Bool(false), Val::Bool(true)],
        Ty::U(n) => uints(*n, lvl).into_iter().map(Val::U).collect(),
        Ty::I(n) => sints(*n, lvl).into_iter().map(Val::I).collect(),
        Ty::F32 => [0f32, -0.0, 1.5, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::from_bits(0x7fa0_0001), f32::from_bits(0xffc1_2345), f32::from_bits(0x0080_ff01), f32::from_bits(0xff00_0001)]
            [..if lvl == 0 { 14 } else { 3 }]
            .iter()
            .map(|f| Val::F32(f.to_bits()))
            .collect(),
        Ty::F64 => [0f64, -0.0, 1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::from_bits(0x7ff4_0000_0000_0001), f64::from_bits(0xfff8_1234_5678_9abc), f64::from_bits(0x0010_ff00_ff01_0203), f64::from_bits(0x0123_4567_89ab_cdef)]
            [..if lvl == 0 { 14 } else { 3 }]
            .iter()
            .map(|f| Val::F64(f.to_bits()))
            .collect(),
        Ty::Str | Ty::StrRef | Ty::BoxStr => strings(lvl).into_iter().map(Val::Str).collect(),
        Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => {
            let mut v = vec![Val::bytes(&[]), Val::bytes(&[0]), Val::bytes(&[0x80, 0xff, 1])];
            if lvl == 0 {
                v.push(Val::bytes(&[7; 127]));
                v.push(Val::bytes(&[0xfe; 128]));
            }
            v
        }
        Ty::Vec(t) => lists(t).into_iter().map(Val::List).collect(),
        Ty::Set(t) => {
            let mut l: Vec<Val> = lists(t).into_iter().map(|l| Val::Set(l).canon()).collect();
            if lvl == 0 {
                l.push(Val::Set(values(env, t, 0)).canon());
            }
            l
        }
        Ty::Map(k, w) => {
            let ks = values(env, k, lvl + 1);
            let vs = values(env, w, lvl + 1);
            let mut out = vec![Val::Map(vec![])];
            for (i, k) in ks.iter().enumerate() {
                for v in &vs {
                    out.push(Val::Map(vec![(k.clone(), v.clone())]));
                }
                if lvl >= 1 && i >= 1 {
                    break;
                }
            }
            let all: Vec<_> = ks.iter().cloned().zip(vs.iter().cloned().cycle()).collect();
            out.push(Val::Map(all).canon());
            if lvl == 0 {
                let all: Vec<_> = values(env, k, 0).into_iter().zip(vs.iter().cloned().cycle()).collect();
                out.push(Val::Map(all).canon());
            }
            out
        }
        Ty::Array(t, n) => {
            let n = *n as usize;
            let e = values(env, t, lvl + 1);
            if n <= 3 {
                cart(&vec![e; n], if lvl == 0 { 64 } else { 8 }).into_iter().map(Val::List).collect()
            } else {
                e.into_iter().map(|v| Val::List(vec![v; n])).collect()
            }
        }
        Ty::Opt(t) => {
            let mut v = vec![Val::none()];
            v.extend(values(env, t, if lvl == 0 { 0 } else { lvl + 1 }).into_iter().map(Val::some));
            v
        }
        Ty::NonZero(t) => {
            let mut l = lvl;
            loop {
                let v: Vec<Val> = values(env, t, l).into_iter().filter(|v| !is_zero(v)).collect();
                if !v.is_empty() || l == 0 {
                    break v;
                }
                l -= 1;
            }
        }
        Ty::Tuple(ts) => {
            let parts: Vec<_> = ts.iter().map(|t| values(env, t, lvl + 1)).collect();
            cart(&parts, if lvl == 0 { 64 } else { 6 }).into_iter().map(Val::List).collect()
        }
        Ty::Ext(n, g) => {
            let d = env.get(n);
            match &d.body {
                Body::Alias(t) => values(env, &t.subst(&d.generics, g), lvl),
                Body::Struct(f) => field_values(env, d, g, f, lvl).into_iter().map(Val::Struct).collect(),
                Body::Enum(vs) => {
                    let mut out = vec![];
                    for (i, v) in vs.iter().enumerate() {
                        let mut fv = field_values(env, d, g, &v.fields, lvl.max(1));
                        if lvl >= 2 {
                            fv.truncate(1);
                        }
                        out.extend(fv.into_iter().map(|x| Val::Enum(i, x)));
                    }
                    out
                }
            }
        }
        Ty::Gen(_) => panic!("generic"),
    };
    let mut v = v;
    if lvl >= 3 {
        v.truncate(2);
    }
    v
}

pub fn field_values(env: &Env, d: &Def, g: &[Ty], f: &Fields, lvl: u8) -> Vec<Vec<Val>> {
    if f.kind == Kind::Unit {
        return vec![vec![]];
    }
    let parts: Vec<_> = f
        .list
        .iter()
        .map(|x| values(env, &x.ty.subst(&d.generics, g), lvl + 1))
        .collect();
    cart(&parts, if lvl == 0 { 64 } else { 12 })
}


// ------------------------------------------------------------------------------------------------
// Plan: which definitions are generated, compiled and exercised

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    /// struct { a: u8 @1, x: T @2, b: u16 @4, z: option<T> @5 }
    Struct,
    /// struct(T @3, option<T> @1, u8 @2)
    Tuple,
    /// enum with unit, unnamed and named variants holding T
    Enum,
    /// the plain Rust type, through the runtime's trait implementations
    Direct,
    /// schema evolution family and common readers
    Family,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub name: String,
    pub role: Role,
    /// Type reference of the item.
    pub ty: Ty,
    pub shape: Ty,
    pub shard: usize,
    pub bytes_repr: bool,
}

pub struct Plan {
    pub env: Env,
    pub items: Vec<Item>,
    /// per shard: definitions of its schema file, and representation of bytes
    pub shards: Vec<(Vec<Def>, bool)>,
}

pub fn reader_defs() -> Vec<Def> {
    vec![
        st("ReadAb", named(vec![f("b", Ty::U(16), 4), f("a", Ty::U(8), 1)])),
        st("ReadT", unnamed(vec![uf(Ty::U(8), 2)])),
        en(
            "ReadE",
            vec![
                ("A", unit(), 1),
                ("B", unnamed(vec![uf(Ty::U(8), 2)]), 2),
                ("C", named(vec![f("q", opt(Ty::U(8)), 9), f("w2", Ty::U(32), 4)]), 130),
            ],
        ),
        en("ReadFew", vec![("A", unit(), 1)]),
    ]
}

/// All ordered non-empty selections out of four fields of different skip classes.
pub fn family_defs(thorough: bool) -> Vec<Def> {
    let pool = |named: bool| {
        let n = |s: &str| if named { Some(s.to_string()) } else { None };
        vec![
            Field { name: n("one"), ty: Ty::U(8), id: 1, explicit: true },
            Field { name: n("two"), ty: opt(Ty::Str), id: 2, explicit: true },
            Field { name: n("three"), ty: vec(Ty::U(32)), id: 16, explicit: true },
            Field { name: n("four"), ty: opt(tup(&[Ty::U(16), Ty::F32])), id: 2048, explicit: true },
        ]
    };
    let mut out = vec![];
    for is_named in [true, false] {
        let pool = pool(is_named);
        let mut todo: Vec<Vec<usize>> = vec![vec![]];
        let mut all = vec![];
        while let Some(s) = todo.pop() {
            for i in 0..pool.len() {
                if !s.contains(&i) && (s.len() < if thorough { 4 } else { 3 }) {
                    let mut t = s.clone();
                    t.push(i);
                    all.push(t.clone());
                    todo.push(t);
                }
            }
        }
        all.sort_by_key(|s| (s.len(), s.clone()));
        if !is_named && !thorough {
            all.retain(|s| s.len() <= 2);
        }
        for s in all {
            let tag: String = s.iter().map(|i| i.to_string()).collect();
            let list: Vec<Field> = s.iter().map(|i| pool[*i].clone()).collect();
            let fields = Fields { kind: if is_named { Kind::Named } else { Kind::Unnamed }, list };
            out.push(st(&format!("Fam{}{tag}", if is_named { "N" } else { "U" }), fields));
        }
    }
    // enum evolution: subsets of variants
    for (i, ids) in [vec![1], vec![2], vec![1, 2], vec![2, 1, 300], vec![300, 2], vec![300]].iter().enumerate() {
        let vs = ids
            .iter()
            .map(|id| match id {
                1 => ("A", unit(), 1),
                2 => ("B", unnamed(vec![uf(Ty::U(16), 1), uf(opt(Ty::Str), 2)]), 2),
                _ => ("C", named(vec![f("v", Ty::I(64), 3)]), 300),
            })
            .collect();
        out.push(en(&format!("FamE{i}"), vs));
    }
    out
}

/// Many fields and variants, and identifiers of every length.
pub fn wide_defs() -> Vec<Def> {
    let ty = |i: usize| match i % 6 {
        0 => Ty::U(8),
        1 => opt(Ty::U(32)),
        2 => Ty::Str,
        3 => opt(Ty::Bool),
        4 => vec(Ty::U(16)),
        _ => Ty::F32,
    };
    let fields = |is_named: bool, ids: Vec<u32>| {
        let explicit = ids.iter().enumerate().any(|(i, id)| *id != i as u32 + 1);
        let list = ids.iter().map(|id| Field { name: is_named.then(|| format!("n{id}")), ty: ty(*id as usize), id: *id, explicit }).collect();
        Fields { kind: if is_named { Kind::Named } else { Kind::Unnamed }, list }
    };
    let max = (1u32 << 29) - 1;
    let limits: Vec<u32> = vec![1, 2, 15, 16, 17, 31, 32, 63, 64, 127, 128, 2047, 2048, 16383, 16384, 65535, 65536, (1 << 18) - 1, 1 << 18, (1 << 21) - 1, 1 << 21, (1 << 25) - 1, 1 << 25, 1 << 28, max - 1, max];
    let backwards: Vec<u32> = limits.iter().rev().copied().collect();
    let mut v = vec![];
    for n in [true, false] {
        let k = if n { "N" } else { "U" };
        for len in [9, 17, 33, 40, 65, 70, 140] {
            v.push(st(&format!("Wide{k}{len}"), fields(n, (1..=len).collect())));
        }
        v.push(st(&format!("Wide{k}Odd"), fields(n, (1..=140).filter(|i| i % 2 == 1).collect())));
        v.push(st(&format!("Wide{k}Third"), fields(n, (1..=140).filter(|i| i % 3 == 0).rev().collect())));
        v.push(st(&format!("Wide{k}Far"), fields(n, limits.clone())));
        v.push(st(&format!("Wide{k}Raf"), fields(n, backwards.clone())));
    }
    let body = |i: usize| match i % 3 {
        0 => unit(),
        1 => fields(false, (1..=1 + i as u32 % 4).collect()),
        _ => fields(true, (1..=1 + i as u32 % 5).map(|x| x * 40).collect()),
    };
    let variants = |ids: Vec<u32>, explicit: bool| Body::Enum(ids.into_iter().map(|id| Variant { name: format!("V{id}"), fields: body((id % 1000) as usize), id, explicit }).collect());
    let def = |name: &str, body: Body| Def { name: name.into(), generics: vec![], body };
    v.push(def("WideE140", variants((1..=140).collect(), false)));
    v.push(def("WideE300", variants((1..=300).rev().collect(), true)));
    v.push(def("WideEFar", variants(vec![0, 1, 127, 128, 255, 256, 16383, 16384, 65535, 65536, (1 << 21) - 1, 1 << 21, max, max + 1, (1 << 28) - 1, 1 << 28, 1 << 31, u32::MAX - 1, u32::MAX], true)));
    v.push(def("WideEFew", variants(vec![u32::MAX, 1, 140, 300, 65536], true)));
    // many fields in a variant
    v.push(def("ManyFields", Body::Enum(vec![
        Variant { name: "A".into(), fields: fields(true, (1..=70).collect()), id: 1, explicit: false },
        Variant { name: "B".into(), fields: fields(false, (1..=70).collect()), id: 2, explicit: false },
        Variant { name: "C".into(), fields: fields(true, limits), id: 3, explicit: false },
        Variant { name: "D".into(), fields: fields(false, backwards), id: 4, explicit: false },
    ])));
    v
}

pub fn item_defs(i: usize, t: &Ty, deep: bool) -> Vec<(Role, Def)> {
    let mut v = vec![(
        Role::Struct,
        st(
            &format!("S{i}"),
            named(vec![
                f("a", Ty::U(8), 1),
                f("x", t.clone(), 2),
                f("b", Ty::U(16), 4),
                f("z", opt(t.clone()), 5),
            ]),
        ),
    )];
    if !deep {
        v.push((
            Role::Tuple,
            st(&format!("T{i}"), unnamed(vec![uf(t.clone(), 3), uf(opt(t.clone()), 1), uf(Ty::U(8), 2)])),
        ));
        v.push((
            Role::Enum,
            en(
                &format!("E{i}"),
                vec![
                    ("A", unit(), 1),
                    ("B", unnamed(vec![uf(t.clone(), 1), uf(Ty::U(8), 2)]), 2),
                    ("C", named(vec![f("x1", opt(t.clone()), 7), f("y1", t.clone(), 300), f("w2", Ty::U(32), 4)]), 130),
                ],
            ),
        ));
    }
    v
}

pub fn plan(thorough: bool, nshards: usize) -> Plan {
    let pre = prelude();
    let mut env = Env::new(&pre);
    let fam: Vec<Def> = reader_defs().into_iter().chain(family_defs(thorough)).chain(wide_defs()).collect();
    env.extend(&fam);
    let mut items = vec![];
    let mut shards: Vec<(Vec<Def>, bool)> =
        (0..nshards).map(|i| (pre.clone(), i + 1 == nshards)).collect();
    let all = shapes(thorough);
    let mut k = 0;
    for (i, t) in all.iter().enumerate() {
        let deep = t.depth() > 1 && !matches!(t, Ty::Tuple(_));
        if excluded(&env, t).is_none() {
            let shard = k % (nshards - 1);
            k += 1;
            for (role, d) in item_defs(i, t, deep) {
                items.push(Item {
                    name: d.name.clone(),
                    role,
                    ty: ext(&d.name),
                    shape: t.clone(),
                    shard,
                    bytes_repr: false,
                });
                env.extend(&[d.clone()]);
                shards[shard].0.push(d);
            }
            if t.depth() <= 1 && has_trait(&env, t) && !matches!(t, Ty::Ext(..)) {
                items.push(Item {
                    name: format!("D{i}"),
                    role: Role::Direct,
                    ty: t.clone(),
                    shape: t.clone(),
                    shard,
                    bytes_repr: false,
                });
            }
        }
        let has_bytes = t.any(&mut |t| matches!(t, Ty::Bytes | Ty::BytesRef));
        if has_bytes && t.depth() <= 2 && excluded(&env, t).is_none() {
            let shard = nshards - 1;
            for (role, mut d) in item_defs(i, t, deep) {
                d.name = format!("B{}", d.name);
                items.push(Item {
                    name: d.name.clone(),
                    role,
                    ty: ext(&d.name),
                    shape: t.clone(),
                    shard,
                    bytes_repr: true,
                });
                env.extend(&[d.clone()]);
                shards[shard].0.push(d);
            }
        }
    }
    for (i, d) in fam.into_iter().enumerate() {
        let shard = if d.name.starts_with("Wide") || d.name == "ManyFields" { i % (nshards - 1) } else { 0 };
        items.push(Item {
            name: d.name.clone(),
            role: Role::Family,
            ty: ext(&d.name),
            shape: Ty::Bool,
            shard,
            bytes_repr: false,
        });
        shards[shard].0.push(d);
    }
    Plan { env, items, shards }
}

/// The Rust type of a shape, in a module that imports the generated items.
pub fn rust_ty(t: &Ty, bytes_repr: bool) -> String {
    let r = |t: &Ty| rust_ty(t, bytes_repr);
    match t {
        Ty::Bool => "bool".into(),
        Ty::U(n) => format!("u{n}"),
        Ty::I(n) => format!("i{n}"),
        Ty::F32 => "f32".into(),
        Ty::F64 => "f64".into(),
        Ty::Str | Ty::StrRef => "String".into(),
        Ty::BoxStr => "Box<str>".into(),
        Ty::Bytes | Ty::BytesRef => if bytes_repr { "mabo::buf::Bytes" } else { "Vec<u8>" }.into(),
        Ty::BoxBytes => "Box<[u8]>".into(),
        Ty::Vec(t) => format!("Vec<{}>", r(t)),
        Ty::Map(k, v) => format!("std::collections::HashMap<{}, {}>", r(k), r(v)),
        Ty::Set(t) => format!("std::collections::HashSet<{}>", r(t)),
        Ty::Opt(t) => format!("Option<{}>", r(t)),
        Ty::NonZero(t) => match &**t {
            Ty::U(n) => format!("std::num::NonZeroU{n}"),
            Ty::I(n) => format!("std::num::NonZeroI{n}"),
            t => format!("mabo::NonZero<{}>", r(t)),
        },
        Ty::Tuple(ts) => format!("({},)", ts.iter().map(r).collect::<Vec<_>>().join(", ")),
        Ty::Array(t, n) => format!("[{}; {n}]", r(t)),
        Ty::Ext(n, g) if g.is_empty() => n.clone(),
        Ty::Ext(n, g) => format!("{n}<{}>", g.iter().map(r).collect::<Vec<_>>().join(", ")),
        Ty::Gen(n) => n.clone(),
    }
}
