//! The parser's tree as a neutral tree.
use crate::refparse::float_text;
use crate::tree::{g, leaf, n, Node};
use mabo_parser::punctuated::Punctuated;
use mabo_parser::token::Delimiter;
use mabo_parser::*;
use std::ops::Range;

fn sp(s: &impl Spanned) -> (usize, usize) {
    let r: Range<usize> = s.span().into();
    (r.start, r.end)
}
fn tok(t: &str, s: &impl Spanned) -> Node {
    n("tok", t, sp(s), vec![])
}
fn kw(t: &str, s: &impl Spanned) -> Node {
    n("kw", t, sp(s), vec![])
}
fn name(v: &Name) -> Node {
    n("name", v.get(), sp(v), vec![])
}
fn open<D: Delimiter>(d: &D) -> Node {
    tok(&D::OPEN.to_string(), &d.open())
}
fn close<D: Delimiter>(d: &D) -> Node {
    tok(&D::CLOSE.to_string(), &d.close())
}
fn list<T, D: Delimiter>(d: &D, p: &Punctuated<T>, f: impl Fn(&T) -> Node) -> Vec<Node> {
    let mut v = vec![open(d)];
    for (x, c) in p {
        v.push(f(x));
        v.extend(c.map(|c| tok(",", &c)));
    }
    v.push(close(d));
    v
}
pub fn schema(s: &Schema) -> Node {
    g("schema", vec![comment(&s.comment), g("defs", s.definitions.iter().map(def).collect())])
}
fn comment(c: &Comment) -> Node {
    g("comment", c.0.iter().map(|l| n("line", l.get(), sp(l), vec![])).collect())
}
fn attrs(a: &Attributes) -> Node {
    g("attributes", a.0.iter().map(attr).collect())
}
fn attr(a: &Attribute) -> Node {
    let v = match &a.value {
        AttributeValue::Unit => leaf("unit", ""),
        AttributeValue::Single(l) => g("single", vec![lit(l)]),
        AttributeValue::Multi(v) => g("multi", v.iter().map(attr).collect()),
    };
    Node { k: "attr", t: a.name.into(), sp: None, c: vec![v] }
}
fn lit(l: &Literal) -> Node {
    let (k, t) = match &l.value {
        LiteralValue::Bool(b) => ("bool", b.to_string()),
        LiteralValue::Int(i) => ("int", i.to_string()),
        LiteralValue::Float(f) => ("float", float_text(*f)),
        LiteralValue::String(s) => ("string", s.clone()),
        LiteralValue::Bytes(b) => ("bytes", b.iter().map(u8::to_string).collect::<Vec<_>>().join(" ")),
    };
    n(k, t, sp(l), vec![])
}
fn id(i: &Option<Id>) -> Vec<Node> {
    i.iter().map(|i| n("id", i.get().to_string(), sp(i), vec![])).collect()
}
fn generics(x: &Option<Generics>) -> Node {
    g("generics", x.as_ref().map_or(vec![], |x| list(&x.angle, &x.types, name)))
}
pub fn ty(t: &Type) -> Node {
    let s = sp(t);
    let b = |t: &str| n("ty", t, s, vec![]);
    let one = |t: &str, k: &Span, a: &token::Angle, x: &Type| n("ty", t, s, vec![kw(t, k), open(a), ty(x), close(a)]);
    match &t.value {
        DataType::Bool => b("bool"),
        DataType::U8 => b("u8"),
        DataType::U16 => b("u16"),
        DataType::U32 => b("u32"),
        DataType::U64 => b("u64"),
        DataType::U128 => b("u128"),
        DataType::I8 => b("i8"),
        DataType::I16 => b("i16"),
        DataType::I32 => b("i32"),
        DataType::I64 => b("i64"),
        DataType::I128 => b("i128"),
        DataType::F32 => b("f32"),
        DataType::F64 => b("f64"),
        DataType::String => b("string"),
        DataType::StringRef => b("&string"),
        DataType::Bytes => b("bytes"),
        DataType::BytesRef => b("&bytes"),
        DataType::BoxString => b("box<string>"),
        DataType::BoxBytes => b("box<bytes>"),
        DataType::Vec { span, angle, ty } => one("vec", span, angle, ty),
        DataType::HashSet { span, angle, ty } => one("hash_set", span, angle, ty),
        DataType::Option { span, angle, ty } => one("option", span, angle, ty),
        DataType::NonZero { span, angle, ty } => one("non_zero", span, angle, ty),
        DataType::HashMap { span, angle, key, comma, value } => n(
            "ty",
            "hash_map",
            s,
            vec![kw("hash_map", span), open(angle), ty(key), tok(",", comma), ty(value), close(angle)],
        ),
        DataType::Tuple { paren, types } => n("ty", "tuple", s, list(paren, types, ty)),
        DataType::Array { bracket, ty: t, semicolon, size } => n(
            "ty",
            "array",
            s,
            vec![open(bracket), ty(t), tok(";", semicolon), leaf("len", size.to_string()), close(bracket)],
        ),
        DataType::External(e) => {
            let mut c = vec![
                g("path", e.path.iter().flat_map(|(n, c)| [name(n), tok("::", c)]).collect()),
                name(&e.name),
            ];
            assert_eq!(e.angle.is_some(), e.generics.is_some());
            if let (Some(a), Some(x)) = (&e.angle, &e.generics) {
                c.push(g("args", list(a, x, ty)));
            }
            n("ty", "ext", s, c)
        }
    }
}
fn fields(f: &Fields) -> Node {
    match f {
        Fields::Named(b, l) => g(
            "named",
            list(b, l, |f| {
                n("field", "", sp(f), [vec![comment(&f.comment), name(&f.name), tok(":", &f.colon), ty(&f.ty)], id(&f.id)].concat())
            }),
        ),
        Fields::Unnamed(p, l) => {
            g("unnamed", list(p, l, |f| n("field", "", sp(f), [vec![ty(&f.ty)], id(&f.id)].concat())))
        }
        Fields::Unit => leaf("nofields", ""),
    }
}
fn def(d: &Definition) -> Node {
    let none = || g("attributes", vec![]);
    match d {
        Definition::Module(m) => g(
            "mod",
            vec![
                comment(&m.comment),
                none(),
                kw("mod", &m.keyword),
                name(&m.name),
                open(&m.brace),
                g("defs", m.definitions.iter().map(def).collect()),
                close(&m.brace),
            ],
        ),
        Definition::Struct(s) => g(
            "struct",
            vec![comment(&s.comment), attrs(&s.attributes), kw("struct", &s.keyword), name(&s.name), generics(&s.generics), fields(&s.fields)],
        ),
        Definition::Enum(e) => g(
            "enum",
            vec![
                comment(&e.comment),
                attrs(&e.attributes),
                kw("enum", &e.keyword),
                name(&e.name),
                generics(&e.generics),
                g(
                    "variants",
                    list(&e.brace, &e.variants, |v| {
                        n("variant", "", sp(v), [vec![comment(&v.comment), name(&v.name), fields(&v.fields)], id(&v.id)].concat())
                    }),
                ),
            ],
        ),
        Definition::TypeAlias(a) => g(
            "alias",
            vec![
                comment(&a.comment),
                none(),
                kw("type", &a.keyword),
                name(&a.name),
                generics(&a.generics),
                tok("=", &a.equal),
                ty(&a.target),
                tok(";", &a.semicolon),
            ],
        ),
        Definition::Const(c) => g(
            "const",
            vec![
                comment(&c.comment),
                none(),
                kw("const", &c.keyword),
                name(&c.name),
                tok(":", &c.colon),
                ty(&c.ty),
                tok("=", &c.equal),
                lit(&c.value),
                tok(";", &c.semicolon),
            ],
        ),
        Definition::Import(i) => g(
            "import",
            vec![
                g("comment", vec![]),
                none(),
                kw("use", &i.keyword),
                n("full", i.full.get(), sp(&i.full), vec![]),
                g("segments", i.segments.iter().map(name).collect()),
                g("element", i.element.as_ref().map_or(vec![], |(c, n)| vec![tok("::", c), name(n)])),
                tok(";", &i.semicolon),
            ],
        ),
    }
}
