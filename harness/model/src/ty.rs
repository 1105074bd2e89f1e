//! Schema model: types, fields, definitions, and their textual form.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Ty {
    Bool,
    U(u32),
    I(u32),
    F32,
    F64,
    Str,
    StrRef,
    BoxStr,
    Bytes,
    BytesRef,
    BoxBytes,
    Vec(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Set(Box<Ty>),
    Opt(Box<Ty>),
    NonZero(Box<Ty>),
    Tuple(Vec<Ty>),
    Array(Box<Ty>, u32),
    /// Reference to a definition (struct, enum or alias) with generic arguments.
    Ext(String, Vec<Ty>),
    /// Generic parameter of the surrounding definition.
    Gen(String),
}

impl Ty {
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    fn write(&self, s: &mut String) {
        match self {
            Ty::Bool => s.push_str("bool"),
            Ty::U(n) => write!(s, "u{n}").unwrap(),
            Ty::I(n) => write!(s, "i{n}").unwrap(),
            Ty::F32 => s.push_str("f32"),
            Ty::F64 => s.push_str("f64"),
            Ty::Str => s.push_str("string"),
            Ty::StrRef => s.push_str("&string"),
            Ty::BoxStr => s.push_str("box<string>"),
            Ty::Bytes => s.push_str("bytes"),
            Ty::BytesRef => s.push_str("&bytes"),
            Ty::BoxBytes => s.push_str("box<bytes>"),
            Ty::Vec(t) => write!(s, "vec<{}>", t.text()).unwrap(),
            Ty::Map(k, v) => write!(s, "hash_map<{}, {}>", k.text(), v.text()).unwrap(),
            Ty::Set(t) => write!(s, "hash_set<{}>", t.text()).unwrap(),
            Ty::Opt(t) => write!(s, "option<{}>", t.text()).unwrap(),
            Ty::NonZero(t) => write!(s, "non_zero<{}>", t.text()).unwrap(),
            Ty::Tuple(ts) => {
                s.push('(');
                for (i, t) in ts.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    t.write(s);
                }
                s.push(')');
            }
            Ty::Array(t, n) => write!(s, "[{}; {n}]", t.text()).unwrap(),
            Ty::Ext(n, g) => {
                s.push_str(n);
                if !g.is_empty() {
                    s.push('<');
                    for (i, t) in g.iter().enumerate() {
                        if i > 0 {
                            s.push_str(", ");
                        }
                        t.write(s);
                    }
                    s.push('>');
                }
            }
            Ty::Gen(n) => s.push_str(n),
        }
    }

    /// Direct component types.
    pub fn children(&self) -> Vec<&Ty> {
        match self {
            Ty::Vec(t) | Ty::Set(t) | Ty::Opt(t) | Ty::NonZero(t) | Ty::Array(t, _) => vec![t],
            Ty::Map(k, v) => vec![k, v],
            Ty::Tuple(ts) => ts.iter().collect(),
            Ty::Ext(_, g) => g.iter().collect(),
            _ => vec![],
        }
    }
    pub fn any(&self, f: &mut dyn FnMut(&Ty) -> bool) -> bool {
        f(self) || self.children().into_iter().any(|c| c.any(f))
    }
    pub fn depth(&self) -> usize {
        self.children().iter().map(|c| c.depth() + 1).max().unwrap_or(0)
    }
    pub fn subst(&self, names: &[String], args: &[Ty]) -> Ty {
        match self {
            Ty::Gen(n) => {
                let i = names.iter().position(|x| x == n).expect("generic");
                args[i].clone()
            }
            Ty::Vec(t) => Ty::Vec(Box::new(t.subst(names, args))),
            Ty::Set(t) => Ty::Set(Box::new(t.subst(names, args))),
            Ty::Opt(t) => Ty::Opt(Box::new(t.subst(names, args))),
            Ty::NonZero(t) => Ty::NonZero(Box::new(t.subst(names, args))),
            Ty::Array(t, n) => Ty::Array(Box::new(t.subst(names, args)), *n),
            Ty::Map(k, v) => {
                Ty::Map(Box::new(k.subst(names, args)), Box::new(v.subst(names, args)))
            }
            Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(|t| t.subst(names, args)).collect()),
            Ty::Ext(n, g) => Ty::Ext(n.clone(), g.iter().map(|t| t.subst(names, args)).collect()),
            t => t.clone(),
        }
    }
}

pub fn vec(t: Ty) -> Ty {
    Ty::Vec(Box::new(t))
}
pub fn set(t: Ty) -> Ty {
    Ty::Set(Box::new(t))
}
pub fn opt(t: Ty) -> Ty {
    Ty::Opt(Box::new(t))
}
pub fn nz(t: Ty) -> Ty {
    Ty::NonZero(Box::new(t))
}
pub fn map(k: Ty, v: Ty) -> Ty {
    Ty::Map(Box::new(k), Box::new(v))
}
pub fn arr(t: Ty, n: u32) -> Ty {
    Ty::Array(Box::new(t), n)
}
pub fn tup(t: &[Ty]) -> Ty {
    Ty::Tuple(t.to_vec())
}
pub fn ext(n: &str) -> Ty {
    Ty::Ext(n.into(), vec![])
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    pub name: Option<String>,
    pub ty: Ty,
    pub id: u32,
    /// Whether the identifier is written out.
    pub explicit: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Named,
    Unnamed,
    Unit,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fields {
    pub kind: Kind,
    pub list: Vec<Field>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Variant {
    pub name: String,
    pub fields: Fields,
    pub id: u32,
    pub explicit: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    Struct(Fields),
    Enum(Vec<Variant>),
    Alias(Ty),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Def {
    pub name: String,
    pub generics: Vec<String>,
    pub body: Body,
}

/// Field with explicit id.
pub fn f(name: &str, ty: Ty, id: u32) -> Field {
    Field { name: Some(name.into()), ty, id, explicit: true }
}
pub fn uf(ty: Ty, id: u32) -> Field {
    Field { name: None, ty, id, explicit: true }
}
pub fn named(list: Vec<Field>) -> Fields {
    Fields { kind: Kind::Named, list }
}
pub fn unnamed(mut list: Vec<Field>) -> Fields {
    for f in &mut list {
        f.name = None;
    }
    Fields { kind: Kind::Unnamed, list }
}
pub fn unit() -> Fields {
    Fields { kind: Kind::Unit, list: vec![] }
}
pub fn st(name: &str, fields: Fields) -> Def {
    Def { name: name.into(), generics: vec![], body: Body::Struct(fields) }
}
pub fn en(name: &str, variants: Vec<(&str, Fields, u32)>) -> Def {
    Def {
        name: name.into(),
        generics: vec![],
        body: Body::Enum(
            variants
                .into_iter()
                .map(|(n, fields, id)| Variant { name: n.into(), fields, id, explicit: true })
                .collect(),
        ),
    }
}
pub fn alias(name: &str, ty: Ty) -> Def {
    Def { name: name.into(), generics: vec![], body: Body::Alias(ty) }
}

fn write_fields(s: &mut String, f: &Fields, indent: &str) {
    let (open, close) = match f.kind {
        Kind::Unit => return,
        Kind::Named => (" {\n", "}"),
        Kind::Unnamed => ("(\n", ")"),
    };
    s.push_str(open);
    for x in &f.list {
        write!(s, "{indent}    ").unwrap();
        if f.kind == Kind::Named {
            write!(s, "{}: ", x.name.as_deref().unwrap()).unwrap();
        }
        s.push_str(&x.ty.text());
        if x.explicit {
            write!(s, " @{}", x.id).unwrap();
        }
        s.push_str(",\n");
    }
    write!(s, "{indent}{close}").unwrap();
}

pub fn def_text(d: &Def) -> String {
    let mut s = String::new();
    let gens = if d.generics.is_empty() {
        String::new()
    } else {
        format!("<{}>", d.generics.join(", "))
    };
    match &d.body {
        Body::Struct(f) => {
            write!(s, "struct {}{gens}", d.name).unwrap();
            write_fields(&mut s, f, "");
        }
        Body::Enum(vs) => {
            writeln!(s, "enum {}{gens} {{", d.name).unwrap();
            for v in vs {
                write!(s, "    {}", v.name).unwrap();
                write_fields(&mut s, &v.fields, "    ");
                if v.explicit {
                    write!(s, " @{}", v.id).unwrap();
                }
                s.push_str(",\n");
            }
            s.push('}');
        }
        Body::Alias(t) => write!(s, "type {}{gens} = {};", d.name, t.text()).unwrap(),
    }
    s.push('\n');
    s
}

pub fn schema_text(defs: &[Def]) -> String {
    defs.iter().map(def_text).collect::<Vec<_>>().join("\n")
}

#[derive(Clone, Default)]
pub struct Env {
    pub defs: std::collections::BTreeMap<String, Def>,
}

impl Env {
    pub fn new(defs: &[Def]) -> Self {
        Env { defs: defs.iter().map(|d| (d.name.clone(), d.clone())).collect() }
    }
    pub fn extend(&mut self, defs: &[Def]) {
        for d in defs {
            self.defs.insert(d.name.clone(), d.clone());
        }
    }
    pub fn get(&self, n: &str) -> &Def {
        self.defs.get(n).unwrap_or_else(|| panic!("no definition {n}"))
    }
    /// Replace an alias reference at the top of the type (only the top level).
    pub fn resolve_alias(&self, t: &Ty) -> Ty {
        if let Ty::Ext(n, g) = t {
            let d = self.get(n);
            if let Body::Alias(target) = &d.body {
                return self.resolve_alias(&target.subst(&d.generics, g));
            }
        }
        t.clone()
    }
}
