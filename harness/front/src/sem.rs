//! Schemas as plain data, their canonical text with positions, and the reference rules that decide
//! which schemas are valid, which identifiers apply and which references resolve.
use std::cell::Cell;
use std::collections::BTreeMap;

pub type Sp = Cell<(usize, usize)>;
pub const MAX_FIELD_ID: u32 = (1 << 29) - 1;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// Built-in type without arguments.
    P(&'static str),
    Vec(Box<T>),
    Map(Box<T>, Box<T>),
    Set(Box<T>),
    Opt(Box<T>),
    Nz(Box<T>),
    Arr(Box<T>, u64),
    Tup(Vec<T>),
    Ext(Vec<String>, String, Vec<T>),
}
#[derive(Clone, Debug, Default)]
pub struct F {
    pub name: String,
    pub ty: Option<T>,
    pub id: Option<u32>,
    pub comment: Vec<String>,
    pub name_sp: Sp,
    pub id_sp: Sp,
    pub all_sp: Sp,
}
#[derive(Clone, Debug)]
pub enum Fs {
    Named(Vec<F>),
    Unnamed(Vec<F>),
    Unit,
}
#[derive(Clone, Debug)]
pub struct V {
    pub name: String,
    pub fields: Fs,
    pub id: Option<u32>,
    pub comment: Vec<String>,
    pub name_sp: Sp,
    pub id_sp: Sp,
    pub all_sp: Sp,
}
#[derive(Clone, Debug)]
pub enum K {
    Mod(Vec<D>),
    Struct(Fs),
    Enum(Vec<V>),
    Alias(T),
    Const(T, String),
    /// Path segments; the name of the definition is the imported element, if there is one.
    Use(Vec<String>, bool),
}
#[derive(Clone, Debug)]
pub struct D {
    pub name: String,
    pub gens: Vec<String>,
    pub gen_sp: Vec<Sp>,
    pub comment: Vec<String>,
    pub kind: K,
    pub name_sp: Sp,
    pub all_sp: Sp,
}

pub fn p(s: &'static str) -> T {
    T::P(s)
}
pub fn ext(path: &[&str], name: &str, args: Vec<T>) -> T {
    T::Ext(path.iter().map(|s| s.to_string()).collect(), name.into(), args)
}
pub fn field(name: &str, ty: T, id: Option<u32>) -> F {
    F { name: name.into(), ty: Some(ty), id, ..F::default() }
}
pub fn variant(name: &str, fields: Fs, id: Option<u32>) -> V {
    V { name: name.into(), fields, id, comment: vec![], name_sp: Sp::default(), id_sp: Sp::default(), all_sp: Sp::default() }
}
fn d(name: &str, gens: &[&str], kind: K) -> D {
    D {
        name: name.into(),
        gens: gens.iter().map(|s| s.to_string()).collect(),
        gen_sp: gens.iter().map(|_| Sp::default()).collect(),
        comment: vec![],
        kind,
        name_sp: Sp::default(),
        all_sp: Sp::default(),
    }
}
pub fn module(name: &str, defs: Vec<D>) -> D {
    d(name, &[], K::Mod(defs))
}
pub fn strct(name: &str, gens: &[&str], f: Fs) -> D {
    d(name, gens, K::Struct(f))
}
pub fn enm(name: &str, gens: &[&str], v: Vec<V>) -> D {
    d(name, gens, K::Enum(v))
}
pub fn alias(name: &str, gens: &[&str], t: T) -> D {
    d(name, gens, K::Alias(t))
}
pub fn cnst(name: &str, t: T, lit: &str) -> D {
    d(name, &[], K::Const(t, lit.into()))
}
pub fn import(segs: &[&str], element: Option<&str>) -> D {
    d(element.unwrap_or(segs[segs.len() - 1]), &[], K::Use(segs.iter().map(|s| s.to_string()).collect(), element.is_some()))
}
impl D {
    pub fn commented(mut self, c: &[&str]) -> D {
        self.comment = c.iter().map(|s| s.to_string()).collect();
        self
    }
}

// ---- text ---------------------------------------------------------------------------------------
impl T {
    pub fn text(&self) -> String {
        let j = |v: &[T]| v.iter().map(T::text).collect::<Vec<_>>().join(", ");
        match self {
            T::P(s) => s.to_string(),
            T::Vec(t) => format!("vec<{}>", t.text()),
            T::Map(k, v) => format!("hash_map<{}, {}>", k.text(), v.text()),
            T::Set(t) => format!("hash_set<{}>", t.text()),
            T::Opt(t) => format!("option<{}>", t.text()),
            T::Nz(t) => format!("non_zero<{}>", t.text()),
            T::Arr(t, n) => format!("[{}; {n}]", t.text()),
            T::Tup(v) => format!("({})", j(v)),
            T::Ext(path, n, a) => {
                let mut s: String = path.iter().map(|p| format!("{p}::")).collect();
                s.push_str(n);
                if !a.is_empty() {
                    s.push_str(&format!("<{}>", j(a)));
                }
                s
            }
        }
    }
    pub fn children(&self) -> Vec<&T> {
        match self {
            T::P(_) => vec![],
            T::Vec(t) | T::Set(t) | T::Opt(t) | T::Nz(t) | T::Arr(t, _) => vec![t],
            T::Map(k, v) => vec![k, v],
            T::Tup(v) | T::Ext(_, _, v) => v.iter().collect(),
        }
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
        f(self);
        for c in self.children() {
            c.walk(f);
        }
    }
}
fn at(o: &mut String, sp: &Sp, s: &str) {
    let a = o.len();
    o.push_str(s);
    sp.set((a, o.len()));
}
fn comment(o: &mut String, c: &[String], ind: usize) {
    for l in c {
        o.push_str(&format!("{:ind$}///{}{l}\n", "", if l.is_empty() { "" } else { " " }));
    }
}
fn w_fields(o: &mut String, f: &Fs, ind: usize) {
    let w_id = |o: &mut String, f: &F| {
        if let Some(i) = f.id {
            o.push(' ');
            at(o, &f.id_sp, &format!("@{i}"));
        }
    };
    match f {
        Fs::Unit => {}
        Fs::Named(v) => {
            o.push_str(" {\n");
            for f in v {
                let a = o.len();
                comment(o, &f.comment, ind + 4);
                o.push_str(&" ".repeat(ind + 4));
                at(o, &f.name_sp, &f.name);
                o.push_str(": ");
                o.push_str(&f.ty.as_ref().unwrap().text());
                w_id(o, f);
                f.all_sp.set((a, o.len()));
                o.push_str(",\n");
            }
            o.push_str(&format!("{:ind$}}}", ""));
        }
        Fs::Unnamed(v) => {
            o.push('(');
            for (i, f) in v.iter().enumerate() {
                if i > 0 {
                    o.push_str(", ");
                }
                let a = o.len();
                o.push_str(&f.ty.as_ref().unwrap().text());
                w_id(o, f);
                f.all_sp.set((a, o.len()));
            }
            o.push(')');
        }
    }
}
fn w_gens(o: &mut String, d: &D) {
    if d.gens.is_empty() {
        return;
    }
    o.push('<');
    for (i, (g, sp)) in d.gens.iter().zip(&d.gen_sp).enumerate() {
        if i > 0 {
            o.push_str(", ");
        }
        at(o, sp, g);
    }
    o.push('>');
}
fn w_def(o: &mut String, d: &D, ind: usize) {
    let start = o.len();
    comment(o, &d.comment, ind);
    o.push_str(&" ".repeat(ind));
    match &d.kind {
        K::Mod(ds) => {
            o.push_str("mod ");
            at(o, &d.name_sp, &d.name);
            o.push_str(" {\n");
            ds.iter().for_each(|d| w_def(o, d, ind + 4));
            o.push_str(&format!("{:ind$}}}\n", ""));
        }
        K::Struct(f) => {
            o.push_str("struct ");
            at(o, &d.name_sp, &d.name);
            w_gens(o, d);
            w_fields(o, f, ind);
            o.push('\n');
        }
        K::Enum(vs) => {
            o.push_str("enum ");
            at(o, &d.name_sp, &d.name);
            w_gens(o, d);
            o.push_str(" {\n");
            for v in vs {
                let a = o.len();
                comment(o, &v.comment, ind + 4);
                o.push_str(&" ".repeat(ind + 4));
                at(o, &v.name_sp, &v.name);
                w_fields(o, &v.fields, ind + 4);
                if let Some(i) = v.id {
                    o.push(' ');
                    at(o, &v.id_sp, &format!("@{i}"));
                }
                v.all_sp.set((a, o.len()));
                o.push_str(",\n");
            }
            o.push_str(&format!("{:ind$}}}\n", ""));
        }
        K::Alias(t) => {
            o.push_str("type ");
            at(o, &d.name_sp, &d.name);
            w_gens(o, d);
            o.push_str(&format!(" = {};\n", t.text()));
        }
        K::Const(t, l) => {
            o.push_str("const ");
            at(o, &d.name_sp, &d.name);
            o.push_str(&format!(": {} = {l};\n", t.text()));
        }
        K::Use(segs, element) => {
            o.push_str("use ");
            for (i, s) in segs.iter().enumerate() {
                if i > 0 {
                    o.push_str("::");
                }
                at(o, &d.name_sp, s);
            }
            if *element {
                o.push_str("::");
                at(o, &d.name_sp, &d.name);
            }
            o.push_str(";\n");
        }
    }
    d.all_sp.set((start, o.len()));
}
pub fn text(defs: &[D]) -> String {
    let mut o = String::new();
    defs.iter().for_each(|d| w_def(&mut o, d, 0));
    o
}

// ---- identifiers --------------------------------------------------------------------------------
/// Identifiers by the documented counter. A count past the largest number stays there.
pub fn ids(explicit: impl Iterator<Item = Option<u32>>) -> Vec<u32> {
    let mut next = 1u64;
    explicit
        .map(|e| {
            let id = e.map_or(next, u64::from).min(u64::from(u32::MAX));
            next = id + 1;
            id as u32
        })
        .collect()
}
impl Fs {
    pub fn list(&self) -> &[F] {
        match self {
            Fs::Named(v) | Fs::Unnamed(v) => v,
            Fs::Unit => &[],
        }
    }
    pub fn ids(&self) -> Vec<u32> {
        ids(self.list().iter().map(|f| f.id))
    }
}

// ---- validation ---------------------------------------------------------------------------------
/// A violated rule: its name, the names of the offending elements and the places they stand at.
#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub rule: &'static str,
    pub names: Vec<String>,
    pub at: Vec<(usize, usize)>,
    /// The place has to lie inside of the given one, instead of being the same.
    pub inside: bool,
}
fn v(rule: &'static str, names: Vec<String>, at: Vec<(usize, usize)>) -> Viol {
    Viol { rule, names, at, inside: true }
}
pub fn validate(defs: &[D]) -> Vec<Viol> {
    let mut o = vec![];
    module_names(defs, &mut o);
    for d in defs {
        match &d.kind {
            K::Mod(ds) => o.extend(validate(ds)),
            K::Struct(f) => {
                fields(f, &mut o);
                gens(d, &tys(f), &mut o);
                tys(f).iter().for_each(|t| tuples(t, &mut o));
            }
            K::Enum(vs) => {
                let ids = ids(vs.iter().map(|v| v.id));
                for j in 0..vs.len() {
                    for i in 0..j {
                        if ids[i] == ids[j] {
                            o.push(v(
                                "variant-id",
                                vec![ids[j].to_string(), vs[j].name.clone(), vs[i].name.clone()],
                                vec![place(vs[i].id, &vs[i].id_sp, &vs[i].all_sp), place(vs[j].id, &vs[j].id_sp, &vs[j].all_sp)],
                            ));
                        }
                        if vs[i].name == vs[j].name {
                            o.push(v("variant-name", vec![vs[j].name.clone()], vec![vs[i].name_sp.get(), vs[j].name_sp.get()]));
                        }
                    }
                }
                let all: Vec<&T> = vs.iter().flat_map(|v| tys(&v.fields)).collect();
                vs.iter().for_each(|v| fields(&v.fields, &mut o));
                gens(d, &all, &mut o);
                all.iter().for_each(|t| tuples(t, &mut o));
            }
            K::Alias(t) => {
                gens(d, &[t], &mut o);
                tuples(t, &mut o);
            }
            K::Const(t, _) => tuples(t, &mut o),
            K::Use(..) => {}
        }
    }
    o
}
fn place(id: Option<u32>, id_sp: &Sp, all: &Sp) -> (usize, usize) {
    if id.is_some() {
        id_sp.get()
    } else {
        all.get()
    }
}
fn tys(f: &Fs) -> Vec<&T> {
    f.list().iter().map(|f| f.ty.as_ref().unwrap()).collect()
}
fn fields(fs: &Fs, o: &mut Vec<Viol>) {
    let ids = fs.ids();
    let l = fs.list();
    for j in 0..l.len() {
        if ids[j] == 0 || ids[j] > MAX_FIELD_ID {
            o.push(v("field-range", vec![ids[j].to_string()], vec![place(l[j].id, &l[j].id_sp, &l[j].all_sp)]));
        }
        for i in 0..j {
            if ids[i] == ids[j] {
                let at = vec![place(l[i].id, &l[i].id_sp, &l[i].all_sp), place(l[j].id, &l[j].id_sp, &l[j].all_sp)];
                if matches!(fs, Fs::Named(_)) {
                    o.push(v("field-id", vec![ids[j].to_string(), l[j].name.clone(), l[i].name.clone()], at));
                } else {
                    o.push(v("field-id", vec![ids[j].to_string(), (j + 1).to_string(), (i + 1).to_string()], at));
                }
            }
            if matches!(fs, Fs::Named(_)) && l[i].name == l[j].name {
                o.push(v("field-name", vec![l[j].name.clone()], vec![l[i].name_sp.get(), l[j].name_sp.get()]));
            }
        }
    }
}
fn gens(d: &D, tys: &[&T], o: &mut Vec<Viol>) {
    for j in 0..d.gens.len() {
        for i in 0..j {
            if d.gens[i] == d.gens[j] {
                o.push(v("generic-duplicate", vec![d.gens[j].clone()], vec![d.gen_sp[i].get(), d.gen_sp[j].get()]));
            }
        }
        let mut used = false;
        for t in tys {
            t.walk(&mut |t| {
                if let T::Ext(path, n, args) = t {
                    used |= path.is_empty() && args.is_empty() && *n == d.gens[j];
                }
            });
        }
        if !used {
            o.push(v("generic-unused", vec![d.gens[j].clone()], vec![d.gen_sp[j].get()]));
        }
    }
}
fn tuples(t: &T, o: &mut Vec<Viol>) {
    t.walk(&mut |t| {
        if let T::Tup(v) = t {
            let what = match v.len() {
                0 => "empty",
                1 => "single",
                2..=12 => return,
                _ => "large",
            };
            // the type's text identifies it
            o.push(Viol { rule: "tuple", names: vec![what.into(), t.text()], at: vec![], inside: false });
        }
    });
}
fn module_names(defs: &[D], o: &mut Vec<Viol>) {
    for j in 0..defs.len() {
        for i in 0..j {
            if defs[i].name == defs[j].name {
                o.push(v("module-name", vec![defs[j].name.clone()], vec![defs[i].name_sp.get(), defs[j].name_sp.get()]));
            }
        }
    }
}

// ---- resolution ---------------------------------------------------------------------------------
/// Whether every reference of the schemas resolves; otherwise the first thing that does not.
pub fn resolve(schemas: &[(&str, &[D])]) -> Result<(), String> {
    for (_, defs) in schemas {
        resolve_scope(schemas, defs)?;
    }
    Ok(())
}
fn find<'a>(defs: &'a [D], name: &str) -> Option<&'a D> {
    defs.iter().find(|d| d.name == name && !matches!(d.kind, K::Use(..) | K::Mod(_)))
}
fn find_mod<'a>(defs: &'a [D], path: &[String]) -> Option<&'a [D]> {
    let mut defs = defs;
    for p in path {
        defs = defs.iter().find_map(|d| match &d.kind {
            K::Mod(ds) if d.name == *p => Some(&ds[..]),
            _ => None,
        })?;
    }
    Some(defs)
}
/// Definitions that a scope's imports bring in, by the name they get.
enum Imported<'a> {
    Type(&'a D),
    Module(&'a [D]),
}
fn resolve_scope(schemas: &[(&str, &[D])], defs: &[D]) -> Result<(), String> {
    let mut imports: BTreeMap<&str, Imported> = BTreeMap::new();
    for d in defs {
        if let K::Use(segs, element) = &d.kind {
            let root = schemas.iter().find(|s| s.0 == segs[0]).ok_or(format!("schema {}", segs[0]))?.1;
            let m = find_mod(root, &segs[1..]).ok_or(format!("module {segs:?}"))?;
            let i = if *element {
                let t = find(m, &d.name).ok_or(format!("element {}", d.name))?;
                if !matches!(t.kind, K::Struct(_) | K::Enum(_)) {
                    return Err(format!("element {} is no type", d.name));
                }
                Imported::Type(t)
            } else {
                Imported::Module(m)
            };
            imports.insert(&d.name, i);
        }
    }
    let check = |gens: &[String], t: &T| -> Result<(), String> {
        let mut r = Ok(());
        t.walk(&mut |t| {
            let T::Ext(path, name, args) = t else { return };
            if path.is_empty() && args.is_empty() && gens.contains(name) {
                return;
            }
            let target = if path.is_empty() {
                find(defs, name).or_else(|| match imports.get(name.as_str()) {
                    Some(Imported::Type(d)) => Some(d),
                    _ => None,
                })
            } else {
                find_mod(defs, path)
                    .or_else(|| match imports.get(path[0].as_str()) {
                        Some(Imported::Module(m)) => find_mod(m, &path[1..]),
                        _ => None,
                    })
                    .and_then(|m| find(m, name))
            };
            let ok = target.is_some_and(|d| matches!(d.kind, K::Struct(_) | K::Enum(_)) && d.gens.len() == args.len());
            if !ok && r.is_ok() {
                r = Err(format!("reference {}", t.text()));
            }
        });
        r
    };
    for d in defs {
        match &d.kind {
            K::Mod(ds) => resolve_scope(schemas, ds)?,
            K::Struct(f) => tys(f).iter().try_for_each(|t| check(&d.gens, t))?,
            K::Enum(vs) => vs.iter().flat_map(|v| tys(&v.fields)).try_for_each(|t| check(&d.gens, t))?,
            K::Alias(t) => check(&d.gens, t)?,
            K::Const(..) | K::Use(..) => {}
        }
    }
    Ok(())
}
