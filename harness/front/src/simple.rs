//! C26: the simplified schema and its JSON form say what the schema says.
//!
//! Every accepted text of the space of C10 is simplified and rendered as JSON by the real code. The
//! JSON is read back and compared with the one that the reference parser's tree asks for, and has to
//! conform to the JSON Schema that mabo publishes for it, which has to tell apart damaged documents.
use crate::refparse;
use crate::sem;
use crate::texts::jobs;
use crate::tree::Node;
use mabo_compiler::simplify::{Definition, Fields, ParserField, Schema as Simple};
use model::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

// ---- JSON -----------------------------------------------------------------------------------------
/// Numbers keep their text, as they can have 128 bits.
#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    /// Expected number, by its bits.
    Float(u64),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
struct Reader<'a>(&'a str);
impl Reader<'_> {
    fn ws(&mut self) {
        self.0 = self.0.trim_start_matches([' ', '\n', '\r', '\t']);
    }
    fn eat(&mut self, s: &str) -> bool {
        self.ws();
        match self.0.strip_prefix(s) {
            Some(r) => {
                self.0 = r;
                true
            }
            None => false,
        }
    }
    fn need(&mut self, s: &str) -> Result<(), String> {
        if self.eat(s) { Ok(()) } else { Err(format!("no {s} before {:?}", self.0.chars().take(20).collect::<String>())) }
    }
    fn string(&mut self) -> Result<String, String> {
        self.need("\"")?;
        let mut o = String::new();
        let mut half = None;
        loop {
            let c = self.0.chars().next().ok_or("unfinished string")?;
            self.0 = &self.0[c.len_utf8()..];
            let mut unit = None;
            match c {
                '"' if half.is_none() => return Ok(o),
                '\\' => {
                    let e = self.0.chars().next().ok_or("unfinished string")?;
                    self.0 = &self.0[e.len_utf8()..];
                    match e {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        'b' => o.push('\x08'),
                        'f' => o.push('\x0c'),
                        '"' | '\\' | '/' => o.push(e),
                        'u' => {
                            let h = self.0.get(..4).ok_or("short escape")?;
                            unit = Some(u32::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                            self.0 = &self.0[4..];
                        }
                        e => return Err(format!("escape {e:?}")),
                    }
                }
                c if (c as u32) < 32 => return Err("raw control character".into()),
                c => o.push(c),
            }
            match (half.take(), unit) {
                (None, None) => {}
                (None, Some(u @ 0xd800..=0xdbff)) => half = Some(u),
                (Some(h), Some(u @ 0xdc00..=0xdfff)) => o.push(char::from_u32(0x10000 + ((h - 0xd800) << 10) + (u - 0xdc00)).ok_or("surrogates")?),
                (None, Some(u)) => o.push(char::from_u32(u).ok_or("single surrogate")?),
                _ => return Err("single surrogate".into()),
            }
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        Ok(match self.0.chars().next().ok_or("no value")? {
            '{' => {
                self.need("{")?;
                let mut m = BTreeMap::new();
                if !self.eat("}") {
                    loop {
                        let k = self.string()?;
                        self.need(":")?;
                        if m.insert(k.clone(), self.value()?).is_some() {
                            return Err(format!("{k:?} is there twice"));
                        }
                        if !self.eat(",") {
                            break self.need("}")?;
                        }
                    }
                }
                J::Obj(m)
            }
            '[' => {
                self.need("[")?;
                let mut v = vec![];
                if !self.eat("]") {
                    loop {
                        v.push(self.value()?);
                        if !self.eat(",") {
                            break self.need("]")?;
                        }
                    }
                }
                J::Arr(v)
            }
            '"' => J::Str(self.string()?),
            't' => self.need("true").map(|()| J::Bool(true))?,
            'f' => self.need("false").map(|()| J::Bool(false))?,
            'n' => self.need("null").map(|()| J::Null)?,
            _ => {
                let n: String = self.0.chars().take_while(|c| c.is_ascii_digit() || "+-.eE".contains(*c)).collect();
                self.0 = &self.0[n.len()..];
                n.parse::<f64>().map_err(|_| format!("odd number {n:?}"))?;
                J::Num(n)
            }
        })
    }
}
fn json(s: &str) -> Result<J, String> {
    let mut r = Reader(s);
    let v = r.value()?;
    r.ws();
    if r.0.is_empty() { Ok(v) } else { Err(format!("{:?} behind the value", r.0)) }
}
/// Where the value differs from the expected one.
fn differs(got: &J, want: &J, at: &str) -> Option<String> {
    let no = || Some(format!("{at}: {got:?} instead of {want:?}"));
    match (got, want) {
        (J::Num(g), J::Float(w)) => (g.parse().map(f64::to_bits) != Ok(*w) || !g.contains(['.', 'e', 'E'])).then(no).flatten(),
        (J::Arr(g), J::Arr(w)) if g.len() == w.len() => g.iter().zip(w).enumerate().find_map(|(i, (g, w))| differs(g, w, &format!("{at}/{i}"))),
        (J::Obj(g), J::Obj(w)) if g.keys().eq(w.keys()) => g.iter().find_map(|(k, g)| differs(g, &w[k], &format!("{at}/{k}"))),
        _ => (got != want).then(no).flatten(),
    }
}

// ---- expected -------------------------------------------------------------------------------------
fn obj(m: Vec<(&str, J)>) -> J {
    J::Obj(m.into_iter().map(|(k, v)| (k.to_owned(), v)).collect())
}
fn tag(t: &str, v: J) -> J {
    obj(vec![(t, v)])
}
fn s(t: &str) -> J {
    J::Str(t.to_owned())
}
fn of<'a>(n: &'a Node, k: &str) -> &'a Node {
    n.c.iter().find(|c| c.k == k).unwrap_or_else(|| give_up(&format!("no {k} in {}", n.show())))
}
fn strings(n: &Node) -> J {
    J::Arr(n.c.iter().map(|l| s(&l.t)).collect())
}
fn types(v: &[Node]) -> Vec<J> {
    v.iter().filter(|c| c.k == "ty").map(ty).collect()
}
fn ty(n: &Node) -> J {
    let name = |n: &str| n.split('_').map(|p| p[..1].to_uppercase() + &p[1..]).collect::<String>();
    match n.t.as_str() {
        "&string" => s("StringRef"),
        "&bytes" => s("BytesRef"),
        "box<string>" => s("BoxString"),
        "box<bytes>" => s("BoxBytes"),
        "hash_map" | "tuple" => tag(&name(&n.t), J::Arr(types(&n.c))),
        "array" => tag("Array", J::Arr([types(&n.c), vec![J::Num(of(n, "len").t.clone())]].concat())),
        "ext" => {
            let args = n.c.iter().find(|c| c.k == "args").map_or(vec![], |a| types(&a.c));
            tag("External", obj(vec![("path", strings(of(n, "path"))), ("name", s(&of(n, "name").t)), ("generics", J::Arr(args))]))
        }
        t if n.c.iter().any(|c| c.k == "ty") => tag(&name(t), types(&n.c).swap_remove(0)),
        t => s(&name(t)),
    }
}
fn ids<'a>(v: impl Iterator<Item = &'a Node>) -> Vec<J> {
    let explicit = v.map(|f| f.c.iter().find(|c| c.k == "id").map(|i| i.t.parse().expect("identifier")));
    sem::ids(explicit).into_iter().map(|i| J::Num(i.to_string())).collect()
}
fn fields(n: &Node) -> J {
    let kind = match n.k {
        "named" => "Named",
        "unnamed" => "Unnamed",
        _ => "Unit",
    };
    let all: Vec<&Node> = n.c.iter().filter(|c| c.k == "field").collect();
    let ids = ids(all.iter().copied());
    let list = all.iter().zip(ids).enumerate().map(|(i, (f, id))| {
        let (name, comment) = if n.k == "named" { (of(f, "name").t.clone(), strings(of(f, "comment"))) } else { (format!("n{i}"), J::Arr(vec![])) };
        obj(vec![("comment", comment), ("name", J::Str(name)), ("ty", ty(of(f, "ty"))), ("id", id)])
    });
    obj(vec![("fields", J::Arr(list.collect())), ("kind", s(kind))])
}
fn any_fields(n: &Node) -> J {
    fields(n.c.iter().find(|c| ["named", "unnamed", "nofields"].contains(&c.k)).unwrap_or_else(|| give_up(&format!("no fields in {}", n.show()))))
}
fn literal(n: &Node) -> J {
    match n.k {
        "bool" => tag("Bool", J::Bool(n.t == "true")),
        "int" => tag("Int", J::Num(n.t.clone())),
        "float" => tag("Float", J::Float(u64::from_str_radix(&n.t, 16).expect("bits"))),
        "string" => tag("String", s(&n.t)),
        _ => tag("Bytes", J::Arr(n.t.split_whitespace().map(|b| J::Num(b.to_owned())).collect())),
    }
}
fn definition(n: &Node) -> J {
    let comment = || ("comment", strings(of(n, "comment")));
    let name = || ("name", s(&of(n, "name").t));
    let generics = || ("generics", strings(of(n, "generics")));
    match n.k {
        "mod" => tag("Module", obj(vec![comment(), name(), ("definitions", definitions(n))])),
        "struct" => tag("Struct", obj(vec![comment(), name(), generics(), ("fields", any_fields(n))])),
        "enum" => {
            let all: Vec<&Node> = of(n, "variants").c.iter().filter(|c| c.k == "variant").collect();
            let ids = ids(all.iter().copied());
            let list = all.iter().zip(ids).map(|(v, id)| obj(vec![("comment", strings(of(v, "comment"))), ("name", s(&of(v, "name").t)), ("fields", any_fields(v)), ("id", id)]));
            tag("Enum", obj(vec![comment(), name(), generics(), ("variants", J::Arr(list.collect()))]))
        }
        "alias" => tag("TypeAlias", obj(vec![comment(), name(), generics(), ("target", ty(of(n, "ty")))])),
        "const" => {
            let lit = n.c.iter().find(|c| ["bool", "int", "float", "string", "bytes"].contains(&c.k)).unwrap_or_else(|| give_up(&n.show()));
            tag("Const", obj(vec![comment(), name(), ("ty", ty(of(n, "ty"))), ("value", literal(lit))]))
        }
        _ => {
            let element = of(n, "element").c.iter().find(|c| c.k == "name").map_or(J::Null, |e| s(&e.t));
            tag("Import", obj(vec![("segments", strings(of(n, "segments"))), ("element", element)]))
        }
    }
}
fn definitions(n: &Node) -> J {
    J::Arr(of(n, "defs").c.iter().map(definition).collect())
}
/// The JSON form of the schema, by the reference parser's tree without locations and punctuation.
fn expected(n: &Node) -> J {
    obj(vec![("comment", strings(of(n, "comment"))), ("definitions", definitions(n))])
}

// ---- JSON Schema ----------------------------------------------------------------------------------
struct Published(J);
impl Published {
    fn get<'a>(&'a self, sc: &'a J, k: &str) -> Option<&'a J> {
        match sc {
            J::Obj(m) => m.get(k),
            _ => None,
        }
    }
    /// Whether the value conforms. Keys that the schema does not mention do not.
    fn valid(&self, v: &J, sc: &J) -> Result<(), String> {
        if let J::Bool(b) = sc {
            return if *b { Ok(()) } else { Err("nothing is allowed here".into()) };
        }
        if let Some(J::Str(r)) = self.get(sc, "$ref") {
            let mut to = &self.0;
            for k in r.strip_prefix("#").ok_or("foreign reference")?.split('/').skip(1) {
                to = self.get(to, k).ok_or_else(|| format!("reference to nothing {r}"))?;
            }
            self.valid(v, to)?;
        }
        if let Some(t) = self.get(sc, "type") {
            let is = |t: &J| match t {
                J::Str(t) => match (t.as_str(), v) {
                    ("null", J::Null) | ("boolean", J::Bool(_)) | ("string", J::Str(_)) | ("array", J::Arr(_)) | ("object", J::Obj(_)) | ("number", J::Num(_)) => true,
                    ("integer", J::Num(n)) => !n.contains(['.', 'e', 'E']),
                    _ => false,
                },
                _ => false,
            };
            let ok = match t {
                J::Arr(v) => v.iter().any(is),
                t => is(t),
            };
            if !ok {
                return Err("has another type".into());
            }
        }
        if let Some(c) = self.get(sc, "const") {
            if c != v {
                return Err("is another constant".into());
            }
        }
        if let Some(J::Arr(e)) = self.get(sc, "enum") {
            if !e.contains(v) {
                return Err("is none of the listed values".into());
            }
        }
        for k in ["oneOf", "anyOf", "allOf"] {
            if let Some(J::Arr(alts)) = self.get(sc, k) {
                let n = alts.iter().filter(|a| self.valid(v, a).is_ok()).count();
                let ok = match k {
                    "oneOf" => n == 1,
                    "anyOf" => n > 0,
                    _ => n == alts.len(),
                };
                if !ok {
                    return Err(format!("{k}: {n} of {} alternatives apply", alts.len()));
                }
            }
        }
        match v {
            J::Num(n) => {
                for (k, less) in [("minimum", true), ("maximum", false)] {
                    if let Some(J::Num(b)) = self.get(sc, k) {
                        let (n, b): (f64, f64) = (n.parse().unwrap(), b.parse().unwrap());
                        if if less { n < b } else { n > b } {
                            return Err(format!("{n} is beyond {b}"));
                        }
                    }
                }
            }
            J::Arr(v) => {
                let none = vec![];
                let pre = match self.get(sc, "prefixItems") {
                    Some(J::Arr(p)) => p,
                    _ => &none,
                };
                for (x, sc) in v.iter().zip(pre) {
                    self.valid(x, sc)?;
                }
                if let Some(items) = self.get(sc, "items") {
                    v.iter().skip(pre.len()).try_for_each(|x| self.valid(x, items))?;
                }
                for (k, less) in [("minItems", true), ("maxItems", false)] {
                    if let Some(J::Num(b)) = self.get(sc, k) {
                        let b: usize = b.parse().unwrap();
                        if if less { v.len() < b } else { v.len() > b } {
                            return Err(format!("{} items", v.len()));
                        }
                    }
                }
            }
            J::Obj(m) => {
                if let Some(J::Obj(p)) = self.get(sc, "properties") {
                    for (k, x) in m {
                        match p.get(k) {
                            Some(sc) => self.valid(x, sc)?,
                            None => return Err(format!("{k:?} is not documented")),
                        }
                    }
                }
                if let Some(J::Arr(r)) = self.get(sc, "required") {
                    for k in r {
                        if !matches!(k, J::Str(k) if m.contains_key(k)) {
                            return Err(format!("{k:?} is missing"));
                        }
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
/// The document without the contents of its strings and numbers.
fn shape(v: &J, o: &mut String) {
    match v {
        J::Arr(v) => {
            o.push('[');
            v.iter().for_each(|v| shape(v, o));
            o.push(']');
        }
        J::Obj(m) => {
            o.push('{');
            for (k, v) in m {
                o.push_str(k);
                shape(v, o);
            }
            o.push('}');
        }
        J::Str(s) if s.starts_with(|c: char| c.is_ascii_uppercase()) => o.push_str(s),
        J::Null => o.push('0'),
        _ => o.push('1'),
    }
}
/// All ways to damage one place of the document, with what was done.
fn damaged(v: &J, root: &J, path: &mut Vec<Step>, f: &mut dyn FnMut(J, String)) {
    let at = |path: &[Step]| path.iter().map(|s| match s { Step::Key(k) => format!("/{k}"), Step::At(i) => format!("/{i}") }).collect::<String>();
    // a value of a kind that is possible nowhere
    let mut d = root.clone();
    *place(&mut d, path) = J::Obj(BTreeMap::from([("odd".to_owned(), J::Null)]));
    f(d, format!("{} replaced", at(path)));
    match v {
        J::Arr(x) => {
            for (i, x) in x.iter().enumerate() {
                path.push(Step::At(i));
                damaged(x, root, path, f);
                path.pop();
            }
        }
        J::Obj(m) => {
            for (k, x) in m {
                // no element is the same as none
                if k != "element" {
                    let mut d = root.clone();
                    if let J::Obj(m) = place(&mut d, path) {
                        m.remove(k);
                    }
                    f(d, format!("{}/{k} removed", at(path)));
                }
                path.push(Step::Key(k.clone()));
                damaged(x, root, path, f);
                path.pop();
            }
        }
        _ => {}
    }
}
enum Step {
    Key(String),
    At(usize),
}
fn place<'a>(v: &'a mut J, path: &[Step]) -> &'a mut J {
    path.iter().fold(v, |v, s| match (v, s) {
        (J::Obj(m), Step::Key(k)) => m.get_mut(k).unwrap(),
        (J::Arr(a), Step::At(i)) => &mut a[*i],
        _ => unreachable!(),
    })
}

// ---- links back to the parsed schema --------------------------------------------------------------
fn linked_fields(f: &Fields, p: &mabo_parser::Fields) -> bool {
    let each = f.fields.iter().map(|f| &f.source);
    std::ptr::eq(f.source, p)
        && match p {
            mabo_parser::Fields::Named(_, l) => l.values().zip(each).all(|(p, s)| matches!(s, ParserField::Named(s) if std::ptr::eq(*s, p))),
            mabo_parser::Fields::Unnamed(_, l) => l.values().zip(each).all(|(p, s)| matches!(s, ParserField::Unnamed(s) if std::ptr::eq(*s, p))),
            mabo_parser::Fields::Unit => true,
        }
}
fn linked(defs: &[Definition], parsed: &[mabo_parser::Definition]) -> bool {
    use mabo_parser::Definition as P;
    defs.len() == parsed.len()
        && defs.iter().zip(parsed).all(|d| match d {
            (Definition::Module(m), P::Module(p)) => std::ptr::eq(m.source, p) && linked(&m.definitions, &p.definitions),
            (Definition::Struct(x), P::Struct(p)) => std::ptr::eq(x.source, p) && linked_fields(&x.fields, &p.fields),
            (Definition::Enum(x), P::Enum(p)) => std::ptr::eq(x.source, p) && x.variants.iter().zip(p.variants.values()).all(|(v, p)| std::ptr::eq(v.source, p) && linked_fields(&v.fields, &p.fields)),
            (Definition::TypeAlias(x), P::TypeAlias(p)) => std::ptr::eq(x.source, p),
            (Definition::Const(x), P::Const(p)) => std::ptr::eq(x.source, p),
            (Definition::Import(x), P::Import(p)) => std::ptr::eq(x.source, p),
            _ => false,
        })
}

// ---- check ----------------------------------------------------------------------------------------
fn one(text: &str, damage: bool, published: &Published, st: &mut Stats) {
    let Ok(parsed) = mabo_parser::Schema::parse(text, None) else { return };
    let Some(tree) = refparse::parse(text).0 else { return };
    st.states += 1;
    st.transitions += 3;
    st.traces += 1;
    let simple: Simple = match quiet(|| mabo_compiler::simplify_schema(&parsed)) {
        Ok(s) => s,
        Err(p) => return st.violation(format!("simplifying panicked: {p}"), || format!("{text:?}")),
    };
    if !(std::ptr::eq(simple.source, &parsed) && linked(&simple.definitions, &parsed.definitions)) {
        return st.violation("an element is linked to another one of the parsed schema", || format!("{text:?}\n{text}"));
    }
    let out = match quiet(|| serde_json::to_string(&simple)) {
        Ok(Ok(o)) => o,
        Ok(Err(e)) => return st.violation(format!("no JSON: {e}"), || format!("{text:?}\n{text}")),
        Err(p) => return st.violation(format!("rendering the JSON panicked: {p}"), || format!("{text:?}")),
    };
    let got = match json(&out) {
        Ok(j) => j,
        Err(e) => return st.violation(format!("invalid JSON: {e}"), || format!("{text:?}\n{out}")),
    };
    if let Some(d) = differs(&got, &expected(&tree.bare()), "") {
        return st.violation(format!("another content: {}", d.chars().take(120).collect::<String>()), || format!("{text:?}\n{text}\n{out}\n{d}"));
    }
    if let Err(e) = published.valid(&got, &published.0) {
        return st.violation(format!("the JSON does not conform to its schema: {}", e.chars().take(120).collect::<String>()), || format!("{text:?}\n{text}\n{out}\n{e}"));
    }
    let new = || {
        static SEEN: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
        let mut o = String::new();
        shape(&got, &mut o);
        SEEN.lock().expect("lock").insert(o)
    };
    if damage && new() {
        let mut bad = None;
        damaged(&got, &got, &mut vec![], &mut |d, what| {
            st.transitions += 1;
            st.count("damaged_documents", 1);
            if published.valid(&d, &published.0).is_ok() {
                bad.get_or_insert(what);
            }
        });
        if let Some(b) = bad {
            st.violation(format!("the published schema permits a damaged document: {b}"), || format!("{text:?}\n{text}\n{out}\n{b}"));
        }
    }
}
fn published() -> Result<Published, String> {
    let run = || quiet(Simple::json_schema).map_err(|p| format!("panicked: {p}"))?.map_err(|e| e.to_string());
    let text = run()?;
    if text != run()? {
        return Err("differs from run to run".into());
    }
    Ok(Published(json(&text)?))
}
pub fn c26() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C26");
    let p = match published() {
        Ok(p) => p,
        Err(e) => {
            rep.stats.violation(format!("the published schema: {e}"), || e.clone());
            return rep.finish();
        }
    };
    let mut js = jobs(th);
    // the larger schemas of the generators' checks
    let more = crate::docs::cases(th).into_iter().flat_map(|c| c.schemas).map(|s| crate::texts::Job::Sentence(sem::text(&s.1), false));
    js.extend(more);
    let s = parallel(&js, |j, st| {
        let mut n = 0;
        j.each(th, &mut |t| {
            n += 1;
            one(t, n == 1 && t.len() < 600, &p, st);
        });
        st.sample(|| j.describe());
    });
    rep.stats.merge(s);
    rep.note("bounds", "every accepted text of the space of C10 and the schemas of C22; one document of every structure among the first ones of the jobs, with every single place damaged".to_string());
    rep.finish()
}
