//! C24: what the resolver says about a set of schemas that does not resolve. For every element that
//! does not resolve there is a set of true reports; the one that is given has to be one of them.
use crate::conv;
use crate::tree::Node;
use mabo_compiler::resolve::{self, ResolveError, ResolveImport, ResolveLocal, ResolveRemote};
use mabo_parser::Schema;
use miette::{Diagnostic, SourceCode};
use model::report::Stats;
use std::collections::BTreeSet;

/// File and place.
type At = (String, usize, usize);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Fault {
    /// What is wrong and the names or numbers that describe it.
    what: (&'static str, Vec<String>),
    at: BTreeSet<At>,
}

// ---- the reference --------------------------------------------------------------------------------
struct Scope<'a> {
    /// Name of the schema, then of the modules.
    path: Vec<&'a str>,
    defs: &'a [Node],
}
impl<'a> Scope<'a> {
    fn at(&self, n: &Node) -> At {
        let (a, b) = n.sp.unwrap();
        (format!("{}.mabo", self.path[0]), a, b)
    }
    fn module(&self, name: &str) -> Option<Scope<'a>> {
        let d = self.defs.iter().find(|d| d.k == "mod" && d.c[3].t == name)?;
        let mut path = self.path.clone();
        path.push(&d.c[3].t);
        Some(Scope { path, defs: &d.c[5].c })
    }
    fn item(&self, name: &str) -> Option<&'a Node> {
        self.defs.iter().find(|d| matches!(d.k, "struct" | "enum" | "alias" | "const") && d.c[3].t == name)
    }
    fn name(&self) -> String {
        self.path.join("::")
    }
}
fn number(d: &Node) -> usize {
    d.c[4].c.iter().filter(|c| c.k == "name").count()
}
/// The first module that is missing on the way, or the last one.
fn descend<'a>(mut s: Scope<'a>, names: &[&Node], at: impl Fn(&Node) -> At) -> Result<Scope<'a>, Fault> {
    for n in names {
        s = match s.module(&n.t) {
            Some(s) => s,
            None => return Err(Fault { what: ("no module", vec![n.t.clone(), s.name()]), at: [at(n)].into() }),
        };
    }
    Ok(s)
}
enum Bound<'a> {
    Type(Scope<'a>, &'a Node),
    Module(Scope<'a>),
    Broken,
}
pub fn faults<'a>(schemas: &'a [(&'a str, Node)]) -> BTreeSet<Fault> {
    let mut o = BTreeSet::new();
    for (n, s) in schemas {
        scope(schemas, Scope { path: vec![n], defs: &s.c[1].c }, &mut o);
    }
    o
}
fn scope<'a>(schemas: &'a [(&'a str, Node)], s: Scope<'a>, o: &mut BTreeSet<Fault>) {
    let mut bound: Vec<(&str, Bound)> = vec![];
    for d in s.defs.iter().filter(|d| d.k == "import") {
        let segs: Vec<&Node> = d.c[4].c.iter().collect();
        let element = d.c[5].c.get(1);
        let r = (|| {
            let Some((n, root)) = schemas.iter().find(|x| x.0 == segs[0].t) else {
                return Err(Fault { what: ("no schema", vec![segs[0].t.clone()]), at: [s.at(segs[0])].into() });
            };
            let m = descend(Scope { path: vec![n], defs: &root.c[1].c }, &segs[1..], |n| s.at(n))?;
            let Some(e) = element else { return Ok(Bound::Module(m)) };
            match m.item(&e.t) {
                None => Err(Fault { what: ("no definition", vec![e.t.clone(), m.name()]), at: [s.at(e)].into() }),
                Some(t) if matches!(t.k, "alias" | "const") => {
                    Err(Fault { what: ("kind", vec![t.k.into()]), at: [s.at(e), m.at(&t.c[3])].into() })
                }
                Some(t) => Ok(Bound::Type(m, t)),
            }
        })();
        let name = element.map_or_else(|| &segs[segs.len() - 1].t, |e| &e.t);
        bound.push((name, r.unwrap_or_else(|f| { o.insert(f); Bound::Broken })));
    }
    for d in s.defs {
        let gens: Vec<&str> = match d.k {
            "struct" | "enum" | "alias" => d.c[4].c.iter().filter(|c| c.k == "name").map(|c| &c.t[..]).collect(),
            _ => vec![],
        };
        match d.k {
            "mod" => scope(schemas, s.module(&d.c[3].t).unwrap(), o),
            "struct" | "enum" | "alias" => d.walk(&mut |t| {
                if t.k == "ty" && t.t == "ext" {
                    reference(&s, &bound, &gens, t, o);
                }
            }),
            _ => {}
        }
    }
}
fn reference(s: &Scope, bound: &[(&str, Bound)], gens: &[&str], t: &Node, o: &mut BTreeSet<Fault>) {
    let path: Vec<&Node> = t.c[0].c.iter().filter(|c| c.k == "name").collect();
    let name = &t.c[1];
    let args = t.c.get(2).map(|a| a.c.iter().filter(|c| c.k == "ty").count());
    if path.is_empty() && args.is_none() && gens.contains(&&name.t[..]) {
        return;
    }
    let args = args.unwrap_or(0);
    let at = s.at(name);
    let item = |m: &Scope, d: Option<&Node>, o: &mut BTreeSet<Fault>| match d {
        None => {
            o.insert(Fault { what: ("no definition", vec![name.t.clone(), m.name()]), at: [at.clone()].into() });
        }
        Some(d) if matches!(d.k, "alias" | "const") => {
            o.insert(Fault { what: ("kind", vec![d.k.into()]), at: [at.clone(), m.at(&d.c[3])].into() });
        }
        Some(d) if number(d) != args => {
            o.insert(Fault {
                what: ("generics", vec![number(d).to_string(), args.to_string()]),
                at: [at.clone(), m.at(&d.c[3])].into(),
            });
        }
        Some(_) => {}
    };
    let full: String = path.iter().map(|p| format!("{}::", p.t)).collect::<String>() + &name.t;
    let no_import = Fault { what: ("no import", vec![full]), at: [at.clone()].into() };
    let import = |n: &str| bound.iter().find(|b| b.0 == n).map(|b| &b.1);
    let Some(first) = path.first() else {
        match (s.item(&name.t), import(&name.t)) {
            (Some(d), _) => item(s, Some(d), o),
            (None, Some(Bound::Type(m, d))) => item(m, Some(*d), o),
            _ => {
                item(s, None, o);
                o.insert(no_import);
            }
        }
        return;
    };
    // the rest of the path is looked up where its start leads to
    let m = match (s.module(&first.t), import(&first.t)) {
        (Some(m), _) => m,
        (None, Some(Bound::Module(m))) => Scope { path: m.path.clone(), defs: m.defs },
        _ => {
            o.insert(Fault { what: ("no module", vec![first.t.clone(), s.name()]), at: [at.clone()].into() });
            o.insert(no_import);
            return;
        }
    };
    match descend(m, &path[1..], |_| at.clone()) {
        Ok(m) => item(&m, m.item(&name.t), o),
        Err(f) => {
            o.insert(f);
        }
    }
}

// ---- what is reported -----------------------------------------------------------------------------
fn places(d: &dyn Diagnostic, outer: Option<&dyn SourceCode>, texts: &[(String, &String)], o: &mut BTreeSet<At>) -> Result<(), String> {
    let src = d.source_code().or(outer);
    for l in d.labels().into_iter().flatten() {
        let src = src.ok_or("a label without a source text")?;
        let got = src.read_span(l.inner(), 0, 0).map_err(|e| format!("a label outside of its source text: {e}"))?;
        let file = got.name().ok_or("a source text without a name")?.to_owned();
        let (a, b) = (l.offset(), l.offset() + l.len());
        let text = texts.iter().find(|t| t.0 == file).ok_or_else(|| format!("a label in the unknown file {file}"))?.1;
        if text.as_bytes().get(a..b) != Some(got.data()) {
            return Err(format!("the source text shown for {file} is not that of the file"));
        }
        if l.label().is_none_or(str::is_empty) {
            return Err("a label without text".into());
        }
        o.insert((file, a, b));
    }
    for r in d.related().into_iter().flatten() {
        places(r, src, texts, o)?;
    }
    if let Some(r) = d.diagnostic_source() {
        places(r, src, texts, o)?;
    }
    Ok(())
}
fn kind(k: &str) -> Vec<String> {
    vec![if k.contains("alias") { "alias".into() } else if k.contains("const") { "const".into() } else { k.to_owned() }]
}
fn what(e: &ResolveError) -> (&'static str, Vec<String>) {
    let s = |x: &String| x.clone();
    let missing_module = |e: &resolve::MissingModule| ("no module", vec![s(&e.name), s(&e.path)]);
    let missing_definition = |e: &resolve::MissingDefinition| ("no definition", vec![s(&e.name), s(&e.path)]);
    match e {
        ResolveError::Local(e) => match &**e {
            ResolveLocal::MissingModule(e) => missing_module(e),
            ResolveLocal::MissingDefinition(e) => missing_definition(e),
            ResolveLocal::GenericsCount(e) => ("generics", vec![e.definition.to_string(), e.usage.to_string()]),
            ResolveLocal::InvalidKind(e) => ("kind", kind(e.kind)),
        },
        ResolveError::Import(e) => match &**e {
            ResolveImport::MissingSchema(e) => ("no schema", vec![s(&e.name)]),
            ResolveImport::MissingModule(e) => missing_module(e),
            ResolveImport::MissingDefinition(e) => missing_definition(e),
            ResolveImport::InvalidKind(e) => ("kind", kind(e.kind)),
        },
        ResolveError::Remote(e) => match &**e {
            ResolveRemote::MissingImport(e) => ("no import", vec![s(&e.ty)]),
            ResolveRemote::MissingModule(e) => missing_module(e),
            ResolveRemote::MissingDefinition(e) => missing_definition(e),
            ResolveRemote::GenericsCount(e) => ("generics", vec![e.declaration[0].amount.to_string(), e.amount.to_string()]),
            ResolveRemote::InvalidKind(e) => ("kind", kind(e.kind)),
        },
    }
}
/// `texts` are named like the files they were read from.
pub fn judge(schemas: &[(&str, &Schema)], texts: &[(String, &String)], e: &resolve::Error, st: &mut Stats) {
    let detail = || texts.iter().map(|(n, t)| format!("// {n}\n{t}\n")).collect::<String>();
    let nodes: Vec<(&str, Node)> = schemas.iter().map(|(n, s)| (*n, conv::schema(s))).collect();
    let want = faults(&nodes);
    if want.is_empty() {
        // judged by C13
        return st.count("nothing_wrong", 1);
    }
    let what = what(&e.cause);
    let mut at = BTreeSet::new();
    if let Err(p) = places(e, None, texts, &mut at) {
        return st.violation(p, || format!("{what:?}\n{}", detail()));
    }
    st.count(what.0, 1);
    // where the error is reported is the file it stands in
    let got = Fault { what, at };
    if !want.contains(&got) {
        st.violation("the error does not describe what is wrong", || format!("reported {got:?}\nexpected one of {want:#?}\n{}", detail()));
        return;
    }
    // messages name what is missing
    let mut text = e.cause.to_string();
    let mut cause: Option<&dyn std::error::Error> = std::error::Error::source(&e.cause);
    while let Some(c) = cause {
        text += &format!("\n{c}");
        cause = c.source();
    }
    if let Ok(r) = crate::parsing::render(e) {
        text += &r;
    }
    if got.what.0.starts_with("no ") && !text.contains(&got.what.1[0]) {
        st.violation("the message does not name what is missing", || format!("{text}\n{}", detail()));
    }
}
