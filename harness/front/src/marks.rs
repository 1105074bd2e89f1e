//! C19: tokens, symbols and hovers of the language server stand where the elements of the text are.
//!
//! Every document is built from pieces, so that the place of each element is known without parsing.
use crate::lsp::*;
use crate::sem::*;
use model::report::{parallel, thorough, Report, Stats};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::Mutex;

type Tok = (&'static str, &'static [&'static str]);
struct Piece {
    text: String,
    tok: Option<Tok>,
    /// What stands in front of it in the usual layout.
    sep: &'static str,
}
struct Sym {
    name: String,
    kind: u64,
    from: usize,
    to: usize,
    kids: Vec<Sym>,
}
struct Hov {
    piece: usize,
    comment: Vec<String>,
    next: Option<u32>,
    size: Option<T>,
}
#[derive(Default)]
struct Doc {
    pieces: Vec<Piece>,
    syms: Vec<Sym>,
    hovs: Vec<Hov>,
}

const DECL: &[&str] = &["declaration"];
impl Doc {
    fn put(&mut self, sep: &'static str, text: &str, tok: Option<Tok>) -> usize {
        self.pieces.push(Piece { text: text.to_owned(), tok, sep });
        self.pieces.len() - 1
    }
    fn k(&mut self, sep: &'static str, text: &str, kind: &'static str) -> usize {
        self.put(sep, text, Some((kind, &[])))
    }
    fn comment(&mut self, c: &[String]) {
        for l in c {
            let t = if l.is_empty() { "///".to_owned() } else { format!("/// {l}") };
            self.put("\n", &t, Some(("comment", &["documentation"])));
        }
    }
    fn list<X>(&mut self, v: &[X], mut f: impl FnMut(&mut Self, &X, &'static str)) {
        for (i, x) in v.iter().enumerate() {
            if i > 0 {
                self.k("", ",", "comma");
            }
            f(self, x, if i > 0 { " " } else { "" });
        }
    }
    fn ty(&mut self, sep: &'static str, t: &T) {
        let one = |s: &mut Self, name: &str, t: &T| {
            s.k(sep, name, "builtinType");
            s.k("", "<", "angle");
            s.ty("", t);
            s.k("", ">", "angle");
        };
        match t {
            T::P(n) => {
                self.k(sep, n, "builtinType");
            }
            T::Vec(t) => one(self, "vec", t),
            T::Set(t) => one(self, "hash_set", t),
            T::Opt(t) => one(self, "option", t),
            T::Nz(t) => one(self, "non_zero", t),
            T::Map(k, v) => {
                self.k(sep, "hash_map", "builtinType");
                self.k("", "<", "angle");
                self.ty("", k);
                self.k("", ",", "comma");
                self.ty(" ", v);
                self.k("", ">", "angle");
            }
            T::Tup(v) => {
                self.k(sep, "(", "parenthesis");
                self.list(v, |s, t, sep| s.ty(sep, t));
                self.k("", ")", "parenthesis");
            }
            T::Arr(t, n) => {
                self.k(sep, "[", "bracket");
                self.ty("", t);
                self.k("", ";", "semicolon");
                self.put(" ", &n.to_string(), None);
                self.k("", "]", "bracket");
            }
            T::Ext(path, n, args) => {
                let mut sep = sep;
                for p in path {
                    self.k(sep, p, "namespace");
                    self.k("", "::", "doubleColon");
                    sep = "";
                }
                self.k(sep, n, "type");
                if !args.is_empty() {
                    self.k("", "<", "angle");
                    self.list(args, |s, t, sep| s.ty(sep, t));
                    self.k("", ">", "angle");
                }
            }
        }
    }
    fn id(&mut self, id: Option<u32>) {
        if let Some(i) = id {
            self.k(" ", &format!("@{i}"), "identifier");
        }
    }
    fn fields(&mut self, f: &Fs) -> Vec<Sym> {
        let mut syms = vec![];
        match f {
            Fs::Unit => {}
            Fs::Named(v) => {
                self.k(" ", "{", "brace");
                for (i, f) in v.iter().enumerate() {
                    if i > 0 {
                        self.k("", ",", "comma");
                    }
                    self.comment(&f.comment);
                    let n = self.put("\n", &f.name, Some(("property", DECL)));
                    syms.push(Sym { name: f.name.clone(), kind: 7, from: n, to: n, kids: vec![] });
                    let t = f.ty.clone().expect("type");
                    self.k("", ":", "colon");
                    self.ty(" ", &t);
                    self.id(f.id);
                    self.hovs.push(Hov { piece: n, comment: f.comment.clone(), next: None, size: Some(t) });
                }
                self.k("\n", "}", "brace");
            }
            Fs::Unnamed(v) => {
                self.k("", "(", "parenthesis");
                self.list(v, |s, f, sep| {
                    let from = s.pieces.len();
                    s.ty(sep, f.ty.as_ref().expect("type"));
                    s.id(f.id);
                    syms.push(Sym { name: syms.len().to_string(), kind: 7, from, to: s.pieces.len() - 1, kids: vec![] });
                });
                self.k("", ")", "parenthesis");
            }
        }
        syms
    }
    fn next(f: &Fs) -> Option<u32> {
        (!matches!(f, Fs::Unit)).then(|| f.ids().into_iter().max().unwrap_or(0) + 1)
    }
    /// `attr`: text of an attribute in front of it.
    fn def(&mut self, d: &D, attr: &str) -> Sym {
        self.comment(&d.comment);
        let mut sep = "\n";
        if !attr.is_empty() {
            self.put("\n", attr, None);
            sep = " ";
        }
        let (word, tok, kind): (_, Tok, _) = match &d.kind {
            K::Mod(_) => ("mod", ("namespace", DECL), 2),
            K::Struct(_) => ("struct", ("struct", DECL), 23),
            K::Enum(_) => ("enum", ("enum", DECL), 10),
            K::Alias(_) => ("type", ("typeAlias", DECL), 13),
            K::Const(..) => ("const", ("variable", &["declaration", "static", "constant"]), 14),
            K::Use(segs, element) => {
                self.k(sep, "use", "keyword");
                let from = self.pieces.len();
                for (i, s) in segs.iter().enumerate() {
                    if i > 0 {
                        self.put("", "::", None);
                    }
                    self.k(if i > 0 { "" } else { " " }, s, "namespace");
                }
                let mut name = segs.join("::");
                if *element {
                    self.k("", "::", "doubleColon");
                    self.k("", &d.name, "type");
                    name = format!("{name}::{}", d.name);
                }
                let to = self.pieces.len() - 1;
                self.put("", ";", None);
                return Sym { name, kind: 1, from, to, kids: vec![] };
            }
        };
        self.k(sep, word, "keyword");
        let n = self.put(" ", &d.name, Some(tok));
        let mut hov = Hov { piece: n, comment: d.comment.clone(), next: None, size: None };
        if !d.gens.is_empty() {
            self.put("", "<", None);
            self.list(&d.gens, |s, g, sep| {
                s.put(sep, g, Some(("typeParameter", DECL)));
            });
            self.put("", ">", None);
        }
        let mut kids = vec![];
        match &d.kind {
            K::Mod(ds) => {
                self.k(" ", "{", "brace");
                kids = ds.iter().map(|d| self.def(d, "")).collect();
                self.k("\n", "}", "brace");
            }
            K::Struct(f) => {
                hov.next = Self::next(f);
                kids = self.fields(f);
            }
            K::Enum(vs) => {
                hov.next = Some(ids(vs.iter().map(|v| v.id)).into_iter().max().unwrap_or(0) + 1);
                self.k(" ", "{", "brace");
                for (i, v) in vs.iter().enumerate() {
                    if i > 0 {
                        self.k("", ",", "comma");
                    }
                    self.comment(&v.comment);
                    let n = self.put("\n", &v.name, Some(("enumMember", DECL)));
                    let k = self.fields(&v.fields);
                    self.id(v.id);
                    kids.push(Sym { name: v.name.clone(), kind: 22, from: n, to: n, kids: k });
                    self.hovs.push(Hov { piece: n, comment: v.comment.clone(), next: Self::next(&v.fields), size: None });
                }
                self.k("\n", "}", "brace");
            }
            K::Alias(t) => {
                self.k(" ", "=", "equal");
                self.ty(" ", t);
                self.k("", ";", "semicolon");
            }
            K::Const(t, l) => {
                self.k("", ":", "colon");
                self.ty(" ", t);
                self.k(" ", "=", "equal");
                let kind = match l.as_bytes()[0] {
                    b't' | b'f' => Some("boolean"),
                    b'"' | b'[' => None,
                    _ => Some("number"),
                };
                self.put(" ", l, kind.map(|k| (k, &[][..])));
                self.k("", ";", "semicolon");
            }
            K::Use(..) => unreachable!(),
        }
        self.hovs.push(hov);
        Sym { name: d.name.clone(), kind, from: n, to: n, kids }
    }
    fn of(head: &[&str], defs: &[D], attrs: &[&str]) -> Doc {
        let mut d = Doc::default();
        if !head.is_empty() {
            d.comment(&head.iter().map(|s| s.to_string()).collect::<Vec<_>>());
            d.put("\n", "", None);
        }
        for (i, x) in defs.iter().enumerate() {
            let s = d.def(x, attrs.get(i).unwrap_or(&""));
            d.syms.push(s);
        }
        d
    }
    /// Text and places of the pieces, with other separators where `f` has any.
    fn text(&self, end: &str, f: &dyn Fn(usize) -> Option<&'static str>) -> (String, Vec<(usize, usize)>) {
        let mut o = String::new();
        let mut at = vec![];
        for (i, p) in self.pieces.iter().enumerate() {
            let after_comment = i > 0 && self.pieces[i - 1].text.starts_with("///");
            // the empty line behind the comment of the whole document stays empty
            let blank = p.text.is_empty() || i > 0 && self.pieces[i - 1].text.is_empty();
            let sep = if blank { "\n" } else { f(i).unwrap_or(if i == 0 { "" } else { p.sep }) };
            if after_comment && !sep.contains('\n') {
                o.push_str(end);
            }
            // an empty line behind a comment would turn it into the one of the whole document
            let sep = if after_comment && !blank { sep.strip_prefix("\n\n").map_or(sep, |_| "\n  ") } else { sep };
            o.push_str(&sep.replace('\n', end));
            at.push((o.len(), o.len() + p.text.len()));
            o.push_str(&p.text);
        }
        (o, at)
    }
    /// All layouts of the document that the grammar permits.
    fn layouts(&self, single: bool) -> Vec<(String, Vec<(usize, usize)>)> {
        let mut v = vec![self.text("\n", &|_| None), self.text("\r\n", &|_| None)];
        let ok = |t: &str| crate::refparse::parse(t).0.is_some();
        if !ok(&v[0].0) {
            model::report::give_up(&format!("the document is not valid: {:?}", v[0].0));
        }
        // where more space is possible
        let free: Vec<bool> = (0..self.pieces.len()).map(|i| ok(&self.text("\n", &|k| (k == i).then_some("\n")).0)).collect();
        for s in ["\n", "\t", " ", "\n\n  "] {
            v.push(self.text("\n", &|i| free[i].then_some(s)));
        }
        v.push(self.text("\r\n", &|i| free[i].then_some("\n")));
        // everything on one line, as far as that is possible
        v.push(self.text("\n", &|i| (free[i] && self.pieces[i].sep == "\n").then_some(" ")));
        if single {
            for i in 0..free.len() {
                if free[i] {
                    v.push(self.text("\n", &|k| (k == i).then_some("\n")));
                    v.push(self.text("\n", &|k| (k == i).then_some("  ")));
                }
            }
        }
        v.retain(|(t, _)| ok(t));
        v.sort();
        v.dedup();
        v
    }
}

// ---- expectations ---------------------------------------------------------------------------------
pub fn sizes(t: &T) -> String {
    static SEEN: Mutex<Option<HashMap<String, String>>> = Mutex::new(None);
    let key = t.text();
    if let Some(s) = SEEN.lock().expect("lock").get_or_insert_default().get(&key) {
        return s.clone();
    }
    let s = crate::extract::simplified(&format!("struct S {{ f: {key} }}"), |s| {
        let mabo_compiler::simplify::Definition::Struct(s) = &s.definitions[0] else { return "?".to_owned() };
        let mut o = String::new();
        match mabo_meta::wire_size(&s.fields.fields[0].ty) {
            Some(w) => w.print(&mut o, 0),
            None => o.push_str("_unknown_"),
        }
        o
    })
    .unwrap_or_default();
    SEEN.lock().expect("lock").get_or_insert_default().insert(key, s.clone());
    s
}
impl Hov {
    fn text(&self, next_id: bool, wire_size: bool) -> String {
        let mut o: String = self.comment.iter().map(|l| format!("{l}\n")).collect();
        if let (Some(n), true) = (self.next, next_id) {
            o.push_str(&format!("- next ID: `{n}`\n"));
        }
        if let (Some(t), true) = (&self.size, wire_size) {
            o.push_str(&format!("### Wire size\n\n{}", sizes(t)));
        }
        o
    }
}
fn pos(p: Pos) -> Value {
    json!({ "line": p.0, "character": p.1 })
}
fn range(enc: Enc, t: &str, a: usize, b: usize) -> Value {
    json!({ "start": pos(enc.pos(t, a)), "end": pos(enc.pos(t, b)) })
}
fn tokens(enc: Enc, doc: &Doc, t: &str, at: &[(usize, usize)]) -> Vec<(Pos, u32, String, Vec<String>)> {
    doc.pieces
        .iter()
        .zip(at)
        .filter_map(|(p, (a, b))| {
            let (k, m) = p.tok?;
            let mut m: Vec<String> = m.iter().map(|s| s.to_string()).collect();
            m.sort();
            Some((enc.pos(t, *a), enc.pos(t, *b).1 - enc.pos(t, *a).1, k.to_owned(), m))
        })
        .collect()
}
fn decode(v: &Value, legend: &Value) -> Result<Vec<(Pos, u32, String, Vec<String>)>, String> {
    let d: Vec<u64> = v["result"]["data"].as_array().ok_or("no data")?.iter().filter_map(Value::as_u64).collect();
    let names = |k: &str| -> Vec<String> { legend[k].as_array().into_iter().flatten().map(|s| s.as_str().unwrap_or("?").to_owned()).collect() };
    let (types, mods) = (names("tokenTypes"), names("tokenModifiers"));
    if d.len() % 5 != 0 {
        return Err("the data is no list of tokens".into());
    }
    let (mut line, mut col) = (0u64, 0u64);
    d.chunks(5)
        .map(|c| {
            if c[0] > 0 {
                line += c[0];
                col = 0;
            }
            col += c[1];
            let ty = types.get(c[3] as usize).ok_or("unknown type")?.clone();
            let mut m: Vec<String> = vec![];
            for i in 0..64 {
                if c[4] >> i & 1 == 1 {
                    m.push(mods.get(i).ok_or("unknown modifier")?.clone());
                }
            }
            m.sort();
            Ok(((line as u32, col as u32), c[2] as u32, ty, m))
        })
        .collect::<Result<Vec<_>, &str>>()
        .map_err(str::to_owned)
}
fn symbols(enc: Enc, t: &str, at: &[(usize, usize)], want: &[Sym], got: &Value, bad: &mut Vec<String>) {
    let empty = vec![];
    let got = got.as_array().unwrap_or(&empty);
    if got.len() != want.len() {
        bad.push(format!("{} symbols instead of {}", got.len(), want.len()));
        return;
    }
    let p = |v: &Value| (v["line"].as_u64(), v["character"].as_u64());
    for (w, g) in want.iter().zip(got) {
        let name = range(enc, t, at[w.from].0, at[w.to].1);
        if g["name"] != w.name.as_str() {
            bad.push(format!("symbol {} instead of {}", g["name"], w.name));
        } else if g["kind"] != w.kind {
            bad.push(format!("symbol {} has kind {} instead of {}", w.name, g["kind"], w.kind));
        } else if w.name.as_bytes()[0].is_ascii_digit() {
            // a field without a name: anything between its neighbours that has its whole text
            let before = range(enc, t, at[w.from - 1].1, at[w.to + 1].0);
            for k in ["selectionRange", "range"] {
                let (s, e) = (p(&g[k]["start"]), p(&g[k]["end"]));
                if s < p(&before["start"]) || s > p(&name["start"]) || e < p(&name["end"]) || e > p(&before["end"]) {
                    bad.push(format!("the {k} of field {} is {} instead of {name}", w.name, g[k]));
                }
            }
        } else if g["selectionRange"] != name {
            bad.push(format!("symbol {} stands at {} instead of {name}", w.name, g["selectionRange"]));
        } else if p(&g["range"]["start"]) > p(&name["start"]) || p(&g["range"]["end"]) < p(&name["end"]) {
            bad.push(format!("the range of symbol {} is {}, which lacks its name at {name}", w.name, g["range"]));
        }
        symbols(enc, t, at, &w.kids, &g["children"], bad);
    }
}

// ---- the check ------------------------------------------------------------------------------------
struct Shown {
    doc: usize,
    text: String,
    at: Vec<(usize, usize)>,
    /// Ask at every position, not only around the names.
    all: bool,
}
fn positions(enc: Enc, s: &Shown, doc: &Doc) -> Vec<Pos> {
    let ends = |e: usize| (0..=s.text.len()).contains(&e) && s.text.is_char_boundary(e);
    if s.all {
        return enc.all(&s.text);
    }
    let mut v: Vec<usize> = doc.hovs.iter().flat_map(|h| [s.at[h.piece].0.wrapping_sub(1), s.at[h.piece].0, s.at[h.piece].1 - 1, s.at[h.piece].1 + 1]).filter(|e| ends(*e)).collect();
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|e| enc.pos(&s.text, e)).collect()
}
struct Session {
    home: Scratch,
    s: Server,
    n: u64,
    config: (bool, bool),
    enc: Enc,
}
impl Session {
    fn new(enc: Enc, config: (bool, bool)) -> Session {
        let home = Scratch::new("marks");
        let s = Self::start(&home, enc, config);
        Session { home, s, n: 0, config, enc }
    }
    fn start(home: &Scratch, enc: Enc, config: (bool, bool)) -> Server {
        let c = json!({ "hover": { "showNextId": config.0, "showWireSize": config.1 } });
        Server::ready(&home.0, Some(&[enc.name()]), c).unwrap_or_else(|e| model::report::give_up(&format!("the server does not come up: {e:?}")))
    }
    fn run(&mut self, batch: &[Shown], docs: &[Doc], st: &mut Stats) -> Result<(), Gone> {
        let mut asked = vec![];
        for b in batch {
            self.n += 1;
            let uri = format!("file:///m/{}.mabo", self.n);
            self.s.open(&uri, &b.text);
            let at = positions(self.enc, b, &docs[b.doc]);
            asked.push((uri.clone(), self.s.ask(&uri, &at), at));
            self.s.close(&uri);
            self.s.notify("workspace/didDeleteFiles", json!({ "files": [{ "uri": uri }] }));
        }
        let legend = self.s.init["result"]["capabilities"]["semanticTokensProvider"]["legend"].clone();
        for (b, (uri, ids, hovers)) in batch.iter().zip(asked) {
            let got = self.s.view(&uri, &ids)?;
            self.s.diagnostics.remove(&uri);
            let doc = &docs[b.doc];
            let enc = self.enc;
            st.states += 1;
            st.transitions += ids.len() as u64;
            st.traces += 1;
            st.count("hover_positions", hovers.len() as u64);
            let mut bad: Vec<(&str, String)> = vec![];
            if got[0].as_array().is_some_and(|d| !d.is_empty()) {
                bad.push(("diagnostics for a valid document", got[0].to_string()));
            }
            let want = tokens(enc, doc, &b.text, &b.at);
            match decode(&got[1], &legend) {
                Err(e) => bad.push(("no usable tokens", format!("{e}: {}", got[1]))),
                Ok(g) => {
                    if let Some(i) = (0..want.len().max(g.len())).find(|i| want.get(*i) != g.get(*i)) {
                        bad.push(("tokens differ", format!("token {i}: {:?} instead of {:?}", g.get(i), want.get(i))));
                    }
                }
            }
            let mut s = vec![];
            symbols(enc, &b.text, &b.at, &doc.syms, &got[2]["result"], &mut s);
            bad.extend(s.into_iter().map(|s| ("symbols differ", s)));
            for (p, g) in hovers.iter().zip(&got[3..]) {
                let e = enc.offset(&b.text, *p);
                let hit = doc.hovs.iter().find(|h| (b.at[h.piece].0..b.at[h.piece].1).contains(&e));
                let g = &g["result"];
                match hit {
                    Some(h) => {
                        let want = h.text(self.config.0, self.config.1);
                        let r = range(enc, &b.text, b.at[h.piece].0, b.at[h.piece].1);
                        if g["contents"]["value"] != want.as_str() {
                            bad.push(("hover differs", format!("at {p:?}: {g} instead of {want:?}")));
                        } else if !g["range"].is_null() && g["range"] != r {
                            bad.push(("hover has the wrong range", format!("at {p:?}: {} instead of {r}", g["range"])));
                        }
                    }
                    // the place behind the last character may count as part of the name
                    None if doc.hovs.iter().any(|h| b.at[h.piece].1 == e) => {}
                    None if !g.is_null() => bad.push(("hover where no name is", format!("at {p:?}: {g}"))),
                    None => {}
                }
            }
            for (k, d) in bad.into_iter().take(2) {
                st.violation(format!("document: {k}"), || format!("encoding {} configuration {:?}\n{}\n{:?}\n{d}", enc.name(), self.config, b.text, b.text));
            }
        }
        Ok(())
    }
    fn all(&mut self, shown: Vec<Shown>, docs: &[Doc], st: &mut Stats) {
        let mut ended = 0;
        for b in shown.chunks(16) {
            let mut own = Stats::default();
            if self.run(b, docs, &mut own).is_ok() {
                st.merge(own);
                continue;
            }
            for one in b {
                if ended >= 3 {
                    return;
                }
                self.s = Self::start(&self.home, self.enc, self.config);
                if let Err(e) = self.run(std::slice::from_ref(one), docs, st) {
                    ended += 1;
                    st.violation(format!("document: the server {}", if e == Gone::Died { "crashes" } else { "hangs" }), || format!("{:?}", one.text));
                }
            }
            self.s = Self::start(&self.home, self.enc, self.config);
        }
    }
}

fn commented(mut f: F, c: &[&str]) -> F {
    f.comment = c.iter().map(|s| s.to_string()).collect();
    f
}
fn definitions() -> Vec<D> {
    let c = |mut v: V, c: &[&str]| {
        v.comment = c.iter().map(|s| s.to_string()).collect();
        v
    };
    vec![
        module("a_module", vec![]),
        module("m", vec![strct("Inner", &[], Fs::Unit).commented(&["𝄞 é"]), module("n", vec![cnst("C", p("u8"), "1"), import(&["x"], Some("Y"))])]).commented(&["one", "", "é two"]),
        strct("Unit", &[], Fs::Unit).commented(&["x"]),
        strct("A", &["T", "Value"], Fs::Named(vec![commented(field("first", ext(&[], "T", vec![]), None), &["𝄞", "b"]), field("s", T::Vec(Box::new(ext(&[], "Value", vec![]))), Some(9))])),
        strct("Tuple", &[], Fs::Unnamed(vec![field("", p("u8"), Some(4)), field("", ext(&["a", "b"], "C", vec![p("&string")]), None)])).commented(&["é"]),
        strct("Empty", &[], Fs::Named(vec![])),
        enm("Nothing", &[], vec![]),
        enm(
            "E",
            &["T"],
            vec![
                c(variant("One", Fs::Unit, None), &["é𝄞x"]),
                variant("Two", Fs::Unnamed(vec![field("", ext(&[], "T", vec![]), None), field("", T::Arr(Box::new(p("bool")), 32), Some(2))]), Some(5)),
                c(variant("Three", Fs::Named(vec![commented(field("a", T::Map(Box::new(p("string")), Box::new(T::Tup(vec![p("u8"), p("i16")]))), Some(3)), &["x"]), field("bcd", T::Nz(Box::new(p("u64"))), None)]), None), &[]),
            ],
        )
        .commented(&["a", "𝄞𝄞"]),
        alias("Alias", &["T"], T::Opt(Box::new(ext(&[], "T", vec![])))).commented(&["x y"]),
        alias("Bytes", &[], p("box<bytes>")),
        cnst("TRUE", p("bool"), "true").commented(&["const"]),
        cnst("FALSE", p("bool"), "false"),
        cnst("INT", p("i64"), "-1_000"),
        cnst("FLOAT", p("f64"), "1.5e3"),
        cnst("TEXT", p("&string"), "\"é𝄞 \\n\""),
        cnst("LINES", p("string"), "\"é\n𝄞\""),
        cnst("BYTES", p("bytes"), "[1, 2, 3]"),
        import(&["one"], None),
        import(&["one", "two"], None),
        import(&["one", "two", "three"], Some("Type")),
    ]
}
/// The documents and whether to try the separators one by one.
fn documents(th: bool) -> Vec<(Doc, bool)> {
    let mut v: Vec<(Doc, bool)> = vec![];
    let defs = definitions();
    v.push((Doc::of(&[], &[], &[]), false));
    v.push((Doc::of(&["only é", "𝄞"], &[], &[]), false));
    for d in &defs {
        for head in [&[][..], &["é𝄞 head", "", "x"][..]] {
            v.push((Doc::of(head, std::slice::from_ref(d), &[]), true));
        }
        v.push((Doc::of(&[], std::slice::from_ref(d), &["#[a = \"𝄞é\", b]"]), false));
        v.push((Doc::of(&[], &[module("outer", vec![module("inner", vec![d.clone()])])], &[]), th));
    }
    for a in &defs {
        for b in &defs {
            v.push((Doc::of(&[], &[a.clone(), b.clone()], &["", ""]), false));
            if th {
                for c in &defs {
                    v.push((Doc::of(&[], &[a.clone(), b.clone(), c.clone()], &[]), false));
                }
            }
        }
    }
    // identifiers
    let some = [None, Some(1), Some(3), Some(20)];
    for a in some {
        for b in some {
            for c in some {
                let f = |id| field("f", p("u8"), id);
                let named = |i: &str, id| F { name: format!("f{i}"), ..f(id) };
                v.push((Doc::of(&[], &[strct("S", &[], Fs::Named(vec![named("a", a), named("b", b), named("c", c)]))], &[]), false));
                v.push((Doc::of(&[], &[enm("S", &[], vec![variant("A", Fs::Unnamed(vec![f(a), f(b), f(c)]), c), variant("B", Fs::Unit, b), variant("C", Fs::Named(vec![named("d", b), named("e", a)]), a)])], &[]), false));
            }
        }
    }
    // types
    let leaves = ["bool", "u8", "i128", "f64", "string", "&string", "box<string>", "bytes", "&bytes", "box<bytes>", "box< string >", "box<\nstring>", "box <bytes>", "box<bytes\n>"];
    let mut types: Vec<T> = leaves.iter().map(|s| p(s)).collect();
    types.push(ext(&[], "Name", vec![]));
    types.push(ext(&["m"], "Name", vec![]));
    types.push(ext(&["m", "n"], "Name", vec![p("u8"), ext(&["o"], "P", vec![p("&bytes")])]));
    let depth = if th { 3 } else { 2 };
    for t in types {
        for t in crate::compile::in_contexts(&t, depth) {
            for d in crate::compile::type_sites(&t, &[]) {
                v.push((Doc::of(&[], &[d], &[]), false));
            }
        }
    }
    // many elements
    for n in if th { crate::large::sizes(false) } else { vec![10, 33, 129] } {
        for (_, d) in crate::large::valid(n) {
            v.push((Doc::of(&[], &d, &[]), false));
        }
    }
    // documents the grammar or the rules forbid (equal names and identifiers) have no answers
    v.retain(|(d, _)| {
        let (t, _) = d.text("\n", &|_| None);
        crate::refparse::parse(&t).0.is_some() && mabo_parser::Schema::parse(&t, None).is_ok_and(|s| mabo_compiler::validate_schema(&s).is_ok())
    });
    v
}

pub fn c19() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C19");
    let (docs, single): (Vec<Doc>, Vec<bool>) = documents(th).into_iter().unzip();
    let mut js: Vec<(Enc, (bool, bool), usize)> = vec![];
    let parts = 16;
    for enc in ENCODINGS {
        for part in 0..parts {
            js.push((enc, (true, true), part));
        }
    }
    for c in [(false, true), (true, false), (false, false)] {
        js.push((Enc::Utf16, c, parts));
    }
    let s = parallel(&js, |(enc, config, part), st| {
        let mut shown = vec![];
        for (i, d) in docs.iter().enumerate() {
            let few = *part == parts;
            if if few { !single[i] } else { i % parts != *part } {
                continue;
            }
            let small = d.pieces.len() < 60 && (single[i] || i % 8 < 2 || th);
            for (text, at) in d.layouts(single[i] && (th || *enc == Enc::Utf16)) {
                shown.push(Shown { doc: i, text, at, all: small && !few });
            }
        }
        st.count(if *part == parts { "configured_documents" } else { "documents" }, shown.len() as u64);
        Session::new(*enc, *config).all(shown, &docs, st);
    });
    rep.stats.merge(s);
    rep.note("bounds", "20 kinds of definitions alone, in modules, behind comments and attributes and in all pairs (triples in thorough), all identifiers of a small set, all types up to 2 (3) contexts in 5 places, lists of everything up to 129 (300) long; 8 layouts each and every single separator for the definitions; 3 encodings, 4 hover configurations");
    rep.assumptions.push("line ends are \\n and \\r\\n".into());
    rep.finish()
}
