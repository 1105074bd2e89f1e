//! C22: the documentation has a page for every definition, shows what the schema says, and its links
//! lead to pages of the same documentation.
//!
//! Every enumerated schema is rendered by the real code. The pages are parsed as HTML (strictly: all
//! elements closed, all text escaped) and compared with the pages that the schema asks for.
use crate::golang::string_value;
use crate::rust::{accepted, case, show, Case};
use crate::rustcases::{base_types, commented, COMMENTS};
use crate::sem::{self, *};
use model::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---- HTML -----------------------------------------------------------------------------------------
#[derive(Debug, Default, Clone)]
pub struct El {
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}
#[derive(Debug, Clone)]
pub enum Node {
    E(El),
    T(String),
}
impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    pub fn has(&self, class: &str) -> bool {
        self.attr("class").is_some_and(|c| c.split_whitespace().any(|x| x == class))
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Node::T(t) => t.clone(),
                Node::E(e) => e.text(),
            })
            .collect()
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::E(e) => Some(e),
            Node::T(_) => None,
        })
    }
    /// All elements below that the filter selects, without looking into selected ones.
    pub fn find<'a>(&'a self, f: &dyn Fn(&El) -> bool) -> Vec<&'a El> {
        let mut v = vec![];
        for e in self.els() {
            if f(e) {
                v.push(e);
            } else {
                v.extend(e.find(f));
            }
        }
        v
    }
}
const VOID: [&str; 6] = ["meta", "link", "br", "hr", "img", "input"];

fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        let Some(j) = rest.find(';').filter(|j| *j < 10) else { return Err(format!("unescaped & before {:?}", &rest[..rest.len().min(20)])) };
        let name = &rest[..j];
        o.push(match name {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            n => n
                .strip_prefix('#')
                .and_then(|n| n.strip_prefix('x').map_or_else(|| n.parse().ok(), |h| u32::from_str_radix(h, 16).ok()))
                .and_then(char::from_u32)
                .ok_or_else(|| format!("unknown entity {n}"))?,
        });
        rest = &rest[j + 1..];
    }
    if rest.contains('>') {
        return Err(format!("unescaped > in {rest:?}"));
    }
    o.push_str(rest);
    Ok(o)
}
pub fn html(src: &str) -> Result<El, String> {
    let mut stack = vec![El::default()];
    let mut rest = src.trim_start();
    rest = rest.strip_prefix("<!DOCTYPE html>").ok_or("no document type")?;
    while !rest.is_empty() {
        if !rest.starts_with('<') {
            let i = rest.find('<').unwrap_or(rest.len());
            let t = decode(&rest[..i])?;
            stack.last_mut().unwrap().kids.push(Node::T(t));
            rest = &rest[i..];
            continue;
        }
        // attribute values may contain `>`
        let mut quoted = false;
        let end = rest
            .char_indices()
            .find(|(_, c)| {
                quoted ^= *c == '"';
                *c == '>' && !quoted
            })
            .ok_or("unfinished tag")?
            .0;
        let tag = &rest[1..end];
        rest = &rest[end + 1..];
        if let Some(name) = tag.strip_prefix('/') {
            let e = stack.pop().unwrap();
            if e.tag != name || stack.is_empty() {
                return Err(format!("</{name}> closes <{}>", e.tag));
            }
            stack.last_mut().unwrap().kids.push(Node::E(e));
            continue;
        }
        let self_closing = tag.ends_with('/');
        let tag = tag.trim_end_matches('/').trim();
        let name: String = tag.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
        if name.is_empty() {
            return Err(format!("odd tag <{tag}>"));
        }
        let mut attrs = vec![];
        let mut a = tag[name.len()..].trim_start();
        while !a.is_empty() {
            let n = a.find(['=', ' ', '\n']).unwrap_or(a.len());
            let key = a[..n].to_string();
            if key.is_empty() || !key.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') {
                return Err(format!("odd attribute in <{tag}>"));
            }
            if a[n..].starts_with('=') {
                let q = a[n + 1..].strip_prefix('"').ok_or_else(|| format!("unquoted attribute in <{tag}>"))?;
                let e = q.find('"').ok_or("unfinished attribute")?;
                attrs.push((key, decode(&q[..e].replace('>', "&gt;"))?));
                a = q[e + 1..].trim_start();
            } else {
                attrs.push((key, String::new()));
                a = a[n..].trim_start();
            }
        }
        let e = El { tag: name.clone(), attrs, kids: vec![] };
        if self_closing || VOID.contains(&name.as_str()) {
            stack.last_mut().unwrap().kids.push(Node::E(e));
        } else {
            stack.push(e);
        }
    }
    if stack.len() != 1 {
        return Err(format!("<{}> is not closed", stack.last().unwrap().tag));
    }
    Ok(stack.pop().unwrap())
}
fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}
/// Text without any white space, to compare rendered comments by.
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ---- reference ------------------------------------------------------------------------------------
/// What a comment looks like once it is rendered: its text, and the elements around it.
fn rendered(c: &[String]) -> (String, String) {
    let (mut text, mut tags) = (String::new(), vec![]);
    for part in c.split(|l| l.trim().is_empty()).filter(|p| !p.is_empty()) {
        let all = part.join("\n");
        let (t, e) = RENDERED.iter().find(|r| r.0 == all).map_or((&*all, "p"), |r| (r.1, r.2));
        text += &squeeze(t);
        tags.extend((!e.is_empty()).then_some(e));
    }
    (text, tags.join(" "))
}
/// The elements inside of this one.
fn inner(e: &El) -> Vec<&str> {
    e.els().flat_map(|e| std::iter::once(&*e.tag).chain(inner(e))).collect()
}
/// Comments that contain markup, the text that is left of them, and the elements that they turn into.
const RENDERED: [(&str, &str, &str); 22] = [
    ("back\\slash \\n \\u{41}", "back\\slash \\n \\u{41}", "p"),
    ("[link](../x.html)", "link", "p a"),
    ("# heading\n- list\n```\ncode\n```", "heading list code", "h1 ul li pre code"),
    ("{braces} {0} %d `tick`", "{braces} {0} %d tick", "p code"),
    ("**strong** *em* ~~del~~", "strong em del", "p strong em del"),
    ("&lt;tag&gt; &amp;", "<tag> &", "p"),
    ("<!-- hidden -->", "<!-- hidden -->", ""),
    ("- [ ] open\n- [x] done", "open done", "ul li input li input"),
    ("a | b\n--|--\nc | d", "a b c d", "table thead tr th th tbody tr td td"),
    ("\\<b\\>", "<b>", "p"),
    ("1. one\n2. two", "one two", "ol li li"),
    ("> quoted", "quoted", "blockquote p"),
    ("# heading", "heading", "h1"),
    ("[![x](y)](javascript:alert)", "", "p a img"),
    ("    indented code", "indented code", "p"),
    ("***", "", "hr"),
    ("- outer\n  - inner\n- last", "outer inner last", "ul li li li"),
    ("1. one\n   - inner", "one inner", "ol li ul li"),
    ("hard  \nbreak", "hard break", "p br"),
    ("Title\n=====", "Title", "h1"),
    ("a\n    b", "a b", "p"),
    ("https://example.com/a", "https://example.com/a", "p a"),
];
/// Text of the size report, and the number of list items in it.
fn size_text(t: &T) -> (String, usize) {
    let md = crate::marks::sizes(t);
    let lines = md.lines().map(|l| l.trim_start().trim_start_matches("- "));
    (squeeze(&lines.collect::<String>().replace("**", "").replace('`', "").replace("_unknown_", "unknown")), md.lines().count() - 1)
}
/// Number of list items in the element.
fn items(e: &El) -> usize {
    e.els().map(|e| usize::from(e.tag == "li") + items(e)).sum()
}
/// The identifier that is shown as the next free one: the one behind the largest, or the smallest gap.
fn next_id(f: &Fs) -> Option<u32> {
    let ids = f.ids();
    match f {
        Fs::Unit => None,
        _ if ids.contains(&MAX_FIELD_ID) => Some((1..).find(|i| !ids.contains(i)).unwrap()),
        _ => Some(ids.iter().max().map_or(1, |m| m + 1)),
    }
}
/// First paragraph of the comment: the lines up to an empty one.
fn first(c: &[String]) -> Vec<String> {
    c.iter().take_while(|l| !l.trim().is_empty()).cloned().collect()
}
fn gens(d: &D) -> String {
    if d.gens.is_empty() { String::new() } else { format!("<{}>", d.gens.join(", ")) }
}
fn fields_text(f: &Fs, ind: &str, close: &str) -> String {
    let ids = f.ids();
    let l: Vec<String> = f
        .list()
        .iter()
        .zip(&ids)
        .map(|(x, id)| match f {
            Fs::Named(_) => format!("{}: {} @{id}", x.name, x.ty.as_ref().unwrap().text()),
            _ => format!("{} @{id}", x.ty.as_ref().unwrap().text()),
        })
        .collect();
    match f {
        Fs::Named(_) => format!(" {{\n{}{close}}}", l.iter().map(|l| format!("{ind}{l},\n")).collect::<String>()),
        Fs::Unnamed(_) => format!("({})", l.join(", ")),
        Fs::Unit => String::new(),
    }
}
fn definition(d: &D) -> String {
    match &d.kind {
        K::Struct(f) => format!("struct {}{}{}", d.name, gens(d), fields_text(f, "    ", "")),
        K::Enum(vs) => {
            let ids = sem::ids(vs.iter().map(|v| v.id));
            format!("enum {}{} {{\n{}}}", d.name, gens(d), vs.iter().zip(ids).map(|(v, id)| format!("    {}{} @{id},\n", v.name, fields_text(&v.fields, "        ", "    "))).collect::<String>())
        }
        K::Alias(t) => format!("type {}{} = {};", d.name, gens(d), t.text()),
        _ => unreachable!(),
    }
}
fn kind(d: &D) -> Option<(&'static str, &'static str, &'static str, &'static str)> {
    Some(match d.kind {
        K::Mod(_) => ("Modules", "Module", "module", ""),
        K::Struct(_) => ("Structs", "Struct", "struct", "struct"),
        K::Enum(_) => ("Enums", "Enum", "enum", "enum"),
        K::Alias(_) => ("Aliases", "Alias", "alias", "alias"),
        K::Const(..) => ("Constants", "Constant", "const", "constant"),
        K::Use(..) => return None,
    })
}
fn page_name(d: &D) -> String {
    match kind(d).unwrap().3 {
        "" => format!("{}/index.html", d.name),
        k => format!("{k}.{}.html", d.name),
    }
}
enum Page<'a> {
    /// The comment of the whole schema, and its definitions.
    Index(&'a [String], &'a [D]),
    Module(&'a D, &'a [D]),
    Item(&'a D),
}
fn expected<'a>(dir: &str, defs: &'a [D], out: &mut BTreeMap<String, Page<'a>>) {
    for d in defs {
        if kind(d).is_none() {
            continue;
        }
        let p = match &d.kind {
            K::Mod(ds) => {
                expected(&format!("{dir}{}/", d.name), ds, out);
                Page::Module(d, ds)
            }
            _ => Page::Item(d),
        };
        out.insert(format!("{dir}{}", page_name(d)), p);
    }
}

// ---- judging a page -------------------------------------------------------------------------------
/// The page that a link on `from` leads to.
fn resolve(from: &str, href: &str) -> Option<String> {
    let mut v: Vec<&str> = from.split('/').collect();
    v.pop();
    for s in href.split('/') {
        match s {
            ".." => {
                v.pop()?;
            }
            "." => {}
            s => v.push(s),
        }
    }
    Some(v.join("/"))
}
struct Judge<'a> {
    path: &'a str,
    pages: &'a BTreeSet<String>,
    bad: Vec<String>,
}
impl Judge<'_> {
    fn want(&mut self, what: &str, got: &str, want: &str) {
        if got != want {
            self.bad.push(format!("{what}: {got:?} instead of {want:?}"));
        }
    }
    /// The next markdown block has to show the comment.
    fn comment(&mut self, what: &str, e: Option<&El>, c: &[String]) {
        let Some(e) = e else { return self.bad.push(format!("{what}: no place for the comment")) };
        let (text, tags) = rendered(c);
        self.want(what, &squeeze(&e.text()), &text);
        self.want(what, &inner(e).join(" "), &tags);
    }
    fn fields(&mut self, lis: &[&El], f: &Fs) {
        let ids = f.ids();
        if lis.len() != f.list().len() {
            return self.bad.push(format!("{} fields listed instead of {}", lis.len(), f.list().len()));
        }
        for (i, ((li, x), id)) in lis.iter().zip(f.list()).zip(&ids).enumerate() {
            let one = |c: &'static str| li.find(&move |e| e.has(c)).first().map_or(String::new(), |e| e.text());
            let name = if matches!(f, Fs::Named(_)) { x.name.clone() } else { format!("n{i}") };
            self.want("field name", &one("field-name"), &name);
            self.want("field type", &one("field-type"), &x.ty.as_ref().unwrap().text());
            self.want("field identifier", &one("field-id"), &format!("@{id}"));
            let md = li.find(&|e| e.has("markdown"));
            self.comment("field comment", md.first().copied(), &x.comment);
            // the range of encoded sizes, where it is known
            let sizes = li.find(&|e| e.has("markdown-sm"));
            let t = x.ty.as_ref().unwrap();
            let want = if matches!(t, T::Ext(..)) { vec![] } else { vec![size_text(t)] };
            let got: Vec<(String, usize)> = sizes.iter().map(|e| (squeeze(&e.text()), items(e))).collect();
            if got != want {
                self.bad.push(format!("sizes of {}: {got:?} instead of {want:?}", t.text()));
            }
        }
    }
    fn head(&mut self, main: &El, kind: &str, crumbs: &[&str], name: &str) {
        let h2 = main.find(&|e| e.tag == "h2");
        let Some(h2) = h2.first() else { return self.bad.push("no heading".into()) };
        let path = crumbs.iter().map(|c| format!("{c}::")).collect::<String>();
        self.want("heading", &squeeze(&h2.text()), &squeeze(&format!("{kind} {path}{name}")));
        let links = h2.find(&|e| e.tag == "a");
        self.want("crumbs", &links.iter().map(|l| l.text()).collect::<Vec<_>>().join("/"), &crumbs.join("/"));
        for (i, l) in links.iter().enumerate() {
            let to = resolve(self.path, l.attr("href").unwrap_or("")).unwrap_or_default();
            let want = format!("{}/index.html", crumbs[..=i.min(crumbs.len() - 1)].join("/"));
            self.want("breadcrumb", &to, &want);
        }
    }
    fn tables(&mut self, main: &El, defs: &[D]) {
        let dir = self.path.strip_suffix("index.html").unwrap_or("");
        for section in main.find(&|e| e.has("section")) {
            let h3 = section.find(&|e| e.tag == "h3");
            let Some(h3) = h3.first() else { continue };
            let title = h3.text();
            let want: Vec<&D> = defs.iter().filter(|d| kind(d).is_some_and(|k| k.0 == title)).collect();
            let rows = section.find(&|e| e.tag == "tr" && e.find(&|e| e.tag == "a" && e.has("text-lg")).len() == 1);
            if rows.len() != want.len() {
                self.bad.push(format!("{title}: {} rows instead of {}", rows.len(), want.len()));
                continue;
            }
            for (r, d) in rows.iter().zip(want) {
                let cells: Vec<&El> = r.els().filter(|e| e.tag == "td").collect();
                let a = r.find(&|e| e.tag == "a" && e.has("text-lg"))[0];
                self.want("listed name", &a.text(), &d.name);
                let to = resolve(self.path, a.attr("href").unwrap_or("")).unwrap_or_default();
                self.want("link", &to, &format!("{dir}{}", page_name(d)));
                self.want("listed comment", &cells.get(1).map_or(String::new(), |c| squeeze(&c.text())), &rendered(&first(&d.comment)).0);
            }
        }
        let titles: BTreeSet<String> = main.find(&|e| e.tag == "h3").iter().map(|e| e.text()).collect();
        for d in defs {
            if let Some(k) = kind(d) {
                if !titles.contains(k.0) {
                    self.bad.push(format!("no section for {}", k.0));
                }
            }
        }
    }
    fn page(&mut self, root: &El, p: &Page, schema: &str) {
        let crumbs: Vec<&str> = self.path.split('/').rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect();
        let title = root.find(&|e| e.tag == "title").first().map_or(String::new(), |e| e.text());
        let mains = root.find(&|e| e.tag == "main");
        let Some(main) = mains.first() else { return self.bad.push("no main part".into()) };
        // outside of comments, every link leads to a page of the set
        let mut links = vec![];
        fn collect<'a>(e: &'a El, v: &mut Vec<&'a El>) {
            if e.has("markdown") || e.tag == "td" && !e.has("pr-8") {
                return;
            }
            if e.tag == "a" {
                v.push(e);
            }
            e.els().for_each(|e| collect(e, v));
        }
        collect(root, &mut links);
        for l in &links {
            let href = l.attr("href").unwrap_or("");
            match resolve(self.path, href) {
                Some(to) if self.pages.contains(&to) => {}
                to => self.bad.push(format!("link {href:?} leads to {to:?}, which is no page")),
            }
        }
        for l in root.find(&|e| e.tag == "link") {
            let to = resolve(self.path, l.attr("href").unwrap_or(""));
            self.want("style sheet", &to.unwrap_or_default(), "assets/style.css");
        }
        let sections: Vec<&El> = main.els().filter(|e| e.has("section")).collect();
        let head_md = sections.first().and_then(|s| s.els().find(|e| e.has("markdown")));
        match p {
            Page::Index(head, defs) => {
                self.want("title", &title, &format!("{schema} - Mabo"));
                self.comment("schema comment", head_md, head);
                self.head_only(main, &format!("Schema {schema}"));
                self.tables(main, defs);
            }
            Page::Module(d, defs) => {
                self.want("title", &title, &format!("{} - Mabo", d.name));
                self.head(main, "Module", &crumbs[..crumbs.len() - 1], &d.name);
                self.comment("comment", head_md, &d.comment);
                self.tables(main, defs);
            }
            Page::Item(d) => {
                self.want("title", &title, &format!("{} - Mabo", d.name));
                self.head(main, kind(d).unwrap().1, &crumbs, &d.name);
                self.comment("comment", head_md, &d.comment);
                let pre = main.find(&|e| e.has("item-definition")).first().map_or(String::new(), |e| e.text());
                match &d.kind {
                    K::Const(t, lit) => self.constant(&pre, &d.name, t, lit),
                    _ => self.want("definition", &pre, &definition(d)),
                }
                let section = |t: &'static str| sections.iter().find(|s| s.els().any(|e| e.tag == "h3" && e.text() == t)).copied();
                match &d.kind {
                    K::Struct(f) => {
                        let Some(s) = section("Fields") else { return self.bad.push("no fields".into()) };
                        self.fields(&s.find(&|e| e.has("field-definition")), f);
                        let next = section("Metadata").map_or(String::new(), |s| s.find(&|e| e.tag == "code").iter().map(|e| e.text()).collect());
                        self.want("next identifier", &next, &next_id(f).map_or(String::new(), |i| i.to_string()));
                    }
                    K::Enum(vs) => {
                        let Some(s) = section("Variants") else { return self.bad.push("no variants".into()) };
                        let lis = s.find(&|e| e.has("field-definition"));
                        let ids = sem::ids(vs.iter().map(|v| v.id));
                        if lis.len() != vs.len() {
                            return self.bad.push(format!("{} variants listed instead of {}", lis.len(), vs.len()));
                        }
                        for ((li, v), id) in lis.iter().zip(vs).zip(ids) {
                            let one = |c: &'static str| li.find(&move |e| e.has(c)).first().map_or(String::new(), |e| e.text());
                            self.want("variant name", &one("variant-name"), &v.name);
                            self.want("variant identifier", &one("variant-id"), &format!("@{id}"));
                            self.comment("variant comment", li.els().find(|e| e.has("markdown")), &v.comment);
                            let f: Vec<&El> = li.find(&|e| e.tag == "li" && !e.find(&|e| e.has("field-name")).is_empty());
                            self.fields(&f, &v.fields);
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn head_only(&mut self, main: &El, want: &str) {
        let h = main.find(&|e| e.tag == "h2").first().map_or(String::new(), |e| words(&e.text()));
        self.want("heading", &h, &words(want));
    }
    fn constant(&mut self, pre: &str, name: &str, t: &T, lit: &str) {
        let head = format!("const {name}: {} = ", t.text());
        let Some(v) = pre.strip_prefix(&head).and_then(|p| p.strip_suffix(';')) else { return self.want("definition", pre, &format!("{head}{lit};")) };
        let same = if lit.starts_with('"') {
            v.len() >= 2 && v.starts_with('"') && string_value(v) == string_value(lit)
        } else if lit.starts_with('[') {
            squeeze(v) == squeeze(lit)
        } else if lit == "true" || lit == "false" {
            v == lit
        } else if lit.contains(['.', 'e']) {
            v.parse::<f64>().ok() == lit.replace('_', "").parse().ok()
        } else {
            v == lit.replace('_', "")
        };
        if !same {
            self.bad.push(format!("constant shown as {v} instead of {lit}"));
        }
    }
}

// ---- cases ----------------------------------------------------------------------------------------
/// Every kind of definition, as a scope of a tree can contain it.
fn kinds() -> Vec<D> {
    vec![
        strct("S", &["T"], Fs::Named(vec![field("a", p("u8"), None), field("b", ext(&[], "T", vec![]), Some(9))])),
        enm("E", &[], vec![variant("A", Fs::Unit, None), variant("B", Fs::Unnamed(vec![field("", p("string"), None)]), Some(5)), variant("C", Fs::Named(vec![field("x", p("bytes"), None)]), None)]),
        alias("L", &["X"], T::Vec(Box::new(ext(&[], "X", vec![])))),
        cnst("VALUE", p("u32"), "42"),
    ]
}
fn trees(depth: usize, th: bool) -> Vec<Vec<D>> {
    // all subsets of the kinds, then modules that hold such subsets
    let k = kinds();
    let flat: Vec<Vec<D>> = (0..1 << k.len()).map(|m| k.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, d)| d.clone()).collect()).collect();
    if depth == 0 {
        return flat;
    }
    let inner = trees(depth - 1, th);
    let mut v = flat.clone();
    for (i, t) in inner.iter().enumerate() {
        for (j, f) in flat.iter().enumerate() {
            if !th && (i + j) % if depth > 1 { 11 } else { 1 } != 0 {
                continue;
            }
            let mut d = f.clone();
            d.insert(d.len() / 2, module("m", t.clone()));
            if (i + j) % 3 == 0 {
                d.push(module("other", vec![strct("S", &[], Fs::Unit)]));
            }
            v.push(d);
        }
    }
    v
}
pub fn cases(th: bool) -> Vec<Case> {
    let mut v = crate::rustcases::cases(th);
    for d in trees(if th { 3 } else { 2 }, th) {
        v.push(case("trees", d));
    }
    let more: Vec<Vec<&str>> = RENDERED.iter().map(|r| r.0.split('\n').collect()).collect();
    let texts: Vec<&[&str]> = COMMENTS.iter().copied().chain(more.iter().map(Vec::as_slice)).collect();
    for c in &texts {
        v.push(case("comments", commented(c)));
    }
    for c in crate::rustcases::long_comments() {
        v.push(case("comments", commented(&c.iter().map(String::as_str).collect::<Vec<_>>())));
    }
    // only the first paragraph of a comment is listed
    for c in &texts {
        if c.len() == 1 && !c[0].starts_with("    ") {
            v.push(case("comments", commented(&["Summary", "and more of it", "", "Details"])));
            v.push(case("comments", commented(&[c[0], "", "Details"]).into_iter().filter(|d| !matches!(d.kind, K::Mod(_)) || true).collect()));
        }
    }
    for l in ["\"<script>alert(1)</script>\"", "\"</pre><b>\"", "\"&amp; & \\\" '\"", "\"a\\\\b\"", "\"{{ name }}\""] {
        v.push(case("consts", vec![cnst("VALUE", p("string"), l), module("m", vec![cnst("VALUE", p("&string"), l)])]));
    }
    for t in base_types().iter().flat_map(|t| crate::compile::in_contexts(t, 2)) {
        let mut d = crate::rustcases::helpers();
        for (i, mut s) in crate::compile::type_sites(&t, &[]).into_iter().enumerate() {
            s.name = format!("Sample{i}");
            d.push(s);
        }
        v.push(case("types", d));
    }
    v
}
/// File names of the schema, with the name that has to be shown.
const STEMS: [(Option<&str>, &str); 9] = [
    (Some("sample.mabo"), "sample"),
    (Some("dir/deep/sample.mabo"), "sample"),
    (Some("a&b.mabo"), "a&b"),
    (Some("<i>.mabo"), "<i>"),
    (Some("two words.mabo"), "two words"),
    (Some("dots.in.name.mabo"), "dots.in.name"),
    (Some("quote\"s'.mabo"), "quote\"s'"),
    (Some("ünï.mabo"), "ünï"),
    (None, "root"),
];
type Files = Vec<(String, String)>;
fn render(text: &str, file: Option<&str>) -> Result<Files, String> {
    fn walk(o: &mabo_doc::Output, parent: &Path, v: &mut Files) {
        v.push((parent.join(&o.file).to_string_lossy().into_owned(), o.content.clone()));
        o.modules.iter().for_each(|m| walk(m, &parent.join(o.name), v));
    }
    let parsed = mabo_parser::Schema::parse(text, file.map(Path::new)).map_err(|e| format!("{e}"))?;
    let s = mabo_compiler::simplify_schema(&parsed);
    let run = || -> Result<Files, String> {
        let opts = mabo_doc::Opts {};
        let o = quiet(|| mabo_doc::render_schema(&opts, &s)).map_err(|e| format!("the generator panicked: {e}"))?.map_err(|e| format!("{e:#}"))?;
        let mut v = vec![];
        walk(&o, &PathBuf::new(), &mut v);
        Ok(v)
    };
    let one = run()?;
    if one != run()? {
        return Err("two runs generate different pages".into());
    }
    Ok(one)
}
fn check(c: &Case, d: &[D], head: &[String], file: Option<&str>, stem: &str, st: &mut Stats) {
    let mut text: String = head.iter().map(|l| format!("/// {l}\n")).collect();
    if !head.is_empty() {
        text.push('\n');
    }
    text.push_str(&sem::text(d));
    st.transitions += 2;
    let files = match render(&text, file) {
        Ok(f) => f,
        Err(e) => return st.violation(format!("{}: {e}", c.group), || show(c)),
    };
    let mut want = BTreeMap::new();
    expected(&format!("{stem}/"), d, &mut want);
    want.insert(format!("{stem}/index.html"), Page::Index(head, d));
    let pages: BTreeSet<String> = files.iter().map(|f| f.0.clone()).collect();
    if pages.len() != files.len() || !pages.iter().eq(want.keys()) {
        return st.violation(format!("{}: pages", c.group), || format!("pages {:?} instead of {:?}\n{}", files.iter().map(|f| &f.0).collect::<Vec<_>>(), want.keys(), show(c)));
    }
    for (path, content) in &files {
        st.traces += 1;
        let mut j = Judge { path, pages: &pages, bad: vec![] };
        match html(content) {
            Ok(root) => j.page(&root, &want[path], stem),
            Err(e) => j.bad.push(e),
        }
        if !j.bad.is_empty() {
            let bad = j.bad;
            st.violation(format!("{}: {}", c.group, bad[0].chars().take(100).collect::<String>()), || format!("{}\n{path}\n{}\n{content}", bad.join("\n"), show(c)));
        }
    }
}
pub fn c22() -> i32 {
    let th = thorough();
    let mut r = Report::new("C22");
    let all: Vec<usize> = (0..cases(th).len()).collect();
    let batches: Vec<Vec<usize>> = all.chunks(200).map(<[usize]>::to_vec).collect();
    let st = parallel(&batches, |b, st| {
        let cases = cases(th);
        for &i in b {
            let c = &cases[i];
            if !accepted(c, st) {
                continue;
            }
            st.states += 1;
            st.count(&format!("schemas_{}", c.group), 1);
            for (_, d) in &c.schemas {
                let n = if c.group == "trees" || c.group == "comments" { STEMS.len() } else { 1 };
                for (f, stem) in &STEMS[..n] {
                    check(c, d, &[], *f, stem, st);
                    // the first definition carries the comment as well, or the file has no other one
                    if c.group == "comments" {
                        let head = d[0].comment.clone();
                        check(c, d, &head, *f, stem, st);
                        check(c, &[], &head, *f, stem, st);
                        check(c, &[strct("Plain", &[], Fs::Unit)], &head, *f, stem, st);
                    }
                }
            }
            st.sample(|| sem::text(&c.schemas[0].1));
        }
    });
    r.stats.merge(st);
    r.note("bounds", "all schemas of the groups counted as schemas_*: every type shape of the type universe in every position, module trees, comments, names, constants, imports; trees and comments under every kind of file name".to_string());
    r.finish()
}
