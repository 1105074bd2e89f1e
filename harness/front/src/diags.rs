//! C25: what the editor shows about a document, and where.
use crate::compile::{jobs12, run12, Job};
use crate::editor::{texts, verdict};
use crate::lsp::*;
use crate::sem::{self, validate, Viol, D};
use model::report::{give_up, parallel, quiet, thorough, Report, Stats};
use serde_json::{json, Value};

/// What may be shown about a document.
enum Want {
    Nothing,
    /// One of the violated rules.
    Rules(Vec<Viol>),
    /// A syntax error, with the numbers that its description mentions.
    Syntax(Vec<usize>),
}
struct Doc {
    text: String,
    want: Want,
}
struct Editor {
    home: Scratch,
    enc: Enc,
    server: Server,
    n: u64,
    docs: Vec<Doc>,
}
const BATCH: usize = 256;
impl Editor {
    fn start(home: &Scratch, enc: Enc) -> Server {
        Server::ready(&home.0, Some(&[enc.name()]), Value::Null).unwrap_or_else(|e| give_up(&format!("the server does not come up: {e:?}")))
    }
    fn new(enc: Enc) -> Self {
        let home = Scratch::new("diag");
        let server = Self::start(&home, enc);
        Editor { home, enc, server, n: 0, docs: vec![] }
    }
    fn add(&mut self, d: Doc, st: &mut Stats) {
        self.docs.push(d);
        if self.docs.len() >= BATCH {
            self.finish(st);
        }
    }
    fn finish(&mut self, st: &mut Stats) {
        let docs = std::mem::take(&mut self.docs);
        if let Err(e) = self.show(&docs, st) {
            // one by one: which one is it?
            for d in &docs {
                self.server = Self::start(&self.home, self.enc);
                if let Err(e) = self.show(std::slice::from_ref(d), st) {
                    st.violation(format!("the server {}", if e == Gone::Died { "died" } else { "hangs" }), || d.text.clone());
                    self.server = Self::start(&self.home, self.enc);
                    return;
                }
            }
            st.violation(format!("the server {} after many documents", if e == Gone::Died { "died" } else { "hangs" }), || String::new());
        }
    }
    fn show(&mut self, docs: &[Doc], st: &mut Stats) -> Result<(), Gone> {
        let first = self.n;
        let uri = |n: u64| format!("file:///docs/{n}.mabo");
        for d in docs {
            self.server.open(&uri(self.n), &d.text);
            self.n += 1;
        }
        self.server.sync()?;
        for (i, d) in docs.iter().enumerate() {
            let u = uri(first + i as u64);
            let got = self.server.diagnostics.remove(&u);
            st.states += 1;
            st.traces += 1;
            st.transitions += 1;
            if let Err(what) = judge(self.enc, d, got.as_ref(), st) {
                st.violation(&what.0, || format!("{}\n{}\nencoding {}\n{:?}\n{}\n{}", what.0, what.1, self.enc.name(), d.text, d.text, got.unwrap_or_default()));
            }
        }
        // closed documents are shown no longer
        for i in 0..docs.len() as u64 {
            self.server.close(&uri(first + i));
        }
        self.server.notify("workspace/didDeleteFiles", json!({ "files": (0..docs.len() as u64).map(|i| json!({ "uri": uri(first + i) })).collect::<Vec<_>>() }));
        Ok(())
    }
}
type Bad = (String, String);
fn judge(enc: Enc, d: &Doc, got: Option<&Value>, st: &mut Stats) -> Result<(), Bad> {
    let bad = |a: &str| Err((a.to_owned(), String::new()));
    let list = match got {
        None => return bad("nothing is published"),
        Some(v) => v.as_array().cloned().unwrap_or_default(),
    };
    let one = match (&d.want, &list[..]) {
        (Want::Nothing, []) => {
            st.count("valid", 1);
            return Ok(());
        }
        (Want::Nothing, _) => return bad("a problem is shown in a valid text"),
        (_, [one]) => one,
        (_, []) => return bad("no problem is shown in an invalid text"),
        _ => return bad("several problems are shown"),
    };
    let all = enc.all(&d.text);
    let place = |v: &Value| -> Option<(usize, usize)> {
        let p = |v: &Value| Some((u32::try_from(v["line"].as_u64()?).ok()?, u32::try_from(v["character"].as_u64()?).ok()?));
        let (a, b) = (p(&v["start"])?, p(&v["end"])?);
        let known = |p: &Pos| all.binary_search(p).is_ok();
        (known(&a) && known(&b)).then(|| (enc.offset(&d.text, a), enc.offset(&d.text, b)))
    };
    let Some(range) = place(&one["range"]) else { return bad("the range is no range of the text") };
    let Some(message) = one["message"].as_str().filter(|m| !m.trim().is_empty()) else { return bad("no message") };
    let mut related = vec![];
    for r in one["relatedInformation"].as_array().into_iter().flatten() {
        if r["location"]["uri"] != "@" {
            return bad("related information about another document");
        }
        let Some(p) = place(&r["location"]["range"]) else { return bad("the range of related information is no range of the text") };
        related.push(p);
    }
    match &d.want {
        Want::Nothing => {}
        Want::Syntax(places) => {
            st.count("syntax", 1);
            if range.0 > range.1 || !places.contains(&range.0) || !places.contains(&range.1) {
                return Err(("a syntax error is shown at a place that it does not mention".into(), format!("{range:?} instead of {places:?}")));
            }
        }
        Want::Rules(rules) => {
            st.count("rules", 1);
            let inside = |at: &(usize, usize), r: (usize, usize)| {
                let Some(t) = d.text.get(r.0..r.1) else { return false };
                let start = r.0 + (t.len() - t.trim_start().len());
                let end = r.1 - (t.len() - t.trim_end().len());
                at.0 <= start && end <= at.1 && start < end
            };
            let ok = rules.iter().any(|v| {
                let named = v.rule == "tuple" || v.names.iter().all(|n| message.contains(n));
                let at = match v.at.as_slice() {
                    [] => d.text.get(range.0..range.1).is_some_and(|t| t.contains(&v.names[1])) && related.is_empty(),
                    [a] => inside(a, range) && related.is_empty(),
                    [a, b] => inside(b, range) && related.len() == 1 && inside(a, related[0]),
                    _ => false,
                };
                named && at
            });
            if !ok {
                return Err(("the problem is not shown where it is".into(), format!("{range:?} {related:?} instead of one of {rules:?}")));
            }
        }
    }
    Ok(())
}
/// The schema in several layouts, with characters of every width in front.
fn layouts(defs: &[D]) -> Vec<Doc> {
    let src = sem::text(defs);
    let rules = validate(defs);
    let doc = |prefix: &str, body: String| {
        let n = prefix.len();
        let rules: Vec<Viol> = rules
            .iter()
            .map(|v| {
                let mut v = v.clone();
                v.at.iter_mut().for_each(|a| *a = (a.0 + n, a.1 + n));
                v
            })
            .collect();
        Doc { text: format!("{prefix}{body}"), want: if rules.is_empty() { Want::Nothing } else { Want::Rules(rules) } }
    };
    vec![
        doc("", src.clone()),
        doc("/// é\n/// €𝄞\n", src.clone()),
        // everything in the line of the constant
        doc("const Z9: string = \"é€𝄞\"; ", one_line(&src)),
        doc("const Z9: string = \"é\\\n𝄞\\\n\"; ", one_line(&src)),
    ]
}
/// Only the ends of comment lines are kept.
fn one_line(src: &str) -> String {
    src.split_inclusive('\n').map(|l| if l.trim_start().starts_with("///") { l.to_owned() } else { l.replace('\n', " ") }).collect()
}
enum Work {
    Rules(Enc, Job),
    Texts(Enc, usize),
}
const PARTS: usize = 16;
pub fn c25() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C25");
    let mut js = vec![];
    for e in ENCODINGS {
        js.extend(jobs12(if th { 0 } else { -1 }).into_iter().map(|j| Work::Rules(e, j)));
        js.extend((0..PARTS).map(|p| Work::Texts(e, p)));
    }
    let s = parallel(&js, |j, st| match j {
        Work::Rules(enc, j) => {
            let mut e = Editor::new(*enc);
            let mut k = ENCODINGS.iter().position(|x| x == enc).unwrap_or(0);
            run12(j, th, st, &mut |defs, st| {
                // every encoding sees every schema, in quick in one or two of its layouts
                let l = layouts(defs);
                k += 1;
                for (i, d) in l.into_iter().enumerate() {
                    if th || i == 2 || i == k % 4 {
                        e.add(d, st);
                    }
                }
            });
            e.finish(st);
        }
        Work::Texts(enc, part) => {
            let mut e = Editor::new(*enc);
            let mut n = 0;
            let mut v = vec![];
            texts(th, &mut |t| {
                n += 1;
                if n % PARTS == *part {
                    v.push(t.to_owned());
                }
            });
            for text in v {
                // crashes of the parser are C09's matter
                let Ok(want) = quiet(|| verdict(&text)) else { continue };
                let want = want.map_or(Want::Nothing, Want::Syntax);
                e.add(Doc { text, want }, st);
            }
            e.finish(st);
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", format!("the schemas of C12 {} in 4 layouts and 3 position encodings; 10 texts, everything one edit away from them and every beginning of them, in 3 encodings", if th { "" } else { "with lists shorter by one" }));
    rep.assumptions.push("line ends are \\n and \\r\\n".into());
    rep.finish()
}
