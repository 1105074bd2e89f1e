//! C18: the language server's view of a document depends on nothing but its current text.
use crate::lsp::*;
use mabo_parser::Schema;
use model::report::{parallel, quiet, thorough, Report, Stats};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum Step {
    Open(usize, String),
    Change(usize, Vec<Change>),
    Close(usize),
    /// The file is removed from disk; the document itself stays as it is.
    Delete(usize),
    Config(Value),
    Ask(usize),
    Unknown,
    Malformed(usize),
}
#[derive(Clone, Debug)]
struct Case {
    group: &'static str,
    steps: Vec<Step>,
}
const HOVERS: [Pos; 4] = [(0, 8), (1, 8), (1, 14), (9, 0)];

fn full_config() -> Value {
    json!({ "hover": { "showNextId": true, "showWireSize": true } })
}

/// Number of crashes and hangs after which the rest of a job is left out; each takes long.
const ENOUGH: u64 = 3;

/// A server under test and another one that only ever sees documents opened and closed.
struct Pair {
    home: Scratch,
    enc: Enc,
    sut: Server,
    fresh: Server,
    seen: HashMap<(String, String), Vec<Value>>,
    n: u64,
}
impl Pair {
    fn start(home: &Scratch, enc: Enc) -> Server {
        let e = [enc.name()];
        Server::ready(&home.0, Some(&e), full_config()).unwrap_or_else(|e| model::report::give_up(&format!("the server does not come up: {e:?}")))
    }
    fn new(enc: Enc) -> Pair {
        let home = Scratch::new("lsp");
        let (sut, fresh) = (Self::start(&home, enc), Self::start(&home, enc));
        Pair { home, enc, sut, fresh, seen: HashMap::new(), n: 0 }
    }
    fn configure(s: &mut Server, config: &Value) -> Result<(), Gone> {
        if s.config != *config {
            s.reconfigure(config.clone())?;
        }
        Ok(())
    }
    /// What a server says that just opened the text.
    fn expected(&mut self, texts: &[(String, Value)]) -> Result<Vec<Vec<Value>>, Gone> {
        let mut open = vec![];
        for (t, c) in texts {
            let key = (t.clone(), c.to_string());
            if self.seen.contains_key(&key) || open.iter().any(|(k, _, _)| *k == key) {
                continue;
            }
            Self::configure(&mut self.fresh, c)?;
            self.n += 1;
            let uri = format!("file:///fresh/{}.mabo", self.n);
            self.fresh.open(&uri, t);
            let ids = self.fresh.ask(&uri, &HOVERS);
            self.fresh.close(&uri);
            self.fresh.notify("workspace/didDeleteFiles", json!({ "files": [{ "uri": uri }] }));
            open.push((key, uri, ids));
        }
        for (k, uri, ids) in open {
            let v = self.fresh.view(&uri, &ids)?;
            self.fresh.diagnostics.remove(&uri);
            self.seen.insert(k, v);
        }
        if self.seen.len() > 200_000 {
            self.seen.clear();
        }
        Ok(texts.iter().map(|(t, c)| self.seen.get(&(t.clone(), c.to_string())).cloned().unwrap_or_default()).collect())
    }
    /// Run the cases one behind the other without waiting in between; compare all of the views.
    fn run(&mut self, cases: &[Case], st: &mut Stats) -> Result<(), Gone> {
        type Probe = (usize, usize, String, Vec<i64>, String, Value);
        let mut probes: Vec<Probe> = vec![];
        let mut pending: Vec<(usize, i64)> = vec![];
        let mut used = vec![];
        for (ci, c) in cases.iter().enumerate() {
            self.n += 1;
            let base = self.n;
            let uri = |d: usize| format!("file:///case/{base}/{d}.mabo");
            let mut texts: HashMap<usize, String> = HashMap::new();
            let mut version = 1;
            Self::configure(&mut self.sut, &full_config())?;
            for (si, s) in c.steps.iter().enumerate() {
                st.transitions += 1;
                match s {
                    Step::Open(d, t) => {
                        self.sut.open(&uri(*d), t);
                        texts.insert(*d, t.clone());
                    }
                    Step::Change(d, ch) => {
                        version += 1;
                        self.sut.change(&uri(*d), version, ch);
                        apply(self.enc, texts.get_mut(d).expect("open"), ch);
                    }
                    Step::Close(d) => {
                        self.sut.close(&uri(*d));
                        texts.remove(d);
                    }
                    Step::Delete(d) => self.sut.notify("workspace/didDeleteFiles", json!({ "files": [{ "uri": uri(*d) }] })),
                    Step::Config(v) => {
                        self.sut.reconfigure(v.clone())?;
                    }
                    Step::Ask(d) => {
                        let ids = self.sut.ask(&uri(*d), &HOVERS);
                        match texts.get(d) {
                            Some(t) => probes.push((ci, si, uri(*d), ids, t.clone(), self.sut.config.clone())),
                            // nothing is known about the document, but there has to be an answer
                            None => pending.extend(ids.iter().map(|i| (ci, *i))),
                        }
                    }
                    Step::Unknown => {
                        for m in ["textDocument/unheardOf", "$/unheardOf", "textDocument/definition", "workspace/symbol", ""] {
                            let id = self.sut.request(m, json!({}));
                            pending.push((ci, id));
                            self.sut.notify(m, json!({}));
                            self.sut.notify("$/cancelRequest", json!({ "id": id }));
                        }
                    }
                    Step::Malformed(d) => {
                        let id = self.sut.request("textDocument/hover", json!({ "textDocument": { "uri": uri(*d) } }));
                        pending.push((ci, id));
                        self.sut.notify("textDocument/didChange", json!({ "textDocument": 5 }));
                    }
                }
            }
            let mut open: Vec<_> = texts.iter().collect();
            open.sort();
            for (d, t) in open {
                let ids = self.sut.ask(&uri(*d), &HOVERS);
                probes.push((ci, usize::MAX, uri(*d), ids, t.clone(), self.sut.config.clone()));
            }
            for d in 0..=c.steps.iter().map(|s| if let Step::Open(d, _) = s { *d } else { 1 }).max().unwrap_or(1).max(1) {
                used.push(uri(d));
            }
        }
        self.sut.sync()?;
        for (ci, id) in pending {
            st.transitions += 1;
            if self.sut.answers.remove(&id).is_none() {
                st.violation(format!("{}: a request is never answered", cases[ci].group), || format!("{:?}", cases[ci].steps));
            }
        }
        let want = self.expected(&probes.iter().map(|p| (p.4.clone(), p.5.clone())).collect::<Vec<_>>())?;
        for ((ci, si, uri, ids, text, _), want) in probes.iter().zip(want) {
            let mut got = self.sut.view(uri, ids)?;
            let mut want = want;
            if *si != usize::MAX {
                // the diagnostics on record are those of the end of the sequence
                got[0] = Value::Null;
                want[0] = Value::Null;
            }
            st.traces += 1;
            if got != want {
                let c = &cases[*ci];
                let what = ["diagnostics", "tokens", "symbols"];
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(0);
                st.violation(format!("{}: {} differ from those of a server that just opened the text", c.group, what.get(i).unwrap_or(&"hovers")), || {
                    format!("encoding {}\nsteps {:#?}\ntext {text:?}\nafter step {si}\nfound    {}\nexpected {}", self.enc.name(), c.steps, got[i], want[i])
                });
            }
        }
        for u in used {
            self.sut.notify("workspace/didDeleteFiles", json!({ "files": [{ "uri": u }] }));
            self.sut.diagnostics.remove(&u);
        }
        if !self.sut.doubled.is_empty() {
            self.sut.doubled.clear();
            st.violation("a request is answered twice", || format!("one of {} cases starting with {:?}", cases.len(), cases[0].steps));
        }
        st.states += cases.len() as u64;
        Ok(())
    }
    fn all(&mut self, cases: &[Case], st: &mut Stats) {
        if let Some(c) = cases.first() {
            st.sample(|| format!("{} {}: {:?}", c.group, self.enc.name(), c.steps));
        }
        for batch in cases.chunks(48) {
            let mut own = Stats::default();
            if self.run(batch, &mut own).is_ok() {
                st.merge(own);
                continue;
            }
            // find out which of them it was
            self.sut = Self::start(&self.home, self.enc);
            self.fresh = Self::start(&self.home, self.enc);
            for c in batch {
                if st.counters.get("ended").is_some_and(|n| *n >= ENOUGH) {
                    return;
                }
                let mut own = Stats::default();
                let r = self.run(std::slice::from_ref(c), &mut own);
                st.merge(own);
                if let Err(e) = r {
                    st.count("ended", 1);
                    st.violation(format!("{}: the server {}", c.group, if e == Gone::Died { "crashes" } else { "hangs" }), || {
                        format!("encoding {}\nsteps {:#?}", self.enc.name(), c.steps)
                    });
                    self.sut = Self::start(&self.home, self.enc);
                    self.fresh = Self::start(&self.home, self.enc);
                }
            }
        }
    }
}

// ---- edits ----------------------------------------------------------------------------------------
/// Documents that make most of their text visible: in the places of tokens, symbols and problems.
const DOCS: [&str; 14] = [
    "",
    "use a;",
    "///𝄞\nuse a;",
    "/// äb\r\nstruct Ab\r\n",
    "/// €x\nstruct Ab\n",
    "/// a𝄞é\nenum E {\n  A,\n}\n",
    "struct Ab {\n\ta: u8 @1,\n}",
    "const A: string = \"é𝄞\n\";",
    "type A = u8; type B = A;",
    "struct",
    "struct a\n",
    "struct A\nstruct A\n",
    "mod m { struct A(u8 @1, u8 @1) }",
    "\n\n/// x\n\n\nuse b;\n\n",
];
const INSERTS: [&str; 8] = ["", "x", "𝄞", "\n", "é\nuse b;\n", " ", "\r\n", "\"}"];

/// Every range between two positions, at most `span` characters long, and the ones that reach beyond
/// the end of a line or of the text.
fn ranges(enc: Enc, text: &str, span: usize) -> Vec<(Pos, Pos)> {
    let at = enc.all(text);
    let mut v = vec![];
    for i in 0..at.len() {
        for j in i..at.len() {
            if j - i <= span || j + 1 == at.len() {
                v.push((at[i], at[j]));
            }
        }
    }
    let last = at[at.len() - 1];
    for p in at.iter().filter(|p| !at.iter().any(|q| q.0 == p.0 && q.1 > p.1)) {
        // behind the end of each line
        v.push(((p.0, p.1 + 1), (p.0, p.1 + 5)));
        v.push(((p.0, 0), (p.0, p.1 + 1)));
    }
    v.push(((0, 0), (last.0 + 1, 0)));
    v.push(((last.0 + 1, 0), (last.0 + 3, 7)));
    v.push((last, (last.0, u32::MAX >> 1)));
    v
}
fn edits(enc: Enc, text: &str, span: usize, inserts: &[&str]) -> Vec<Change> {
    let mut v: Vec<Change> = vec![];
    for r in ranges(enc, text, span) {
        v.extend(inserts.iter().map(|i| (Some(r), i.to_string())));
    }
    v.push((None, "/// 𝄞\nuse b;".into()));
    v.push((None, String::new()));
    v
}
fn valid_after(enc: Enc, text: &str, c: &Change) -> String {
    let mut t = text.to_owned();
    apply(enc, &mut t, std::slice::from_ref(c));
    t
}

// ---- sequences of messages ------------------------------------------------------------------------
const TEXTS: [&str; 4] = [
    "/// €x\nstruct Ab { a: u8 @3 }\n",
    "enum a\n",
    "/// y\nenum E { A, B(u8 @1) }",
    // as long as the first one, with the same start and end
    "/// €x\nstruct Zz { a: u9 @3 }\n",
];

/// All sequences of messages that the protocol allows, up to the length.
/// Range of the character behind `/// €`.
fn first(enc: Enc) -> (Pos, Pos) {
    let n = enc.pos("/// €", "/// €".len()).1;
    ((0, n), (0, n + 1))
}
fn sequences(enc: Enc, len: usize, f: &mut impl FnMut(Vec<Step>)) {
    fn go(enc: Enc, len: usize, steps: &mut Vec<Step>, open: [bool; 2], f: &mut impl FnMut(Vec<Step>)) {
        if !steps.is_empty() {
            f(steps.clone());
        }
        if steps.len() == len {
            return;
        }
        let mut next: Vec<(Step, [bool; 2])> = vec![];
        for d in 0..2 {
            let mut toggled = open;
            toggled[d] = !open[d];
            if open[d] {
                next.push((Step::Close(d), toggled));
                next.push((Step::Change(d, vec![(None, TEXTS[d + 1].into())]), open));
                next.push((Step::Change(d, vec![(Some(first(enc)), "y\n".into()), (Some(((1, 0), (1, 0))), "use c;\n".into())]), open));
                next.push((Step::Change(d, vec![]), open));
                next.push((Step::Ask(d), open));
            } else {
                next.push((Step::Open(d, TEXTS[d].into()), toggled));
                if d == 0 {
                    next.push((Step::Open(d, TEXTS[2].into()), toggled));
                    next.push((Step::Open(d, TEXTS[3].into()), toggled));
                    next.push((Step::Ask(d), open));
                }
            }
            if d == 0 {
                next.push((Step::Delete(d), open));
                next.push((Step::Malformed(d), open));
            }
        }
        next.push((Step::Config(json!({ "hover": { "showNextId": false, "showWireSize": true } })), open));
        next.push((Step::Config(json!({ "hover": { "showNextId": false } })), open));
        next.push((Step::Config(Value::Null), open));
        next.push((Step::Unknown, open));
        for (s, o) in next {
            steps.push(s);
            go(enc, len, steps, o, f);
            steps.pop();
        }
    }
    go(enc, len, &mut vec![], [false; 2], f);
}

// ---- order of arrival -----------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq)]
enum Reply {
    Result,
    Error,
    Never,
}
#[derive(Clone, Debug)]
struct Schedule {
    msgs: Vec<Step>,
    /// Number of client messages that are sent before the server's requests are answered.
    at: [usize; 2],
    reply: [Reply; 2],
    /// Whether a configuration change precedes the messages; otherwise the requests of the start.
    config: bool,
    folders: bool,
    /// Whether the server is shut down at the end.
    down: bool,
}
fn schedules(enc: Enc, th: bool) -> Vec<Schedule> {
    let alphabet = [
        Step::Open(0, TEXTS[0].into()),
        Step::Change(0, vec![(Some(first(enc)), "y\n".into())]),
        Step::Ask(0),
        Step::Close(0),
        Step::Unknown,
    ];
    let mut lists: Vec<Vec<Step>> = vec![vec![]];
    let mut level = lists.clone();
    for _ in 0..if th { 4 } else { 3 } {
        let mut next = vec![];
        for l in &level {
            let open = l.iter().rev().find_map(|s| match s {
                Step::Open(..) => Some(true),
                Step::Close(..) => Some(false),
                _ => None,
            }) == Some(true);
            for s in &alphabet {
                if matches!(s, Step::Open(..)) != open || matches!(s, Step::Unknown) {
                    next.push(l.iter().cloned().chain([s.clone()]).collect());
                }
            }
        }
        lists.extend(next.iter().cloned());
        level = next;
    }
    let mut v = vec![];
    for msgs in lists {
        for config in [false, true] {
            for a in 0..=msgs.len() {
                for b in if config { a..=a } else { a..=msgs.len() } {
                    for down in [false, true] {
                        v.push(Schedule { msgs: msgs.clone(), at: [a, b], reply: [Reply::Result; 2], config, folders: false, down });
                    }
                    if !config {
                        v.push(Schedule { msgs: msgs.clone(), at: [a, b], reply: [Reply::Result; 2], config, folders: true, down: false });
                    }
                    v.push(Schedule { msgs: msgs.clone(), at: [a, b], reply: [Reply::Error, Reply::Result], config, folders: false, down: false });
                    if !config {
                        v.push(Schedule { msgs: msgs.clone(), at: [a, b], reply: [Reply::Result, Reply::Error], config, folders: false, down: false });
                    }
                }
            }
            // these take as long as the server is willing to wait
            if msgs.len() == 2 || (th && msgs.len() < 4) {
                for reply in [[Reply::Never, Reply::Result], [Reply::Result, Reply::Never], [Reply::Never, Reply::Never]] {
                    if !config || reply[1] == Reply::Result {
                        v.push(Schedule { msgs: msgs.clone(), at: [0, msgs.len()], reply, config, folders: false, down: true });
                    }
                }
            }
        }
    }
    v
}
fn workspace(dir: &std::path::Path) -> Vec<String> {
    let w = |p: &str, c: &[u8]| {
        let p = dir.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    };
    w("good/Mabo.toml", b"[package]\nname = \"a\"\nfiles = [\"*.mabo\"]\n");
    w("good/0.mabo", b"enum x");
    w("good/1.mabo", &[0xff, 0xfe]);
    w("good/sp ace.mabo", b"use a;");
    w("bad/Mabo.toml", b"[package\n");
    ["good", "bad", "missing", "good/0.mabo"].iter().map(|s| dir.join(s).to_string_lossy().into_owned()).collect()
}
/// Run the schedule on a server of its own, and compare with one that gets everything in good order.
fn scheduled(c: &Schedule, home: &Scratch, pair: &mut Pair, st: &mut Stats) -> Result<(), (Gone, &'static str)> {
    let enc = pair.enc;
    let e = |w: &'static str| move |g: Gone| (g, w);
    let config = json!({ "hover": { "showNextId": false, "showWireSize": true } });
    let mut s = Server::spawn(&home.0);
    s.config = config.clone();
    let folders = if c.folders { workspace(&home.0) } else { vec![] };
    s.initialize(Some(&[enc.name()]), &folders).map_err(e("at the start"))?;
    s.notify("initialized", json!({}));
    if c.config {
        s.config = full_config();
        s.until(|s| !s.registered.is_empty()).map_err(e("at the start"))?;
        s.sync().map_err(e("at the start"))?;
        s.config = config.clone();
        s.eager = false;
        s.notify("workspace/didChangeConfiguration", json!({ "settings": null }));
    } else {
        s.eager = false;
    }
    let uri = if c.folders { format!("file://{}/good/0.mabo", home.0.display()) } else { "file:///s/0.mabo".to_owned() };
    let requests = if c.config { 1 } else { 2 };
    let mut answered = 0;
    let mut text: Option<String> = None;
    let mut version = 1;
    let mut ids = vec![];
    let mut probes: Vec<(Vec<i64>, String)> = vec![];
    for i in 0..=c.msgs.len() {
        while answered < requests && c.at[answered] == i {
            // the next request of the server arrives once it is done with the one before
            s.until(|s| !s.asked.is_empty()).map_err(e("before its own request"))?;
            match c.reply[answered] {
                Reply::Result => s.respond(0),
                Reply::Error => s.respond_error(0),
                Reply::Never => {
                    s.asked.remove(0);
                }
            }
            s.flush();
            answered += 1;
        }
        let Some(m) = c.msgs.get(i) else { break };
        st.transitions += 1;
        match m {
            Step::Open(_, t) => {
                s.open(&uri, t);
                text = Some(t.clone());
            }
            Step::Change(_, ch) => {
                version += 1;
                s.change(&uri, version, ch);
                apply(enc, text.as_mut().expect("open"), ch);
            }
            Step::Close(_) => {
                s.close(&uri);
                text = None;
            }
            Step::Ask(_) => {
                let i = s.ask(&uri, &HOVERS);
                ids.extend(&i);
                if let Some(t) = &text {
                    probes.push((i, t.clone()));
                }
            }
            Step::Unknown => ids.push(s.request("textDocument/unheardOf", json!({}))),
            _ => unreachable!(),
        }
        // every message arrives on its own
        s.flush();
    }
    s.eager = true;
    if let Some(t) = &text {
        let i = s.ask(&uri, &HOVERS);
        ids.extend(&i);
        probes.push((i, t.clone()));
    }
    if c.down {
        let id = s.request("shutdown", Value::Null);
        ids.push(id);
        s.notify("exit", Value::Null);
    } else {
        s.sync().map_err(e("at the end"))?;
    }
    s.until(|s| ids.iter().all(|i| s.answers.contains_key(i))).map_err(e("before answering everything"))?;
    let full = c.reply[0] == Reply::Result;
    let mut wanted = vec![];
    for (_, t) in &probes {
        wanted.push((t.clone(), config.clone()));
        wanted.push((t.clone(), full_config()));
    }
    let w = pair.expected(&wanted).map_err(e("in the reference"))?;
    for (n, (ids, t)) in probes.iter().enumerate() {
        st.traces += 1;
        let last = n + 1 == probes.len() && text.is_some();
        let got = s.view(&uri, ids).map_err(e("at the end"))?;
        // Before the configuration has arrived the old one is as good, and it stays if none arrives.
        let mut ok = false;
        for (i, want) in w[2 * n..2 * n + 2].iter().enumerate() {
            if last && i == 1 && full {
                continue;
            }
            ok |= got[1..] == want[1..] && (!last || got[0] == want[0]);
        }
        if !ok {
            st.violation("arrival: answers differ from those of a server that just opened the text", || {
                format!("encoding {}\nschedule {c:#?}\ntext {t:?}\nfound    {}\nexpected {}", enc.name(), Value::from(got), Value::from(w[2 * n].clone()))
            });
        }
    }
    if c.down {
        let rc = s.ended().map_err(e("after it was told to exit"))?;
        if rc != Some(0) {
            st.violation(format!("arrival: exit status {rc:?} after a regular shutdown"), || format!("{c:#?}"));
        }
    }
    if !s.doubled.is_empty() {
        st.violation("arrival: a request is answered twice", || format!("{c:#?}"));
    }
    if s.registered.len() != 1 {
        st.violation(format!("arrival: {} registrations", s.registered.len()), || format!("{c:#?}"));
    }
    st.states += 1;
    Ok(())
}

// ---- texts ----------------------------------------------------------------------------------------
/// Whether there is a problem, and all the numbers that its description has: places in the text are
/// among them, with and without a label of their own.
pub fn verdict(text: &str) -> Option<Vec<usize>> {
    fn numbers(s: &str) -> Vec<usize> {
        s.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse().ok()).collect()
    }
    match Schema::parse(text, None) {
        Err(e) => Some(numbers(&format!("{:?}", e.cause))),
        Ok(s) => match mabo_compiler::validate_schema(&s) {
            Ok(()) => None,
            Err(e) => Some(numbers(&format!("{e:?}"))),
        },
    }
}
fn opened(pair: &mut Pair, texts: &[String], st: &mut Stats) -> Result<(), Gone> {
    let mut v = vec![];
    for t in texts {
        pair.n += 1;
        let uri = format!("file:///text/{}.mabo", pair.n);
        pair.sut.open(&uri, t);
        let ids = pair.sut.ask(&uri, &[(0, 0)]);
        pair.sut.close(&uri);
        pair.sut.notify("workspace/didDeleteFiles", json!({ "files": [{ "uri": uri }] }));
        v.push((uri, ids, t));
    }
    for (uri, ids, t) in v {
        let got = pair.sut.view(&uri, &ids)?;
        pair.sut.diagnostics.remove(&uri);
        st.states += 1;
        st.transitions += 1;
        st.traces += 1;
        let want = quiet(|| verdict(t));
        let d = got[0].as_array().cloned().unwrap_or_default();
        let Ok(want) = want else { continue };
        let problem = match (&want, d.as_slice()) {
            (None, []) => None,
            (None, _) => Some("diagnostics for a valid text".to_owned()),
            (Some(_), []) => Some("no diagnostics for an invalid text".to_owned()),
            (Some(labels), [d]) => {
                let p = |v: &Value| (v["line"].as_u64().unwrap_or(0) as u32, v["character"].as_u64().unwrap_or(0) as u32);
                let (a, b) = (p(&d["range"]["start"]), p(&d["range"]["end"]));
                let all = pair.enc.all(t);
                let ends = all.last().copied().unwrap_or_default();
                if a > b || b > ends {
                    Some(format!("the range {a:?}..{b:?} of the diagnostics is not inside the text"))
                } else if !labels.iter().any(|l| t.is_char_boundary(*l) && pair.enc.pos(t, *l) == a) {
                    Some(format!("the diagnostics start at {a:?}, which is no place that the error mentions"))
                } else {
                    None
                }
            }
            _ => Some("several diagnostics".to_owned()),
        };
        // tokens, symbols and hovers exist exactly for valid texts
        let problem = problem.or_else(|| {
            let empty = got[2]["result"].as_array().is_none_or(Vec::is_empty);
            (want.is_some() && !empty).then(|| "symbols for an invalid text".to_owned())
        });
        if let Some(p) = problem {
            st.violation(format!("texts: {p}"), || format!("encoding {}\n{t:?}\n{want:?}\n{}", pair.enc.name(), got[0]));
        }
    }
    Ok(())
}

const OFFERS: [&str; 5] = ["utf-8", "utf-16", "utf-32", "utf-7", ""];
/// The server announces the first of the client's position encodings that exists, and uses it.
fn offered(offer: &[&str], st: &mut Stats) -> Result<(), Gone> {
    let home = Scratch::new("offer");
    let mut s = Server::spawn(&home.0);
    s.initialize((!offer.is_empty()).then_some(offer), &[])?;
    s.notify("initialized", json!({}));
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let want = [Enc::Utf8, Enc::Utf16, Enc::Utf32];
    let want = offer.iter().find_map(|o| want.into_iter().find(|w| w.name() == *o)).unwrap_or(Enc::Utf16);
    let got = s.init["result"]["capabilities"]["positionEncoding"].clone();
    if got != want.name() && !(want == Enc::Utf16 && got.is_null()) {
        st.violation(format!("start: announces {got} instead of {}", want.name()), || format!("position encodings {offer:?}"));
        return Ok(());
    }
    // two changes and a question whose positions differ in every encoding
    let mut text = "const A: string = \"é𝄞\"; const B: u8 = 1;".to_owned();
    s.open("file:///o.mabo", &text);
    for at in ["𝄞", "= 1"] {
        let p = want.pos(&text, text.find(at).expect("listed") + at.len());
        let c = vec![(Some((p, p)), "1".to_owned())];
        s.change("file:///o.mabo", 2, &c);
        apply(want, &mut text, &c);
    }
    let name = text.find('B').expect("listed");
    let id = s.symbols("file:///o.mabo");
    s.until(|s| s.answers.contains_key(&id))?;
    let (a, b) = (want.pos(&text, name), want.pos(&text, name + 1));
    let r = s.answers[&id]["result"][1]["selectionRange"].clone();
    let w = json!({ "start": { "line": a.0, "character": a.1 }, "end": { "line": b.0, "character": b.1 } });
    if r != w {
        st.violation("start: positions are not those of the announced encoding", || format!("position encodings {offer:?}\n{r}\n{w}"));
    }
    Ok(())
}

enum Job {
    Edit1(Enc, usize),
    Edit2(Enc, usize, usize, bool),
    Seq(Enc, usize),
    Sched(Enc, usize),
    Texts(Enc, usize),
    /// Edits of a large document.
    Large(Enc, usize),
    /// Many changes of a document, and many documents.
    Long(Enc, usize),
    Deep,
    Offer(Vec<Vec<&'static str>>),
}
const LARGE: usize = 4;
/// Documents with many lines and with long ones.
fn large() -> Vec<String> {
    let lines: String = (0..300).map(|i| format!("/// é𝄞{i}\nuse a{i};\n")).collect();
    let fields: String = (0..140).map(|i| format!("    /// €\r\n    f{i}: u8,\r\n")).collect();
    let variants: String = (0..140).map(|i| format!("V{i}(u8, string), ")).collect();
    let long: String = (0..150).map(|i| ["a", "é", "€", "𝄞", "1"][i % 5]).collect();
    vec![
        lines,
        format!("struct S {{\r\n{fields}}}\r\n"),
        format!("enum E {{ {variants} }}\n/// {long}\nuse b;"),
        format!("const A: string = \"{long}\n\n{long}{long}\"; use b;\n/// {long}{long}\nstruct A"),
    ]
}
/// Ranges between places far from the start of the text and of their lines.
fn far(enc: Enc, text: &str, th: bool) -> Vec<(Pos, Pos)> {
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let mut at: Vec<Pos> = vec![];
    for l in [0, 1, 2, 9, 10, 63, 64, 99, 100, 127, 128, 129, 255, 256, 257, 279, lines.len() - 1] {
        let Some(line) = lines.get(l) else { continue };
        let line = line.trim_end_matches(['\r', '\n']);
        let all: Vec<u32> = enc.all(line).into_iter().map(|p| p.1).collect();
        for i in [0, 6, 17, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, all.len() - 1] {
            if let Some(c) = all.get(i) {
                at.push((l as u32, *c));
            }
        }
    }
    at.sort();
    at.dedup();
    let mut v = vec![];
    for i in 0..at.len() {
        for j in i..at.len() {
            if th || j - i <= 1 || j + 1 == at.len() || i == 0 {
                v.push((at[i], at[j]));
            }
        }
    }
    v
}
const LONG: usize = 4;
fn long(enc: Enc, kind: usize, th: bool) -> Case {
    let n = if th { 2000 } else { 600 };
    let source = "/// é𝄞\nstruct Ab { a: u8 @3 }\nenum E { A, B(u8 @1) }\n";
    let mut steps = vec![];
    match kind {
        // typing it character by character, deleting it again from the end
        0 | 1 => {
            steps.push(Step::Open(0, String::new()));
            let mut text = String::new();
            let mut changes = 0;
            while changes < n {
                for c in source.chars() {
                    let p = enc.pos(&text, text.len());
                    steps.push(Step::Change(0, vec![(Some((p, p)), c.to_string())]));
                    text.push(c);
                    changes += 1;
                    if changes % 37 == 0 {
                        steps.push(Step::Ask(0));
                    }
                }
                while kind == 1 && !text.is_empty() {
                    let b = enc.pos(&text, text.len());
                    text.pop();
                    let a = enc.pos(&text, text.len());
                    steps.push(Step::Change(0, vec![(Some((a, b)), String::new())]));
                    changes += 1;
                    if changes % 41 == 0 {
                        steps.push(Step::Ask(0));
                    }
                }
            }
        }
        // many changes in a single message, in front of each other
        2 => {
            steps.push(Step::Open(0, source.into()));
            steps.push(Step::Change(0, (0..n).map(|i| (Some(((0, 0), (0, 0))), if i % 2 == 0 { "\n".to_string() } else { format!("use a{i};") })).collect()));
        }
        // many documents at the same time
        _ => {
            let docs = n / 3;
            for d in 0..docs {
                steps.push(Step::Open(d, format!("/// {d}\nstruct A{d} {{ a: u8 @{} }}\n", d + 1)));
            }
            for d in 0..docs {
                if d % 3 != 0 {
                    steps.push(Step::Change(d, vec![(Some(((1, 7), (1, 8))), format!("/*{d}*/").replace(['/', '*'], "Z"))]));
                }
                if d % 5 == 4 {
                    steps.push(Step::Close(d));
                }
                if d % 10 == 9 {
                    steps.push(Step::Open(d, format!("enum B{d} {{ A @{} }}\n", d + 1)));
                }
            }
        }
    }
    Case { group: "long history", steps }
}
const PARTS: usize = 16;
const SMALL: [&str; 4] = ["///𝄞\nuse a;", "use a;\r\n", "//é\n", "struct A\n"];

pub fn c18() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C18");
    let mut js = vec![];
    for p in 0..PARTS {
        js.push(Job::Sched(if th { ENCODINGS[p % 3] } else { Enc::Utf16 }, p));
    }
    for (i, e) in ENCODINGS.into_iter().enumerate() {
        for p in 0..PARTS {
            if th || i == p % 3 {
                js.push(Job::Seq(e, p));
            }
            if th || i == 0 {
                js.push(Job::Texts(e, p));
            }
        }
        js.extend((0..DOCS.len()).map(|d| Job::Edit1(e, d)));
        js.extend((0..LARGE).map(|d| Job::Large(e, d)));
        js.extend((0..LONG).map(|d| Job::Long(e, d)));
        for d in 0..SMALL.len() {
            for p in 0..4 {
                for one in [false, true] {
                    if th || (i + d) % 3 == 0 || d == 0 {
                        js.push(Job::Edit2(e, d, p, one));
                    }
                }
            }
        }
    }
    js.push(Job::Deep);
    let mut offers: Vec<Vec<&'static str>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..if th { 4 } else { 3 } {
        let to = offers.len();
        for i in from..to {
            for n in OFFERS {
                offers.push(offers[i].iter().copied().chain([n]).collect());
            }
        }
        from = to;
    }
    for p in 0..PARTS {
        js.push(Job::Offer(offers.iter().skip(p).step_by(PARTS).cloned().collect()));
    }
    let all = [Enc::Utf8, Enc::Utf16, Enc::Utf32].map(|e| (e, schedules(e, th)));
    let s = parallel(&js, |j, st| match j {
        Job::Edit1(enc, d) => {
            let text = DOCS[*d];
            let cases: Vec<Case> = edits(*enc, text, usize::MAX, &INSERTS)
                .into_iter()
                .map(|c| Case { group: "edit", steps: vec![Step::Open(0, text.into()), Step::Change(0, vec![c])] })
                .collect();
            st.count("single_edits", cases.len() as u64);
            Pair::new(*enc).all(&cases, st);
        }
        Job::Edit2(enc, d, part, one) => {
            let text = SMALL[*d];
            let span = if th { 3 } else { 1 };
            let ins: &[&str] = if th { &["", "x", "𝄞", "\n", "é\nuse b;\n"] } else { &["", "𝄞", "x\n"] };
            let mut pair = Pair::new(*enc);
            for (i, a) in edits(*enc, text, span, ins).into_iter().enumerate() {
                if i % 4 != *part {
                    continue;
                }
                let mid = valid_after(*enc, text, &a);
                let cases: Vec<Case> = edits(*enc, &mid, span, ins)
                    .into_iter()
                    .map(|b| {
                        let open = Step::Open(0, text.into());
                        let steps = if *one {
                            vec![open, Step::Change(0, vec![a.clone(), b])]
                        } else {
                            vec![open, Step::Change(0, vec![a.clone()]), Step::Change(0, vec![b])]
                        };
                        Case { group: if *one { "two edits in one message" } else { "two edits" }, steps }
                    })
                    .collect();
                st.count("double_edits", cases.len() as u64);
                pair.all(&cases, st);
            }
        }
        Job::Seq(enc, part) => {
            let mut cases = vec![];
            let mut n = 0;
            sequences(*enc, if th { 5 } else { 4 }, &mut |steps| {
                n += 1;
                if n % PARTS == *part {
                    cases.push(Case { group: "messages", steps });
                }
            });
            st.count("message_sequences", cases.len() as u64);
            Pair::new(*enc).all(&cases, st);
        }
        Job::Sched(enc, part) => {
            let mut pair = Pair::new(*enc);
            for c in all.iter().find(|a| a.0 == *enc).expect("listed").1.iter().skip(*part).step_by(PARTS) {
                let home = Scratch::new("sched");
                let mut own = Stats::default();
                let r = scheduled(c, &home, &mut pair, &mut own);
                st.merge(own);
                st.count("arrival_schedules", 1);
                if st.counters.get("ended").is_some_and(|n| *n >= ENOUGH) {
                    break;
                }
                if let Err((g, w)) = r {
                    st.count("ended", 1);
                    st.violation(format!("arrival: the server {} {w}", if g == Gone::Died { "crashes" } else { "hangs" }), || format!("encoding {}\n{c:#?}", enc.name()));
                }
            }
        }
        Job::Texts(enc, part) => {
            let mut pair = Pair::new(*enc);
            let mut batch = vec![];
            let mut flush = |batch: &mut Vec<String>, st: &mut Stats| {
                if opened(&mut pair, batch, st).is_err() {
                    for t in batch.iter() {
                        if st.counters.get("ended").is_some_and(|n| *n >= ENOUGH) {
                            break;
                        }
                        pair = Pair::new(*enc);
                        if let Err(e) = opened(&mut pair, std::slice::from_ref(t), st) {
                            st.count("ended", 1);
                            st.violation(format!("texts: the server {}", if e == Gone::Died { "crashes" } else { "hangs" }), || format!("{} {t:?}", enc.name()));
                        }
                    }
                    pair = Pair::new(*enc);
                }
                batch.clear();
            };
            let mut n = 0;
            texts(th, &mut |t| {
                n += 1;
                if n % PARTS == *part {
                    batch.push(t.to_owned());
                    if batch.len() == 64 {
                        st.count("texts", 64);
                        flush(&mut batch, st);
                    }
                }
            });
            st.count("texts", batch.len() as u64);
            flush(&mut batch, st);
        }
        Job::Large(enc, d) => {
            let text = &large()[*d];
            let cases: Vec<Case> = far(*enc, text, th)
                .into_iter()
                .flat_map(|r| ["", "é𝄞\n", "x"].map(|t| Case { group: "edit of a large document", steps: vec![Step::Open(0, text.clone()), Step::Change(0, vec![(Some(r), t.into())])] }))
                .collect();
            st.count("far_edits", cases.len() as u64);
            Pair::new(*enc).all(&cases, st);
        }
        Job::Long(enc, d) => {
            let cases = vec![long(*enc, *d, th)];
            st.count("long_histories", 1);
            Pair::new(*enc).all(&cases, st);
        }
        Job::Offer(offers) => {
            for o in offers {
                st.count("encoding_offers", 1);
                if offered(o, st).is_err() {
                    st.violation("start: the server ends or hangs", || format!("position encodings {o:?}"));
                }
            }
        }
        Job::Deep => {
            // nesting that a server has to survive, and nesting that it does not (recorded finding)
            for (depth, known) in [(200, false), (100_000, true)] {
                let mut pair = Pair::new(Enc::Utf16);
                let t = format!("struct A(\n{}u8{} @1)", "vec<".repeat(depth), ">".repeat(depth));
                if opened(&mut pair, &[t], st).is_err() {
                    if known {
                        st.known("deep-nesting", || format!("{depth} nested vectors end the server"));
                    } else {
                        st.violation("texts: nesting ends the server", || format!("{depth} nested vectors"));
                    }
                }
            }
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", "single edits: every range and 8 insertions in 14 documents, 3 encodings; pairs of edits in one and in two messages on small documents; all message sequences up to 4 (5 in thorough) over two documents; all positions of the answers to the server's own requests between up to 3 (4) client messages, answered, refused and (for some) never answered; edits between far places of 4 large documents; histories of 600 (2000) changes and 200 (666) documents");
    rep.assumptions.push("line ends are \\n and \\r\\n; positions never point into a character".into());
    rep.finish()
}
/// Texts to be opened as they are: sentences with and without problems and everything one edit away.
pub fn texts(th: bool, f: &mut impl FnMut(&str)) {
    let seeds = [
        "/// €x\nstruct Ab<T> {\n  /// 𝄞\n  a: vec<T> @1,\n b: [u8;2] @ 2 }",
        "enum E { A @1, /// é\n B(u8 @1) , C{ a:u8} }",
        "mod m { use a::b::C; const X: string = \"𝄞\"; }\ntype T = (u8, option<b::C<u8>>);",
        "#[a = 1, b(c)]\nstruct S(u8 @1, u8 @1)",
        "/// 𝄞 enum E {\nconst A: bool = tru",
        "const A:bytes = [1, 2,\n 256];",
        "enum Eé { A }",
        "struct A { é: u8 }",
        "struct A { a: hash_map<u8, é> }",
        "struct A(/// é\n u8)",
    ];
    for s in seeds {
        crate::texts::edits(s, th, f);
        // every beginning of the text
        for i in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
            f(&s[..i]);
            f(&format!("{}𝄞", &s[..i]));
        }
    }
    if th {
        for t in crate::texts::families(false) {
            f(&t);
        }
    }
}
