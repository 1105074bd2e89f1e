//! C29: the course of a session with the language server. All sequences of a client's messages up to a
//! depth, regular and odd ones, then one of several endings, each in a process of its own: every request
//! is answered exactly once and in the way that it deserves, nothing else is answered, the documents that
//! the sequence leaves are the ones the server knows, and the process ends when it is told to.
use crate::lsp::{binary, Scratch, WAIT};
use model::report::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

/// Waits that were in vain: each is a violation, and there is no need for thousands of them.
static WAITED: AtomicU64 = AtomicU64::new(0);
const NOT_READY: i64 = -32002;
const INVALID_REQUEST: i64 = -32600;
const NO_METHOD: i64 = -32601;
const BAD_PARAMS: i64 = -32602;

// ---- connection -----------------------------------------------------------------------------------
struct Link {
    child: Child,
    to: Option<Box<dyn Write + Send>>,
    socket: Option<TcpStream>,
    rx: Receiver<Value>,
    /// Everything the server sent besides its own requests, in order.
    got: Vec<Value>,
    /// Methods of the requests of the server.
    asked: Vec<String>,
    closed: bool,
}
fn read(r: impl Read + Send + 'static) -> Receiver<Value> {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let mut r = BufReader::new(r);
        loop {
            let mut len = 0usize;
            loop {
                let mut l = String::new();
                if r.read_line(&mut l).map_or(true, |n| n == 0) {
                    return;
                }
                let l = l.trim();
                if l.is_empty() {
                    break;
                }
                if let Some(n) = l.strip_prefix("Content-Length:") {
                    len = n.trim().parse().unwrap_or(0);
                }
            }
            let mut b = vec![0; len];
            if r.read_exact(&mut b).is_err() {
                return;
            }
            let v = serde_json::from_slice(&b).unwrap_or_else(|_| json!({ "broken": String::from_utf8_lossy(&b) }));
            if tx.send(v).is_err() {
                return;
            }
        }
    });
    rx
}
impl Link {
    fn new(home: &Path, socket: bool) -> Link {
        let cache = home.join("cache/mabo-lsp");
        std::fs::create_dir_all(&cache).unwrap();
        let _ = std::os::unix::fs::symlink("/dev/null", cache.join("lsp.log"));
        let mut c = Command::new(binary());
        c.env("HOME", home).env("XDG_CACHE_HOME", home.join("cache")).current_dir(home).stderr(Stdio::null());
        if socket {
            let l = TcpListener::bind("127.0.0.1:0").unwrap();
            let mut child =
                c.arg("--socket").arg(l.local_addr().unwrap().port().to_string()).stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("language server");
            l.set_nonblocking(true).unwrap();
            let end = Instant::now() + WAIT;
            let s = loop {
                match l.accept() {
                    Ok((s, _)) => break Some(s),
                    Err(_) if Instant::now() > end || child.try_wait().map_or(true, |c| c.is_some()) => break None,
                    Err(_) => std::thread::sleep(Duration::from_millis(1)),
                }
            };
            let Some(s) = s else {
                return Link { child, to: None, socket: None, rx: channel().1, got: vec![], asked: vec![], closed: true };
            };
            s.set_nonblocking(false).unwrap();
            let rx = read(s.try_clone().unwrap());
            Link { child, to: Some(Box::new(s.try_clone().unwrap())), socket: Some(s), rx, got: vec![], asked: vec![], closed: false }
        } else {
            let mut child = c.arg("--stdio").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("language server");
            let rx = read(child.stdout.take().unwrap());
            let to = child.stdin.take().unwrap();
            Link { child, to: Some(Box::new(to)), socket: None, rx, got: vec![], asked: vec![], closed: false }
        }
    }
    fn send(&mut self, v: &Value) {
        let t = v.to_string();
        if let Some(i) = &mut self.to {
            let _ = i.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes());
            let _ = i.flush();
        }
    }
    fn take(&mut self, v: Value) {
        match (v["method"].as_str(), v.get("id")) {
            (Some(m), Some(id)) => {
                let result = if m == "workspace/configuration" { json!([null]) } else { Value::Null };
                let id = id.clone();
                self.asked.push(m.to_owned());
                self.send(&json!({ "jsonrpc": "2.0", "id": id, "result": result }));
            }
            _ => self.got.push(v),
        }
    }
    fn until(&mut self, f: impl Fn(&Link) -> bool) -> bool {
        let end = Instant::now() + WAIT;
        while !f(self) {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(v) => self.take(v),
                Err(RecvTimeoutError::Timeout) => {
                    WAITED.fetch_add(1, Ordering::Relaxed);
                    return false;
                }
                Err(RecvTimeoutError::Disconnected) => {
                    self.closed = true;
                    return f(self);
                }
            }
        }
        true
    }
    fn answered(&self, id: &Value) -> bool {
        self.got.iter().any(|v| v.get("method").is_none() && v["id"] == *id)
    }
    fn hang_up(&mut self) {
        self.to = None;
        if let Some(s) = &self.socket {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
    }
    /// Wait for the end of the process, with everything that it still sends.
    fn ended(&mut self) -> Option<Option<i32>> {
        let end = Instant::now() + WAIT;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                self.until(|_| false);
                return Some(s.code());
            }
            if Instant::now() > end {
                WAITED.fetch_add(1, Ordering::Relaxed);
                return None;
            }
            while let Ok(v) = self.rx.try_recv() {
                self.take(v);
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
}
impl Drop for Link {
    fn drop(&mut self) {
        self.to = None;
        self.socket = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---- messages -------------------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Want {
    Result,
    Code(i64),
    /// A request about a document that nobody opened: an answer, whichever.
    Answer,
}
#[derive(Clone, Debug)]
enum Msg {
    /// Method, parameters, whether they are as the method requires them, identified by a string.
    Ask(&'static str, Value, Option<bool>, bool),
    /// Notification without meaning for the documents.
    Note(&'static str, Value),
    Open(usize, &'static str),
    Whole(usize, &'static str),
    Close(usize),
    Delete(usize),
    /// An answer to a request that the server never made.
    Stray(Value),
}
const DOCS: [&str; 2] = ["file:///a.mabo", "file:///b%20c.mabo"];
const TEXTS: [&str; 3] = ["struct First\n", "enum Second {\n    One @1,\n}\n", "struct\n"];
const TOKENS: &str = "textDocument/semanticTokens/full";
const SYMBOLS: &str = "textDocument/documentSymbol";
const HOVER: &str = "textDocument/hover";

fn on(d: usize) -> Value {
    json!({ "textDocument": { "uri": DOCS[d] } })
}
fn at(d: usize, l: u32, c: u32) -> Value {
    json!({ "textDocument": { "uri": DOCS[d] }, "position": { "line": l, "character": c } })
}
fn messages() -> Vec<Msg> {
    use Msg::*;
    let mut more = on(0);
    more["workDoneToken"] = json!("t");
    more["somethingNew"] = json!([1, { "x": null }]);
    vec![
        Open(0, TEXTS[0]),
        Open(0, TEXTS[2]),
        Open(1, TEXTS[1]),
        Whole(0, TEXTS[1]),
        Close(0),
        Delete(0),
        Ask(TOKENS, on(0), Some(true), false),
        Ask(SYMBOLS, on(0), Some(true), true),
        Ask(HOVER, at(0, 0, 8), Some(true), false),
        Ask(SYMBOLS, more, Some(true), false),
        Ask(HOVER, at(1, 9, 99), Some(true), true),
        Ask(TOKENS, on(1), Some(true), false),
        Ask(HOVER, on(0), Some(false), false),
        Ask(SYMBOLS, json!({}), Some(false), true),
        Ask(TOKENS, json!([1, 2]), Some(false), false),
        Ask(TOKENS, json!({ "textDocument": { "uri": 5 } }), Some(false), false),
        Ask(HOVER, json!({ "textDocument": { "uri": DOCS[0] }, "position": { "line": -1, "character": 0 } }), Some(false), true),
        Ask(SYMBOLS, Value::Null, Some(false), false),
        Ask("textDocument/definition", at(0, 0, 0), None, false),
        Ask("$/unheardOf", Value::Null, None, true),
        Ask("textDocument/didOpen", on(0), None, false),
        Note("$/cancelRequest", json!({ "id": 1 })),
        Note("$/setTrace", json!({ "value": "off" })),
        Note("unheard/of", Value::Null),
        Note("textDocument/hover", at(0, 0, 8)),
        Note("textDocument/didOpen", json!({ "textDocument": { "uri": DOCS[0] } })),
        Note("textDocument/didOpen", json!([])),
        Note("textDocument/didChange", json!({ "textDocument": { "uri": DOCS[0] }, "contentChanges": 1 })),
        Note("textDocument/didChange", json!({ "textDocument": { "uri": "file:///never.mabo", "version": 2 }, "contentChanges": [{ "range": { "start": { "line": 0, "character": 0 }, "end": { "line": 0, "character": 1 } }, "text": "x" }] })),
        Note("textDocument/didClose", json!({ "textDocument": { "uri": "file:///never.mabo" } })),
        Note("textDocument/didClose", Value::Null),
        Note("workspace/didDeleteFiles", json!({ "files": [{ "uri": "no address" }, { "uri": "" }] })),
        Note("workspace/didDeleteFiles", json!({ "files": [1] })),
        Note("workspace/didChangeConfiguration", json!({ "settings": null })),
        Note("workspace/didChangeConfiguration", Value::Null),
        Note("initialized", json!({})),
        Stray(json!({ "id": 7777, "result": null })),
        Stray(json!({ "id": "never", "error": { "code": -32601, "message": "no" } })),
    ]
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ending {
    /// shutdown and exit
    Regular,
    /// shutdown, then requests and notifications, then exit
    Late,
    /// exit without shutdown
    Exit,
    /// the connection ends
    Eof,
    /// the connection ends after shutdown
    ShutdownEof,
    /// exit or the end of the connection instead of `initialize`
    EarlyExit,
    EarlyEof,
}
const EARLY: [Ending; 2] = [Ending::EarlyExit, Ending::EarlyEof];
const ENDINGS: [Ending; 5] = [Ending::Regular, Ending::Late, Ending::Exit, Ending::Eof, Ending::ShutdownEof];

struct Run<'a> {
    link: Link,
    next: i64,
    wanted: Vec<(Value, Want)>,
    /// Texts of the documents that are open, and of the ones that were.
    open: BTreeMap<usize, &'static str>,
    known: BTreeMap<usize, &'static str>,
    touched: BTreeSet<usize>,
    tell: &'a dyn Fn() -> String,
}
impl Run<'_> {
    fn ask(&mut self, method: &str, params: &Value, named: bool, want: Want) -> Value {
        self.next += 1;
        // the numbers of the server's own requests are used as well
        let id = if named { json!(format!("{}", self.next)) } else { json!(self.next) };
        let mut v = json!({ "jsonrpc": "2.0", "id": id, "method": method });
        if !params.is_null() {
            v["params"] = params.clone();
        }
        self.link.send(&v);
        self.wanted.push((id.clone(), want));
        id
    }
    fn note(&mut self, method: &str, params: &Value) {
        let mut v = json!({ "jsonrpc": "2.0", "method": method });
        if !params.is_null() {
            v["params"] = params.clone();
        }
        self.link.send(&v);
    }
    fn step(&mut self, m: &Msg, phase: Option<i64>) {
        match m {
            Msg::Ask(method, params, valid, named) => {
                let doc = (0..DOCS.len()).find(|d| params["textDocument"]["uri"] == DOCS[*d]);
                let want = match (phase, valid) {
                    (Some(c), _) => Want::Code(c),
                    (_, None) => Want::Code(NO_METHOD),
                    (_, Some(false)) => Want::Code(BAD_PARAMS),
                    _ if doc.is_some_and(|d| self.open.contains_key(&d)) => Want::Result,
                    _ => Want::Answer,
                };
                self.ask(method, params, *named, want);
            }
            Msg::Note(method, params) => self.note(method, params),
            Msg::Open(d, t) => {
                self.note("textDocument/didOpen", &json!({ "textDocument": { "uri": DOCS[*d], "languageId": "mabo", "version": 1, "text": t } }));
                if phase.is_none() {
                    self.open.insert(*d, t);
                    self.known.insert(*d, t);
                    self.touched.insert(*d);
                }
            }
            Msg::Whole(d, t) => {
                self.note("textDocument/didChange", &json!({ "textDocument": { "uri": DOCS[*d], "version": 2 }, "contentChanges": [{ "text": t }] }));
                if phase.is_none() {
                    if self.open.contains_key(d) {
                        self.open.insert(*d, t);
                    }
                    self.known.insert(*d, t);
                    self.touched.insert(*d);
                }
            }
            Msg::Close(d) => {
                self.note("textDocument/didClose", &on(*d));
                if phase.is_none() {
                    self.open.remove(d);
                }
            }
            Msg::Delete(d) => {
                self.note("workspace/didDeleteFiles", &json!({ "files": [{ "uri": DOCS[*d] }] }));
            }
            Msg::Stray(v) => {
                let mut v = v.clone();
                v["jsonrpc"] = json!("2.0");
                self.link.send(&v);
            }
        }
    }
    fn all(&mut self) -> bool {
        let ids: Vec<Value> = self.wanted.iter().map(|w| w.0.clone()).collect();
        self.link.until(|l| l.closed || ids.iter().all(|i| l.answered(i)))
    }
}
/// What the server has to know of a text: nothing, or the name of its only definition.
fn name(text: &str) -> Option<&'static str> {
    [None, Some("Second"), Some("First")][if text == TEXTS[0] { 2 } else if text == TEXTS[1] { 1 } else { 0 }]
}

/// One session; the messages before `initialize`, those after it and the ending.
fn session(home: &Path, socket: bool, before: &[&Msg], seq: &[&Msg], ending: Ending, st: &mut Stats) {
    let tell = || format!("socket {socket}\nbefore {before:?}\nthen   {seq:?}\nending {ending:?}");
    st.states += 1;
    st.traces += 1;
    st.transitions += (before.len() + seq.len() + 3) as u64;
    // a client that answers before it has said anything is none
    let before: Vec<&Msg> = before.iter().copied().filter(|m| !matches!(m, Msg::Stray(_))).collect();
    let mut r = Run { link: Link::new(home, socket), next: 0, wanted: vec![], open: BTreeMap::new(), known: BTreeMap::new(), touched: BTreeSet::new(), tell: &tell };
    for m in &before {
        r.step(m, Some(NOT_READY));
    }
    let caps = json!({ "workspace": { "configuration": true, "didChangeConfiguration": { "dynamicRegistration": true } } });
    if !EARLY.contains(&ending) {
        let init = r.ask("initialize", &json!({ "processId": null, "rootUri": null, "capabilities": caps }), before.len() % 2 == 1, Want::Result);
        if !r.link.until(|l| l.answered(&init)) {
            return st.violation("the server does not get ready", || (r.tell)());
        }
        // what the server answers is announced, as editors don't ask for anything else
        let caps = r.link.got.iter().find(|v| v["id"] == init).map(|v| v["result"]["capabilities"].clone()).unwrap_or_default();
        let on = |v: &Value| !matches!(v, Value::Null | Value::Bool(false));
        let sync = &caps["textDocumentSync"];
        let full = &caps["semanticTokensProvider"]["full"];
        if !on(&caps["hoverProvider"]) || !on(&caps["documentSymbolProvider"]) || !on(full) || !(sync == 1 || sync == 2 || sync["change"] == 1 || sync["change"] == 2) {
            st.violation("the server does not announce what it does", || format!("{}\n{caps}", (r.tell)()));
        }
    }
    if !EARLY.contains(&ending) {
        r.note("initialized", &json!({}));
        for m in seq {
            r.step(m, None);
        }
    }
    // every document that is open is there, and has the right text
    let probes: Vec<(Value, Option<&str>)> = r.open.clone().into_iter().map(|(d, t)| (r.ask(SYMBOLS, &on(d), false, Want::Result), name(t))).collect();
    r.all();
    match ending {
        Ending::Regular | Ending::ShutdownEof | Ending::Late => {
            let id = r.ask("shutdown", &Value::Null, ending == Ending::Late, Want::Result);
            r.link.until(|l| l.closed || l.answered(&id));
            if r.link.got.iter().any(|v| v["id"] == id && v.get("result") != Some(&Value::Null)) {
                st.violation("the answer to shutdown is not null", || (r.tell)());
            }
            if ending == Ending::Late {
                // whatever arrives now is refused, but the session still ends regularly
                for m in seq {
                    r.step(m, Some(INVALID_REQUEST));
                }
                r.all();
            }
            if ending != Ending::ShutdownEof {
                r.note("exit", &Value::Null);
            }
        }
        Ending::Exit | Ending::EarlyExit => r.note("exit", &Value::Null),
        Ending::Eof | Ending::EarlyEof => {}
    }
    if matches!(ending, Ending::Eof | Ending::ShutdownEof | Ending::EarlyEof) {
        r.link.hang_up();
    }
    let code = r.link.ended();
    let name = if ending == Ending::Late { "late messages: " } else { "" };
    match (ending, code) {
        (_, None) => st.violation(format!("{name}the server does not end"), || (r.tell)()),
        (_, Some(None)) => st.violation(format!("{name}the server is killed by a signal"), || (r.tell)()),
        (Ending::Regular | Ending::Late, Some(Some(c))) if c != 0 => st.violation(format!("{name}exit status {c} after a regular end"), || (r.tell)()),
        (Ending::Exit | Ending::EarlyExit, Some(Some(c))) if c != 1 => st.violation(format!("exit status {c} after exit without shutdown"), || (r.tell)()),
        (_, Some(Some(c))) if c == 101 => st.violation(format!("{name}the server panics"), || (r.tell)()),
        _ => {}
    }
    // the answers
    let mut seen: Vec<&Value> = vec![];
    for v in &r.link.got {
        if let Some(m) = v["method"].as_str() {
            if m == "textDocument/publishDiagnostics" && !r.touched.iter().any(|d| v["params"]["uri"] == DOCS[*d]) {
                st.violation("diagnostics for a document that was never opened", || format!("{}\n{v}", (r.tell)()));
            }
            continue;
        }
        let Some((id, want)) = r.wanted.iter().find(|w| w.0 == v["id"]) else {
            st.violation("an answer that nobody asked for", || format!("{}\n{v}", (r.tell)()));
            continue;
        };
        if seen.contains(&id) {
            st.violation("a request is answered twice", || format!("{}\n{v}", (r.tell)()));
        }
        seen.push(id);
        let code = v["error"]["code"].as_i64();
        let ok = v.get("result").is_some() != code.is_some()
            && v["jsonrpc"] == "2.0"
            && match want {
                Want::Result => code.is_none(),
                Want::Code(c) => code == Some(*c) && v["error"]["message"].as_str().is_some_and(|m| !m.is_empty()),
                Want::Answer => code.is_none_or(|c| ![NOT_READY, INVALID_REQUEST, NO_METHOD, BAD_PARAMS].contains(&c)),
            };
        if !ok {
            st.violation(format!("a request that deserves {want:?} is answered otherwise"), || format!("{}\n{v}", (r.tell)()));
        }
        if let Some((_, name)) = probes.iter().find(|p| p.0 == *id) {
            let names: Vec<&str> = v["result"].as_array().into_iter().flatten().filter_map(|s| s["name"].as_str()).collect();
            if names.first() != name.as_ref() {
                st.violation("a document is not the one that the messages left", || format!("{}\n{v}", (r.tell)()));
            }
        }
    }
    for (id, w) in &r.wanted {
        if !seen.contains(&id) {
            let late = *w == Want::Code(INVALID_REQUEST);
            st.violation(if late { "late messages: a request is not answered" } else { "a request is not answered" }, || format!("{}\n{id}", (r.tell)()));
        }
    }
    st.count(if code.flatten() == Some(0) { "ends_with_0" } else { "ends_otherwise" }, 1);
    let _ = (&r.link.asked, &r.known);
}

/// All sequences of indices below `n` with a length.
fn sequences(n: usize, len: usize) -> Vec<Vec<usize>> {
    (0..len).fold(vec![vec![]], |v, _| v.into_iter().flat_map(|s: Vec<usize>| (0..n).map(move |i| s.iter().copied().chain([i]).collect())).collect())
}

pub fn c29() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C29");
    let msgs = messages();
    let n = msgs.len();
    let mut jobs: Vec<(bool, Vec<usize>, Vec<usize>, Ending)> = vec![];
    for e in ENDINGS {
        for socket in [false, true] {
            for len in 0..=2 {
                if len == 2 && socket && !th {
                    continue;
                }
                for s in sequences(n, len) {
                    // before and after the handshake
                    if len < 2 || e == Ending::Regular || th {
                        jobs.push((socket, s.clone(), vec![], e));
                    }
                    if len == 1 || th {
                        jobs.push((socket, s.iter().rev().copied().collect(), s.clone(), e));
                    }
                    jobs.push((socket, vec![], s, e));
                }
            }
        }
    }
    for e in EARLY {
        for socket in [false, true] {
            for len in 0..=if th { 2 } else { 1 } {
                jobs.extend(sequences(n, len).into_iter().map(|s| (socket, s, vec![], e)));
            }
        }
    }
    // in the quick run the longest ones have every third message only
    for s in sequences(if th { n } else { n.div_ceil(3) }, 3) {
        let s = if th { s } else { s.into_iter().map(|i| i * 3).collect() };
        jobs.push((false, vec![], s, Ending::Regular));
    }
    let parts: Vec<usize> = (0..64).collect();
    let s = parallel(&parts, |p, st| {
        let home = Scratch::new("session");
        for (socket, before, seq, e) in jobs.iter().skip(*p).step_by(64) {
            if WAITED.load(Ordering::Relaxed) > 12 {
                st.count("left_out_after_violations", 1);
                continue;
            }
            let pick = |v: &Vec<usize>| v.iter().map(|i| &msgs[*i]).collect::<Vec<_>>();
            session(&home.0, *socket, &pick(before), &pick(seq), *e, st);
        }
        st.sample(|| format!("{:?}", jobs[*p]));
    });
    rep.stats.merge(s);
    rep.note("bounds", if th {
        "all sequences of up to 3 of 38 messages (2 with each of 7 endings, before the handshake, after it and both), over standard streams and sockets (up to 2)"
    } else {
        "all sequences of up to 2 of 38 messages with each of 5 endings after the handshake (up to 3 of 13 with the regular end), up to 2 before it with the regular end and 1 with 7, 1 at both places, over standard streams and sockets (up to 1)"
    });
    rep.finish()
}
