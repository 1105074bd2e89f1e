//! A language server process under full control of the caller: every message that goes in and the
//! moment at which its own requests are answered.
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub const WAIT: Duration = Duration::from_secs(12);

pub struct Server {
    child: Child,
    stdin: Option<BufWriter<ChildStdin>>,
    rx: Receiver<Value>,
    next: i64,
    /// Answers by the number of the request; a second answer to the same request is recorded.
    pub answers: HashMap<i64, Value>,
    pub doubled: Vec<i64>,
    /// Last published diagnostics of each document, without the document's own address.
    pub diagnostics: HashMap<String, Value>,
    /// Requests of the server that were not answered yet.
    pub asked: Vec<(Value, String)>,
    /// Answer requests of the server at once.
    pub eager: bool,
    pub config: Value,
    pub registered: Vec<Value>,
    /// Number of answered requests for the configuration.
    pub configured: u64,
    pub init: Value,
    pub odd: Vec<String>,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Gone {
    Died,
    Hangs,
}

/// A scratch directory that goes away with the value.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("vp-{name}-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn binary() -> String {
    std::env::var("MABO_LSP").expect("MABO_LSP")
}

impl Server {
    /// Start a server that has not received anything yet.
    pub fn spawn(home: &Path) -> Server {
        let cache = home.join("cache/mabo-lsp");
        std::fs::create_dir_all(&cache).unwrap();
        // the log would grow without bound
        let _ = std::os::unix::fs::symlink("/dev/null", cache.join("lsp.log"));
        let mut child = Command::new(binary())
            .arg("--stdio")
            .env("HOME", home)
            .env("XDG_CACHE_HOME", home.join("cache"))
            .current_dir(home)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("language server");
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut len = 0usize;
                loop {
                    let mut l = String::new();
                    if r.read_line(&mut l).map_or(true, |n| n == 0) {
                        return;
                    }
                    let l = l.trim();
                    if l.is_empty() {
                        break;
                    }
                    if let Some(n) = l.strip_prefix("Content-Length:") {
                        len = n.trim().parse().unwrap_or(0);
                    }
                }
                let mut b = vec![0; len];
                if r.read_exact(&mut b).is_err() {
                    return;
                }
                let Ok(v) = serde_json::from_slice(&b) else { return };
                if tx.send(v).is_err() {
                    return;
                }
            }
        });
        let stdin = child.stdin.take().map(BufWriter::new);
        Server {
            child,
            stdin,
            rx,
            next: 0,
            answers: HashMap::new(),
            doubled: vec![],
            diagnostics: HashMap::new(),
            asked: vec![],
            eager: true,
            config: Value::Null,
            registered: vec![],
            configured: 0,
            init: Value::Null,
            odd: vec![],
        }
    }
    /// Start a server and finish the whole handshake.
    pub fn ready(home: &Path, encodings: Option<&[&str]>, config: Value) -> Result<Server, Gone> {
        let mut s = Self::spawn(home);
        s.config = config;
        s.initialize(encodings, &[])?;
        s.notify("initialized", json!({}));
        // the two requests of the server are answered while it waits for them
        s.until(|s| !s.registered.is_empty())?;
        s.sync()?;
        Ok(s)
    }
    pub fn initialize(&mut self, encodings: Option<&[&str]>, folders: &[String]) -> Result<(), Gone> {
        let mut caps = json!({ "workspace": { "configuration": true, "didChangeConfiguration": { "dynamicRegistration": true } } });
        if let Some(e) = encodings {
            caps["general"] = json!({ "positionEncodings": e });
        }
        let mut p = json!({ "processId": null, "rootUri": null, "capabilities": caps });
        if !folders.is_empty() {
            p["workspaceFolders"] = folders.iter().map(|f| json!({ "uri": format!("file://{f}"), "name": "w" })).collect();
        }
        let id = self.request("initialize", p);
        self.init = self.answer(id)?;
        Ok(())
    }
    pub fn send(&mut self, v: &Value) {
        let t = v.to_string();
        if let Some(i) = &mut self.stdin {
            let _ = write!(i, "Content-Length: {}\r\n\r\n{t}", t.len());
        }
    }
    pub fn flush(&mut self) {
        if let Some(i) = &mut self.stdin {
            let _ = i.flush();
        }
    }
    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(&json!({ "jsonrpc": "2.0", "method": method, "params": params }));
    }
    pub fn request(&mut self, method: &str, params: Value) -> i64 {
        self.next += 1;
        let id = self.next;
        let mut v = json!({ "jsonrpc": "2.0", "id": id, "method": method });
        if !params.is_null() {
            v["params"] = params;
        }
        self.send(&v);
        id
    }
    fn take(&mut self, v: Value) {
        let method = v.get("method").and_then(Value::as_str).map(str::to_owned);
        match (method, v.get("id")) {
            (Some(m), Some(id)) => {
                if m == "client/registerCapability" {
                    self.registered.push(v["params"].clone());
                }
                self.asked.push((id.clone(), m));
                if self.eager {
                    self.respond(0);
                    self.flush();
                }
            }
            (Some(m), None) if m == "textDocument/publishDiagnostics" => {
                let uri = v["params"]["uri"].as_str().unwrap_or("").to_owned();
                let d = v["params"]["diagnostics"].to_string().replace(&uri, "@");
                self.diagnostics.insert(uri, serde_json::from_str(&d).unwrap_or(Value::Null));
            }
            (Some(m), None) => self.odd.push(m),
            (None, Some(id)) => {
                let id = id.as_i64().unwrap_or(-1);
                let mut a = v.clone();
                a.as_object_mut().map(|o| {
                    o.remove("id");
                    o.remove("jsonrpc")
                });
                if self.answers.insert(id, a).is_some() {
                    self.doubled.push(id);
                }
            }
            _ => self.odd.push(v.to_string()),
        }
    }
    /// Answer the pending request of the server at the position.
    pub fn respond(&mut self, at: usize) {
        let (id, m) = self.asked.remove(at);
        let result = match m.as_str() {
            "workspace/configuration" => {
                self.configured += 1;
                json!([self.config])
            }
            _ => Value::Null,
        };
        self.send(&json!({ "jsonrpc": "2.0", "id": id, "result": result }));
    }
    pub fn respond_error(&mut self, at: usize) {
        let (id, _) = self.asked.remove(at);
        self.send(&json!({ "jsonrpc": "2.0", "id": id, "error": { "code": -32603, "message": "no" } }));
    }
    /// Take in messages until the condition holds.
    pub fn until(&mut self, f: impl Fn(&Server) -> bool) -> Result<(), Gone> {
        self.flush();
        let end = Instant::now() + WAIT;
        while !f(self) {
            match self.rx.recv_timeout(end.saturating_duration_since(Instant::now())) {
                Ok(v) => self.take(v),
                Err(RecvTimeoutError::Timeout) => return Err(Gone::Hangs),
                Err(RecvTimeoutError::Disconnected) => return Err(Gone::Died),
            }
        }
        Ok(())
    }
    pub fn answer(&mut self, id: i64) -> Result<Value, Gone> {
        self.until(|s| s.answers.contains_key(&id))?;
        Ok(self.answers[&id].clone())
    }
    /// Wait until everything sent so far is handled.
    pub fn sync(&mut self) -> Result<(), Gone> {
        let id = self.request("vp/sync", Value::Null);
        self.until(|s| s.answers.contains_key(&id))?;
        // whatever was sent before the answer has arrived, too
        while let Ok(v) = self.rx.try_recv() {
            self.take(v);
        }
        Ok(())
    }
    /// Change the configuration and wait until the server has asked for it.
    pub fn reconfigure(&mut self, config: Value) -> Result<(), Gone> {
        self.config = config;
        let n = self.configured + 1;
        self.notify("workspace/didChangeConfiguration", json!({ "settings": null }));
        self.until(|s| s.configured >= n)?;
        self.sync()
    }
    pub fn ended(&mut self) -> Result<Option<i32>, Gone> {
        let end = Instant::now() + WAIT;
        loop {
            if let Ok(Some(s)) = self.child.try_wait() {
                return Ok(s.code());
            }
            if Instant::now() > end {
                return Err(Gone::Hangs);
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    // ---- documents --------------------------------------------------------------------------------
    pub fn open(&mut self, uri: &str, text: &str) {
        self.notify("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": "mabo", "version": 1, "text": text } }));
    }
    pub fn close(&mut self, uri: &str) {
        self.notify("textDocument/didClose", json!({ "textDocument": { "uri": uri } }));
    }
    pub fn change(&mut self, uri: &str, version: i32, changes: &[Change]) {
        let c: Vec<Value> = changes
            .iter()
            .map(|(r, t)| match r {
                Some(((a, b), (c, d))) => json!({ "range": { "start": { "line": a, "character": b }, "end": { "line": c, "character": d } }, "text": t }),
                None => json!({ "text": t }),
            })
            .collect();
        self.notify("textDocument/didChange", json!({ "textDocument": { "uri": uri, "version": version }, "contentChanges": c }));
    }
    pub fn tokens(&mut self, uri: &str) -> i64 {
        self.request("textDocument/semanticTokens/full", json!({ "textDocument": { "uri": uri } }))
    }
    pub fn symbols(&mut self, uri: &str) -> i64 {
        self.request("textDocument/documentSymbol", json!({ "textDocument": { "uri": uri } }))
    }
    pub fn hover(&mut self, uri: &str, at: Pos) -> i64 {
        self.request("textDocument/hover", json!({ "textDocument": { "uri": uri }, "position": { "line": at.0, "character": at.1 } }))
    }
    /// All requests about a document.
    pub fn ask(&mut self, uri: &str, hovers: &[Pos]) -> Vec<i64> {
        let mut v = vec![self.tokens(uri), self.symbols(uri)];
        v.extend(hovers.iter().map(|p| self.hover(uri, *p)));
        v
    }
    /// Diagnostics and answers, once they are all there.
    pub fn view(&mut self, uri: &str, ids: &[i64]) -> Result<Vec<Value>, Gone> {
        self.until(|s| ids.iter().all(|i| s.answers.contains_key(i)))?;
        let mut v = vec![self.diagnostics.get(uri).cloned().unwrap_or_else(|| json!([]))];
        v.extend(ids.iter().map(|i| self.answers.remove(i).unwrap()));
        Ok(v)
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stdin = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

// ---- positions ------------------------------------------------------------------------------------
pub type Pos = (u32, u32);
pub type Change = (Option<(Pos, Pos)>, String);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Enc {
    Utf8,
    Utf16,
    Utf32,
}
pub const ENCODINGS: [Enc; 3] = [Enc::Utf16, Enc::Utf8, Enc::Utf32];
impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::Utf8 => "utf-8",
            Enc::Utf16 => "utf-16",
            Enc::Utf32 => "utf-32",
        }
    }
    pub fn width(self, c: char) -> u32 {
        match self {
            Enc::Utf8 => c.len_utf8() as u32,
            Enc::Utf16 => c.len_utf16() as u32,
            Enc::Utf32 => 1,
        }
    }
    /// Position of the byte offset.
    pub fn pos(self, text: &str, at: usize) -> Pos {
        let before = &text[..at];
        let start = before.rfind('\n').map_or(0, |i| i + 1);
        (before.matches('\n').count() as u32, before[start..].chars().map(|c| self.width(c)).sum())
    }
    /// Byte offset of the position; a position behind the end of its line means the end of the line,
    /// a line behind the last one the end of the text.
    pub fn offset(self, text: &str, p: Pos) -> usize {
        let mut start = 0;
        for _ in 0..p.0 {
            match text[start..].find('\n') {
                Some(i) => start += i + 1,
                None => return text.len(),
            }
        }
        let mut end = text[start..].find('\n').map_or(text.len(), |i| start + i);
        if end > start && text.as_bytes().get(end) == Some(&b'\n') && text.as_bytes()[end - 1] == b'\r' {
            end -= 1;
        }
        let mut n = 0;
        for (i, c) in text[start..end].char_indices() {
            if n >= p.1 {
                return start + i;
            }
            n += self.width(c);
        }
        end
    }
    /// All positions between characters, in order.
    pub fn all(self, text: &str) -> Vec<Pos> {
        let mut v: Vec<Pos> = text
            .char_indices()
            .map(|(i, _)| i)
            .chain([text.len()])
            .filter(|i| !(*i > 0 && text.as_bytes().get(*i) == Some(&b'\n') && text.as_bytes()[i - 1] == b'\r'))
            .map(|i| self.pos(text, i))
            .collect();
        v.dedup();
        v
    }
}
/// Reference for a change notification.
pub fn apply(enc: Enc, text: &mut String, changes: &[Change]) {
    for (r, t) in changes {
        match r {
            None => t.clone_into(text),
            Some((a, b)) => {
                let (a, b) = (enc.offset(text, *a), enc.offset(text, *b));
                text.replace_range(a..b, t);
            }
        }
    }
}
