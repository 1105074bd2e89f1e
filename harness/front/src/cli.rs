//! C20: what the command line tool does to a project. C23: what the generators leave in their
//! output directory. Both drive the real executables on projects in scratch directories.
use crate::extract;
use model::report::{parallel, thorough, Report, Stats};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime};

// ---- contents of the files --------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum C {
    Absent,
    Formatted,
    Unformatted,
    /// Not formatted, of the same length as formatted.
    Level,
    /// Like `Formatted` and of the same length, with other names.
    Renamed,
    Crlf,
    Modules,
    Empty,
    /// Uses the type of the next file.
    Type,
    /// Uses a type out of a module of the next file.
    Module,
    Syntax,
    Duplicate,
    Unresolved,
    Missing,
    Binary,
}
const ALL: [C; 15] = [C::Absent, C::Formatted, C::Unformatted, C::Level, C::Renamed, C::Crlf, C::Modules, C::Empty, C::Type, C::Module, C::Syntax, C::Duplicate, C::Unresolved, C::Missing, C::Binary];
const SLOTS: [(&str, &str); 3] = [("a.mabo", "a"), ("b.mabo", "b"), ("sub/c.mabo", "c")];

impl C {
    fn text(self, slot: usize) -> Option<Vec<u8>> {
        let next = SLOTS[(slot + 1) % 3].1;
        let n = slot + 1;
        let loose = format!("/// About S{n}.\nstruct   S {{a:u8   @{n}, b: vec<string>@7}}\n\n\n\nconst   X{n}: u8={n};");
        Some(match self {
            C::Absent => return None,
            C::Formatted => formatted(&loose)?.into_bytes(),
            C::Unformatted => loose.into_bytes(),
            C::Level => format!("struct    S {{\n  a: u8 @{n},\n}}\n").into_bytes(),
            C::Renamed => formatted(&loose.replace("{a:", "{x:").replace("About", "Again"))?.into_bytes(),
            C::Crlf => formatted(&loose)?.replace('\n', "\r\n").into_bytes(),
            C::Modules => format!("/// Head {n}.\n\n/// Mod.\nmod m {{\n mod n {{ /// Inner.\n struct N(u8 @1) }}\n /// R.\n struct R {{ a: n::N @{n} }} enum E {{ A @1, B {{ x: u8 @1 }} @2 }} }}\nstruct S {{ a: m::R @1 }} struct G<A> {{ a: A @1 }} type L = vec<S>; const K: string = \"é\";\n").into_bytes(),
            C::Empty => vec![],
            C::Type => format!("use {next}::S;\nstruct U {{ a: S @1 }}\n").into_bytes(),
            C::Module => format!("use {next}::m;\n\n/// Uses it.\nstruct S {{ a: m::R @1, b: option<m::E> @2 }}\n").into_bytes(),
            C::Syntax => format!("struct S {{ a: u8 @1, b }}\n\nstruct   T{n};\n").into_bytes(),
            C::Duplicate => format!("struct S {{ a: u8 @1,   a: u8 @{} }}\n", n + 1).into_bytes(),
            C::Unresolved => format!("struct S {{ a:   Nowhere{n} @1 }}\n").into_bytes(),
            C::Missing => "use nowhere::S;\nstruct   U { a: S @1 }\n".into(),
            C::Binary => vec![b's', 0xff, 0xfe, b'\n', n as u8],
        })
    }
    fn parses(self) -> bool {
        !matches!(self, C::Syntax | C::Binary)
    }
}
type State = [C; 3];
/// Whether all files together form a valid project.
fn valid(s: &State) -> bool {
    (0..3).all(|i| {
        let next = s[(i + 1) % 3];
        match s[i] {
            C::Absent | C::Formatted | C::Unformatted | C::Level | C::Renamed | C::Crlf | C::Modules | C::Empty => true,
            C::Type => matches!(next, C::Formatted | C::Unformatted | C::Level | C::Renamed | C::Crlf | C::Modules | C::Module),
            C::Module => next == C::Modules,
            C::Syntax | C::Duplicate | C::Unresolved | C::Missing | C::Binary => false,
        }
    })
}
fn formatted(text: &str) -> Option<String> {
    mabo_parser::Schema::parse(text, None).ok().map(|s| s.to_string())
}
fn states() -> Vec<State> {
    let mut v = vec![];
    for a in ALL {
        for b in ALL {
            for c in ALL {
                v.push([a, b, c]);
            }
        }
    }
    v
}

// ---- directories ------------------------------------------------------------------------------
/// Every file and directory below a directory; directories have no content.
type Snap = BTreeMap<String, Option<Vec<u8>>>;
pub struct Area(pub PathBuf);
impl Area {
    pub fn new() -> Area {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = format!("vp-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
        let shm = Path::new("/dev/shm").join(&n);
        let p = if std::fs::create_dir(&shm).is_ok() { shm } else { std::env::temp_dir().join(n) };
        std::fs::create_dir_all(&p).expect("scratch directory");
        Area(p)
    }
    pub fn put(&self, p: &str, c: &[u8]) {
        let p = self.0.join(p);
        std::fs::create_dir_all(p.parent().expect("parent")).expect("directory");
        std::fs::write(p, c).expect("file");
    }
    fn snap(&self, below: &str) -> Snap {
        let mut v = Snap::new();
        walk(&self.0.join(below), "", &mut v);
        v
    }
    pub fn clear(&self, below: &str) {
        let _ = std::fs::remove_dir_all(self.0.join(below));
    }
    /// Put a directory back to what it was.
    fn restore(&self, below: &str, s: &Snap) {
        let now = self.snap(below);
        if now == *s {
            return;
        }
        self.clear(below);
        std::fs::create_dir_all(self.0.join(below)).expect("directory");
        for (p, c) in s {
            match c {
                None => std::fs::create_dir_all(self.0.join(below).join(p)).expect("directory"),
                Some(c) => self.put(&format!("{below}/{p}"), c),
            }
        }
    }
    /// Files of the project, next to some that do not belong to it.
    fn project(&self, s: &State) {
        for (i, c) in s.iter().enumerate() {
            match c.text(i) {
                Some(t) => self.put(&format!("p/{}", SLOTS[i].0), &t),
                None => {
                    let _ = std::fs::remove_file(self.0.join("p").join(SLOTS[i].0));
                }
            }
        }
    }
    fn others(&self) {
        self.put("p/Mabo.toml", b"[package]\nname = 'sample'\nfiles = ['*.mabo', 'sub/*.mabo']\n");
        self.put("p/other/z.mabo", b"struct   Z(u8   @1)");
        self.put("p/other/broken.mabo", b"struct");
        self.put("p/x.txt", b"struct   X(u8   @1)");
        self.put("p/d.mabo/x", b"struct   D(u8   @1)");
        std::fs::create_dir_all(self.0.join("p/sub")).expect("directory");
        self.put("q/a.mabo", b"struct   Q(u8   @1)");
    }
}
impl Drop for Area {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn walk(d: &Path, at: &str, v: &mut Snap) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let n = format!("{at}{}", e.file_name().to_string_lossy());
        if e.file_type().is_ok_and(|t| t.is_dir()) {
            v.insert(n.clone(), None);
            walk(&e.path(), &format!("{n}/"), v);
        } else {
            v.insert(n, Some(std::fs::read(e.path()).unwrap_or_default()));
        }
    }
}
fn differences(want: &Snap, got: &Snap) -> String {
    let show = |c: Option<&Option<Vec<u8>>>| match c {
        None => "nothing".to_owned(),
        Some(None) => "a directory".to_owned(),
        Some(Some(c)) => format!("{:?}", String::from_utf8_lossy(&c[..c.len().min(400)])),
    };
    let mut keys: Vec<&String> = want.keys().chain(got.keys()).collect();
    keys.sort();
    keys.dedup();
    keys.into_iter().filter(|k| want.get(*k) != got.get(*k)).take(6).map(|k| format!("{k}: expected {}\n  found {}\n", show(want.get(k)), show(got.get(k)))).collect()
}

// ---- running ----------------------------------------------------------------------------------
pub struct Ran {
    /// None: ended by a signal
    pub code: Option<i32>,
    pub err: String,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn crashed(&self) -> bool {
        self.code.is_none_or(|c| c == 101 || c >= 128)
    }
}
pub fn run(exe: &str, args: &[&str], cwd: &Path) -> Ran {
    let bin = std::env::var(exe).unwrap_or_else(|_| panic!("{exe} is not set"));
    let o = Command::new(bin).args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).output().expect("executable");
    Ran { code: o.status.code(), err: String::from_utf8_lossy(&o.stderr).into_owned() }
}
/// How the project is named to the tool.
#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
    Option,
    Cwd,
    Globs,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Check,
    Fmt,
    Doc,
}

/// Pages of the documentation of one file, without the directory in front of them.
fn pages(path: &str, text: &str) -> Option<Vec<(String, String)>> {
    let s = mabo_parser::Schema::parse(text, Some(Path::new(path))).ok()?;
    extract::doc_files(&mabo_compiler::simplify_schema(&s)).ok()
}
fn insert(s: &mut Snap, path: &str, content: Vec<u8>) {
    let mut at = 0;
    while let Some(i) = path[at..].find('/') {
        s.entry(path[..at + i].to_owned()).or_insert(None);
        at += i + 1;
    }
    s.insert(path.to_owned(), Some(content));
}

/// One command, compared with what it has to do. `p` is the project, `o` the output directory.
fn step(area: &Area, state: &State, by: By, cmd: Do, st: &mut Stats, how: &dyn Fn() -> String) -> bool {
    st.transitions += 1;
    let p = area.snap("p");
    let o = area.snap("o");
    let text = |i: usize| p.get(SLOTS[i].0).cloned().flatten();
    let mut want_p = p.clone();
    let mut must: Option<bool> = None;
    let old = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
    match cmd {
        Do::Check => must = Some(valid(state)),
        Do::Fmt => {
            let mut unreadable = false;
            let mut broken = false;
            for i in 0..3 {
                let Some(t) = text(i) else { continue };
                let f = area.0.join("p").join(SLOTS[i].0);
                std::fs::File::options().write(true).open(&f).and_then(|f| f.set_modified(old)).expect("time");
                match String::from_utf8(t) {
                    Err(_) => unreadable = true,
                    Ok(t) => match formatted(&t) {
                        Some(n) => {
                            want_p.insert(SLOTS[i].0.into(), Some(n.into_bytes()));
                        }
                        None => broken = true,
                    },
                }
            }
            if unreadable {
                must = Some(false);
            } else if !broken {
                must = Some(true);
            }
        }
        Do::Doc => {
            if state.iter().any(|c| !c.parses()) {
                must = Some(false);
            } else if !state.contains(&C::Duplicate) {
                must = Some(true);
            }
        }
    }
    let verb = match cmd {
        Do::Check => "check",
        Do::Fmt => "fmt",
        Do::Doc => "doc",
    };
    let root = area.0.join("p");
    let root_text = root.to_string_lossy().into_owned();
    let out = area.0.join("o").to_string_lossy().into_owned();
    let mut args = vec![verb];
    let cwd = match by {
        By::Option => {
            args.extend(["--project-dir", &root_text]);
            area.0.join("q")
        }
        By::Cwd => root.clone(),
        By::Globs => {
            args.extend(["a.mabo", "[b].*", "sub/*"]);
            root.clone()
        }
    };
    if cmd == Do::Doc {
        args.push(if by == By::Cwd { "../o" } else { &out });
    }
    let r = run("MABO_CLI", &args, &cwd);
    let tell = |e: String| format!("{}\nmabo {args:?} ({by:?})\nstate {state:?}\n{e}\n{}", how(), r.err);
    if r.crashed() {
        st.violation(format!("{verb}: crashes"), || tell(String::new()));
        return false;
    }
    if must.is_some_and(|m| m != r.ok()) {
        st.violation(format!("{verb}: {} although {}", if r.ok() { "succeeds" } else { "fails" }, if r.ok() { "a file is faulty" } else { "nothing is wrong" }), || tell(String::new()));
        return false;
    }
    let now = area.snap("p");
    if now != want_p {
        st.violation(format!("{verb}: the files of the project are not as expected afterwards"), || tell(differences(&want_p, &now)));
        return false;
    }
    if cmd == Do::Fmt {
        for (i, s) in SLOTS.iter().enumerate() {
            let same = text(i).is_some() && p.get(s.0) == now.get(s.0);
            let time = std::fs::metadata(root.join(s.0)).and_then(|m| m.modified());
            if same && time.is_ok_and(|t| t != old) {
                st.violation("fmt: a file that is formatted already is written", || tell(s.0.into()));
                return false;
            }
        }
    }
    let now = area.snap("o");
    let mut want = o;
    if cmd == Do::Doc && must == Some(true) {
        for i in 0..3 {
            let Some(t) = text(i).and_then(|t| String::from_utf8(t).ok()) else { continue };
            let Some(v) = pages(SLOTS[i].0, &t) else { continue };
            // the pages of a schema may lie one level deeper
            let base = if now.contains_key(&format!("{0}/{0}/index.html", SLOTS[i].1)) { format!("{}/", SLOTS[i].1) } else { String::new() };
            st.count("pages", v.len() as u64);
            for (f, c) in v {
                insert(&mut want, &format!("{base}{f}"), c.into_bytes());
            }
        }
        want.retain(|_, c| c.is_some());
        let files: Snap = now.into_iter().filter(|(_, c)| c.is_some()).collect();
        if files != want {
            st.violation("doc: the output directory is not as expected", || tell(differences(&want, &files)));
            return false;
        }
    } else if cmd != Do::Doc && now != want {
        st.violation(format!("{verb}: the output directory changes"), || tell(differences(&want, &now)));
        return false;
    }
    true
}

enum Job {
    States(usize),
    Sequences(usize),
    Changes(usize),
    Files(usize),
    Projects,
    Doubled,
}
const PARTS: usize = 32;

/// Lists of patterns, and the files they select.
fn globs() -> Vec<(Vec<&'static str>, Option<Vec<&'static str>>)> {
    let all = vec!["a.mabo", "b.mabo", "sub/c.mabo", "sub/deep/e.mabo", "other/z.mabo"];
    vec![
        (vec!["a.mabo"], Some(vec!["a.mabo"])),
        (vec!["./a.mabo"], Some(vec!["a.mabo"])),
        (vec!["*"], Some(vec!["a.mabo", "b.mabo"])),
        (vec!["*.mabo"], Some(vec!["a.mabo", "b.mabo"])),
        (vec!["a.mabo", "a.mabo"], Some(vec!["a.mabo"])),
        (vec!["?.mabo", "sub/*"], Some(vec!["a.mabo", "b.mabo", "sub/c.mabo"])),
        (vec!["**/*.mabo"], Some(all.clone())),
        (vec!["**/*"], Some(all)),
        (vec!["sub/**/*.mabo"], Some(vec!["sub/c.mabo", "sub/deep/e.mabo"])),
        (vec!["[!a].mabo"], Some(vec!["b.mabo"])),
        (vec!["x.txt"], Some(vec![])),
        (vec!["sub"], Some(vec![])),
        (vec!["d.mabo"], Some(vec![])),
        (vec!["nothing.mabo", "b.mabo"], Some(vec!["b.mabo"])),
        (vec!["nothing/*.mabo"], Some(vec![])),
        (vec!["["], None),
        (vec!["a.mabo", "***"], None),
    ]
}

pub fn c20() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C20");
    let all = states();
    let mut js = vec![Job::Projects, Job::Doubled];
    for p in 0..PARTS {
        js.extend([Job::States(p), Job::Sequences(p), Job::Changes(p), Job::Files(p)]);
    }
    let s = parallel(&js, |j, st| match j {
        Job::States(part) => {
            let a = Area::new();
            a.others();
            for s in all.iter().skip(*part).step_by(PARTS) {
                for by in [By::Option, By::Cwd, By::Globs] {
                    st.states += 1;
                    st.traces += 1;
                    st.count("project_states", 1);
                    a.project(s);
                    a.clear("o");
                    a.put("o/unrelated/index.html", b"kept");
                    let plan: &[Do] = match by {
                        By::Globs => &[Do::Check, Do::Fmt, Do::Check, Do::Fmt],
                        By::Option => &[Do::Doc, Do::Check, Do::Fmt, Do::Fmt, Do::Check, Do::Doc, Do::Fmt],
                        By::Cwd => &[Do::Check, Do::Doc, Do::Doc, Do::Fmt, Do::Doc, Do::Check],
                    };
                    for (i, c) in plan.iter().enumerate() {
                        if !step(&a, s, by, *c, st, &|| format!("commands {:?}", &plan[..=i])) {
                            break;
                        }
                    }
                }
            }
        }
        Job::Sequences(part) => {
            // every sequence of commands, from some of the states
            let a = Area::new();
            a.others();
            let some = [
                [C::Unformatted, C::Modules, C::Crlf],
                [C::Syntax, C::Unformatted, C::Formatted],
                [C::Binary, C::Unformatted, C::Absent],
                [C::Type, C::Unformatted, C::Empty],
                [C::Module, C::Modules, C::Unresolved],
                [C::Unformatted, C::Missing, C::Type],
            ];
            let depth = if th { 6 } else { 4 };
            for s in some {
                for code in 0..3usize.pow(depth) {
                    if code % PARTS != *part {
                        continue;
                    }
                    a.project(&s);
                    a.clear("o");
                    st.states += 1;
                    st.traces += 1;
                    st.count("command_sequences", 1);
                    let mut c = code;
                    let mut done = vec![];
                    for _ in 0..depth {
                        let d = [Do::Check, Do::Fmt, Do::Doc][c % 3];
                        c /= 3;
                        done.push(d);
                        if !step(&a, &s, By::Option, d, st, &|| format!("commands {done:?}")) {
                            break;
                        }
                    }
                }
            }
        }
        Job::Changes(part) => {
            // the documentation of one state over that of another
            let a = Area::new();
            a.others();
            let mut n = 0;
            for x in ALL {
                for y in ALL {
                    n += 1;
                    if n % PARTS != *part {
                        continue;
                    }
                    for b in if th { &ALL[..] } else { &ALL[..8] } {
                        st.states += 1;
                        st.traces += 1;
                        st.count("changes_between_runs", 1);
                        a.clear("o");
                        let mut left = true;
                        for c in [x, y] {
                            let s = [c, C::Modules, *b];
                            a.project(&s);
                            left = left && step(&a, &s, By::Option, Do::Doc, st, &|| format!("{x:?}, then {y:?}"));
                        }
                    }
                }
            }
        }
        Job::Files(part) => {
            let a = Area::new();
            a.others();
            let kinds = [C::Unformatted, C::Level, C::Formatted, C::Syntax, C::Duplicate, C::Binary, C::Absent];
            let mut n = 0;
            for (pats, want) in globs() {
                for x in kinds {
                    for y in kinds {
                        n += 1;
                        if n % PARTS != *part {
                            continue;
                        }
                        let s = [x, y, C::Unformatted];
                        a.restore("p", &Snap::new());
                        a.others();
                        let _ = std::fs::remove_file(a.0.join("p/other/broken.mabo"));
                        a.project(&s);
                        a.put("p/sub/deep/e.mabo", b"struct   E(u8   @1)");
                        // not needed, since no project is loaded
                        a.put("p/Mabo.toml", b"broken");
                        for abs in [false, true] {
                            let root = a.0.join("p");
                            let full: Vec<String> = pats.iter().map(|p| root.join(p).to_string_lossy().into_owned()).collect();
                            let args: Vec<&str> = if abs { full.iter().map(String::as_str).collect() } else { pats.clone() };
                            for verb in ["check", "c", "fmt", "f", "format"] {
                                st.states += 1;
                                st.transitions += 1;
                                st.traces += 1;
                                st.count("file_lists", 1);
                                let before = a.snap("p");
                                let mut after = before.clone();
                                let mut must = Some(true);
                                match &want {
                                    None => must = Some(false),
                                    Some(w) => {
                                        for f in w {
                                            let Some(Some(t)) = before.get(*f) else { continue };
                                            let class = SLOTS.iter().position(|s| s.0 == *f).map_or(C::Formatted, |i| s[i]);
                                            if verb.starts_with('c') {
                                                if !matches!(class, C::Formatted | C::Unformatted | C::Level) {
                                                    must = Some(false);
                                                }
                                                continue;
                                            }
                                            match String::from_utf8(t.clone()).ok().map(|t| formatted(&t)) {
                                                None => must = Some(false),
                                                Some(None) => must = must.filter(|m| !m),
                                                Some(Some(n)) => {
                                                    after.insert((*f).into(), Some(n.into_bytes()));
                                                }
                                            }
                                        }
                                    }
                                }
                                let cwd = if abs { a.0.join("q") } else { root.clone() };
                                let r = run("MABO_CLI", &[&[verb][..], &args].concat(), &cwd);
                                let tell = |e: String| format!("mabo {verb} {args:?}\nstate {s:?}\n{e}\n{}", r.err);
                                let now = a.snap("p");
                                if r.crashed() {
                                    st.violation(format!("{verb} with patterns: crashes"), || tell(String::new()));
                                } else if must.is_some_and(|m| m != r.ok()) {
                                    st.violation(format!("{verb} with patterns: the exit status is wrong"), || tell(format!("{:?}", r.code)));
                                } else if want.is_some() && now != after || want.is_none() && verb.starts_with('c') && now != before {
                                    st.violation(format!("{verb} with patterns: the files are not as expected afterwards"), || tell(differences(&after, &now)));
                                }
                                if verb == "fmt" {
                                    a.restore("p", &before);
                                }
                            }
                        }
                    }
                }
            }
        }
        Job::Projects => {
            // things that are no project, and odd output directories
            let broken: [(&str, Option<&[u8]>); 6] = [
                ("missing", None),
                ("empty", Some(b"")),
                ("no TOML", Some(b"[package")),
                ("no name", Some(b"[package]\nfiles = ['*.mabo']\n")),
                ("a wrong pattern", Some(b"[package]\nname = 'x'\nfiles = ['*.mabo', '[']\n")),
                ("no text", Some(b"\xff")),
            ];
            for (what, toml) in broken {
                for verb in ["check", "fmt", "doc", "d", "document"] {
                    for by in [By::Option, By::Cwd] {
                        let a = Area::new();
                        a.others();
                        a.project(&[C::Unformatted; 3]);
                        match toml {
                            None => std::fs::remove_file(a.0.join("p/Mabo.toml")).expect("file"),
                            Some(t) => a.put("p/Mabo.toml", t),
                        }
                        let before = a.snap("");
                        let root = a.0.join("p").to_string_lossy().into_owned();
                        let out = a.0.join("o").to_string_lossy().into_owned();
                        let mut args = vec![verb];
                        if by == By::Option {
                            args.extend(["--project-dir", &root]);
                        }
                        if verb.starts_with('d') {
                            args.push(&out);
                        }
                        st.states += 1;
                        st.transitions += 1;
                        st.traces += 1;
                        st.count("broken_projects", 1);
                        let r = run("MABO_CLI", &args, &if by == By::Cwd { a.0.join("p") } else { a.0.clone() });
                        if r.ok() || r.crashed() {
                            st.violation(format!("{verb}: does not report a project file that is {what}"), || format!("{args:?}\n{:?}\n{}", r.code, r.err));
                        }
                        let now = a.snap("");
                        if now != before {
                            st.violation(format!("{verb}: changes files although the project can't be loaded"), || differences(&before, &now));
                        }
                    }
                }
            }
            // files of unusual names
            let a = Area::new();
            a.others();
            let mut want = Snap::new();
            let mut after = Snap::new();
            for (i, f) in NAMES.iter().enumerate() {
                let t = format!("struct   S{i} {{ a: u8 @1 }}");
                a.put(&format!("p/{f}"), t.as_bytes());
                after.insert((*f).into(), formatted(&t).map(String::into_bytes));
                let name = f.rsplit('/').next().unwrap_or(f);
                let stem = name.strip_suffix(".mabo").unwrap_or(name);
                for (page, c) in pages(f, &t).unwrap_or_default() {
                    want.insert(format!("{stem}/{page}"), Some(c.into_bytes()));
                }
            }
            for (args, what) in [(&["check", "--project-dir", "p"][..], 0), (&["doc", "--project-dir", "p", "o"], 1), (&["fmt", "--project-dir", "p"], 2)] {
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                let r = run("MABO_CLI", args, &a.0);
                if !r.ok() {
                    st.violation("a project of files with unusual names is not accepted", || format!("{args:?}\n{}", r.err));
                }
                let o = files_only(a.snap("o"));
                if what == 1 && o != want && o != want.iter().map(|(f, c)| (f.split_once('/').map_or(f.as_str(), |f| f.1).to_owned(), c.clone())).collect::<Snap>() {
                    st.violation("doc: the pages of files with unusual names are not as expected", || differences(&want, &o));
                }
                let p = a.snap("p");
                if what == 2 && after.iter().any(|(f, c)| p.get(f) != Some(c)) {
                    st.violation("fmt: files with unusual names are not as expected", || differences(&after, &p));
                }
            }
            // a project and patterns at once
            let a = Area::new();
            a.others();
            a.project(&[C::Unformatted; 3]);
            let before = a.snap("");
            let root = a.0.join("p").to_string_lossy().into_owned();
            for verb in ["check", "fmt"] {
                st.states += 1;
                let r = run("MABO_CLI", &[verb, "--project-dir", &root, "a.mabo"], &a.0.join("p"));
                if r.ok() || a.snap("") != before {
                    st.violation(format!("{verb}: takes a project and patterns at once"), || r.err.clone());
                }
            }
            // output directories that exist in part, or can't be made
            for (at, ok) in [("o", true), ("new/deeper/o", true), ("p/docs", true), ("q", true), ("file", false), ("file/o", false)] {
                for b in ALL {
                    let a = Area::new();
                    a.others();
                    let s = [C::Formatted, b, C::Modules];
                    a.project(&s);
                    a.put("file", b"text");
                    let before = a.snap("");
                    st.states += 1;
                    st.transitions += 1;
                    st.traces += 1;
                    st.count("output_directories", 1);
                    let r = run("MABO_CLI", &["doc", at, "--project-dir", "p"], &a.0);
                    let now = a.snap("");
                    if r.crashed() || (!ok || !b.parses()) && r.ok() || ok && b.parses() && b != C::Duplicate && !r.ok() {
                        st.violation("doc: the exit status is wrong for an output directory", || format!("{at}\n{s:?}\n{:?}\n{}", r.code, r.err));
                    }
                    if let Some((f, _)) = before.iter().find(|(f, c)| now.get(*f) != Some(*c)) {
                        st.violation("doc: changes a file that is no page", || format!("{at}: {f}"));
                    }
                    if let Some(f) = now.keys().find(|f| !before.contains_key(*f) && !f.starts_with(at) && !at.starts_with(f.as_str())) {
                        st.violation("doc: writes outside of its output directory", || format!("{at}: {f}"));
                    }
                }
            }
        }
        Job::Doubled => {
            // files of one name in two directories
            for x in [C::Formatted, C::Modules] {
                let a = Area::new();
                a.others();
                let t = x.text(1).expect("text");
                a.put("p/a.mabo", b"struct First { a: u8 @1 }");
                a.put("p/sub/a.mabo", &t);
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                st.count("files_of_one_name", 1);
                let r = run("MABO_CLI", &["doc", "--project-dir", "p", "o"], &a.0);
                let all: Vec<Vec<u8>> = a.snap("o").into_values().flatten().collect();
                let mut lost = vec![];
                for (f, t) in [("a.mabo", "struct First { a: u8 @1 }".to_owned()), ("sub/a.mabo", String::from_utf8_lossy(&t).into_owned())] {
                    for (page, c) in pages(f, &t).unwrap_or_default() {
                        if !all.contains(&c.into_bytes()) {
                            lost.push(format!("{page} of {f}"));
                        }
                    }
                }
                if r.crashed() {
                    st.violation("doc: crashes", || r.err.clone());
                } else if r.ok() && !lost.is_empty() {
                    st.known("doc-same-stem", || lost.join(", "));
                }
            }
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", "projects of three files with 15 kinds of contents each, all of them, named in 3 ways, with up to 7 commands in a row; all sequences of 4 (6 in thorough) commands from 6 projects; documentation over that of every other content of a file; 17 lists of patterns against 49 contents; 6 kinds of broken project files; 6 kinds of output directories");
    rep.assumptions.push("texts of formatted files and pages are those of the library functions (C10, C22); no failures of the file system other than unwritable paths".into());
    rep.finish()
}

// ---- generators -------------------------------------------------------------------------------
/// Runs the build-time generator for each directory that is named on the input, with the output
/// directory of its environment.
pub fn helper() -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let r = std::panic::catch_unwind(|| match mabo_build::Compiler::default().compile(&l) {
            Ok(()) => "ok".to_owned(),
            Err(e) => format!("err {}", format!("{e:?}").replace('\n', "\u{1}")),
        });
        println!("{}", r.unwrap_or_else(|_| "crash".into()));
        let _ = std::io::stdout().flush();
    }
    0
}
pub struct Builder {
    child: Child,
    stdin: ChildStdin,
    out: BufReader<ChildStdout>,
}
impl Builder {
    pub fn new(out: &Path) -> Builder {
        let mut child = Command::new(std::env::current_exe().expect("own path")).arg("build-helper").env("OUT_DIR", out).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("helper");
        let stdin = child.stdin.take().expect("input");
        let out = BufReader::new(child.stdout.take().expect("output"));
        Builder { child, stdin, out }
    }
    pub fn run(&mut self, dir: &Path) -> Ran {
        let mut l = String::new();
        let _ = writeln!(self.stdin, "{}", dir.display());
        let _ = self.stdin.flush();
        let _ = self.out.read_line(&mut l);
        let code = match l.get(..3) {
            Some("ok\n") => Some(0),
            Some("err") => Some(1),
            _ => None,
        };
        Ran { code, err: l.replace('\u{1}', "\n") }
    }
}
impl Drop for Builder {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// White space of generated Rust code does not matter.
fn tokens(c: &[u8]) -> Vec<u8> {
    match std::str::from_utf8(c).ok().and_then(|s| syn::parse_str::<syn::File>(s).ok()) {
        Some(f) => prettyplease::unparse(&f).into_bytes(),
        None => c.to_vec(),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Gen {
    Rust,
    Go,
}
fn outputs(g: Gen, s: &State) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    for (i, c) in s.iter().enumerate() {
        let Some(t) = c.text(i).and_then(|t| String::from_utf8(t).ok()) else { continue };
        v.extend(outputs_of(g, SLOTS[i].0, &t));
    }
    v
}
fn outputs_of(g: Gen, path: &str, text: &str) -> Vec<(String, Vec<u8>)> {
    let Ok(schema) = mabo_parser::Schema::parse(text, Some(Path::new(path))) else { return vec![] };
    let simple = mabo_compiler::simplify_schema(&schema);
    let name = path.rsplit('/').next().unwrap_or(path);
    let stem = name.strip_suffix(".mabo").unwrap_or(name);
    match g {
        Gen::Rust => vec![(format!("mabo/{stem}.rs"), tokens(&tokens(extract::rust_code(&simple).as_bytes())))],
        Gen::Go => extract::go_files(&simple)
            .into_iter()
            .map(|(p, c)| {
                let p = p.trim_start_matches('/');
                (format!("{p}/{}.go", p.rsplit('/').next().unwrap_or(p)), c.into_bytes())
            })
            .collect(),
    }
}
/// Unusual names of schema files.
const NAMES: [&str; 12] = ["a.v1.mabo", "a.v2.mabo", "a.mabo", "A.mabo", "a-b.mabo", "a_b.mabo", "é.mabo", "a b.mabo", "1.mabo", "sub/a.rs.mabo", "sub/a.v1.x.mabo", "sub/mod.mabo"];
fn files_only(mut s: Snap) -> Snap {
    s.retain(|_, c| c.is_some());
    s
}
struct Gens {
    area: Area,
    build: Builder,
}
impl Gens {
    fn new() -> Gens {
        let area = Area::new();
        area.others();
        let build = Builder::new(&area.0.join("o"));
        Gens { area, build }
    }
    /// Run a generator and compare the output directory. Returns its files.
    fn go(&mut self, g: Gen, s: &State, before: &Snap, st: &mut Stats, how: &dyn Fn() -> String) -> Option<Snap> {
        st.transitions += 1;
        self.area.project(s);
        let sources = self.area.snap("p");
        let r = match g {
            Gen::Rust => self.build.run(&self.area.0.join("p")),
            Gen::Go => run("MABO_GO", &["--no-fmt", "--project-dir", "p", "--out-dir", "o"], &self.area.0),
        };
        let tell = |e: String| format!("{}\n{s:?}\n{e}\n{}", how(), r.err);
        if r.crashed() {
            st.violation(format!("{g:?}: the generator crashes"), || tell(String::new()));
            self.build = Builder::new(&self.area.0.join("o"));
            return None;
        }
        if r.ok() != valid(s) {
            st.violation(format!("{g:?}: the generator {}", if r.ok() { "accepts an invalid project" } else { "rejects a valid project" }), || tell(String::new()));
            return None;
        }
        let mut want = files_only(before.clone());
        if r.ok() {
            let mut lost = false;
            let mut mine = Snap::new();
            for (p, c) in outputs(g, s) {
                st.count("outputs", 1);
                lost |= mine.insert(p, Some(c)).is_some();
            }
            want.extend(mine);
            if lost {
                st.known("go-several-files", || format!("{s:?}"));
            }
        }
        let mut got = files_only(self.area.snap("o"));
        let raw = got.clone();
        if g == Gen::Rust {
            for m in [&mut want, &mut got] {
                for c in m.values_mut().flatten() {
                    *c = tokens(c);
                }
            }
        }
        if got != want {
            st.violation(format!("{g:?}: the output directory is not as expected"), || tell(differences(&want, &got)));
            return None;
        }
        if self.area.snap("p") != sources {
            st.violation(format!("{g:?}: the generator changes the project"), || tell(String::new()));
            return None;
        }
        Some(raw)
    }
}

enum Job2 {
    States(Gen, usize),
    Histories(Gen, usize),
    Gofmt(usize),
    Odd,
}

pub fn c23() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C23");
    let all = states();
    let mut js = vec![Job2::Odd];
    for p in 0..PARTS {
        for g in [Gen::Rust, Gen::Go] {
            js.extend([Job2::States(g, p), Job2::Histories(g, p)]);
        }
        js.push(Job2::Gofmt(p));
    }
    let s = parallel(&js, |j, st| match j {
        Job2::States(g, part) => {
            let mut x = Gens::new();
            let unrelated = Snap::from([("unrelated.rs".to_owned(), Some(b"kept".to_vec())), ("mabo".into(), None), ("mabo/other.rs".into(), Some(b"kept".to_vec()))]);
            for s in all.iter().skip(*part).step_by(PARTS) {
                st.states += 1;
                st.traces += 1;
                st.count("project_states", 1);
                x.area.clear("o");
                x.area.restore("o", &unrelated);
                // twice: the second run changes nothing
                if let Some(now) = x.go(*g, s, &unrelated, st, &|| "fresh output directory".into()) {
                    x.go(*g, s, &now, st, &|| "second run".into());
                }
            }
        }
        Job2::Histories(g, part) => {
            let mut x = Gens::new();
            let third: &[C] = if th { &[C::Modules, C::Absent, C::Type, C::Syntax] } else { &[C::Modules] };
            let mut n = 0;
            for c in third {
                for a in ALL {
                    for b in ALL {
                        let s = [a, b, *c];
                        n += 1;
                        if !th && !matches!(b, C::Absent | C::Modules | C::Renamed) {
                            continue;
                        }
                        // after a failure, everything is as before, which the states show
                        if n % PARTS != *part || !valid(&s) {
                            continue;
                        }
                        x.area.clear("o");
                        let Some(first) = x.go(*g, &s, &Snap::new(), st, &|| "first run".into()) else { continue };
                        for a in ALL {
                            for b in ALL {
                                st.states += 1;
                                st.traces += 1;
                                st.count("histories", 1);
                                x.area.restore("o", &first);
                                x.go(*g, &[a, b, *c], &first, st, &|| format!("after {s:?}"));
                            }
                        }
                    }
                }
            }
        }
        Job2::Gofmt(part) => {
            let a = Area::new();
            a.others();
            for s in all.iter().filter(|s| valid(s) && s[0] >= s[1]).skip(*part).step_by(PARTS) {
                a.project(s);
                a.clear("o");
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                st.count("formatted_go", 1);
                let r = run("MABO_GO", &["--project-dir", "../p", "-o", "../o/x"], &a.0.join("q"));
                let got = files_only(a.snap("o/x"));
                let mut want = Snap::new();
                for (p, c) in outputs(Gen::Go, s) {
                    match gofmt(&c) {
                        Some(f) => want.insert(p, Some(f)),
                        None => model::report::give_up("gofmt does not run"),
                    };
                }
                if !r.ok() || got != want {
                    st.violation("Go: the formatted output is not as expected", || format!("{s:?}\n{}\n{}", r.err, differences(&want, &got)));
                }
            }
        }
        Job2::Odd => {
            // without a project or an output directory
            for (what, toml) in [("missing", None), ("broken", Some("[package")), ("of wrong patterns", Some("[package]\nname = 'sample'\nfiles = ['[']\n"))] {
                let mut x = Gens::new();
                x.area.project(&[C::Formatted; 3]);
                match toml {
                    None => std::fs::remove_file(x.area.0.join("p/Mabo.toml")).expect("file"),
                    Some(t) => x.area.put("p/Mabo.toml", t.as_bytes()),
                }
                st.states += 1;
                let r = [x.build.run(&x.area.0.join("p")), run("MABO_GO", &["--no-fmt", "--project-dir", "p", "-o", "o"], &x.area.0)];
                for r in r {
                    if r.ok() || r.crashed() || !files_only(x.area.snap("o")).is_empty() {
                        st.violation("a generator does not report a project file that is missing or broken", || format!("{what}\n{:?} {}", r.code, r.err));
                    }
                }
            }
            // output directories that can't be made
            let mut x = Gens::new();
            x.area.project(&[C::Formatted; 3]);
            x.area.put("o", b"text");
            st.states += 1;
            for r in [x.build.run(&x.area.0.join("p")), run("MABO_GO", &["--no-fmt", "--project-dir", "p", "-o", "o"], &x.area.0)] {
                if r.ok() || r.crashed() || std::fs::read(x.area.0.join("o")).ok().as_deref() != Some(b"text") {
                    st.violation("a generator does not report an output directory that is a file", || format!("{:?} {}", r.code, r.err));
                }
            }
            // the current directory is both, unless named
            let a = Area::new();
            a.others();
            a.project(&[C::Formatted, C::Modules, C::Absent]);
            let mut want = files_only(a.snap("p"));
            want.extend(outputs(Gen::Go, &[C::Formatted, C::Modules, C::Absent]).into_iter().map(|(p, c)| (p, Some(c))));
            st.states += 1;
            let r = run("MABO_GO", &["--no-fmt"], &a.0.join("p"));
            let now = files_only(a.snap("p"));
            if !r.ok() || now != want {
                st.violation("Go: the current directory does not stand for the project and the output", || format!("{}\n{}", r.err, differences(&want, &now)));
            }
            // files of unusual names, two at once
            for g in [Gen::Rust, Gen::Go] {
                let mut x = Gens::new();
                for (i, a) in NAMES.iter().enumerate() {
                    for b in &NAMES[i + 1..] {
                        x.area.restore("p", &Snap::new());
                        x.area.clear("o");
                        x.area.others();
                        let files = [(a, "struct First { a: u8 @1 }"), (b, "mod m {\n    struct Second(u8 @1)\n}\n")];
                        let [mut want, other] = [false, true].map(|rev| {
                            let mut want = Snap::new();
                            for i in if rev { [1, 0] } else { [0, 1] } {
                                let (f, t) = files[i];
                                x.area.put(&format!("p/{f}"), t.as_bytes());
                                want.extend(outputs_of(g, f, t).into_iter().map(|(p, c)| (p, Some(c))));
                            }
                            want
                        });
                        st.states += 1;
                        st.transitions += 1;
                        st.traces += 1;
                        st.count("names", 1);
                        let r = match g {
                            Gen::Rust => x.build.run(&x.area.0.join("p")),
                            Gen::Go => run("MABO_GO", &["--no-fmt", "--project-dir", "p", "-o", "o"], &x.area.0),
                        };
                        let mut got = files_only(x.area.snap("o"));
                        if g == Gen::Rust {
                            for m in [&mut want, &mut got] {
                                for c in m.values_mut().flatten() {
                                    *c = tokens(c);
                                }
                            }
                        }
                        if r.ok() && g == Gen::Go && (got == want || got == other) {
                            st.known("go-several-files", || format!("{a} and {b}"));
                        } else if !r.ok() || got != want {
                            st.violation(format!("{g:?}: the outputs of files with unusual names are not as expected"), || format!("{a} and {b}\n{}\n{}", r.err, differences(&want, &got)));
                        }
                    }
                }
            }
            // files of one name in two directories
            for g in [Gen::Rust, Gen::Go] {
                let mut x = Gens::new();
                x.area.put("p/a.mabo", b"struct First { a: u8 @1 }");
                x.area.put("p/sub/a.mabo", b"struct Second { a: u8 @1 }");
                st.states += 1;
                let r = match g {
                    Gen::Rust => x.build.run(&x.area.0.join("p")),
                    Gen::Go => run("MABO_GO", &["--no-fmt", "--project-dir", "p", "-o", "o"], &x.area.0),
                };
                let text: String = x.area.snap("o").into_values().flatten().map(|c| String::from_utf8_lossy(&c).into_owned()).collect();
                if r.crashed() {
                    st.violation("a generator crashes", || r.err.clone());
                } else if r.ok() && !(text.contains("First") && text.contains("Second")) {
                    st.known(if g == Gen::Rust { "rust-same-stem" } else { "go-several-files" }, || "the output of one file replaces that of the other".into());
                }
            }
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", "projects of three files with 15 kinds of contents each, all of them, run twice; every project of two such files (in thorough: with 4 kinds of a third) over the output of every valid one (in quick: with 3 kinds of a second file); the same outputs formatted by gofmt for the valid projects");
    rep.assumptions.push("contents of the outputs are those of the library functions (C15, C16); outputs of files that left the project may stay".into());
    rep.finish()
}
fn gofmt(c: &[u8]) -> Option<Vec<u8>> {
    let mut p = Command::new("gofmt").arg("-s").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    p.stdin.take()?.write_all(c).ok()?;
    let o = p.wait_with_output().ok()?;
    o.status.success().then_some(o.stdout)
}
