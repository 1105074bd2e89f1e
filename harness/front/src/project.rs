//! C21: a project consists of exactly the schema files that its patterns select.
use model::report::{parallel, quiet, thorough, Report, Stats};
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

// ---- reference for the patterns -------------------------------------------------------------------
/// All texts that the braces of the pattern stand for.
fn braces(p: &[char]) -> Option<Vec<Vec<char>>> {
    let mut at = 0;
    let mut open = None;
    let mut depth = 0;
    let mut cuts = vec![];
    let mut class = false;
    while at < p.len() {
        match p[at] {
            '\\' => at += 1,
            '[' if !class => {
                class = true;
                // the first character is part of the set, whatever it is
                if matches!(p.get(at + 1), Some('!' | '^')) {
                    at += 1;
                }
                if p.get(at + 1) == Some(&']') {
                    at += 1;
                }
            }
            ']' if class => class = false,
            _ if class => {}
            '{' => {
                depth += 1;
                if depth == 1 {
                    open = Some(at);
                    cuts = vec![at];
                }
            }
            ',' if depth == 1 => cuts.push(at),
            '}' => {
                if depth == 0 {
                    return None;
                }
                depth -= 1;
                if depth == 0 {
                    cuts.push(at);
                    let (head, tail) = (&p[..open?], &p[at + 1..]);
                    let tails = braces(tail)?;
                    let mut v = vec![];
                    for w in cuts.windows(2) {
                        for inner in braces(&p[w[0] + 1..w[1]])? {
                            for t in &tails {
                                v.push([head, &inner, t].concat());
                            }
                        }
                    }
                    return Some(v);
                }
            }
            _ => {}
        }
        at += 1;
    }
    (depth == 0).then(|| vec![p.to_vec()])
}
fn name(p: &[char], s: &[char]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some(('*', r)) => (0..=s.len()).any(|i| name(r, &s[i..])),
        Some(('?', r)) => !s.is_empty() && name(r, &s[1..]),
        Some(('\\', r)) => !s.is_empty() && r[0] == s[0] && name(&r[1..], &s[1..]),
        Some(('[', r)) => {
            let Some(c) = s.first() else { return false };
            let (neg, r) = match r.first() {
                Some('!' | '^') => (true, &r[1..]),
                _ => (false, r),
            };
            let end = r.iter().skip(1).position(|c| *c == ']').map_or(r.len(), |i| i + 1);
            let mut hit = false;
            let mut i = 0;
            while i < end {
                if i + 2 < end && r[i + 1] == '-' {
                    hit |= (r[i]..=r[i + 2]).contains(c);
                    i += 3;
                } else {
                    hit |= r[i] == *c;
                    i += 1;
                }
            }
            hit != neg && name(&r[(end + 1).min(r.len())..], &s[1..])
        }
        Some((c, r)) => s.first() == Some(c) && name(r, &s[1..]),
    }
}
fn parts(p: &[&[char]], s: &[&[char]]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some((['*', '*'], [])) => !s.is_empty(),
        Some((['*', '*'], r)) => (0..=s.len()).any(|i| parts(r, &s[i..])),
        Some((c, r)) => !s.is_empty() && name(c, s[0]) && parts(r, &s[1..]),
    }
}
fn selects(pattern: &str, path: &str) -> bool {
    let p: Vec<char> = pattern.chars().collect();
    let s: Vec<char> = path.chars().collect();
    let s: Vec<&[char]> = s.split(|c| *c == '/').collect();
    braces(&p).expect("valid pattern").iter().any(|p| parts(&p.split(|c| *c == '/').collect::<Vec<_>>(), &s))
}

// ---- trees ----------------------------------------------------------------------------------------
static COUNT: AtomicU64 = AtomicU64::new(0);
/// A scratch directory, in memory where that is possible: there, the order in which a directory is
/// listed follows the order in which its files were made.
struct Tree(PathBuf);
impl Tree {
    fn new() -> Tree {
        let n = format!("vp-project-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed));
        let shm = Path::new("/dev/shm").join(&n);
        if std::fs::create_dir(&shm).is_ok() {
            return Tree(shm);
        }
        let p = std::env::temp_dir().join(n);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Tree(p)
    }
    fn put(&self, p: &str) {
        let p = self.0.join(p);
        std::fs::create_dir_all(p.parent().expect("parent")).expect("directory");
        std::fs::write(p, b"").expect("file");
    }
    fn toml(&self, dir: &str, patterns: &[&str]) {
        let list: Vec<String> = patterns.iter().map(|p| format!("'{p}'")).collect();
        let d = self.0.join(dir);
        std::fs::create_dir_all(&d).expect("directory");
        std::fs::write(d.join("Mabo.toml"), format!("[package]\nname = \"x\"\nfiles = [{}]\n", list.join(", "))).expect("file");
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
const NAMES: [&str; 14] = ["a.mabo", "b.mabo", "ab.mabo", "bb.mabo", "A.mabo", "é.mabo", "x.txt", "a", "mabo", "a.mabo.bak", "a.MABO", "b.Mabo", "a.mabox", "bmabo"];
const DIRS: [&str; 10] = ["", "a/", "b/", "bb/", "a/a/", "a/b/", "b/a/", "a/b/a/", "d.mabo/", "a/ab.mabo.d/"];
const HIDDEN: [&str; 4] = [".h.mabo", ".h/a.mabo", "a/.a.mabo", ".mabo"];
/// Files of the large tree, without the hidden ones.
fn large(t: &Tree) -> Vec<String> {
    let mut v = vec![];
    for d in DIRS {
        for n in NAMES {
            // directories of the same name
            if d.is_empty() && n == "a" || d == "a/" && n == "a" || d == "b/" && n == "a" || d == "a/b/" && n == "a" {
                continue;
            }
            t.put(&format!("{d}{n}"));
            v.push(format!("{d}{n}"));
        }
    }
    for h in HIDDEN {
        t.put(h);
    }
    // links to a file and to a directory
    let link = |to: &str, at: &str| std::os::unix::fs::symlink(to, t.0.join(at)).expect("link");
    std::fs::create_dir_all(t.0.join("elsewhere/.far/deep")).expect("directory");
    t.put("elsewhere/.far/deep/b.mabo");
    link("elsewhere/.far/deep/b.mabo", "l.mabo");
    link("elsewhere/.far/deep", "c");
    v.push("l.mabo".into());
    v.push("c/b.mabo".into());
    v
}
fn wanted<'a>(files: &'a [String], patterns: &[&str]) -> BTreeSet<&'a str> {
    files.iter().map(String::as_str).filter(|f| f.ends_with(".mabo") && *f != ".mabo" && patterns.iter().any(|p| selects(p, f))).collect()
}
fn check(base: &Path, files: &[String], patterns: &[&str], group: &str, st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    // `?` and `[…]` stand for one byte, the glob library says: which of the two is meant is left open
    let open = |f: &str| !f.is_ascii() && patterns.iter().any(|p| p.contains(['?', '[']));
    let mut want = wanted(files, patterns);
    want.retain(|f| !open(f));
    let got = match quiet(|| mabo_project::load(base)) {
        Err(e) => return st.violation(format!("{group}: loading the project crashes"), || format!("{patterns:?}\n{e}")),
        Ok(Err(e)) => return st.violation(format!("{group}: a valid project does not load"), || format!("{patterns:?}\n{e:?}")),
        Ok(Ok(p)) => p,
    };
    let mut seen = BTreeSet::new();
    let mut odd = vec![];
    for f in &got.files {
        let Ok(r) = f.strip_prefix(base) else {
            odd.push(format!("{f:?} is outside of the project"));
            continue;
        };
        let r = r.to_string_lossy().into_owned();
        if open(&r) {
            continue;
        }
        if !want.contains(r.as_str()) {
            odd.push(format!("{r} is not selected"));
        } else if !f.is_file() {
            odd.push(format!("{r} is no file"));
        } else if !seen.insert(r.clone()) {
            odd.push(format!("{r} is listed twice"));
        }
    }
    odd.extend(want.iter().filter(|w| !seen.contains(**w)).map(|w| format!("{w} is missing")));
    if !got.project_path.is_file() || got.project_path.file_name().is_none_or(|n| n != "Mabo.toml") {
        odd.push(format!("the project file is {:?}", got.project_path));
    }
    if !odd.is_empty() {
        st.violation(format!("{group}: the files are not those that the patterns select"), || format!("base {base:?}\npatterns {patterns:?}\n{}", odd.join("\n")));
    }
}

const SEGMENTS: [&str; 24] = [
    "*", "**", "a", "?", "[ab]", "[!a]", "{a,bb}", "*.mabo", "a.mabo", "?.mabo", "[a-b].mabo", "{a,bb}.mabo", "{a,}b.mabo", "*b*", "a*.mabo", "*.{mabo,txt}", "A.mabo", "é.mabo", "[^b]*", "a.mab?",
    "\\a.mabo", "{a,{b,bb}}*", "d.mabo", "[-é].mabo",
];
/// Groups of patterns; every list of them is tried.
const PAIRED: [&str; 14] = ["", "*", "*.mabo", "a/*", "a/**", "**/*.mabo", "**/a.mabo", "a/**/a.mabo", "b/*.mabo", "{a,b}/*.mabo", "a.mabo", "nothing", "d.mabo", "**"];

enum Job {
    Patterns(usize),
    Lists(usize),
    Orders,
    Invalid,
    Discover(usize),
    Bases,
    Ignored,
}
const PARTS: usize = 16;

fn permutations(v: &[&'static str]) -> Vec<Vec<&'static str>> {
    if v.is_empty() {
        return vec![vec![]];
    }
    (0..v.len())
        .flat_map(|i| {
            let mut r = v.to_vec();
            let x = r.remove(i);
            permutations(&r).into_iter().map(move |p| [vec![x], p].concat())
        })
        .collect()
}
/// Texts of project files, and whether they describe a project.
fn project_files() -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    let names = [(None, false), (Some("\"x\""), true), (Some("\"\""), true), (Some("1"), false), (Some("[]"), false)];
    let descriptions = [(None, true), (Some("\"d\""), true), (Some("1"), false)];
    let licenses = [
        (None, true),
        (Some("\"MIT\""), true),
        (Some("\"MIT OR Apache-2.0\""), true),
        (Some("\"(MIT AND ISC) OR Apache-2.0\""), true),
        (Some("\"MIT OR\""), false),
        (Some("\"nothing like it\""), false),
        (Some("\"\""), false),
        (Some("1"), false),
    ];
    let files = [
        (None, false),
        (Some("[]"), true),
        (Some("[\"*.mabo\"]"), true),
        (Some("[\"*.mabo\", '''a/{b,c}''']"), true),
        (Some("\"*.mabo\""), false),
        (Some("[1]"), false),
        (Some("[\"[\"]"), false),
        (Some("[\"*.mabo\", \"{a\"]"), false),
        (Some("[\"a}\"]"), false),
        (Some("[\"[b-a]\"]"), false),
        (Some("['a\\']"), false),
    ];
    for n in names {
        for d in descriptions {
            for l in licenses {
                for f in files {
                    let mut t = "[package]\n".to_owned();
                    for (k, x) in [("name", n.0), ("description", d.0), ("license", l.0), ("files", f.0)] {
                        if let Some(x) = x {
                            t.push_str(&format!("{k} = {x}\n"));
                        }
                    }
                    v.push((t, n.1 && d.1 && l.1 && f.1));
                }
            }
        }
    }
    for t in ["", "[packag]\nname = \"x\"\nfiles = []\n", "name = \"x\"\nfiles = []\n", "[package\n", "package = 1\n", "[package]\nname = \"x\"\nfiles = [\n", "[package]\nname = \"x\"\nname = \"y\"\nfiles = []\n", "\u{0}"] {
        v.push((t.into(), false));
    }
    for t in ["# é\r\n[package]\r\nname = 'x'\r\nfiles = [\r\n  'a.mabo', # a\r\n]\r\n", "package = { name = \"x\", files = [\"**/*.mabo\"] }", "package.name = \"x\"\npackage.files = []"] {
        v.push((t.into(), true));
    }
    v
}

pub fn c21() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C21");
    let mut js = vec![Job::Orders, Job::Invalid, Job::Bases, Job::Ignored];
    for p in 0..PARTS {
        js.extend([Job::Patterns(p), Job::Lists(p), Job::Discover(p)]);
    }
    let s = parallel(&js, |j, st| match j {
        Job::Patterns(part) => {
            let t = Tree::new();
            let files = large(&t);
            let mut n = 0;
            let mut one = |p: String, st: &mut Stats| {
                n += 1;
                if n % PARTS == *part {
                    t.toml("", &[&p]);
                    st.count("patterns", 1);
                    check(&t.0, &files, &[&p], "pattern", st);
                }
            };
            for a in SEGMENTS {
                one(a.into(), st);
                for b in SEGMENTS {
                    one(format!("{a}/{b}"), st);
                    for c in SEGMENTS {
                        if th || [a, b, c].contains(&"**") || [a, b, c].contains(&"a") || a == "*" {
                            one(format!("{a}/{b}/{c}"), st);
                        }
                        if th {
                            for d in ["**", "*.mabo", "[ab].mabo", "{a,b}*"] {
                                one(format!("{a}/{b}/{c}/{d}"), st);
                            }
                        }
                    }
                }
            }
        }
        Job::Lists(part) => {
            let t = Tree::new();
            let files = large(&t);
            let mut n = 0;
            let mut one = |p: &[&str], st: &mut Stats| {
                n += 1;
                if n % PARTS == *part {
                    t.toml("", p);
                    st.count("pattern_lists", 1);
                    check(&t.0, &files, p, "patterns", st);
                }
            };
            one(&[], st);
            for a in PAIRED {
                for b in PAIRED {
                    one(&[a, b], st);
                    for c in PAIRED {
                        one(&[a, b, c], st);
                    }
                }
            }
        }
        Job::Orders => {
            // the same files, made in every order
            let names = ["b.mabo", "a.mabo", "a/b.mabo", "A/a.mabo", "c.mabo"];
            let mut first: Option<Vec<PathBuf>> = None;
            let mut dirs: Option<Vec<PathBuf>> = None;
            for p in permutations(&names) {
                let t = Tree::new();
                for f in &p {
                    t.put(f);
                    if let Some((d, _)) = f.split_once('/') {
                        t.toml(d, &["*"]);
                    }
                }
                t.toml("", &["**/*.mabo"]);
                st.states += 1;
                st.transitions += 2;
                st.traces += 1;
                st.count("orders", 1);
                let rel = |v: Vec<PathBuf>| v.into_iter().map(|f| f.strip_prefix(&t.0).map(Path::to_owned).unwrap_or(f)).collect::<Vec<_>>();
                let got = mabo_project::load(&t.0).map(|p| rel(p.files)).unwrap_or_default();
                if *first.get_or_insert_with(|| got.clone()) != got {
                    st.violation("order: the files come in an order that depends on the file system", || format!("made in the order {p:?}\n{got:?}\n{first:?}"));
                }
                let got = rel(mabo_project::discover(&t.0).unwrap_or_default().into_iter().flat_map(|p| [vec![p.project_path], p.files].concat()).collect());
                if *dirs.get_or_insert_with(|| got.clone()) != got {
                    st.violation("order: the projects come in an order that depends on the file system", || format!("made in the order {p:?}\n{got:?}\n{dirs:?}"));
                }
            }
        }
        Job::Invalid => {
            let t = Tree::new();
            t.put("a.mabo");
            let file = t.0.join("Mabo.toml");
            for (text, valid) in project_files() {
                std::fs::write(&file, &text).expect("file");
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                st.count("project_files", 1);
                match quiet(|| mabo_project::load(&t.0).map(|_| ()).map_err(|e| format!("{e:?}"))) {
                    Ok(r) if r.is_ok() == valid => {}
                    Ok(r) => st.violation(format!("project file: {} is {}", if valid { "a valid one" } else { "an invalid one" }, if valid { "rejected" } else { "accepted" }), || format!("{text}\n{r:?}")),
                    Err(e) => st.violation("project file: loading crashes", || format!("{text}\n{e}")),
                }
            }
            std::fs::write(&file, [0xff, 0xfe]).expect("file");
            st.states += 1;
            if mabo_project::load(&t.0).is_ok() {
                st.violation("project file: one that is no text is accepted", String::new);
            }
            std::fs::remove_file(&file).expect("file");
            if mabo_project::load(&t.0).is_ok() || mabo_project::load(t.0.join("missing")).is_ok() || mabo_project::load(t.0.join("a.mabo")).is_ok() {
                st.violation("project file: a missing one is accepted", String::new);
            }
        }
        Job::Discover(part) => {
            // every way to place project files, invalid ones and things with a similar name
            let dirs = ["", "a", "a/b", "a/b/c", "d.mabo", ".h", "é x"];
            let kinds = if th { 5 } else { 4 };
            let total = (kinds as usize).pow(if th { 7 } else { 6 });
            for code in 0..total {
                if code % PARTS != *part {
                    continue;
                }
                let t = Tree::new();
                let mut want = BTreeSet::new();
                let mut all = vec![];
                let mut c = code;
                for d in dirs {
                    t.put(&Path::new(d).join("s.mabo").to_string_lossy());
                    all.push(d);
                    match c % kinds {
                        1 => {
                            t.toml(d, &["*.mabo"]);
                            if d != ".h" {
                                want.insert(d);
                            }
                        }
                        2 => t.put(&Path::new(d).join("Mabo.toml/x").to_string_lossy()),
                        3 => {
                            t.put(&Path::new(d).join("xMabo.toml").to_string_lossy());
                            t.put(&Path::new(d).join("mabo.toml").to_string_lossy());
                            t.put(&Path::new(d).join("Mabo.toml.bak").to_string_lossy());
                        }
                        4 => {
                            // one that matches files of the directories below
                            t.toml(d, &["**/*.mabo"]);
                            if d != ".h" {
                                want.insert(d);
                            }
                        }
                        _ => {}
                    }
                    c /= kinds;
                }
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                st.count("discoveries", 1);
                let got = match quiet(|| mabo_project::discover(&t.0).map_err(|e| format!("{e:?}"))) {
                    Ok(Ok(g)) => g,
                    e => {
                        st.violation("discovery: fails", || format!("{want:?}\n{e:?}"));
                        continue;
                    }
                };
                let found: Vec<String> = got.iter().map(|p| p.project_path.parent().and_then(|p| p.strip_prefix(&t.0).ok()).map_or("?".into(), |p| p.to_string_lossy().into_owned())).collect();
                let mut sorted: Vec<&str> = found.iter().map(String::as_str).collect();
                sorted.sort_unstable();
                let mut w: Vec<&str> = want.iter().copied().collect();
                w.sort_unstable();
                if sorted != w {
                    st.violation("discovery: the projects found are not those that exist", || format!("found {sorted:?}\nexpected {w:?}"));
                }
                for p in got {
                    let dir = p.project_path.parent().expect("parent").to_owned();
                    let own = mabo_project::load(&dir).map(|p| p.files).unwrap_or_default();
                    if own != p.files {
                        st.violation("discovery: the files differ from those of loading the project", || format!("{dir:?}\n{own:?}\n{:?}", p.files));
                    }
                }
            }
            // a broken one is an error
            let t = Tree::new();
            t.toml("a", &["*"]);
            t.toml("b", &["["]);
            st.states += 1;
            if mabo_project::discover(&t.0).is_ok() {
                st.violation("discovery: a broken project is no error", String::new);
            }
        }
        Job::Bases => {
            // the ways to write the directory of the project
            let t = Tree::new();
            std::fs::create_dir(t.0.join("p")).expect("directory");
            let inner = Tree(t.0.join("p"));
            let files = large(&inner);
            std::os::unix::fs::symlink("p", t.0.join("l")).expect("link");
            let up: PathBuf = std::env::current_dir().expect("cwd").components().skip(1).map(|_| "..").collect();
            let t0 = t.0.strip_prefix("/").expect("absolute");
            let bases = [
                t.0.join("p"),
                t.0.join("p/"),
                t.0.join("p/."),
                t.0.join("./p"),
                t.0.join("p/a/.."),
                t.0.join("l"),
                t.0.join("l/"),
                up.join(t0).join("p"),
                up.join(t0).join("p/"),
                Path::new(".").join(&up).join(t0).join("p"),
            ];
            for p in ["*.mabo", "**/*.mabo", "a/*", "**", "a/b/a.mabo"] {
                inner.toml("", &[p]);
                for b in &bases {
                    st.count("bases", 1);
                    check(b, &files, &[p], "base", st);
                }
            }
        }
        Job::Ignored => {
            let t = Tree::new();
            for f in ["a.mabo", "b.mabo", "d/a.mabo", "d/b.mabo"] {
                t.put(f);
            }
            for (rules, left) in [("b.mabo\n", vec!["a.mabo", "d/a.mabo"]), ("/b.mabo\n", vec!["a.mabo", "d/a.mabo", "d/b.mabo"]), ("d/\n", vec!["a.mabo", "b.mabo"]), ("*.mabo\n!a.mabo\n", vec!["a.mabo", "d/a.mabo"])] {
                std::fs::write(t.0.join(".ignore"), rules).expect("file");
                let left: Vec<String> = left.into_iter().map(str::to_owned).collect();
                for p in ["*.mabo", "**/*.mabo", "d/*"] {
                    t.toml("", &[p]);
                    st.count("ignore_rules", 1);
                    check(&t.0, &left, &[p], "ignored files", st);
                }
            }
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", "one tree with 10 directories and 96 files against all patterns of up to 3 (4 in thorough) of 24 kinds of path segments and all lists of up to 3 of 14 patterns; 5 files made in every order; all project files of 4 fields with valid and invalid values; all placements of 4 (5) kinds of project files in 7 directories");
    rep.assumptions.push("no dangling links; hidden files and files excluded by ignore rules do not belong to projects".into());
    rep.finish()
}
