//! C28: which files and lines the tools name when they reject a project.
use crate::cli::{run, Area, Builder, Ran};
use model::report::{parallel, thorough, Report, Stats};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// Can't be read as text.
    Read,
    Syntax,
    /// Breaks a rule.
    Rule,
    /// Refers to something that doesn't exist.
    Reference,
}
/// Contents of a file. The lines with `§` are those that the problem is on.
#[derive(Debug)]
struct Content {
    fault: Fault,
    text: String,
}
const SLOTS: [&str; 3] = ["a.mabo", "b.mabo", "sub/c.mabo"];

fn contents(th: bool) -> Vec<Content> {
    use Fault::*;
    let c = |fault, text: &str| Content { fault, text: text.into() };
    let mut v = vec![
        c(None, ""),
        c(None, "/// Fine.\nstruct A {\n    a: u8 @1,\n}\n\nmod m {\n    struct Inner(u8 @1)\n}\n"),
        c(Read, "\u{1}"),
        c(Syntax, "struct A(u8 @1)\n\nstruct B {\n    a: §hash_map,\n}\n"),
        c(Syntax, "/// é😀\nmod a {\n    mod b {\n        enum E {\n            A @1,\n            B §C,\n        }\n    }\n}\n"),
        c(Syntax, "const A: u8 = §;\n"),
        c(Rule, "struct A(u8 @1)\n\nstruct B {\n    a: u8 §@1,\n    b: u8 §@1,\n}\n"),
        c(Rule, "mod m {\n    /// é😀\n    enum E {\n        §A @1,\n        B(u8 @1) @2,\n        §A @3,\n    }\n}\n"),
        c(Rule, "\n\nstruct A<§T>(u8 @1)\n"),
        c(Reference, "struct A(u8 @1)\n\nstruct B {\n    /// é😀\n    a: vec<§Nowhere> @1,\n}\n"),
        c(Reference, "/// Import.\nuse §nowhere::S;\n"),
        c(Syntax, "struct A(u8 @1)\r\n\r\nstruct §1;\r\n"),
        c(Syntax, "§#[a(b = 1,\n    c = .)]\nstruct A(u8 @1)\n"),
        c(Syntax, "use a::b::A;\nuse a::§;\n"),
        c(Rule, "struct §A(u8 @1)\n\nmod m {}\n\nconst §A: u8 = 1;\n"),
        c(Rule, "enum E {\n    A {\n        §a: u8 @1,\n        §a: u8 @2,\n    } @1,\n}\n"),
        c(Rule, "enum E {\n    A §@1,\n    B(u8 @1) §@1,\n}\n"),
        c(Rule, "struct A<\n    §T,\n    §T,\n>(T @1)\n"),
        c(Reference, "mod m {\n    enum E {\n        A {\n            a: §super::X @1,\n        } @1,\n    }\n}\n"),
    ];
    if th {
        let more: Vec<Content> = v.iter().filter(|c| !matches!(c.fault, None | Read)).map(|x| c(x.fault, &format!("/// é😀\n\n\n{}", x.text))).collect();
        v.extend(more);
    }
    v
}
impl Content {
    fn bytes(&self) -> Vec<u8> {
        if self.fault == Fault::Read {
            return vec![b'a', 0xff];
        }
        self.text.replace('§', "").into_bytes()
    }
    /// The lines that the problem is on.
    fn lines(&self) -> Vec<usize> {
        self.text.split('\n').enumerate().filter(|(_, l)| l.contains('§')).map(|(i, _)| i + 1).collect()
    }
}
/// Without colors and links.
fn plain(t: &str) -> String {
    let mut o = String::new();
    let mut i = t.chars();
    while let Some(c) = i.next() {
        if c != '\u{1b}' {
            o.push(c);
            continue;
        }
        match i.next() {
            Some('[') => {
                i.find(|c| c.is_ascii_alphabetic());
            }
            Some(']') => {
                let mut last = ' ';
                i.find(|c| {
                    let end = *c == '\u{7}' || last == '\u{1b}' && *c == '\\';
                    last = *c;
                    end
                });
            }
            _ => {}
        }
    }
    o
}
/// Places `[file:line:column]` at the head of the source excerpts.
fn places(t: &str) -> Vec<(String, usize)> {
    let mut v = vec![];
    for l in t.lines().filter(|l| l.contains("─[") || l.contains("-[")) {
        let Some(h) = l.split_once("[").and_then(|(_, h)| h.strip_suffix(']')) else { continue };
        let mut p = h.rsplitn(3, ':');
        let (Some(_), Some(line), Some(file)) = (p.next(), p.next(), p.next()) else { continue };
        v.push((file.to_owned(), line.parse().unwrap_or(0)));
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Tool {
    Check,
    CheckGlobs,
    Fmt,
    Doc,
    Go,
    Build,
}
use Tool::*;
const TOOLS: [Tool; 6] = [Check, CheckGlobs, Fmt, Doc, Go, Build];

fn one(a: &Area, b: &mut Builder, state: [&Content; 3], tool: Tool, st: &mut Stats) {
    st.transitions += 1;
    st.traces += 1;
    let root = a.0.join("p");
    let dir = root.to_string_lossy().into_owned();
    let r: Ran = match tool {
        Check => run("MABO_CLI", &["check", "--project-dir", &dir], &a.0),
        CheckGlobs => run("MABO_CLI", &["check", "a.mabo", "b.mabo", "sub/*"], &root),
        Fmt => run("MABO_CLI", &["fmt", "--project-dir", &dir], &a.0),
        Doc => run("MABO_CLI", &["doc", "--project-dir", &dir, "o"], &a.0),
        Go => run("MABO_GO", &["--project-dir", &dir, "--out-dir", "o", "--no-fmt"], &a.0),
        Build => b.run(&root),
    };
    let text = plain(&r.err);
    let tell = |e: String| format!("{tool:?} of {:?}\n{e}\n{text}", state.iter().map(|c| &c.text).collect::<Vec<_>>());
    if r.crashed() {
        return st.violation(format!("{tool:?} crashes"), || tell(String::new()));
    }
    let path = |i: usize| if tool == CheckGlobs { SLOTS[i].to_owned() } else { format!("{dir}/{}", SLOTS[i]) };
    // the files that the tool has to complain about
    let with = |f: &[Fault]| (0..3).filter(|i| f.contains(&state[*i].fault)).collect::<Vec<_>>();
    let mut faulty = match tool {
        Fmt | Doc => with(&[Fault::Read, Fault::Syntax]),
        _ => with(&[Fault::Read, Fault::Syntax, Fault::Rule]),
    };
    let mut all = matches!(tool, Check | CheckGlobs | Fmt);
    if faulty.is_empty() && !matches!(tool, Fmt | Doc) {
        faulty = with(&[Fault::Reference]);
        all = false;
    }
    let named: Vec<usize> = (0..3)
        .filter(|i| {
            let p = path(*i);
            text.match_indices(&p).any(|(at, _)| !text[..at].ends_with(|c: char| c.is_alphanumeric() || "/._-".contains(c)) && !text[at + p.len()..].starts_with(|c: char| c.is_alphanumeric() || "/_-".contains(c)))
        })
        .collect();
    if let Some(i) = named.iter().find(|i| !faulty.contains(i)) {
        return st.violation(format!("{tool:?}: a file is named that is not at fault"), || tell(SLOTS[*i].into()));
    }
    if all && named != faulty || named.is_empty() != faulty.is_empty() {
        return st.violation(format!("{tool:?}: a faulty file is not named"), || tell(format!("named {named:?}, faulty {faulty:?}")));
    }
    let shown = places(&text);
    for i in &named {
        if state[*i].fault == Fault::Read {
            continue;
        }
        let p = path(*i);
        let lines = state[*i].lines();
        if !shown.iter().any(|s| s.0 == p && lines.contains(&s.1)) {
            return st.violation(format!("{tool:?}: the line of the problem is not shown"), || tell(format!("{} {lines:?}, shown {shown:?}", SLOTS[*i])));
        }
        // the line itself is in the excerpt
        let source = String::from_utf8(state[*i].bytes()).unwrap_or_default();
        for n in &lines {
            let l = source.split('\n').nth(n - 1).unwrap_or_default().trim_end();
            let row = format!(" {n} ");
            if !text.lines().any(|t| t.trim_end().ends_with(l) && format!(" {t}").contains(&row)) {
                return st.violation(format!("{tool:?}: the source of the problem is not shown"), || tell(format!("{} line {n}", SLOTS[*i])));
            }
        }
    }
    st.count(if faulty.is_empty() { "silent" } else { "reported" }, 1);
}

pub fn c28() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C28");
    let all = contents(th);
    let n = all.len();
    let parts: Vec<usize> = (0..64).collect();
    let s = parallel(&parts, |part, st| {
        let a = Area::new();
        a.put("p/Mabo.toml", b"[package]\nname = 'sample'\nfiles = ['*.mabo', 'sub/*.mabo']\n");
        let mut b = Builder::new(&a.0.join("o"));
        for k in (*part..n * n * n).step_by(64) {
            let state = [&all[k / n / n], &all[k / n % n], &all[k % n]];
            st.states += 1;
            for tool in TOOLS {
                for (p, c) in SLOTS.iter().zip(state) {
                    a.put(&format!("p/{p}"), &c.bytes());
                }
                one(&a, &mut b, state, tool, st);
            }
        }
        st.sample(|| format!("{:?}", all[part % n]));
    });
    rep.stats.merge(s);
    rep.note("bounds", "all projects of three files with every content out of a list (valid, not text, errors of syntax, broken rules, missing references, with the place on different lines), and 5 tools, one of them in two ways");
    rep.finish()
}
