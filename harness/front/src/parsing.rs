//! C09 to C11: the parser and the formatter on the bounded space of texts.
use std::ops::Range;
use crate::texts::{jobs, Job};
use crate::tree::{first_diff, g, Node};
use crate::{conv, refparse};
use mabo_parser::Schema;
use miette::{Diagnostic, GraphicalReportHandler, GraphicalTheme};
use model::report::{parallel, quiet, thorough, Report, Stats};

// ---- C09 ------------------------------------------------------------------------------------------
pub fn labels(d: &dyn Diagnostic, out: &mut Vec<(usize, usize)>) {
    for l in d.labels().into_iter().flatten() {
        out.push((l.offset(), l.len()));
    }
    for r in d.related().into_iter().flatten() {
        labels(r, out);
    }
    if let Some(s) = d.diagnostic_source() {
        labels(s, out);
    }
}
pub fn render(d: &dyn Diagnostic) -> Result<String, String> {
    quiet(|| {
        let mut s = String::new();
        GraphicalReportHandler::new_themed(GraphicalTheme::unicode_nocolor())
            .render_report(&mut s, d)
            .map(|()| s)
            .map_err(|e| e.to_string())
    })
    .and_then(|r| r)
}
fn total(text: &str, st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let r = match quiet(|| Schema::parse(text, None)) {
        Ok(r) => r,
        Err(p) => return st.violation(format!("parser panicked: {p}"), || format!("{text:?}")),
    };
    match r {
        Ok(s) => {
            st.count("accepted", 1);
            // the printed form of anything accepted exists as well
            if let Err(p) = quiet(|| s.to_string()) {
                st.violation(format!("printing panicked: {p}"), || format!("{text:?}"));
            }
        }
        Err(e) => {
            st.count("rejected", 1);
            let mut l = vec![];
            labels(&e, &mut l);
            for (o, n) in l {
                st.transitions += 1;
                if o + n <= text.len() && text.is_char_boundary(o) && n > 0 && !text.is_char_boundary(o + n) {
                    // the parser uses the distance from the start of the element to its last
                    // character as the end of the range (recorded finding)
                    let relative = ['}', '\n', ';', ','].iter().any(|c| text[o..].find(*c).is_some_and(|p| p + 1 == o + n));
                    if relative {
                        st.known("relative-range-end", || format!("{text:?} location {o}..{}", o + n));
                        continue;
                    }
                }
                if o + n > text.len() || !text.is_char_boundary(o) || !text.is_char_boundary(o + n) {
                    st.violation("error location outside of the text or inside a character", || {
                        format!("{text:?}\nlocation {o}..{} of {} bytes\n{e}", o + n, text.len())
                    });
                }
            }
            match render(&e) {
                Ok(s) if !s.is_empty() && !e.to_string().is_empty() => {}
                Ok(_) => st.violation("empty error message", || format!("{text:?}")),
                Err(p) => st.violation(format!("rendering the error failed: {p}"), || format!("{text:?}")),
            }
        }
    }
}
/// Texts whose size is the nesting depth `n`.
fn nested(n: usize) -> Vec<(&'static str, String)> {
    let r = |a: &str, b: &str, c: &str| format!("{}{b}{}", a.repeat(n), c.repeat(n));
    vec![
        ("tuples", format!("struct A({})\n", r("(", "u8", ")"))),
        ("tuples with trailing commas", format!("struct A({})\n", r("(", "u8", ",)"))),
        ("tuples of pairs", format!("struct A({})\n", r("(u8, ", "u8", ")"))),
        ("type arguments", format!("struct A({})\n", r("B<", "u8", ">"))),
        ("vectors", format!("struct A({})\n", r("vec<", "u8", ">"))),
        ("maps", format!("struct A({})\n", r("hash_map<u8, ", "u8", ">"))),
        ("arrays", format!("struct A({})\n", r("[", "u8", "; 2]"))),
        ("modules", format!("{}\n", r("mod a {", "struct B(u8)", "}"))),
        ("modules with comments", format!("{}\n", r("/// x\nmod a {\n", "struct B(u8)", "}\n"))),
        ("attributes", format!("#[{}]\nstruct A", r("a(", "b", ")"))),
        ("attribute groups", format!("#[{}]\nstruct A", r("a(x, ", "b", ", y)"))),
        ("open tuples", format!("struct A({}", "(".repeat(n))),
        ("open pairs", format!("struct A({}", "(u8, ".repeat(n))),
        ("open arguments", format!("struct A({}", "B<".repeat(n))),
        ("open modules", "mod a {".repeat(n)),
        ("wrong end", format!("struct A({})\n", r("(", "u8 u8", ")"))),
        ("wrong last element", format!("struct A({})\n", r("(u8, ", "%", ")"))),
        ("variants", format!("enum A {{ {} }}\n", "B(u8), C { a: u8 }, ".repeat(n))),
        ("fields", format!("struct A {{ {} }}\n", (0..n).map(|i| format!("a{i}: (u8, u8), ")).collect::<String>())),
        ("fields without end", format!("struct A {{ {}", (0..n).map(|i| format!("a{i}: (u8, u8), ")).collect::<String>())),
        ("definitions", "/// c\n#[a]\nstruct A(u8)\n".repeat(n)),
        ("comment lines", format!("{}struct A(u8)\n", "/// c\n".repeat(n))),
        ("comment lines before nothing", "/// c\n".repeat(n)),
        ("blank lines", format!("{}struct A(u8)\n", "\n \t".repeat(n))),
        ("string escapes", format!("const A: string = \"{}\";\n", "\\n\\\\\\u{41}".repeat(n))),
        ("bytes", format!("const A: bytes = [{}];\n", "1, ".repeat(n))),
        ("path", format!("struct A({}B)\n", "a::".repeat(n))),
        ("import path", format!("use {}B;\n", "a::".repeat(n))),
        ("attribute list", format!("#[{}a]\nstruct A(u8)\n", "a = 1, ".repeat(n))),
        ("attribute lines", format!("{}struct A(u8)\n", "#[a]\n".repeat(n))),
        ("generics", format!("struct A<{}T>(u8)\n", "T, ".repeat(n))),
        ("schema comment", format!("{}\nstruct A(u8)\n", "/// c\n".repeat(n))),
    ]
}
/// Depth at which even a text without any repetition overflows the stack of the recursive parser.
const TOO_DEEP: usize = 100_000;

pub fn probe(kind: &str) -> i32 {
    let text = nested(TOO_DEEP).into_iter().find(|x| x.0 == kind).unwrap().1;
    let ok = Schema::parse(&text, None).is_ok();
    println!("{ok}");
    0
}

pub fn c09() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C09");
    let js = jobs(th);
    let s = parallel(&js, |j, st| {
        j.each(th, &mut |t| total(t, st));
        st.sample(|| j.describe());
    });
    rep.stats.merge(s);
    // growth of the effort with the size of the text, in both directions of nesting and repetition
    let sizes: Vec<usize> = if th { vec![1, 2, 3, 5, 8, 12, 16, 24, 32, 48, 64, 96, 128] } else { vec![1, 2, 3, 5, 8, 16, 32, 64] };
    let names: Vec<&str> = nested(1).iter().map(|x| x.0).collect();
    let s = parallel(&names, |name, st| {
        for n in &sizes {
            let text = nested(*n).into_iter().find(|x| x.0 == *name).unwrap().1;
            let (tx, rx) = std::sync::mpsc::channel();
            let t2 = text.clone();
            let start = std::time::Instant::now();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    total(&t2, &mut st);
                    let _ = tx.send(st);
                })
                .unwrap();
            match rx.recv_timeout(std::time::Duration::from_secs(20)) {
                Ok(s) => st.merge(s),
                Err(_) => {
                    st.violation(format!("parsing {n} nested or repeated {name} does not end"), || {
                        format!("{text:?}\n{} bytes, still running after {:?}", text.len(), start.elapsed())
                    });
                    return;
                }
            }
            st.count("growth_cases", 1);
        }
        // long repetitions need neither much time nor stack
        let flat = ["variants", "fields", "definitions", "comment lines", "blank lines", "string escapes", "bytes", "path", "import path", "attribute list", "attribute lines", "generics", "schema comment"];
        if flat.contains(name) {
            let text = nested(if th { 20_000 } else { 3_000 }).into_iter().find(|x| x.0 == *name).unwrap().1;
            let start = std::time::Instant::now();
            st.states += 1;
            st.transitions += 1;
            let ok = quiet(|| Schema::parse(&text, None).is_ok());
            if start.elapsed().as_secs() > 20 || ok.is_err() {
                st.violation(format!("parsing many {name} takes {:?}: {ok:?}", start.elapsed()), || name.to_string());
            }
            st.count("long_texts", 1);
        }
    });
    rep.stats.merge(s);
    // very deep nesting, in a process of its own
    let exe = std::env::current_exe().unwrap();
    let deep = ["tuples", "type arguments", "vectors", "maps", "arrays", "modules", "attributes", "open tuples"];
    let s = parallel(&deep, |name, st| {
        let o = std::process::Command::new(&exe).args(["probe", name]).output().unwrap();
        st.states += 1;
        st.transitions += 1;
        if !o.status.success() {
            st.known("deep-nesting", || format!("{TOO_DEEP} nested {name}: {}", o.status));
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", "all grammar sentences of the bounded grammar, everything one character or token edit away from a sentence of every distinct structure, all short token strings in 12 contexts, nesting and repetition up to 64 (128 in thorough)".to_string());
    rep.finish()
}

// ---- C10 ------------------------------------------------------------------------------------------
/// Comments of imports and attributes of anything but structs and enums are read but not kept
/// (recorded finding); this is the tree without them.
pub fn without_dropped(t: &Node) -> Node {
    let mut t = t.clone();
    fn go(t: &mut Node) {
        if matches!(t.k, "mod" | "alias" | "const" | "import") {
            t.c[1] = g("attributes", vec![]);
        }
        if t.k == "import" {
            t.c[0] = g("comment", vec![]);
        }
        t.c.iter_mut().for_each(go);
    }
    go(&mut t);
    t
}
fn grammar(text: &str, st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    let (want, steps) = refparse::parse(text);
    st.count("rule_applications", steps);
    let got = match quiet(|| Schema::parse(text, None).ok().map(|s| conv::schema(&s))) {
        Ok(g) => g,
        Err(p) => return st.violation(format!("parser panicked: {p}"), || format!("{text:?}")),
    };
    st.traces += 1;
    match (want, got) {
        (None, None) => st.count("rejected", 1),
        (Some(w), None) => st.violation("a sentence of the grammar is rejected", || {
            format!("{text:?}\n{text}\nexpected {}\nerror {:?}", w.show(), Schema::parse(text, None).err())
        }),
        (None, Some(g)) => st.violation("a text outside the grammar is accepted", || format!("{text:?}\n{text}\ngot {}", g.show())),
        (Some(w), Some(g)) => {
            st.count("accepted", 1);
            // every recorded location selects the text of its element
            let mut bad = None;
            g.walk(&mut |n| {
                if let Some((a, b)) = n.sp {
                    let s = text.get(a..b);
                    let ok = match n.k {
                        "name" | "kw" | "tok" | "full" => s == Some(n.t.as_str()),
                        "line" => s.is_some_and(|s| s.starts_with("///") && s.ends_with(n.t.as_str())),
                        "id" => s.is_some_and(|s| s.strip_prefix('@') == Some(n.t.as_str())),
                        _ => s.is_some(),
                    };
                    if !ok {
                        bad = Some(format!("{} at {a}..{b} selects {s:?}", n.show()));
                    }
                }
            });
            if let Some(b) = bad {
                st.violation("a location selects the wrong text", || format!("{text:?}\n{text}\n{b}"));
                return;
            }
            let (w, g) = (w.trimmed(text), g.trimmed(text));
            if w == g {
                return;
            }
            if without_dropped(&w) == g {
                let what = if w.show().contains("(import (comment (line") { "import-comment-dropped" } else { "attribute-dropped" };
                st.known(what, || format!("{text:?}"));
                return;
            }
            st.violation("the tree differs from what was written", || {
                format!("{text:?}\n{text}\nexpected {}\ngot      {}\nfirst difference {}", w.show(), g.show(), first_diff(&w, &g))
            });
        }
    }
}
pub fn c10() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C10");
    let js = jobs(th);
    let s = parallel(&js, |j, st| {
        j.each(th, &mut |t| grammar(t, st));
        st.sample(|| j.describe());
    });
    rep.stats.merge(s);
    rep.note("bounds", "as C09 without the very deep nesting; type nesting 1 (2 in thorough)".to_string());
    rep.finish()
}

// ---- C11 ------------------------------------------------------------------------------------------
fn format_case(text: &str, st: &mut Stats) {
    let Ok(s) = Schema::parse(text, None) else { return };
    st.states += 1;
    st.transitions += 3;
    st.traces += 1;
    let out = match quiet(|| s.to_string()) {
        Ok(o) => o,
        Err(p) => return st.violation(format!("printing panicked: {p}"), || format!("{text:?}")),
    };
    let d = |what: &str| format!("{text:?}\n{text}\nformatted {out:?}\n{out}\n{what}");
    let again = match Schema::parse(&out, None) {
        Ok(s) => s,
        Err(e) => return st.violation("the formatted text does not parse", || d(&format!("{e:?}"))),
    };
    let (Some(a), Some(b)) = (refparse::parse(text).0, refparse::parse(&out).0) else {
        return st.violation("the formatted text is outside the grammar", || d(""));
    };
    let (a, b) = (a.bare(), b.bare());
    if a != b {
        if without_dropped(&a) == b {
            let what = if a.show().contains("(import (comment (line") { "import-comment-dropped" } else { "attribute-dropped" };
            st.known(what, || format!("{text:?}"));
        } else {
            return st.violation("formatting changed the meaning", || d(&first_diff(&a, &b)));
        }
    }
    // the parser itself has to see the same as well
    let (a, b) = (conv::schema(&s).bare(), conv::schema(&again).bare());
    if a != b {
        return st.violation("formatting changed the parsed schema", || d(&first_diff(&a, &b)));
    }
    match quiet(|| again.to_string()) {
        Ok(o) if o == out => {}
        o => st.violation("formatting the formatted text changes it", || d(&format!("{o:?}"))),
    }
}
pub fn c11() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C11");
    let js = jobs(th);
    let s = parallel(&js, |j, st| {
        j.each(th, &mut |t| format_case(t, st));
        st.sample(|| j.describe());
    });
    rep.stats.merge(s);
    rep.note("bounds", "every accepted text of the space of C10".to_string());
    rep.finish()
}
#[allow(unused)]
fn _keep(_: Job) {}

// ---- C27 ------------------------------------------------------------------------------------------
/// The definitions (and attributes) an error is reported in, from the outside, and the place that
/// the innermost message or label names.
fn reported(e: &mabo_parser::error::ParseSchemaError) -> (Vec<(&'static str, String, Range<usize>)>, Option<usize>, Vec<String>) {
    const KINDS: [(&str, &str); 7] = [("Module", "mod"), ("Struct", "struct"), ("Enum", "enum"), ("Const", "const"), ("Alias", "alias"), ("Import", "import"), ("Attribute", "attr")];
    let (mut inside, mut texts) = (vec![], vec![]);
    let mut at: &dyn Diagnostic = e;
    loop {
        let url = at.url().map_or(String::new(), |u| u.to_string());
        if let Some(k) = KINDS.iter().find(|k| url.ends_with(&format!("struct.Parse{}Error.html", k.0))) {
            let l = at.labels().and_then(|mut l| l.next()).map_or(usize::MAX..0, |l| l.offset()..l.offset() + l.len());
            inside.push((k.1, at.to_string(), l));
        }
        texts.push(at.to_string());
        texts.extend(at.help().map(|h| h.to_string()));
        match at.related().and_then(|mut r| r.next()) {
            Some(n) => at = n,
            None => break,
        }
    }
    let mut place = at.labels().and_then(|mut l| l.next()).map(|l| l.offset());
    let mut inner: &dyn std::error::Error = e;
    while let Some(n) = inner.source() {
        inner = n;
    }
    let m = inner.to_string();
    if let Some((_, n)) = m.rsplit_once("offset ") {
        place = n.trim().parse().ok().or(place);
    }
    (inside, place, texts)
}
/// Comment lines and the space behind them.
fn comments(t: &str) -> bool {
    let (head, tail) = t.rsplit_once('\n').unwrap_or(("", t));
    t.starts_with('/') && tail.trim().is_empty() && head.lines().all(|l| l.trim().is_empty() || l.trim_start().starts_with("///"))
}
/// `a::b::`, or what remains after the first name, where the last of the colons may miss.
fn path(t: &str) -> bool {
    let t = t.replace("::", "%");
    let t = t.strip_suffix(':').unwrap_or(&t);
    t.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '%')
}
/// How the reported place relates to the first one that does not fit; none: not at all.
fn relation(text: &str, at: usize, w: &refparse::Wrong) -> Option<&'static str> {
    if at == w.far {
        return Some("exact");
    }
    let between = text.get(at..w.far)?;
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '&';
    if between.chars().all(word) && !text[..at].ends_with(word) {
        Some("start_of_word")
    } else if path(between) && (between.starts_with(':') || !text[..at].ends_with(word)) {
        Some("start_of_path")
    } else if ["box<string>", "box<bytes>"].iter().any(|b| b.starts_with(between)) {
        Some("start_of_boxed_type")
    } else if ["@", "#", ",", "\\"].contains(&between) {
        Some("start_of_symbol")
    } else if between.lines().all(|l| l.trim_start_matches([' ', '\t']).starts_with('/')) || comments(between) {
        Some("start_of_comment")
    } else if between.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) {
        Some("in_number")
    } else if between.trim() == "," || between.trim().is_empty() && text[..at].ends_with(|c: char| !c.is_whitespace()) {
        Some("start_of_space_or_separator")
    } else if w.elements.contains(&at) {
        Some("start_of_list_element")
    } else if between.strip_prefix('@').is_some_and(|d| d.chars().all(|c| c.is_ascii_digit())) {
        Some("start_of_id")
    } else if between.strip_prefix("\\u{").is_some_and(|d| d.chars().all(|c| c.is_ascii_hexdigit())) {
        Some("start_of_escape")
    } else if between.chars().all(word) && ["bool", "string", "bytes", "vec", "hash_map", "hash_set", "option", "non_zero", "box", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "f32", "f64"].iter().any(|k| text[..at].ends_with(k)) {
        Some("after_type_name")
    } else if w.bare == Some(at) && w.inside.iter().all(|k| k.1 < at) {
        Some("start_of_loose_comment_or_attribute")
    } else if w.inside.first().is_some_and(|k| k.0 == "attr")
        && text[..at].trim_end_matches([' ', '\t']).ends_with(word)
        && between.trim_start_matches([' ', '\t']).strip_prefix('=').is_some_and(|v| ["true", "false"].iter().any(|t| t.starts_with(v.trim_start_matches([' ', '\t']))))
    {
        Some("start_of_attribute_value")
    } else {
        None
    }
}
fn place(text: &str, st: &mut Stats) {
    let Ok(Err(e)) = quiet(|| Schema::parse(text, None)) else { return };
    // what is a schema and what is not is decided by C10
    let (None, _, wrong) = refparse::parse_far(text) else { return };
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let (inside, at, texts) = reported(&e);
    let tell = || format!("{text:?}\nwrong at {}, reported at {at:?}\n{}", wrong.far, texts.join("\n"));
    match at.and_then(|at| relation(text, at, &wrong)) {
        Some(r) => st.count(r, 1),
        None if std::env::var_os("C27_DUMP").is_some() => println!("D {:?} at {at:?} {:?} far {}", text, text.get(at.unwrap_or(0)..wrong.far), wrong.far),
        None => st.violation("the error is reported at another place than the text goes wrong", tell),
    }
    if !inside.iter().map(|k| k.0).eq(wrong.inside.iter().rev().map(|k| k.0)) {
        st.violation("the error is reported in other definitions than those around it", || format!("in {:?} instead of {:?}\n{}", inside, wrong.inside, tell()));
    }
    for ((kind, _, l), (_, start)) in inside.iter().zip(wrong.inside.iter().rev()) {
        let exact = l.start == *start;
        st.count(if exact { "definition_marked_from_its_start" } else { "definition_marked_inside" }, 1);
        // the end is counted from the start of the text, but the distance to it from the start of the definition
        let closers: &[char] = if matches!(*kind, "const" | "import") { &[';'] } else { &['}', '\n'] };
        let short = *start > 0 && exact && closers.iter().find_map(|c| text[*start..].find(*c)).is_some_and(|n| l.end == (n + 1).max(*start));
        let marked = text.get(l.clone());
        if !exact && !(*start..=wrong.far).contains(&l.start) {
            st.violation(format!("the mark of a definition is outside of it: {kind}"), || format!("{l:?}, {kind} starts at {start}\n{}", tell()));
        } else if !marked.is_some_and(|m| m.is_empty() || m.ends_with(['}', ';', '\n'])) {
            let tell = || format!("{l:?}, {kind} starts at {start}\n{}", tell());
            match short {
                true => st.known("mark-end", tell),
                false => st.violation(format!("the mark of a definition ends in the middle of it: {kind}"), tell),
            }
        }
    }
    for (kind, m, _) in &inside {
        let words: &[&str] = match *kind {
            "import" => &["use", "import"],
            "attr" => &["attribute"],
            k => &[k],
        };
        if !words.iter().any(|w| m.contains(w)) {
            let id = *kind == "mod" && m.contains("id declaration");
            if id {
                st.known("module-message", tell);
            } else {
                st.violation(format!("the message does not name the kind of definition: {kind}"), tell);
            }
        }
    }
    if texts.iter().any(|t| t.trim().is_empty() || t.contains("TODO")) {
        st.violation("a message or help text is empty or a placeholder", tell);
    }
}
pub fn c27() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C27");
    let js = jobs(th);
    let s = parallel(&js, |j, st| {
        j.each(th, &mut |t| place(t, st));
        st.sample(|| j.describe());
    });
    rep.stats.merge(s);
    rep.note("bounds", "every rejected text of the space of C09");
    rep.assumptions.push("the independent reference grammar (bound to the parser by C10) decides where a text goes wrong".into());
    rep.finish()
}
