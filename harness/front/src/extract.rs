//! What the generated code and pages say, read back from their text.
use mabo_compiler::simplify;
use mabo_parser::Schema;
use std::path::Path;

/// Run `f` on the simplified schema of `src`.
pub fn simplified<T>(src: &str, f: impl FnOnce(&simplify::Schema) -> T) -> Option<T> {
    let schema = Schema::parse(src, Some(Path::new("schema.mabo"))).ok()?;
    let s = mabo_compiler::simplify_schema(&schema);
    Some(f(&s))
}
pub fn rust_code(s: &simplify::Schema) -> String {
    mabo_build::compile_schema(&mabo_build::Opts::default(), s).to_string()
}
/// All Go files as (path, content).
pub fn go_files(s: &simplify::Schema) -> Vec<(String, String)> {
    fn walk(o: mabo_go::Output, parent: &str, v: &mut Vec<(String, String)>) {
        let p = format!("{parent}/{}", o.name);
        v.push((p.clone(), o.content));
        o.modules.into_iter().for_each(|m| walk(m, &p, v));
    }
    let mut v = vec![];
    walk(mabo_go::render_schema(&mabo_go::Opts { package: "sample" }, s), "", &mut v);
    v
}
/// All pages as (path of the file, content).
pub fn doc_files(s: &simplify::Schema) -> Result<Vec<(String, String)>, String> {
    fn walk(o: &mabo_doc::Output, parent: &str, v: &mut Vec<(String, String)>) {
        v.push((format!("{parent}{}", o.file), o.content.clone()));
        o.modules.iter().for_each(|m| walk(m, &format!("{parent}{}/", o.name), v));
    }
    let mut v = vec![];
    let opts = mabo_doc::Opts {};
    let o = mabo_doc::render_schema(&opts, s).map_err(|e| format!("{e:#}"))?;
    walk(&o, "", &mut v);
    Ok(v)
}

/// Numbers that stand right behind any of the markers, in order of appearance, with the marker.
pub fn numbers<'a>(text: &str, markers: &[(&str, &'a str)]) -> Vec<(&'a str, u64)> {
    let mut v = vec![];
    let mut i = 0;
    while i < text.len() {
        let rest = &text[i..];
        let hit = markers.iter().find(|m| rest.starts_with(m.0));
        if let Some((m, k)) = hit {
            let d: String = rest[m.len()..].chars().take_while(char::is_ascii_digit).collect();
            if let Ok(n) = d.parse() {
                v.push((*k, n));
                i += m.len();
                continue;
            }
        }
        i += rest.chars().next().map_or(1, char::len_utf8);
    }
    v
}
/// Rust source without any white space, split into the parts that start with one of the heads.
pub fn squeezed(code: &str) -> String {
    code.chars().filter(|c| !c.is_whitespace()).collect()
}
