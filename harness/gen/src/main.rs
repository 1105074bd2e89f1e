//! Writes the schemas of the plan, runs the real Rust generator over them and emits the glue that
//! makes the generated types reachable from the explorer.
//! usage: gen <out dir> <quick|thorough>
use model::ty::*;
use model::universe::{plan, rust_ty, Role};
use std::fmt::Write;

pub const SHARDS: usize = 8;

fn glue(out: &mut String, d: &Def) {
    let gens = |bound: &str| {
        if d.generics.is_empty() {
            String::new()
        } else {
            format!("<{}>", d.generics.iter().map(|g| format!("{g}{bound}")).collect::<Vec<_>>().join(", "))
        }
    };
    let n = &d.name;
    let build = |f: &Fields| match f.kind {
        Kind::Unit => String::new(),
        Kind::Named => {
            let v: Vec<_> = f.list.iter().enumerate().map(|(i, f)| format!("{}: Bridge::from_val(&f[{i}])", f.name.as_ref().unwrap())).collect();
            format!(" {{ {} }}", v.join(", "))
        }
        Kind::Unnamed => {
            let v: Vec<_> = (0..f.list.len()).map(|i| format!("Bridge::from_val(&f[{i}])")).collect();
            format!("({})", v.join(", "))
        }
    };
    let pat = |f: &Fields| match f.kind {
        Kind::Unit => String::new(),
        Kind::Named => format!(" {{ {} }}", f.list.iter().enumerate().map(|(i, f)| format!("{}: p{i}", f.name.as_ref().unwrap())).collect::<Vec<_>>().join(", ")),
        Kind::Unnamed => format!("({})", (0..f.list.len()).map(|i| format!("p{i}")).collect::<Vec<_>>().join(", ")),
    };
    let vals = |f: &Fields| (0..f.list.len()).map(|i| format!("p{i}.to_val()")).collect::<Vec<_>>().join(", ");
    match &d.body {
        Body::Alias(_) => {}
        Body::Struct(f) => {
            writeln!(out, "impl{} Bridge for gen::{n}{} {{", gens(": Bridge"), gens("")).unwrap();
            writeln!(out, "fn from_val(v: &Val) -> Self {{ let Val::Struct(f) = v else {{ panic!() }}; let _ = f; gen::{n}{} }}", build(f)).unwrap();
            writeln!(out, "fn to_val(&self) -> Val {{ let gen::{n}{} = self; Val::Struct(vec![{}]) }} }}", pat(f), vals(f)).unwrap();
        }
        Body::Enum(vs) => {
            writeln!(out, "impl{} Bridge for gen::{n}{} {{", gens(": Bridge"), gens("")).unwrap();
            writeln!(out, "fn from_val(v: &Val) -> Self {{ let Val::Enum(i, f) = v else {{ panic!() }}; let _ = f; match i {{").unwrap();
            for (i, v) in vs.iter().enumerate() {
                writeln!(out, "{i} => gen::{n}::{}{},", v.name, build(&v.fields)).unwrap();
            }
            writeln!(out, "_ => panic!() }} }}").unwrap();
            writeln!(out, "fn to_val(&self) -> Val {{ match self {{").unwrap();
            for (i, v) in vs.iter().enumerate() {
                writeln!(out, "gen::{n}::{}{} => Val::Enum({i}, vec![{}]),", v.name, pat(&v.fields), vals(&v.fields)).unwrap();
            }
            writeln!(out, "}} }} }}").unwrap();
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = std::path::PathBuf::from(&args[1]);
    let p = plan(args[2] == "thorough", SHARDS);
    for bytes_repr in [false, true] {
        let dir = out.join(if bytes_repr { "pb" } else { "pv" });
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("schemas")).unwrap();
        std::fs::write(dir.join("Mabo.toml"), "[package]\nname = \"gen\"\nfiles = [\"schemas/*.mabo\"]\n").unwrap();
        for (i, (defs, b)) in p.shards.iter().enumerate() {
            if *b == bytes_repr {
                std::fs::write(dir.join(format!("schemas/s{i}.mabo")), schema_text(defs)).unwrap();
            }
        }
        std::env::set_var("OUT_DIR", &out);
        let c = mabo_build::Compiler::default();
        let c = if bytes_repr { c.with_bytes_type(mabo_build::BytesType::Bytes) } else { c };
        c.compile(dir.to_str().unwrap()).unwrap();
    }
    for (i, (defs, b)) in p.shards.iter().enumerate() {
        let mut s = String::from("use bridge::{Bridge, Entry, Val};\nuse gen::*;\n");
        for d in defs {
            glue(&mut s, d);
        }
        s.push_str("pub fn table() -> Vec<Entry> { vec![\n");
        for it in p.items.iter().filter(|it| it.shard == i) {
            let t = match it.role {
                Role::Direct => rust_ty(&it.ty, *b),
                _ => it.name.clone(),
            };
            writeln!(s, "bridge::entry::<{t}>(\"{}\"),", it.name).unwrap();
        }
        s.push_str("] }\n");
        std::fs::write(out.join(format!("mabo/s{i}_glue.rs")), s).unwrap();
    }
    println!("items {}", p.items.len());
}
