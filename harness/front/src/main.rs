//! Checks of the parser, compiler, generators and documentation.
mod cli;
mod compile;
mod conv;
mod diags;
mod docs;
mod editor;
mod extract;
mod golang;
mod ids;
mod large;
mod lsp;
mod marks;
mod project;
mod parsing;
mod refparse;
mod reports;
mod rust;
mod rustcases;
mod sem;
mod session;
#[cfg(feature = "json")]
mod simple;
mod texts;
mod tree;
mod unresolved;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let rc = match a.get(1).map(String::as_str) {
        Some("C09") => parsing::c09(),
        Some("C10") => parsing::c10(),
        Some("C11") => parsing::c11(),
        Some("C12") => compile::c12(),
        Some("C13") => compile::c13("C13"),
        Some("C25") => diags::c25(),
        Some("C24") => compile::c24(),
        Some("C14") => ids::c14(),
        Some("C17") => ids::c17(),
        Some("C22") => docs::c22(),
        Some("C19") => marks::c19(),
        Some("C20") => cli::c20(),
        Some("C23") => cli::c23(),
        Some("build-helper") => cli::helper(),
        Some("C21") => project::c21(),
        Some("C18") => editor::c18(),
        Some("C16") => golang::c16(),
        Some("C15") => rust::c15(),
        #[cfg(feature = "json")]
        Some("C26") => simple::c26(),
        Some("C27") => parsing::c27(),
        Some("C28") => reports::c28(),
        Some("C29") => session::c29(),
        Some("probe") => parsing::probe(&a[2]),
        _ => 2,
    };
    std::process::exit(rc);
}
