//! Exhaustive bounded exploration of the runtime and of generated code (C01 to C08).
mod c01;
mod codec_checks;
mod infra;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let code = match id.as_str() {
        "C01" => c01::run(),
        "C02" => codec_checks::c02(),
        "C03" => codec_checks::c03(),
        "C04" => codec_checks::c04(),
        "C05" => codec_checks::c05(),
        "C06" => codec_checks::c06(),
        "C07" => codec_checks::c07(),
        "C08" => codec_checks::c08(),
        _ => panic!("unknown property {id}"),
    };
    std::process::exit(code);
}
