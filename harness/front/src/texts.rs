//! The bounded space of schema texts: sentences of the grammar, everything one edit away from them,
//! and all short token strings in every syntactic context.
use std::collections::BTreeSet;

pub const BASIC: [&str; 19] = [
    "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "&string",
    "bytes", "&bytes", "box<string>", "box<bytes>",
];

pub fn types(depth: usize) -> Vec<String> {
    let mut v: Vec<String> = BASIC.iter().map(|s| s.to_string()).collect();
    v.extend(["Ext", "E_x9", "T", "a::Ext", "a1::b_2::Ext", "string_x::Ext", "vecs::Ext"].map(String::from));
    if depth == 0 {
        return v;
    }
    let inner: Vec<String> = if depth == 1 {
        v.clone()
    } else {
        types(depth - 1).into_iter().filter(|t| t.len() > 5).collect()
    };
    for t in &inner {
        for k in ["vec", "hash_set", "option", "non_zero"] {
            v.push(format!("{k}<{t}>"));
        }
        v.push(format!("hash_map<{t}, u8>"));
        v.push(format!("hash_map<string,{t} >"));
        v.push(format!("({t}, u8)"));
        v.push(format!("( u8 , {t} , )"));
        v.push(format!("({t})"));
        v.push(format!("[{t}; 3]"));
        v.push(format!("[ {t} ;0 ]"));
        v.push(format!("Ext<{t}>"));
        v.push(format!("a::Ext< {t} , bool, >"));
    }
    v.push("[u8; 4294967295]".into());
    v
}

pub fn literals() -> Vec<String> {
    let mut v: Vec<String> = [
        "true", "false", "0", "1", "-1", "+7", "-0", "007", "170141183460469231731687303715884105727",
        "-170141183460469231731687303715884105728", "1.0", "-1.5", "+0.25", "0.0", "-0.0", "1.0e0", "1.5e10",
        "2.5E-3", "1.0e+2", "1.0e300", "1.0e-300", "123456789.125", "0.1", "1.7976931348623157e308", "5.0e-324",
        "100000000000000000000.0", "\"\"", "\"abc\"", "\"ä€😀\"", "\"a\\nb\"", "\"\\r\\t\\b\\f\"", "\"\\\\\"", "\"\\\"\"",
        "\"\\/\"", "\"\\u{41}\"", "\"\\u{1F600}\"", "\"\\u{0}\"", "\"\\u{7f}\\u{200b}\"", "\"\\0\"", "\"a\\ \\\n  b\"", "\"line\nbreak\"", "\"tab\there\"",
        "\"\u{301}\"", "\"'\"", "\"/// no comment\"", "\"é\\u{301}\"",
        "[1]", "[0, 255]", "[1,2,3,]", "[ 7 , 8 ]", "[\n1,\n2\n]",
    ]
    .map(String::from)
    .to_vec();
    for c in ["\u{1}", "\u{b}", "\u{1b}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}"] {
        v.push(format!("\"x{c}y\""));
    }
    v
}

fn attributes() -> Vec<&'static str> {
    vec![
        "#[a]\n", "#[a, b_1]\n", "#[ a , b, ]\n", "#[a = 1]\n", "#[a=\"x\"]\n", "#[a = true, b = 1.5, c = [1, 2]]\n",
        "#[a(b)]\n", "#[a(b = 2, c(d, e = \"f\"))]\n", "#[deprecated = \"gone\\n\"]\n#[validate(min = -1, )]\n", "#[a(\n b\n)]\n",
    ]
}
const COMMENTS: [&str; 7] = ["/// one\n", "/// one\n/// two\n", "///\n", "///x \n", "///  wide \t\n", "/// ä€😀 <b>&\n", "//// four\n"];

/// One-definition texts, without comments and attributes.
pub fn definitions(types_at: &[String]) -> Vec<String> {
    let mut v = vec![];
    for t in types_at {
        v.push(format!("struct Sample({t} @1)"));
        v.push(format!("struct Sample {{\n    value: {t} @1,\n}}"));
        v.push(format!("enum Sample {{\n    One({t} @1) @1,\n}}"));
        v.push(format!("type Sample = {t};"));
        v.push(format!("const SAMPLE: {t} = 1;"));
    }
    for l in literals() {
        v.push(format!("const SAMPLE: u8 = {l};"));
    }
    v.extend(
        [
            "struct Sample\n", "struct Sample", "struct S9x", "struct S ( u8 )", "struct S(u8,u16 , bool @3,)", "struct S(\n  u8 @1,\n u16\n)",
            "struct S{a:u8}", "struct S { a: u8, b_2 : u16@4 , c:bool @ 5 }", "struct S { a: u8, b_2 : u16@4 , c:bool\t@5, }",
            "struct S<T>(T @1)", "struct S<T, U9,>{a:T,b:U9}", "struct S<\nT\n>\n", "struct S<T> { a: hash_map<T, vec<T>> @4294967295 }",
            "struct S {\n    /// about a\n    a: u8 @1,\n    /// about b\n    /// more b\n    b: u8 @2,\n}",
            "struct S { /// x\n a: u8, ///\n b: u8 /// y\n, }",
            "enum E { A }", "enum E{A,B@2,C(u8),D{x:u8},}", "enum E {\n    A @1,\n    B(u8 @1, u16) @2,\n    C {\n        a: u8 @1,\n    } @3,\n}",
            "enum E<T,U>{A(T),B{u:U}@7}", "enum E {\n    /// first\n    A,\n    /// second\n    /// more\n    B(u8),\n    C {\n        /// inner\n        x: u8,\n    },\n}",
            "enum E { A (u8) @1 , B { x: u8 } @2 , C @3 }",
            "type A = u8;", "type A<T> = vec<T>;", "type A<T,>=T;", "type A =\tb::C<u8> ;",
            "use a;", "use a::b;", "use a::b::C;", "use a1::b_2::C3d;", "use self_x::Y;",
            "mod a {}", "mod a {\n    struct B(u8 @1)\n}", "mod a_1{mod b{enum C{D}}}", "mod a { use b::C; const D: u8 = 1; type E = u8; }",
            "mod a {\n    /// doc\n    struct B { x: u8 }\n\n    /// doc2\n    const C: u8 = 1;\n\n    /// doc3\n    type D = u8;\n    /// doc4\n    mod e {\n    }\n}",
            "mod a {\n    #[x]\n    struct B\n    #[y]\n    enum C { D }\n}",
            "const A: string = \"x\";", "const A_1:u8=1;", "const A:u8\t=\t1;",
        ]
        .map(String::from),
    );
    v
}

/// Complete sentences.
pub fn sentences(th: bool) -> Vec<String> {
    let mut v = definitions(&types(if th { 2 } else { 1 }));
    let small = ["struct S(u8)", "enum E { A }", "const C: u8 = 1;", "type A = u8;", "use a::B;", "mod m { struct T(u8) }", "struct U\n"];
    for d in small {
        for c in COMMENTS {
            v.push(format!("{c}{d}\n"));
            v.push(format!("{c}\n{d}\n"));
            v.push(format!("\n \t{c}\n{c}{d}\n"));
            v.push(format!("/// schema\n\n{c}{d}"));
            v.push(format!("mod o {{\n    {c}    {d}\n}}\n"));
            v.push(format!("mod o {{\n    {c}\n    {d}\n}}\n"));
        }
        for a in attributes() {
            v.push(format!("{a}{d}\n"));
            v.push(format!("/// doc\n{a}{d}\n"));
            v.push(format!("{a}/// doc\n{d}\n"));
            v.push(format!("mod o {{\n{a}{d}\n}}\n"));
        }
        for e in small {
            for sep in ["\n", "\n\n", " ", "", "\n/// doc\n", "\n#[a]\n", "\n/// d\n\n#[b]\n  "] {
                v.push(format!("{d}{sep}{e}\n"));
            }
        }
    }
    for c in COMMENTS {
        v.push(format!("struct S {{\n    {c}    a: u8,\n    {c}    b: u8 @9\n}}"));
        v.push(format!("enum S {{\n    {c}    A,\n    {c}    B {{\n        {c}        x: u8 }}\n}}"));
        v.push(c.to_string());
        v.push(format!("{c}\n"));
    }
    v.extend(["", "\n", " \t\r\n", "/// only\n", "/// only\n\n", "/// only"].map(String::from));
    v
}

const CHARS: [char; 26] = [
    ' ', '\n', '\t', '\r', '/', '#', '@', '0', '9', '<', '>', ',', ';', ':', '=', '(', ')', '{', '}', '[', ']', '"', '\\', 'A', 'a', 'é',
];
const TOKENS: [&str; 20] = [
    "struct", "enum", "mod ", "use ", "type ", "const ", "u8", "vec<u8>", "Ext", "a::B", "a", "@1", "/// c\n", "#[a]\n", "\"s\"", "1.5", "::", "(u8)",
    "{ a: u8 }", "<T>",
];

/// Split into words, numbers and single characters.
fn pieces(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    while i < b.len() {
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let mut j = i + 1;
        if word(b[i].1) {
            while j < b.len() && word(b[j].1) {
                j += 1;
            }
        }
        let end = b.get(j).map_or(s.len(), |x| x.0);
        v.push(&s[b[i].0..end]);
        i = j;
    }
    v
}

/// Everything one edit away.
pub fn edits(s: &str, th: bool, f: &mut impl FnMut(&str)) {
    let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    for w in idx.windows(2) {
        f(&s[..w[0]]);
        f(&format!("{}{}", &s[..w[0]], &s[w[1]..]));
        let one = &s[w[0]..w[1]];
        f(&format!("{}{one}{}", &s[..w[0]], &s[w[0]..]));
        for c in CHARS {
            f(&format!("{}{c}{}", &s[..w[0]], &s[w[0]..]));
            if th {
                f(&format!("{}{c}{}", &s[..w[0]], &s[w[1]..]));
            }
        }
    }
    let p = pieces(s);
    for i in 0..p.len() {
        let (a, b) = (p[..i].concat(), p[i + 1..].concat());
        f(&format!("{a}{b}"));
        f(&format!("{a}{}{}{b}", p[i], p[i]));
        if i + 1 < p.len() {
            f(&format!("{a}{}{}{}", p[i + 1], p[i], p[i + 2..].concat()));
        }
        for t in TOKENS {
            f(&format!("{a}{t}{b}"));
        }
    }
}

/// All token strings in a context.
pub struct Context {
    pub pre: &'static str,
    pub post: &'static str,
    pub alphabet: &'static [&'static str],
    pub depth: (usize, usize),
}
pub const CONTEXTS: &[Context] = &[
    Context { pre: "", post: "", alphabet: &["/// c\n", "\n", "#[a]\n", "struct A", "mod b {", "}", "use c;", " ", "type D = u8;", "enum E {F}", "("], depth: (5, 6) },
    Context { pre: "struct A(", post: ")\n", alphabet: &["u8", "vec", "hash_map", "<", ">", ",", "(", ")", "[", ";", "3", "]", "Ext", "a::", " ", "@1"], depth: (4, 5) },
    Context { pre: "struct A", post: "\n", alphabet: &["<", "T", ">", ",", "(", ")", "{", "}", "a", ":", "u8", " ", "@1", "\n", "/// c\n"], depth: (4, 5) },
    Context { pre: "struct A {", post: "}\n", alphabet: &["a", ":", "u8", " ", "@1", ",", "\n", "/// c\n", "b: u8", "}", "é"], depth: (5, 6) },
    Context { pre: "enum A {", post: "}\n", alphabet: &["A", "B", "(u8)", "{ a: u8 }", "@1", ",", " ", "\n", "/// c\n", "x", "}"], depth: (5, 6) },
    Context { pre: "#[", post: "]\nstruct A", alphabet: &["a", "b", "=", "1", ",", "(", ")", " ", "\"s\"", "]", "\n", "#["], depth: (4, 5) },
    Context { pre: "const A: u8 = ", post: ";\n", alphabet: &["1", ".", "e", "-", "+", "0", "true", "[", "]", ",", " ", "999999999999999999999999999999999999999"], depth: (5, 6) },
    Context { pre: "const A: string = \"", post: "\";\n", alphabet: &["\\", "n", "0", "u", "{", "}", "41", "D800", "110000", "\"", " ", "\n", "é", "b", "\u{0}"], depth: (4, 5) },
    Context { pre: "use ", post: "", alphabet: &["a", "::", "B", ";", " ", "_", "1", ":", "self"], depth: (5, 7) },
    Context { pre: "type A", post: "", alphabet: &["=", "u8", ";", " ", "<T>", "B", "\t", "\n", "<", "vec<"], depth: (5, 6) },
    Context { pre: "const ", post: "", alphabet: &["A", ":", "u8", "=", "1", ";", " ", "_", "a", "\n"], depth: (6, 7) },
    Context { pre: "mod a ", post: "", alphabet: &["{", "}", "struct B", " ", "\n", "/// c\n", "#[a]\n", "mod b", "use c;"], depth: (5, 7) },
];
impl Context {
    /// All strings of `n` tokens that start with token `first`.
    pub fn strings(&self, first: usize, n: usize, f: &mut impl FnMut(&str)) {
        let mut idx = vec![0; n];
        idx[0] = first;
        loop {
            let mut s = String::from(self.pre);
            idx.iter().for_each(|i| s.push_str(self.alphabet[*i]));
            s.push_str(self.post);
            f(&s);
            let mut k = n;
            loop {
                if k <= 1 {
                    return;
                }
                k -= 1;
                idx[k] += 1;
                if idx[k] < self.alphabet.len() {
                    break;
                }
                idx[k] = 0;
            }
        }
    }
}

fn numbers() -> Vec<String> {
    let mut v: BTreeSet<String> = BTreeSet::new();
    let mut p2 = num("1");
    let mut p10 = num("1");
    for _ in 0..=131 {
        for d in [-1i8, 0, 1] {
            v.insert(show(&step(&p2, d)));
            v.insert(show(&step(&p10, d)));
        }
        p2 = double(&p2);
        p10.insert(0, 0);
        if p10.len() > 42 {
            p10 = num("1");
        }
    }
    v.into_iter().collect()
}
// decimal numbers of any size, least significant digit first
fn num(s: &str) -> Vec<u8> {
    s.bytes().rev().map(|b| b - b'0').collect()
}
fn show(v: &[u8]) -> String {
    let s: String = v.iter().rev().map(|d| (d + b'0') as char).collect();
    let t = s.trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}
fn double(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut c = 0;
    for d in v {
        let x = d * 2 + c;
        o.push(x % 10);
        c = x / 10;
    }
    if c > 0 {
        o.push(c);
    }
    o
}
fn step(v: &[u8], by: i8) -> Vec<u8> {
    let mut o = v.to_vec();
    let mut i = 0;
    match by {
        1 => loop {
            if i == o.len() {
                o.push(0);
            }
            if o[i] < 9 {
                o[i] += 1;
                return o;
            }
            o[i] = 0;
            i += 1;
        },
        -1 => loop {
            if o[i] > 0 {
                o[i] -= 1;
                return o;
            }
            o[i] = 9;
            i += 1;
        },
        _ => o,
    }
}

/// Complete families of literals, names, numbers and characters at the places they can stand at.
pub fn families(th: bool) -> Vec<String> {
    let mut v = vec![];
    let mut lit: Vec<String> = vec![];
    // unicode escapes: every length, every digit, all borders
    for c in ["0", "1", "7", "9", "a", "f", "A", "D", "F", "g", "G", " ", "-", "+", "_"] {
        for n in 0..=8 {
            for fill in ["0", "1", "f", "F"] {
                lit.push(format!("\"\\u{{{c}{}}}\"", fill.repeat(n)));
                lit.push(format!("\"\\u{{{}{c}}}\"", fill.repeat(n)));
            }
        }
    }
    for x in [0u32, 7, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0xffffff] {
        for w in 0..=7 {
            lit.push(format!("\"\\u{{{x:0w$x}}}\""));
            lit.push(format!("\"a\\u{{{x:0w$X}}}b\""));
        }
    }
    // every character raw and escaped
    let chars = (0u32..0x300).chain([0x7ff, 0x800, 0x2000, 0x200b, 0x2028, 0x2029, 0x3000, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff]);
    for c in chars.filter_map(char::from_u32) {
        lit.push(format!("\"{c}\""));
        lit.push(format!("\"a\\{c}b\""));
        lit.push(format!("\"\\\n{c}b\""));
        v.push(format!("///{c}\nstruct A(u8)\n"));
        v.push(format!("/// a{c}b{c}\nstruct A(u8)\n"));
        v.push(format!("struct A{c}(u8)\n"));
        v.push(format!("struct A(u8){c}\n"));
        v.push(format!("struct A{{{c}a{c}:{c}u8{c}@1{c},{c}}}\n"));
        v.push(format!("mod a{{{c}use{c}b{c};{c}}}\n"));
        v.push(format!("const A{c}:{c}vec<{c}u8{c}>{c}={c}1{c};\n"));
        v.push(format!("#[{c}a{c}={c}1{c}]{c}struct A\n"));
    }
    for n in 0..=300 {
        lit.push(format!("[{n}]"));
        lit.push(format!("[0, {n} , 255]"));
    }
    for t in ["[]", "[,]", "[1,,2]", "[01]", "[000]", "[+1]", "[-1]", "[1.0]", "[1 2]", "[true]", "[0x1]", "[[1]]"] {
        lit.push(t.into());
    }
    for n in numbers() {
        for s in ["", "-", "+", "0", "-00", "--", "+-"] {
            lit.push(format!("{s}{n}"));
        }
        lit.push(format!("{n}.0"));
        lit.push(format!("0.{n}"));
        v.push(format!("struct A(u8 @{n})\n"));
        v.push(format!("enum A {{ B @{n}, C }}\n"));
        v.push(format!("enum A {{ B(u8) @{n}, C {{ a: u8 }} @{n} }}\n"));
        v.push(format!("struct A {{ a: u8 @{n}, b: u8 }}\n"));
        v.push(format!("enum A {{ C @0{n} }}\n"));
        v.push(format!("struct A([u8; {n}])\n"));
        v.push(format!("struct A([u8; 0{n}])\n"));
    }
    for e in -330i32..=310 {
        for m in if th { vec!["1.0", "-1.0", "9.9999999999999999", "0.0", "4.9", "2.5", "1.7976931348623157", "1.7976931348623159"] } else { vec!["1.0", "4.9", "1.7976931348623159"] } {
            lit.push(format!("{m}e{e}"));
        }
        lit.push(format!("+0.5E{}{e}", if e < 0 { "" } else { "+" }));
    }
    for f in ["1.", ".5", "1e5", "1.e5", "1.5e", "1.5e+", "1.5e-", "1.5e5.0", "1.5E+005", "-.5", "1_000", "1.0_0", "0x10", "0b1", "0o7", "1u8", "inf", "NaN", "infinity", "-inf", "1.0f32", "1..0", "00.50", "1.0e99999999999999999999", "1.0e-99999999999999999999"] {
        lit.push(f.into());
    }
    for w in ["true", "false", "tru", "truex", "falsey", "True", "FALSE", "t", "f", "true1", "true false", "null", "none", "&1", "&\"a\"", "(1)", "{}", "a", "A", "'a'"] {
        lit.push(w.into());
    }
    for l in lit {
        v.push(format!("const SAMPLE: u8 = {l};\n"));
        v.push(format!("#[a = {l}]\nstruct A(u8)\n"));
    }
    // names: every character at the front, in the middle and alone, in every kind of name
    let name = [
        "struct %(u8)\n", "struct %", "enum % { A }\n", "enum A { % }\n", "enum A { %(u8), B }\n", "enum A { %{ a: u8 } }\n", "struct A { %: u8 }\n",
        "struct A<%>(u8)\n", "type % = u8;\n", "type A = %;\n", "const %: u8 = 1;\n", "mod % { }\n", "use %;\n", "use a::%;\n", "use %::a;\n", "use a::%::B;\n",
        "struct A(%)\n", "struct A(%::B)\n", "struct A(a::%::B)\n", "struct A(a::%)\n", "struct A(vec<%>)\n", "struct A(B<%>)\n", "#[%]\nstruct A\n", "#[% = 1]\nstruct A\n",
        "#[a(%)]\nstruct A\n", "#[%(b)]\nstruct A\n",
    ];
    let cs: Vec<char> = (0x20u8..0x7f).map(char::from).chain(['é', 'Ä', 'ß', 'Ω', '١', '名', '\u{301}', '\u{200d}', '😀']).collect();
    for n in name {
        for c in &cs {
            for t in [format!("{c}"), format!("{c}a"), format!("{c}B"), format!("a{c}"), format!("A{c}"), format!("a{c}b"), format!("A{c}b"), format!("A{c}B")] {
                v.push(n.replace('%', &t));
            }
        }
        let words = [
            "a_", "_a", "__", "A_", "_A", "a__b", "A1", "a1", "1a", "1A", "aB", "AB", "ab", "a_b_c", "A_B_C", "AaBb", "a-b", "self", "Self", "r#a", "bool", "u8", "u88", "u", "i128", "i256",
            "f16", "f32x", "string", "strings", "bytes", "vec", "vecs", "hash_map", "hash_set", "option", "non_zero", "box", "struct", "enum", "mod", "use", "type", "const", "&string", "&u8",
            "& string", "box<string>", "box<bytes>", "box<u8>", "box< string >", "box<&string>", "vec<u8>", "vec <u8>", "vec< u8 >", "vec<>", "vec<u8, u8>", "hash_map<u8>", "hash_map<u8,u8>",
            "hash_map<u8 , u8>", "hash_map<u8,u8,>", "hash_set<u8,>", "option<u8>", "non_zero<u8>", "hash_map<,u8>", "hash_map<u8,u8,u8>", "A<>", "A<,>", "A<u8>", "A <u8>", "A<u8>>", "A<<u8>", "a<u8>", "(u8)", "()", "[u8]", "[u8;]", "[u8; -1]", "[u8; A]",
            "T::A", "::A", "A::", "a::b", "a:: B", "a ::B", "a:B", "a.B",
        ];
        for w in words {
            v.push(n.replace('%', w));
        }
        for len in [1usize, 2, 31, 63, 64, 65, 255, 256, 300] {
            v.push(n.replace('%', &"a".repeat(len)));
            v.push(n.replace('%', &"A".repeat(len)));
        }
    }
    v
}

pub enum Job {
    Sentence(String, bool),
    Tokens(usize, usize, usize),
}
/// The whole space, as jobs. Edits of a sentence are only made for a covering subset of the
/// sentences in the quick tier: the shortest sentence of every distinct structure.
pub fn jobs(th: bool) -> Vec<Job> {
    let all: BTreeSet<String> = sentences(th).into_iter().collect();
    let mut shapes = BTreeSet::new();
    let mut v = vec![];
    let mut sorted: Vec<String> = all.into_iter().collect();
    sorted.sort_by_key(|s| (s.len(), s.clone()));
    for s in sorted {
        let shape = shape(&s);
        let new = shapes.insert(shape);
        v.push(Job::Sentence(s.clone(), new || th && s.len() < 60));
    }
    let f: BTreeSet<String> = families(th).into_iter().collect();
    v.extend(f.into_iter().map(|s| Job::Sentence(s, false)));
    for n in crate::large::sizes(th) {
        v.extend(crate::large::valid(n).into_iter().map(|d| Job::Sentence(crate::sem::text(&d.1), false)));
    }
    for (c, x) in CONTEXTS.iter().enumerate() {
        let n = if th { x.depth.1 } else { x.depth.0 };
        for len in 1..=n {
            for f in 0..x.alphabet.len() {
                v.push(Job::Tokens(c, f, len));
            }
        }
    }
    v
}
/// Kind sequence of the pieces.
fn shape(s: &str) -> String {
    let mut o = String::new();
    for p in pieces(s) {
        let c = p.chars().next().unwrap();
        if matches!(p, "struct" | "enum" | "mod" | "use" | "type" | "const" | "vec" | "hash_map" | "non_zero") {
            o.push_str(p);
        } else if c.is_ascii_uppercase() {
            o.push('N');
        } else if c.is_ascii_digit() {
            o.push('0');
        } else if c.is_alphabetic() {
            o.push('n');
        } else if c == ' ' && o.ends_with(' ') {
        } else {
            o.push(c);
        }
    }
    o
}
impl Job {
    pub fn each(&self, th: bool, f: &mut impl FnMut(&str)) {
        match self {
            Job::Sentence(s, e) => {
                f(s);
                if *e {
                    edits(s, th, f);
                }
            }
            Job::Tokens(c, first, n) => CONTEXTS[*c].strings(*first, *n, f),
        }
    }
    pub fn describe(&self) -> String {
        match self {
            Job::Sentence(s, e) => format!("{s:?}{}", if *e { " and all single edits" } else { "" }),
            Job::Tokens(c, f, n) => {
                let x = &CONTEXTS[*c];
                format!("{:?} + {:?} + {} more tokens of {:?} + {:?}", x.pre, x.alphabet[*f], n - 1, x.alphabet, x.post)
            }
        }
    }
}
