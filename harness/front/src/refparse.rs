//! Reference grammar of schema files, as a recursive descent recogniser that builds a neutral tree.
//! `Back` means "this alternative does not apply here", `Cut` "the text is wrong".
use crate::tree::{g, leaf, n, Node};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum No {
    Back,
    Cut,
}
use No::{Back, Cut};
type R<T> = Result<T, No>;

pub struct P<'a> {
    s: &'a str,
    i: usize,
    /// Number of rules tried, as a measure of work.
    pub steps: u64,
    /// The last place looked at: what stands in front of it can be continued to a schema.
    pub far: std::cell::Cell<usize>,
    /// Start of comments and attributes that nothing follows.
    pub bare: Option<usize>,
    /// Definitions and attributes that end in an error, the inner ones first.
    pub inside: Vec<(&'static str, usize)>,
    /// Starts of what was no further element of a list.
    pub elements: Vec<usize>,
}
/// Where and in what a text stops being a schema.
pub struct Wrong {
    pub far: usize,
    pub bare: Option<usize>,
    pub inside: Vec<(&'static str, usize)>,
    pub elements: Vec<usize>,
}

fn cut<T>(r: R<T>) -> R<T> {
    r.map_err(|_| Cut)
}

type Sp = (usize, usize);

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.see(self.i);
        self.rest().chars().next()
    }
    fn see(&self, i: usize) {
        self.far.set(self.far.get().max(i));
    }
    fn space(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t')) {
            self.i += 1;
        }
    }
    fn space1(&mut self) -> R<()> {
        let i = self.i;
        self.space();
        if self.i > i { Ok(()) } else { Err(Back) }
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\r' | '\n')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, t: &str) -> R<Sp> {
        if self.rest().starts_with(t) {
            self.i += t.len();
            Ok((self.i - t.len(), self.i))
        } else {
            self.see(self.i + self.rest().bytes().zip(t.bytes()).take_while(|(a, b)| a == b).count());
            Err(Back)
        }
    }
    fn tok(&mut self, t: &'static str) -> R<Node> {
        self.lit(t).map(|sp| n("tok", t, sp, vec![]))
    }
    fn many(&mut self, set: impl Fn(char) -> bool) -> &'a str {
        let i = self.i;
        while let Some(c) = self.peek() {
            if !set(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        &self.s[i..self.i]
    }
    /// Try a rule; when it does not apply, continue where it started.
    fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> R<T>) -> R<Option<T>> {
        let i = self.i;
        match f(self) {
            Ok(t) => Ok(Some(t)),
            Err(Back) => {
                self.i = i;
                Ok(None)
            }
            Err(Cut) => Err(Cut),
        }
    }
    fn repeat<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        let mut v = vec![];
        while let Some(t) = self.opt(&f)? {
            v.push(t);
        }
        Ok(v)
    }
    /// `item (sep item)* sep?`; returns items and separators.
    fn list(&mut self, item: impl Fn(&mut Self) -> R<Node>) -> R<Vec<Node>> {
        let mut v = vec![item(self)?];
        loop {
            let sep = self.opt(|p| {
                p.ws();
                p.tok(",")
            })?;
            match sep {
                Some(s) => v.push(s),
                None => return Ok(v),
            }
            let from = self.i;
            match self.opt(&item)? {
                Some(x) => v.push(x),
                None => {
                    let s = &self.s[from..];
                    self.elements.push(from + s.len() - s.trim_start_matches([' ', '\t', '\n', '\r']).len());
                    return Ok(v);
                }
            }
        }
    }
    /// At least one, separated; a trailing separator is left alone.
    fn separated(&mut self, item: impl Fn(&mut Self) -> R<Node>, sep: impl Fn(&mut Self) -> R<()>) -> R<Vec<Node>> {
        let mut v = vec![item(self)?];
        while let Some(x) = self.opt(|p| {
            sep(p)?;
            item(p)
        })? {
            v.push(x);
        }
        Ok(v)
    }
    fn surround<T>(&mut self, open: &'static str, close: &'static str, f: impl FnOnce(&mut Self) -> R<T>) -> R<(Node, T, Node)> {
        let o = self.tok(open)?;
        cut((|| {
            let t = f(self)?;
            self.ws();
            let c = self.tok(close)?;
            Ok((o, t, c))
        })())
    }
    fn name(&mut self, k: &'static str, first: impl Fn(char) -> bool, rest: impl Fn(char) -> bool) -> R<Node> {
        let i = self.i;
        match self.peek() {
            Some(c) if first(c) => self.i += 1,
            _ => return Err(Back),
        }
        self.many(rest);
        Ok(n(k, &self.s[i..self.i], (i, self.i), vec![]))
    }
    fn upper(&mut self) -> R<Node> {
        self.name("name", |c| c.is_ascii_uppercase(), |c| c.is_ascii_alphanumeric())
    }
    fn lower(&mut self) -> R<Node> {
        self.name("name", |c| c.is_ascii_lowercase(), |c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_')
    }
    fn uint(&mut self, max: u128) -> R<u128> {
        let d = match self.peek() {
            Some('0') => {
                self.i += 1;
                "0"
            }
            Some(c) if c.is_ascii_digit() => self.many(|c| c.is_ascii_digit()),
            _ => return Err(Back),
        };
        match d.parse::<u128>() {
            Ok(v) if v <= max => Ok(v),
            _ => Err(Back),
        }
    }

    // ---- pieces ---------------------------------------------------------------------------------
    fn comments(&mut self) -> R<Node> {
        let v = self.repeat(|p| {
            p.space();
            let i = p.i;
            p.lit("///")?;
            p.space();
            let t = p.many(|c| c != '\n');
            // the line may end with \r\n
            let text = t.strip_suffix('\r').unwrap_or(t);
            let l = n("line", text, (i, p.i - (t.len() - text.len())), vec![]);
            p.lit("\n")?;
            Ok(l)
        })?;
        Ok(g("comment", v))
    }
    fn id(&mut self) -> R<Option<Node>> {
        self.opt(|p| {
            p.space();
            let i = p.i;
            p.lit("@")?;
            let v = p.uint(u32::MAX.into())?;
            Ok(n("id", v.to_string(), (i, p.i), vec![]))
        })
    }
    fn attributes(&mut self) -> R<Node> {
        let v = self.repeat(|p| {
            p.lit("#")?;
            p.lit("[")?;
            let v = cut((|| {
                let v = p.attr_list()?;
                p.ws();
                p.lit("]")?;
                Ok(v)
            })())?;
            p.lit("\n")?;
            Ok(v)
        })?;
        Ok(g("attributes", v.into_iter().flatten().collect()))
    }
    fn attr_list(&mut self) -> R<Vec<Node>> {
        let v = self.separated(
            |p| {
                p.ws();
                let name = p.lower()?;
                let value = p.attr_value()?;
                Ok(Node { k: "attr", t: name.t, sp: None, c: vec![value] })
            },
            |p| {
                p.ws();
                p.lit(",").map(|_| ())
            },
        )?;
        self.opt(|p| p.lit(","))?;
        Ok(v)
    }
    fn attr_value(&mut self) -> R<Node> {
        if let Some(v) = self.opt(|p| {
            p.lit("(")?;
            cut((|| {
                let v = p.attr_list()?;
                p.ws();
                p.lit(")")?;
                Ok(g("multi", v))
            })())
        })? {
            return Ok(v);
        }
        if let Some(v) = self.opt(|p| {
            p.space();
            p.lit("=")?;
            p.space();
            p.literal()
        })? {
            return Ok(g("single", vec![v]));
        }
        Ok(leaf("unit", ""))
    }
    fn literal(&mut self) -> R<Node> {
        let i = self.i;
        let (k, t) = match self.peek() {
            Some('t') => self.lit("true").map(|_| ("bool", "true".to_string()))?,
            Some('f') => self.lit("false").map(|_| ("bool", "false".to_string()))?,
            Some('+' | '-' | '0'..='9') => cut(self.number())?,
            Some('"') => ("string", self.string()?),
            Some('[') => ("bytes", self.bytes()?),
            _ => return Err(Back),
        };
        Ok(n(k, t, (i, self.i), vec![]))
    }
    fn number(&mut self) -> R<(&'static str, String)> {
        let digits = |p: &mut Self| if p.many(|c| c.is_ascii_digit()).is_empty() { Err(Back) } else { Ok(()) };
        let i = self.i;
        if let Some(f) = self.opt(|p| {
            p.opt(|p| p.lit("+").or_else(|_| p.lit("-")))?;
            digits(p)?;
            p.lit(".")?;
            digits(p)?;
            p.opt(|p| {
                p.lit("e").or_else(|_| p.lit("E"))?;
                p.opt(|p| p.lit("+").or_else(|_| p.lit("-")))?;
                cut(digits(p))
            })?;
            // A number too large for a float has no value.
            p.s[i..p.i].parse::<f64>().ok().filter(|f| f.is_finite()).ok_or(Back)
        })? {
            return Ok(("float", float_text(f)));
        }
        self.opt(|p| p.lit("+").or_else(|_| p.lit("-")))?;
        digits(self)?;
        self.s[i..self.i].parse::<i128>().map(|v| ("int", v.to_string())).map_err(|_| Back)
    }
    fn string(&mut self) -> R<String> {
        self.lit("\"")?;
        let mut o = String::new();
        loop {
            let Some(c) = self.peek() else { return Err(Cut) };
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(o),
                '\\' => {
                    let Some(e) = self.peek() else { return Err(Cut) };
                    self.i += e.len_utf8();
                    match e {
                        'n' => o.push('\n'),
                        'r' => o.push('\r'),
                        't' => o.push('\t'),
                        'b' => o.push('\u{8}'),
                        'f' => o.push('\u{c}'),
                        '\\' => o.push('\\'),
                        '0' => o.push('\0'),
                        '/' => o.push('/'),
                        '"' => o.push('"'),
                        'u' => {
                            cut(self.lit("{"))?;
                            let i = self.i;
                            while self.i - i < 6 && self.peek().is_some_and(|c| c.is_ascii_hexdigit()) {
                                self.i += 1;
                            }
                            let v = u32::from_str_radix(&self.s[i..self.i], 16).map_err(|_| Cut)?;
                            cut(self.lit("}"))?;
                            o.push(char::from_u32(v).ok_or(Cut)?);
                        }
                        ' ' | '\t' | '\r' | '\n' => self.ws(),
                        _ => return Err(Cut),
                    }
                }
                c => o.push(c),
            }
        }
    }
    fn bytes(&mut self) -> R<String> {
        self.lit("[")?;
        cut((|| {
            let v = self.separated(
                |p| {
                    p.ws();
                    p.uint(255).map(|v| leaf("", v.to_string()))
                },
                |p| {
                    p.ws();
                    p.lit(",").map(|_| ())
                },
            )?;
            self.opt(|p| {
                p.ws();
                p.lit(",")
            })?;
            self.ws();
            self.lit("]")?;
            Ok(v.iter().map(|n| n.t.as_str()).collect::<Vec<_>>().join(" "))
        })())
    }

    // ---- types ----------------------------------------------------------------------------------
    fn ty(&mut self) -> R<Node> {
        self.steps += 1;
        let i = self.i;
        let done = |p: &Self, k: &'static str, t: &str, c: Vec<Node>| n(k, t, (i, p.i), c);
        // words of the language
        let word = self.many(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '&');
        const BASIC: [&str; 17] = [
            "bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string",
            "&string", "bytes", "&bytes",
        ];
        if BASIC.contains(&word) {
            return Ok(done(self, "ty", word, vec![]));
        }
        self.i = i;
        for b in ["box<string>", "box<bytes>"] {
            if self.lit(b).is_ok() {
                return Ok(done(self, "ty", b, vec![]));
            }
        }
        let word = self.many(|c| c.is_ascii_lowercase() || c == '_');
        match word {
            "vec" | "hash_set" | "option" | "non_zero" => {
                let kw = n("kw", word, (i, self.i), vec![]);
                let (o, t, c) = cut(self.surround("<", ">", Self::ty))?;
                return Ok(done(self, "ty", word, vec![kw, o, t, c]));
            }
            "hash_map" => {
                let kw = n("kw", word, (i, self.i), vec![]);
                let (o, (a, s, b), c) = cut(self.surround("<", ">", |p| {
                    let a = p.ty()?;
                    p.space();
                    let s = p.tok(",")?;
                    p.space();
                    Ok((a, s, p.ty()?))
                }))?;
                return Ok(done(self, "ty", word, vec![kw, o, a, s, b, c]));
            }
            _ => self.i = i,
        }
        if self.peek() == Some('(') {
            let (o, l, c) = self.surround("(", ")", |p| p.list(Self::ws_ty))?;
            return Ok(done(self, "ty", "tuple", [vec![o], l, vec![c]].concat()));
        }
        if self.peek() == Some('[') {
            let (o, (t, s, z), c) = self.surround("[", "]", |p| {
                let t = p.ws_ty()?;
                p.ws();
                let s = p.tok(";")?;
                p.ws();
                let z = p.uint(u32::MAX.into())?;
                Ok((t, s, leaf("len", z.to_string())))
            })?;
            return Ok(done(self, "ty", "array", vec![o, t, s, z, c]));
        }
        let path = self.repeat(|p| {
            let s = p.lower()?;
            let c = p.tok("::")?;
            Ok(vec![s, c])
        })?;
        let name = self.name("name", |c| c.is_ascii_uppercase(), |c| c.is_ascii_alphanumeric() || c == '_')?;
        let mut c = vec![g("path", path.concat()), name];
        if self.peek() == Some('<') {
            let (o, l, e) = self.surround("<", ">", |p| p.list(Self::ws_ty))?;
            c.push(g("args", [vec![o], l, vec![e]].concat()));
        }
        Ok(done(self, "ty", "ext", c))
    }
    fn ws_ty(&mut self) -> R<Node> {
        self.ws();
        self.ty()
    }

    // ---- definitions ----------------------------------------------------------------------------
    fn generics(&mut self) -> R<Node> {
        if self.peek() != Some('<') {
            return Ok(g("generics", vec![]));
        }
        let (o, l, c) = self.surround("<", ">", |p| {
            p.list(|p| {
                p.ws();
                p.upper()
            })
        })?;
        Ok(g("generics", [vec![o], l, vec![c]].concat()))
    }
    fn fields(&mut self) -> R<Node> {
        Ok(match self.peek() {
            Some('{') => {
                let (o, l, c) = self.surround("{", "}", |p| {
                    p.list(|p| {
                        p.ws();
                        let c = p.comments()?;
                        p.space();
                        let i = p.i;
                        let name = p.lower()?;
                        p.space();
                        let colon = p.tok(":")?;
                        p.space();
                        let t = p.ty()?;
                        let id = p.id()?;
                        Ok(n("field", "", (i, p.i), [vec![c, name, colon, t], id.into_iter().collect()].concat()))
                    })
                })?;
                g("named", [vec![o], l, vec![c]].concat())
            }
            Some('(') => {
                let (o, l, c) = self.surround("(", ")", |p| {
                    p.list(|p| {
                        p.ws();
                        let i = p.i;
                        let t = p.ty()?;
                        let id = p.id()?;
                        Ok(n("field", "", (i, p.i), [vec![t], id.into_iter().collect()].concat()))
                    })
                })?;
                g("unnamed", [vec![o], l, vec![c]].concat())
            }
            _ => leaf("nofields", ""),
        })
    }
    fn keyword(&mut self, k: &'static str) -> R<Node> {
        let t = self.lit(k).map(|sp| n("kw", k, sp, vec![]))?;
        self.space1()?;
        Ok(t)
    }
    fn definition(&mut self) -> R<Node> {
        self.ws();
        if matches!(self.peek(), Some('/' | '#')) {
            self.bare = Some(self.i);
        }
        let comment = self.comments()?;
        self.ws();
        let at = self.i;
        let attrs = self.attributes().inspect_err(|_| self.inside.push(("attr", at)))?;
        self.space();
        let at = self.i;
        let mut c = vec![comment, attrs];
        let k = match self.peek() {
            Some('m') => {
                c.push(self.keyword("mod")?);
                cut((|| {
                    c.push(self.lower()?);
                    self.space();
                    let (o, l, e) = self.surround("{", "}", |p| {
                        p.repeat(|p| {
                            p.ws();
                            p.definition()
                        })
                    })?;
                    c.extend([o, g("defs", l), e]);
                    Ok("mod")
                })())
                .inspect_err(|_| self.inside.push(("mod", at)))?
            }
            Some('s') => {
                c.push(self.keyword("struct")?);
                cut((|| {
                    c.push(self.upper()?);
                    c.push(self.generics()?);
                    self.space();
                    c.push(self.fields()?);
                    Ok("struct")
                })())
                .inspect_err(|_| self.inside.push(("struct", at)))?
            }
            Some('e') => {
                c.push(self.keyword("enum")?);
                cut((|| {
                    c.push(self.upper()?);
                    c.push(self.generics()?);
                    self.space();
                    let (o, l, e) = self.surround("{", "}", |p| {
                        p.list(|p| {
                            p.ws();
                            let cm = p.comments()?;
                            p.space();
                            let i = p.i;
                            let name = p.upper()?;
                            p.space();
                            let f = p.fields()?;
                            let id = p.id()?;
                            Ok(n("variant", "", (i, p.i), [vec![cm, name, f], id.into_iter().collect()].concat()))
                        })
                    })?;
                    c.push(g("variants", [vec![o], l, vec![e]].concat()));
                    Ok("enum")
                })())
                .inspect_err(|_| self.inside.push(("enum", at)))?
            }
            Some('c') => {
                c.push(self.keyword("const")?);
                cut((|| {
                    c.push(self.name(
                        "name",
                        |c| c.is_ascii_uppercase(),
                        |c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_',
                    )?);
                    c.push(self.tok(":")?);
                    self.space();
                    c.push(self.ty()?);
                    self.space();
                    c.push(self.tok("=")?);
                    self.space();
                    c.push(self.literal()?);
                    c.push(self.tok(";")?);
                    Ok("const")
                })())
                .inspect_err(|_| self.inside.push(("const", at)))?
            }
            Some('t') => {
                c.push(self.keyword("type")?);
                cut((|| {
                    c.push(self.upper()?);
                    c.push(self.generics()?);
                    self.space();
                    c.push(self.tok("=")?);
                    self.space();
                    c.push(self.ty()?);
                    self.space();
                    c.push(self.tok(";")?);
                    Ok("alias")
                })())
                .inspect_err(|_| self.inside.push(("alias", at)))?
            }
            Some('u') => {
                c.push(self.keyword("use")?);
                cut((|| {
                    let i = self.i;
                    let segs = self.separated(Self::lower, |p| p.lit("::").map(|_| ()))?;
                    let el = self.opt(|p| {
                        let s = p.tok("::")?;
                        Ok(vec![s, p.upper()?])
                    })?;
                    c.push(n("full", &self.s[i..self.i], (i, self.i), vec![]));
                    c.push(g("segments", segs));
                    c.push(g("element", el.unwrap_or_default()));
                    c.push(self.tok(";")?);
                    Ok("import")
                })())
                .inspect_err(|_| self.inside.push(("import", at)))?
            }
            _ => return Err(Back),
        };
        Ok(g(k, c))
    }
}

pub fn float_text(f: f64) -> String {
    format!("{:016x}", f.to_bits())
}

pub fn parse(s: &str) -> (Option<Node>, u64) {
    let (r, steps, _) = parse_far(s);
    (r, steps)
}
/// Also returns the last place that was looked at.
pub fn parse_far(s: &str) -> (Option<Node>, u64, Wrong) {
    let mut p = P { s, i: 0, steps: 0, far: 0.into(), bare: None, inside: vec![], elements: vec![] };
    let mut go = || -> R<Node> {
        let comment = p.opt(|p| {
            p.ws();
            let c = p.comments()?;
            p.lit("\n").or_else(|_| p.lit("\r\n"))?;
            Ok(c)
        })?;
        let defs = p.repeat(P::definition)?;
        p.ws();
        if p.i < s.len() {
            return Err(Back);
        }
        Ok(g("schema", vec![comment.unwrap_or_else(|| g("comment", vec![])), g("defs", defs)]))
    };
    let r = go().ok();
    (r, p.steps, Wrong { far: p.far.get(), bare: p.bare, inside: p.inside, elements: p.elements })
}
