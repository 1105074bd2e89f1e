//! Neutral syntax tree: what a schema says, independent of the types of the parser under test.
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Node {
    pub k: &'static str,
    pub t: String,
    pub sp: Option<(usize, usize)>,
    pub c: Vec<Node>,
}
pub fn n(k: &'static str, t: impl Into<String>, sp: (usize, usize), c: Vec<Node>) -> Node {
    Node { k, t: t.into(), sp: Some(sp), c }
}
pub fn g(k: &'static str, c: Vec<Node>) -> Node {
    Node { k, t: String::new(), sp: None, c }
}
pub fn leaf(k: &'static str, t: impl Into<String>) -> Node {
    Node { k, t: t.into(), sp: None, c: vec![] }
}

impl Node {
    pub fn show(&self) -> String {
        fn go(n: &Node, o: &mut String) {
            write!(o, "({}", n.k).unwrap();
            if !n.t.is_empty() {
                write!(o, " {:?}", n.t).unwrap();
            }
            if let Some((a, b)) = n.sp {
                write!(o, " {a}..{b}").unwrap();
            }
            for c in &n.c {
                o.push(' ');
                go(c, o);
            }
            o.push(')');
        }
        let mut o = String::new();
        go(self, &mut o);
        o
    }
    /// Without locations and punctuation: the meaning.
    pub fn bare(&self) -> Node {
        Node {
            k: self.k,
            t: self.t.clone(),
            sp: None,
            c: self.c.iter().filter(|c| c.k != "tok").map(Node::bare).collect(),
        }
    }
    /// Shrink spans so that they neither start nor end in whitespace.
    pub fn trimmed(mut self, src: &str) -> Node {
        self.trim(src);
        self
    }
    fn trim(&mut self, src: &str) {
        if self.k != "line" {
            if let Some((a, b)) = &mut self.sp {
                if let Some(s) = src.get(*a..*b) {
                    let l = s.len() - s.trim_start_matches([' ', '\t', '\r', '\n']).len();
                    let r = s.len() - s.trim_end_matches([' ', '\t', '\r', '\n']).len();
                    if l < s.len() {
                        *a += l;
                        *b -= r;
                    }
                }
            }
        }
        for c in &mut self.c {
            c.trim(src);
        }
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a Node)) {
        f(self);
        for c in &self.c {
            c.walk(f);
        }
    }
}
pub fn first_diff(a: &Node, b: &Node) -> String {
    if a.k != b.k || a.t != b.t || a.sp != b.sp || a.c.len() != b.c.len() {
        return format!("{} <> {}", a.show(), b.show());
    }
    for (x, y) in a.c.iter().zip(&b.c) {
        if x != y {
            return first_diff(x, y);
        }
    }
    String::new()
}
