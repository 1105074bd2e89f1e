//! Values. Byte arrays and strings' bytes are lists of unsigned values; floats are bit patterns.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Bool(bool),
    U(u128),
    I(i128),
    F32(u32),
    F64(u64),
    Str(String),
    /// vec, bytes, array, tuple
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Set(Vec<Val>),
    Opt(Option<Box<Val>>),
    Struct(Vec<Val>),
    /// index of the variant, its fields
    Enum(usize, Vec<Val>),
}

impl Val {
    /// Sort maps and sets and drop duplicate keys (last one wins), recursively.
    pub fn canon(&self) -> Val {
        match self {
            Val::List(v) => Val::List(v.iter().map(Val::canon).collect()),
            Val::Set(v) => {
                let s: std::collections::BTreeSet<_> = v.iter().map(Val::canon).collect();
                Val::Set(s.into_iter().collect())
            }
            Val::Map(v) => {
                let m: std::collections::BTreeMap<_, _> =
                    v.iter().map(|(k, v)| (k.canon(), v.canon())).collect();
                Val::Map(m.into_iter().collect())
            }
            Val::Opt(v) => Val::Opt(v.as_ref().map(|v| Box::new(v.canon()))),
            Val::Struct(v) => Val::Struct(v.iter().map(Val::canon).collect()),
            Val::Enum(i, v) => Val::Enum(*i, v.iter().map(Val::canon).collect()),
            v => v.clone(),
        }
    }
    pub fn bytes(b: &[u8]) -> Val {
        Val::List(b.iter().map(|b| Val::U(*b as u128)).collect())
    }
    pub fn some(v: Val) -> Val {
        Val::Opt(Some(Box::new(v)))
    }
    pub fn none() -> Val {
        Val::Opt(None)
    }
    pub fn short(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 400 {
            let mut n = 400;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            format!("{}…", &s[..n])
        } else {
            s
        }
    }
}
