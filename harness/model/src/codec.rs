//! Reference wire-format codec, written from the format documentation.
//!
//! `Quirks` switches on the exact misbehaviour of a recorded known finding so that a check can
//! predict it; with every quirk off this is the intended format.
use crate::ty::{Body, Def, Env, Field, Fields, Kind, Ty};
use crate::val::Val;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Quirks {
    /// Generated size of a field that is a tuple omits the tuple's length prefix.
    pub tuple_size: bool,
}

pub const NONE: Quirks = Quirks { tuple_size: false };
pub const TUPLE: Quirks = Quirks { tuple_size: true };

pub fn put_varint(mut v: u128, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn varint_len(v: u128) -> usize {
    let mut o = vec![];
    put_varint(v, &mut o);
    o.len()
}
/// Zigzag mapping, defined arithmetically.
pub fn zigzag(v: i128) -> u128 {
    if v >= 0 {
        (v as u128) << 1
    } else {
        (!(v as u128)) << 1 | 1
    }
}
pub fn unzigzag(v: u128) -> i128 {
    if v & 1 == 0 {
        (v >> 1) as i128
    } else {
        !((v >> 1) as i128)
    }
}
pub fn max_varint(bits: u32) -> usize {
    bits.div_ceil(7) as usize
}

/// Skip class of a field.
pub fn class(t: &Ty) -> u8 {
    match t {
        Ty::Bool | Ty::U(8) | Ty::I(8) => 2,
        Ty::U(_) | Ty::I(_) => 0,
        Ty::F32 => 3,
        Ty::F64 => 4,
        Ty::NonZero(t) => class(t),
        _ => 1,
    }
}
/// Type inside the field's option, if it is optional.
pub fn field_inner(f: &Field) -> (&Ty, bool) {
    match &f.ty {
        Ty::Opt(t) => (t, true),
        t => (t, false),
    }
}

pub struct Ctx<'a> {
    pub env: &'a Env,
    pub q: Quirks,
}

impl<'a> Ctx<'a> {
    fn ext(&self, t: &Ty) -> (&'a Def, Vec<Ty>) {
        let Ty::Ext(n, g) = t else { panic!() };
        (self.env.get(n), g.clone())
    }

    // ---- size -------------------------------------------------------------------------------
    pub fn size(&self, t: &Ty, v: &Val) -> usize {
        let sum = |it: &mut dyn Iterator<Item = usize>| {
            let n: usize = it.sum();
            varint_len(n as u128) + n
        };
        match (t, v) {
            (Ty::Bool | Ty::U(8) | Ty::I(8), _) => 1,
            (Ty::U(_), Val::U(x)) => varint_len(*x),
            (Ty::I(_), Val::I(x)) => varint_len(zigzag(*x)),
            (Ty::F32, _) => 4,
            (Ty::F64, _) => 8,
            (Ty::Str | Ty::StrRef | Ty::BoxStr, Val::Str(s)) => {
                varint_len(s.len() as u128) + s.len()
            }
            (Ty::Bytes | Ty::BytesRef | Ty::BoxBytes, Val::List(b)) => {
                varint_len(b.len() as u128) + b.len()
            }
            (Ty::Vec(t) | Ty::Array(t, _), Val::List(l)) => {
                sum(&mut l.iter().map(|v| self.size(t, v)))
            }
            (Ty::Set(t), Val::Set(l)) => sum(&mut l.iter().map(|v| self.size(t, v))),
            (Ty::Map(k, w), Val::Map(m)) => {
                sum(&mut m.iter().map(|(a, b)| self.size(k, a) + self.size(w, b)))
            }
            (Ty::Opt(_), Val::Opt(None)) => 1,
            (Ty::Opt(t), Val::Opt(Some(v))) => 1 + self.size(t, v),
            (Ty::NonZero(t), v) => self.size(t, v),
            (Ty::Tuple(ts), Val::List(l)) => {
                ts.iter().zip(l).map(|(t, v)| self.size(t, v)).sum()
            }
            (Ty::Ext(..), v) => {
                let (d, g) = self.ext(t);
                match (&d.body, v) {
                    (Body::Alias(t), v) => self.size(&t.subst(&d.generics, &g), v),
                    (Body::Struct(f), Val::Struct(vs)) => self.size_fields(d, &g, f, vs),
                    (Body::Enum(vars), Val::Enum(i, vs)) => {
                        varint_len(vars[*i].id as u128)
                            + self.size_fields(d, &g, &vars[*i].fields, vs)
                    }
                    (b, v) => panic!("size {b:?} {v:?}"),
                }
            }
            (t, v) => panic!("size {t:?} {v:?}"),
        }
    }
    fn size_fields(&self, d: &Def, g: &[Ty], f: &Fields, vs: &[Val]) -> usize {
        if f.kind == Kind::Unit {
            return 0;
        }
        let mut n = 1;
        for (f, v) in f.list.iter().zip(vs) {
            let (inner, optional) = field_inner(f);
            let v = match (optional, v) {
                (true, Val::Opt(None)) => continue,
                (true, Val::Opt(Some(v))) => v,
                (_, v) => v,
            };
            n += varint_len((f.id as u128) << 3);
            let s = self.size(&inner.subst(&d.generics, g), v);
            if matches!(inner, Ty::Tuple(_)) && !self.q.tuple_size {
                n += varint_len(s as u128);
            }
            n += s;
        }
        n
    }

    // ---- encode -----------------------------------------------------------------------------
    pub fn encode(&self, t: &Ty, v: &Val, out: &mut Vec<u8>) {
        match (t, v) {
            (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
            (Ty::U(8), Val::U(x)) => out.push(*x as u8),
            (Ty::I(8), Val::I(x)) => out.push(*x as i8 as u8),
            (Ty::U(_), Val::U(x)) => put_varint(*x, out),
            (Ty::I(_), Val::I(x)) => put_varint(zigzag(*x), out),
            (Ty::F32, Val::F32(x)) => out.extend(x.to_be_bytes()),
            (Ty::F64, Val::F64(x)) => out.extend(x.to_be_bytes()),
            (Ty::Str | Ty::StrRef | Ty::BoxStr, Val::Str(s)) => {
                put_varint(s.len() as u128, out);
                out.extend(s.as_bytes());
            }
            (Ty::Bytes | Ty::BytesRef | Ty::BoxBytes, Val::List(b)) => {
                put_varint(b.len() as u128, out);
                for b in b {
                    let Val::U(b) = b else { panic!() };
                    out.push(*b as u8);
                }
            }
            (Ty::Vec(t) | Ty::Array(t, _), Val::List(l)) => {
                put_varint(l.iter().map(|v| self.size(t, v)).sum::<usize>() as u128, out);
                l.iter().for_each(|v| self.encode(t, v, out));
            }
            (Ty::Set(t), Val::Set(l)) => {
                put_varint(l.iter().map(|v| self.size(t, v)).sum::<usize>() as u128, out);
                l.iter().for_each(|v| self.encode(t, v, out));
            }
            (Ty::Map(k, w), Val::Map(m)) => {
                let n: usize = m.iter().map(|(a, b)| self.size(k, a) + self.size(w, b)).sum();
                put_varint(n as u128, out);
                for (a, b) in m {
                    self.encode(k, a, out);
                    self.encode(w, b, out);
                }
            }
            (Ty::Opt(_), Val::Opt(None)) => out.push(0),
            (Ty::Opt(t), Val::Opt(Some(v))) => {
                out.push(1);
                self.encode(t, v, out);
            }
            (Ty::NonZero(t), v) => self.encode(t, v, out),
            (Ty::Tuple(ts), Val::List(l)) => {
                ts.iter().zip(l).for_each(|(t, v)| self.encode(t, v, out));
            }
            (Ty::Ext(..), v) => {
                let (d, g) = self.ext(t);
                match (&d.body, v) {
                    (Body::Alias(t), v) => self.encode(&t.subst(&d.generics, &g), v, out),
                    (Body::Struct(f), Val::Struct(vs)) => {
                        let order: Vec<usize> = (0..vs.len()).collect();
                        self.encode_fields(d, &g, f, vs, &order, out);
                    }
                    (Body::Enum(vars), Val::Enum(i, vs)) => {
                        put_varint(vars[*i].id as u128, out);
                        let order: Vec<usize> = (0..vs.len()).collect();
                        self.encode_fields(d, &g, &vars[*i].fields, vs, &order, out);
                    }
                    (b, v) => panic!("encode {b:?} {v:?}"),
                }
            }
            (t, v) => panic!("encode {t:?} {v:?}"),
        }
    }
    /// Encode one present field: key and payload.
    pub fn encode_field(&self, d: &Def, g: &[Ty], f: &Field, v: &Val, out: &mut Vec<u8>) {
        let (inner, optional) = field_inner(f);
        let v = match (optional, v) {
            (true, Val::Opt(None)) => return,
            (true, Val::Opt(Some(v))) => v,
            (_, v) => v,
        };
        put_varint((f.id as u128) << 3 | class(inner) as u128, out);
        let t = inner.subst(&d.generics, g);
        if matches!(inner, Ty::Tuple(_)) {
            put_varint(self.size(&t, v) as u128, out);
        }
        self.encode(&t, v, out);
    }
    /// Fields in the given order (may repeat or omit), then the end marker.
    pub fn encode_fields(
        &self,
        d: &Def,
        g: &[Ty],
        f: &Fields,
        vs: &[Val],
        order: &[usize],
        out: &mut Vec<u8>,
    ) {
        if f.kind == Kind::Unit {
            return;
        }
        for &i in order {
            self.encode_field(d, g, &f.list[i], &vs[i], out);
        }
        out.push(0);
    }
    pub fn to_bytes(&self, t: &Ty, v: &Val) -> Vec<u8> {
        let mut o = vec![];
        self.encode(t, v, &mut o);
        o
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecErr {
    /// Input ended too early (or a varint has no end).
    Short,
    Utf8,
    Missing(u32, Option<String>),
    Variant(u32),
    Encoding,
    Zero,
}

/// Decoder over a slice. `loose` is set when the input uses a form whose meaning the format does
/// not define (non-canonical flags, out-of-range varints, wrong skip class, ...).
pub struct Dec<'a> {
    pub env: &'a Env,
    pub buf: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub loose: bool,
    /// Elements produced so far, to bound work.
    pub steps: usize,
}

type R<T> = Result<T, DecErr>;

impl<'a> Dec<'a> {
    pub fn new(env: &'a Env, buf: &'a [u8]) -> Self {
        Dec { env, buf, pos: 0, end: buf.len(), loose: false, steps: 0 }
    }
    fn rest(&self) -> usize {
        self.end - self.pos
    }
    fn byte(&mut self) -> R<u8> {
        if self.rest() == 0 {
            return Err(DecErr::Short);
        }
        self.pos += 1;
        Ok(self.buf[self.pos - 1])
    }
    fn take(&mut self, n: u64) -> R<&'a [u8]> {
        if (self.rest() as u64) < n {
            return Err(DecErr::Short);
        }
        self.pos += n as usize;
        Ok(&self.buf[self.pos - n as usize..self.pos])
    }
    pub fn varint(&mut self, bits: u32) -> R<u128> {
        let mut v: u128 = 0;
        let max = max_varint(bits);
        for i in 0..max {
            let b = match self.byte() {
                Ok(b) => b,
                Err(e) => return Err(e),
            };
            let g = (b & 0x7f) as u128;
            let sh = 7 * i as u32;
            let fits = if sh + 7 <= bits { true } else { g >> (bits - sh) == 0 };
            if !fits {
                self.loose = true;
            }
            if i > 0 && b == 0 {
                self.loose = true; // not the shortest form
            }
            v |= if sh + 7 <= 128 { g << sh } else { (g & ((1 << (128 - sh)) - 1)) << sh };
            if b & 0x80 == 0 {
                let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
                return Ok(v & mask);
            }
        }
        Err(DecErr::Short)
    }
    fn utf8(&mut self, b: &[u8]) -> R<Val> {
        match std::str::from_utf8(b) {
            Ok(s) => Ok(Val::Str(s.to_string())),
            Err(_) => Err(DecErr::Utf8),
        }
    }
    /// Decode elements until the byte-length-delimited region is exhausted.
    fn region<T>(&mut self, len: u64, mut f: impl FnMut(&mut Self) -> R<T>) -> R<Vec<T>> {
        if (self.rest() as u64) < len {
            return Err(DecErr::Short);
        }
        let outer = self.end;
        self.end = self.pos + len as usize;
        let mut out = vec![];
        while self.rest() > 0 {
            let before = self.pos;
            out.push(f(self)?);
            self.steps += 1;
            if self.pos == before {
                // Elements that take no space cannot fill a non-empty region.
                return Err(DecErr::Short);
            }
        }
        self.end = outer;
        Ok(out)
    }
    pub fn decode(&mut self, t: &Ty) -> R<Val> {
        Ok(match t {
            Ty::Bool => {
                let b = self.byte()?;
                if b > 1 {
                    self.loose = true;
                }
                Val::Bool(b != 0)
            }
            Ty::U(8) => Val::U(self.byte()? as u128),
            Ty::I(8) => Val::I(self.byte()? as i8 as i128),
            Ty::U(n) => Val::U(self.varint(*n)?),
            Ty::I(n) => Val::I(unzigzag(self.varint(*n)?)),
            Ty::F32 => Val::F32(u32::from_be_bytes(self.take(4)?.try_into().unwrap())),
            Ty::F64 => Val::F64(u64::from_be_bytes(self.take(8)?.try_into().unwrap())),
            Ty::Str | Ty::StrRef | Ty::BoxStr => {
                let n = self.varint(64)? as u64;
                let b = self.take(n)?;
                self.utf8(b)?
            }
            Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => {
                let n = self.varint(64)? as u64;
                Val::bytes(self.take(n)?)
            }
            Ty::Vec(t) => {
                let n = self.varint(64)? as u64;
                Val::List(self.region(n, |d| d.decode(t))?)
            }
            Ty::Set(t) => {
                let n = self.varint(64)? as u64;
                Val::Set(self.region(n, |d| d.decode(t))?)
            }
            Ty::Map(k, v) => {
                let n = self.varint(64)? as u64;
                Val::Map(self.region(n, |d| Ok((d.decode(k)?, d.decode(v)?)))?)
            }
            Ty::Array(t, n) => {
                let len = self.varint(64)? as u64;
                if (self.rest() as u64) < len {
                    return Err(DecErr::Short);
                }
                let outer = self.end;
                self.end = self.pos + len as usize;
                let mut out = vec![];
                for _ in 0..*n {
                    out.push(self.decode(t)?);
                }
                // A longer array of an older schema: the rest is skipped.
                self.pos = self.end;
                self.end = outer;
                Val::List(out)
            }
            Ty::Opt(t) => {
                let b = self.byte()?;
                if b > 1 {
                    self.loose = true;
                }
                if b == 1 {
                    Val::some(self.decode(t)?)
                } else {
                    Val::none()
                }
            }
            Ty::NonZero(t) => match &**t {
                Ty::U(_) | Ty::I(_) => match self.decode(t)? {
                    Val::U(0) | Val::I(0) => return Err(DecErr::Zero),
                    v => v,
                },
                _ => {
                    let at = self.pos;
                    let n = self.varint(64)?;
                    if n == 0 {
                        return Err(DecErr::Zero);
                    }
                    self.pos = at;
                    self.decode(t)?
                }
            },
            Ty::Tuple(ts) => {
                let mut out = vec![];
                for t in ts {
                    out.push(self.decode(t)?);
                }
                Val::List(out)
            }
            Ty::Ext(n, g) => {
                let d = self.env.get(n);
                match &d.body {
                    Body::Alias(t) => self.decode(&t.subst(&d.generics, g))?,
                    Body::Struct(f) => Val::Struct(self.fields(d, g, f)?),
                    Body::Enum(vs) => {
                        let id = self.varint(32)? as u32;
                        match vs.iter().position(|v| v.id == id) {
                            Some(i) => Val::Enum(i, self.fields(d, g, &vs[i].fields)?),
                            None => return Err(DecErr::Variant(id)),
                        }
                    }
                }
            }
            Ty::Gen(_) => panic!("unsubstituted generic"),
        })
    }
    fn fields(&mut self, d: &Def, g: &[Ty], f: &Fields) -> R<Vec<Val>> {
        if f.kind == Kind::Unit {
            return Ok(vec![]);
        }
        let mut slots: Vec<Option<Val>> = vec![None; f.list.len()];
        loop {
            let key = self.varint(32)? as u32;
            let (id, cl) = (key >> 3, (key & 7) as u8);
            if cl > 4 {
                return Err(DecErr::Encoding);
            }
            if id == 0 {
                if cl != 0 {
                    self.loose = true;
                }
                break;
            }
            match f.list.iter().position(|x| x.id == id) {
                Some(i) => {
                    let (inner, _) = field_inner(&f.list[i]);
                    if cl != class(inner) {
                        self.loose = true;
                    }
                    let t = inner.subst(&d.generics, g);
                    if matches!(inner, Ty::Tuple(_)) {
                        let n = self.varint(64)?;
                        let at = self.pos;
                        let v = self.decode(&t);
                        if n != (self.pos - at) as u128 || v.is_err() {
                            self.loose = true;
                        }
                        slots[i] = Some(v?);
                    } else {
                        slots[i] = Some(self.decode(&t)?);
                    }
                }
                None => self.skip(cl)?,
            }
        }
        f.list
            .iter()
            .zip(slots)
            .map(|(f, s)| match (field_inner(f).1, s) {
                (true, Some(v)) => Ok(Val::some(v)),
                (true, None) => Ok(Val::none()),
                (false, Some(v)) => Ok(v),
                (false, None) => Err(DecErr::Missing(f.id, f.name.clone())),
            })
            .collect()
    }
    fn skip(&mut self, cl: u8) -> R<()> {
        match cl {
            0 => {
                let mut n = 0;
                while self.byte()? & 0x80 != 0 {
                    n += 1;
                }
                if n >= 19 {
                    self.loose = true;
                }
            }
            1 => {
                let n = self.varint(64)? as u64;
                self.take(n)?;
            }
            2 => drop(self.take(1)?),
            3 => drop(self.take(4)?),
            _ => drop(self.take(8)?),
        }
        Ok(())
    }
}
