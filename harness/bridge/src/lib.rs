//! Connects model values with the Rust types of the runtime and of generated code.
use std::collections::{HashMap, HashSet};
use std::hash::Hash;

pub use mabo;
use mabo::buf::{Buf, Bytes, Decode, Encode, Error, Size};
use mabo::NonZero;
use model::codec::DecErr;
pub use model::val::Val;

pub trait Bridge: Sized {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
}

impl Bridge for bool {
    fn from_val(v: &Val) -> Self {
        let Val::Bool(b) = v else { panic!("{v:?}") };
        *b
    }
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
}
macro_rules! ints {
    ($k:ident, $w:ty, $($t:ty => $nz:ty),*) => {$(
        impl Bridge for $t {
            fn from_val(v: &Val) -> Self {
                let Val::$k(b) = v else { panic!("{v:?}") };
                <$t>::try_from(*b).unwrap()
            }
            fn to_val(&self) -> Val {
                Val::$k(*self as $w)
            }
        }
        impl Bridge for $nz {
            fn from_val(v: &Val) -> Self {
                <$nz>::new(<$t>::from_val(v)).unwrap()
            }
            fn to_val(&self) -> Val {
                Val::$k(self.get() as $w)
            }
        }
    )*};
}
use std::num::*;
ints!(U, u128, u8 => NonZeroU8, u16 => NonZeroU16, u32 => NonZeroU32, u64 => NonZeroU64, u128 => NonZeroU128);
ints!(I, i128, i8 => NonZeroI8, i16 => NonZeroI16, i32 => NonZeroI32, i64 => NonZeroI64, i128 => NonZeroI128);

impl Bridge for f32 {
    fn from_val(v: &Val) -> Self {
        let Val::F32(b) = v else { panic!("{v:?}") };
        f32::from_bits(*b)
    }
    fn to_val(&self) -> Val {
        Val::F32(self.to_bits())
    }
}
impl Bridge for f64 {
    fn from_val(v: &Val) -> Self {
        let Val::F64(b) = v else { panic!("{v:?}") };
        f64::from_bits(*b)
    }
    fn to_val(&self) -> Val {
        Val::F64(self.to_bits())
    }
}
impl Bridge for String {
    fn from_val(v: &Val) -> Self {
        let Val::Str(b) = v else { panic!("{v:?}") };
        b.clone()
    }
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
}
impl Bridge for Box<str> {
    fn from_val(v: &Val) -> Self {
        String::from_val(v).into()
    }
    fn to_val(&self) -> Val {
        Val::Str(self.to_string())
    }
}
fn raw(v: &Val) -> Vec<u8> {
    let Val::List(l) = v else { panic!("{v:?}") };
    l.iter().map(u8::from_val).collect()
}
impl Bridge for Box<[u8]> {
    fn from_val(v: &Val) -> Self {
        raw(v).into()
    }
    fn to_val(&self) -> Val {
        Val::bytes(self)
    }
}
impl Bridge for Bytes {
    fn from_val(v: &Val) -> Self {
        raw(v).into()
    }
    fn to_val(&self) -> Val {
        Val::bytes(self)
    }
}
impl<T: Bridge> Bridge for Vec<T> {
    fn from_val(v: &Val) -> Self {
        let Val::List(l) = v else { panic!("{v:?}") };
        l.iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: Bridge, const N: usize> Bridge for [T; N] {
    fn from_val(v: &Val) -> Self {
        Vec::<T>::from_val(v).try_into().ok().expect("array length")
    }
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(T::to_val).collect())
    }
}
impl<T: Bridge + Eq + Hash> Bridge for HashSet<T> {
    fn from_val(v: &Val) -> Self {
        let Val::Set(l) = v else { panic!("{v:?}") };
        l.iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::Set(self.iter().map(T::to_val).collect()).canon()
    }
}
impl<K: Bridge + Eq + Hash, V: Bridge> Bridge for HashMap<K, V> {
    fn from_val(v: &Val) -> Self {
        let Val::Map(l) = v else { panic!("{v:?}") };
        l.iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect()
    }
    fn to_val(&self) -> Val {
        Val::Map(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect()).canon()
    }
}
impl<T: Bridge> Bridge for Option<T> {
    fn from_val(v: &Val) -> Self {
        let Val::Opt(o) = v else { panic!("{v:?}") };
        o.as_ref().map(|v| T::from_val(v))
    }
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.to_val())))
    }
}
macro_rules! nz {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> Bridge for NonZero<$t> {
            fn from_val(v: &Val) -> Self {
                NonZero::<$t>::new(<$t>::from_val(v)).unwrap()
            }
            fn to_val(&self) -> Val {
                self.get().to_val()
            }
        }
    )*};
}
nz!([] String, [T: Bridge] Vec<T>, [] Bytes, [T: Bridge + Eq + Hash] HashSet<T>, [K: Bridge + Eq + Hash, V: Bridge] HashMap<K, V>);

macro_rules! tuples {
    ($($($n:ident $i:tt),+;)*) => {$(
        impl<$($n: Bridge),+> Bridge for ($($n,)+) {
            fn from_val(v: &Val) -> Self {
                let Val::List(l) = v else { panic!("{v:?}") };
                ($($n::from_val(&l[$i]),)+)
            }
            fn to_val(&self) -> Val {
                Val::List(vec![$(self.$i.to_val()),+])
            }
        }
    )*};
}
tuples! {
    A 0, B 1;
    A 0, B 1, C 2;
    A 0, B 1, C 2, D 3;
    A 0, B 1, C 2, D 3, E 4;
    A 0, B 1, C 2, D 3, E 4, F 5;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10;
    A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11;
}

/// Error classes that the properties distinguish.
pub fn class_of(e: &Error) -> DecErr {
    match e {
        Error::InsufficientData | Error::DecodeInt(_) => DecErr::Short,
        Error::NonUtf8(_) => DecErr::Utf8,
        Error::MissingField { id, name } => DecErr::Missing(*id, name.map(str::to_string)),
        Error::UnknownVariant(id) => DecErr::Variant(*id),
        Error::UnknownEncoding(_) => DecErr::Encoding,
        Error::Zero => DecErr::Zero,
    }
}

/// Compiled operations of one type.
#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    /// bytes written, size reported beforehand
    pub encode: fn(&Val) -> (Vec<u8>, usize),
    /// encode into a caller-supplied buffer
    pub encode_into: fn(&Val, &mut dyn bytes::BufMut),
    pub decode: fn(&mut dyn Buf) -> Result<Val, DecErr>,
}

fn encode<T: Bridge + Encode + Size>(v: &Val) -> (Vec<u8>, usize) {
    let t = T::from_val(v);
    let mut out = Vec::new();
    encode_dyn(&t, &mut out);
    (out, t.size())
}
fn encode_dyn<T: Encode>(t: &T, mut w: &mut dyn bytes::BufMut) {
    t.encode(&mut w);
}
fn encode_into<T: Bridge + Encode>(v: &Val, w: &mut dyn bytes::BufMut) {
    encode_dyn(&T::from_val(v), w);
}
fn decode<T: Bridge + Decode>(mut r: &mut dyn Buf) -> Result<Val, DecErr> {
    match T::decode(&mut r) {
        Ok(v) => Ok(v.to_val()),
        Err(e) => Err(class_of(&e)),
    }
}
pub fn entry<T: Bridge + Encode + Size + Decode>(name: &'static str) -> Entry {
    Entry { name, encode: encode::<T>, encode_into: encode_into::<T>, decode: decode::<T> }
}
