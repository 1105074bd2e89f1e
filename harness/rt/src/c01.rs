use bytes::Buf;
use model::codec::{max_varint, put_varint, zigzag};
use model::report::*;
use model::universe::{sints, uints};

/// One width and sign: plain functions of the runtime.
struct Fns {
    name: &'static str,
    bits: u32,
    signed: bool,
    /// raw value (two's complement in the low bits) -> bytes
    enc: fn(u128) -> Vec<u8>,
    enc_raw: Option<fn(u128) -> Vec<u8>>,
    dec: fn(&mut &[u8]) -> Option<u128>,
    dec_raw: Option<fn(&[u8]) -> Option<(u128, usize)>>,
    size: fn(u128) -> usize,
    size_raw: Option<fn(u128) -> usize>,
}
macro_rules! fns {
    ($($t:ident $bits:literal $signed:literal $e:ident $d:ident $s:ident $raw:tt);* $(;)?) => { vec![$(Fns {
        name: stringify!($t), bits: $bits, signed: $signed,
        enc: |v| { let mut o = Vec::new(); mabo::buf::$e(&mut o, v as $t); o },
        enc_raw: fns!(@enc $raw $t $e),
        dec: |r| mabo::buf::$d(r).ok().map(|v| v as u128),
        dec_raw: fns!(@dec $raw $t $d),
        size: |v| mabo::buf::$s(v as $t),
        size_raw: fns!(@size $raw $t $s),
    }),*] };
    (@enc y $t:ident $e:ident) => { Some(|v| { let (b, n) = mabo::varint::$e(v as $t); b[..n].to_vec() }) };
    (@enc n $t:ident $e:ident) => { None };
    (@dec y $t:ident $d:ident) => { Some(|b| mabo::varint::$d(b).ok().map(|(v, n)| (v as u128, n))) };
    (@dec n $t:ident $d:ident) => { None };
    (@size y $t:ident $s:ident) => { Some(|v| mabo::varint::$s(v as $t)) };
    (@size n $t:ident $s:ident) => { None };
}

fn mask(bits: u32) -> u128 {
    if bits == 128 { u128::MAX } else { (1 << bits) - 1 }
}
fn sext(v: u128, bits: u32) -> i128 {
    ((v << (128 - bits)) as i128) >> (128 - bits)
}

/// raw two's complement value -> reference bytes
fn reference(f: &Fns, v: u128) -> Vec<u8> {
    let v = v & mask(f.bits);
    if f.bits == 8 {
        return vec![v as u8];
    }
    let u = if f.signed { zigzag(sext(v, f.bits)) } else { v };
    let mut o = vec![];
    put_varint(u, &mut o);
    o
}

fn check_value(f: &Fns, v: u128, st: &mut Stats) {
    let v = v & mask(f.bits);
    st.states += 1;
    st.transitions += 3;
    st.traces += 1;
    let want = reference(f, v);
    let fail = |st: &mut Stats, what: &str, got: String| {
        st.violation(format!("{} {}: {what}", f.name, if f.signed { sext(v, f.bits).to_string() } else { v.to_string() }), || {
            format!("type {} raw value {v:#x}\nexpected bytes {}\n{what}: {got}", f.name, hex(&want))
        })
    };
    let r = quiet(|| {
        let b = (f.enc)(v);
        let mut r = &b[..];
        let back = (f.dec)(&mut r);
        (back.map(|x| x & mask(f.bits)), b.len() - r.len(), (f.size)(v), b)
    });
    match r {
        Err(p) => fail(st, "panic", p),
        Ok((back, used, size, b)) => {
            if b != want {
                fail(st, "encoding is not the shortest form of the value", hex(&b));
            } else if back != Some(v) || used != b.len() {
                fail(st, "round trip", format!("{back:?} after {used} bytes"));
            } else if size != b.len() {
                fail(st, "predicted size", size.to_string());
            }
        }
    }
    if let (Some(e), Some(d), Some(s)) = (f.enc_raw, f.dec_raw, f.size_raw) {
        st.transitions += 3;
        match quiet(|| (e(v), s(v))) {
            Err(p) => fail(st, "panic in varint module", p),
            Ok((b, n)) => {
                if b != want || n != want.len() {
                    fail(st, "varint module encoding or size", format!("{} size {n}", hex(&b)));
                } else {
                    // whatever follows must not matter
                    for tail in [&[][..], &[0], &[0x80, 0xff], &[0x7f]] {
                        let mut x = b.clone();
                        x.extend(tail);
                        match quiet(|| d(&x)) {
                            Ok(Some((y, n))) if y & mask(f.bits) == v && n == b.len() => {}
                            o => fail(st, "varint module decoding", format!("{o:?} with tail {}", hex(tail))),
                        }
                    }
                }
            }
        }
    }
}

/// Decode arbitrary bytes and compare with LEB128.
fn check_bytes(f: &Fns, b: &[u8], st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    let max = max_varint(f.bits);
    let n = b.iter().take(max).position(|x| x & 0x80 == 0);
    // value of the sequence, and whether it fits
    let want = n.map(|n| {
        let (mut v, mut fits) = (0u128, true);
        for (i, x) in b[..=n].iter().enumerate() {
            let (g, sh) = ((x & 0x7f) as u128, 7 * i as u32);
            if sh + 7 > f.bits && g >> (f.bits - sh) != 0 {
                fits = false;
            } else {
                v |= g << sh;
            }
        }
        (v, n + 1, fits)
    });
    let got = quiet(|| {
        let mut r = b;
        let v = (f.dec)(&mut r);
        (v.map(|v| v & mask(f.bits)), b.len() - r.remaining())
    });
    let ok = match (&want, &got) {
        (_, Err(_)) => false,
        (None, Ok((v, _))) => v.is_none(),
        (Some((_, _, false)), Ok(_)) => {
            st.count("values_out_of_range_only_checked_for_totality", 1);
            true
        }
        (Some((v, n, true)), Ok((got, used))) => {
            st.traces += 1;
            let raw = if f.signed {
                (model::codec::unzigzag(*v) as u128) & mask(f.bits)
            } else {
                *v
            };
            *got == Some(raw) && used == n
        }
    };
    if !ok {
        st.violation(format!("decoding bytes as {}", f.name), || {
            format!("bytes {}\nexpected (value, length, fits) {want:?}\ngot {got:?}", hex(b))
        });
    }
    if let Some(d) = f.dec_raw {
        st.transitions += 1;
        let got2 = quiet(|| d(b));
        let ok = match (&want, &got2) {
            (_, Err(_)) => false,
            (None, Ok(v)) => v.is_none(),
            (Some((_, _, false)), Ok(_)) => true,
            (Some((v, n, true)), Ok(Some((g, m)))) => {
                let raw = if f.signed { (model::codec::unzigzag(*v) as u128) & mask(f.bits) } else { *v };
                g & mask(f.bits) == raw && m == n
            }
            _ => false,
        };
        if !ok {
            st.violation(format!("varint module decoding bytes as {}", f.name), || {
                format!("bytes {}\nexpected {want:?}\ngot {got2:?}", hex(b))
            });
        }
    }
}

pub fn run() -> i32 {
    let th = thorough();
    let mut rep = Report::new("C01");
    let fs: Vec<Fns> = fns![
        u8 8 false encode_u8 decode_u8 size_u8 n;
        i8 8 true encode_i8 decode_i8 size_i8 n;
        u16 16 false encode_u16 decode_u16 size_u16 y;
        i16 16 true encode_i16 decode_i16 size_i16 y;
        u32 32 false encode_u32 decode_u32 size_u32 y;
        i32 32 true encode_i32 decode_i32 size_i32 y;
        u64 64 false encode_u64 decode_u64 size_u64 y;
        i64 64 true encode_i64 decode_i64 size_i64 y;
        u128 128 false encode_u128 decode_u128 size_u128 y;
        i128 128 true encode_i128 decode_i128 size_i128 y;
    ];
    // values
    let mut jobs: Vec<(usize, u32)> = vec![];
    for (i, f) in fs.iter().enumerate() {
        let parts = if f.bits == 32 && th { 256 } else { 16 };
        jobs.extend((0..parts).map(|p| (i, p)));
    }
    let s = parallel(&jobs, |&(i, p), st| {
        let f = &fs[i];
        match f.bits {
            8 | 16 => {
                let n = 1u128 << f.bits;
                (0..n).filter(|v| (v % 16) as u32 == p).for_each(|v| check_value(f, v, st));
            }
            32 if th => {
                let per = 1u128 << 24;
                (p as u128 * per..(p as u128 + 1) * per).for_each(|v| check_value(f, v, st));
            }
            bits => {
                let groups = max_varint(bits);
                let alpha: &[u128] = match bits {
                    32 => &[0, 1, 2, 0x3f, 0x40, 0x55, 0x7e, 0x7f],
                    64 if th => &[0, 1, 0x40, 0x7f],
                    64 => &[0, 1, 0x7f],
                    _ => &[0, 0x7f],
                };
                let total = (alpha.len() as u64).pow(groups as u32);
                for k in (0..total).filter(|k| (k % 16) as u32 == p) {
                    let (mut v, mut k) = (0u128, k);
                    for g in 0..groups {
                        let a = alpha[(k % alpha.len() as u64) as usize];
                        k /= alpha.len() as u64;
                        v |= a.wrapping_shl(7 * g as u32) & if 7 * g < 128 { u128::MAX } else { 0 };
                    }
                    check_value(f, v, st);
                    if f.signed {
                        check_value(f, model::codec::unzigzag(v & mask(bits)) as u128, st);
                    }
                }
                if p == 0 {
                    // neighbourhoods of every power of two and of every boundary
                    for s in 0..bits {
                        for d in 0..=2u128 {
                            check_value(f, (1u128 << s).wrapping_add(d), st);
                            check_value(f, (1u128 << s).wrapping_sub(d), st);
                            check_value(f, (1u128 << s).wrapping_neg().wrapping_add(d), st);
                            check_value(f, (1u128 << s).wrapping_neg().wrapping_sub(d), st);
                        }
                        for s2 in 0..s {
                            check_value(f, 1u128 << s | 1 << s2, st);
                            check_value(f, (1u128 << s) - (1 << s2), st);
                        }
                    }
                    uints(bits, 0).into_iter().for_each(|v| check_value(f, v, st));
                    sints(bits, 0).into_iter().for_each(|v| check_value(f, v as u128, st));
                }
            }
        }
        if p == 0 {
            st.sample(|| format!("{}: value {} -> {}", f.name, mask(f.bits) / 3, hex(&(f.enc)(mask(f.bits) / 3))));
        }
    });
    rep.stats.merge(s);
    // byte strings
    let alpha: Vec<u8> = vec![0, 1, 2, 3, 4, 0x0f, 0x3f, 0x40, 0x7f, 0x80, 0x81, 0x83, 0x84, 0xc0, 0xff];
    let full: Vec<u8> = (0..=255).collect();
    let jobs: Vec<(usize, usize)> =
        (0..fs.len()).filter(|i| fs[*i].bits > 8).flat_map(|i| (0..alpha.len() + 1).map(move |a| (i, a))).collect();
    let s = parallel(&jobs, |&(i, a), st| {
        let f = &fs[i];
        if a == alpha.len() {
            check_bytes(f, &[], st);
            // all continuation patterns up to one byte more than the maximum length
            let conts: &[u8] = if f.bits <= 64 || th { &[0x80, 0xff] } else { &[0x80] };
            let max = max_varint(f.bits);
            for n in 0..=max + 1 {
                let m = (conts.len() as u64).pow(n.min(if th { 20 } else { 12 }) as u32);
                for k in 0..m {
                    let mut b: Vec<u8> = (0..n).map(|j| conts[(k >> j.min(63)) as usize % conts.len()]).collect();
                    check_bytes(f, &b, st);
                    for last in &alpha {
                        b.push(*last);
                        check_bytes(f, &b, st);
                        b.pop();
                    }
                }
            }
            if f.bits == 16 || th {
                for x in &full {
                    for y in &full {
                        check_bytes(f, &[*x, *y], st);
                        if f.bits == 16 && th {
                            for z in &full {
                                check_bytes(f, &[*x, *y, *z], st);
                            }
                        }
                    }
                }
            }
            return;
        }
        let depth = if th { 5 } else { 4 };
        let mut b = vec![alpha[a]];
        fn rec(f: &Fns, b: &mut Vec<u8>, alpha: &[u8], depth: usize, st: &mut Stats) {
            check_bytes(f, b, st);
            if b.len() < depth {
                for x in alpha {
                    b.push(*x);
                    rec(f, b, alpha, depth, st);
                    b.pop();
                }
            }
        }
        rec(f, &mut b, &alpha, depth, st);
    });
    rep.stats.merge(s);
    rep.note(
        "bounds",
        "8/16-bit: every value (32-bit too in the thorough tier); wider: every combination of 7-bit groups over a boundary alphabet, every sum and difference of two powers of two, neighbourhoods of every power of two; decoding: every string over a 15-byte alphabet up to length 4 (5), every continuation pattern up to one byte beyond the maximum",
    );
    rep.assumptions.push("values outside the enumerated group alphabets of 64/128-bit types behave like those inside".into());
    rep.finish()
}
