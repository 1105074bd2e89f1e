use crate::infra::*;
use bytes::BufMut;
use model::codec::{class, field_inner, Ctx, DecErr, NONE};
use model::report::*;
use model::ty::*;
use model::universe::*;
use model::val::Val;

const BOUNDS: &str = "every type shape of depth 0 and 1 over 19 scalars and 6 user types, depth 2 over a reduced base (depth 3 and a larger base in the thorough tier), each as struct field, optional field, unnamed field, enum variant field and generic argument; every boundary value of each shape";

/// Key of the recorded finding that explains why model decoding of the model encoding differs.
fn zero_size_elements(l: &Loaded, t: &Ty, v: &Val) -> bool {
    let m = l.dec(t, &l.enc(t, v));
    m.res.as_ref() != Ok(&v.canon())
}

// ---- C02 ------------------------------------------------------------------------------------------
pub fn c02() -> i32 {
    let l = load();
    let mut rep = Report::new("C02");
    let s = parallel(&l.plan.items, |it, st| {
        let e = l.entry(it);
        for v in l.item_values(it).into_iter().chain(l.long_values(it)) {
            st.states += 1;
            let want = v.canon();
            let bytes = match real_encode(&e, &v) {
                Ok((b, _)) => b,
                Err(p) => {
                    st.violation(format!("{}: encoding panicked", it.name), || format!("{}\n{p}", show(&l, it, &v, &[])));
                    continue;
                }
            };
            st.transitions += 1;
            let mut tails: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 5], vec![0x80, 0, 1]];
            if bytes.len() < 40 {
                tails.push(bytes.clone());
            }
            if bytes.len() > 1000 {
                tails = vec![vec![0x80, 0, 1]];
            }
            for tail in tails {
                let mut data = bytes.clone();
                data.extend(&tail);
                let r = real(&e, &data, &[]);
                st.transitions += 1;
                st.traces += 1;
                if r.res == Ok(Ok(want.clone())) && r.used == bytes.len() {
                    continue;
                }
                // Recorded findings predict the outcome exactly.
                let m = l.dec(&it.ty, &data);
                let predicted = r.res.as_ref().is_ok_and(|x| *x == m.res) && (m.res.is_err() || m.used == r.used);
                if predicted && same_multiset(&v, &bytes, &l.enc_q(&it.ty, &v)) {
                    if zero_size_elements(&l, &it.ty, &v) {
                        st.known("zero-size-elements", || show(&l, it, &v, &bytes).replace('\n', "; "));
                        continue;
                    }
                    if l.affected_by_tuple(&it.ty, &v) {
                        st.known("tuple-field-size", || show(&l, it, &v, &bytes).replace('\n', "; "));
                        continue;
                    }
                }
                st.violation(format!("{}: round trip lost the value", it.name), || {
                    format!("{}\nfollowed by: {}\ndecoded: {:?} after {} bytes", show(&l, it, &v, &bytes), hex(&tail), r.res, r.used)
                });
            }
            st.sample(|| show(&l, it, &v, &bytes).replace('\n', "; "));
        }
    });
    rep.stats.merge(s);
    rep.stats.count("types", l.plan.items.len() as u64);
    wrappers(&mut rep.stats);
    rep.note("bounds", BOUNDS);
    rep.finish()
}

/// Pointer-like and borrowing standard types forward to the value they hold.
fn wrappers(st: &mut Stats) {
    use mabo::buf::{Decode, Encode, Size};
    use std::borrow::Cow;
    use std::rc::Rc;
    use std::sync::Arc;
    fn enc<T: Encode>(t: &T) -> (Vec<u8>, usize) {
        let mut o = vec![];
        t.encode(&mut o);
        (o, t.size())
    }
    for n in uints(64, 0) {
        let n = n as u64;
        let plain = enc(&n);
        st.states += 1;
        st.transitions += 6;
        st.traces += 6;
        let all = [enc(&Rc::new(n)), enc(&Arc::new(n)), enc(&Cow::Borrowed(&n)), enc(&Cow::<u64>::Owned(n))];
        let back = quiet(|| {
            [
                Rc::<u64>::decode(&mut &plain.0[..]).ok().map(|v| *v),
                Arc::<u64>::decode(&mut &plain.0[..]).ok().map(|v| *v),
                Cow::<u64>::decode(&mut &plain.0[..]).ok().map(|v| *v),
            ]
        });
        if all.iter().any(|a| *a != plain) || plain.0.len() != plain.1 || back != Ok([Some(n); 3]) {
            st.violation("Rc/Arc/Cow do not behave like the held value", || format!("{n}: {all:?} {back:?}"));
        }
    }
    for s in strings(0) {
        let plain = enc(&s);
        st.states += 1;
        st.transitions += 4;
        st.traces += 4;
        let list = vec![s.clone(), s.clone()];
        let a = enc(&Rc::new(s.clone())) == plain
            && enc(&Cow::Borrowed(&s)) == plain
            && enc(&Box::<str>::from(s.as_str())) == plain
            && enc(&&list[..]) == enc(&list)
            && plain.0.len() == plain.1
            && enc(&list).0.len() == enc(&list).1;
        if !a {
            st.violation("wrapped strings and slices do not behave like the held value", || s.clone());
        }
    }
}

// ---- C03 ------------------------------------------------------------------------------------------
pub fn c03() -> i32 {
    let l = load();
    let mut rep = Report::new("C03");
    let s = parallel(&l.plan.items, |it, st| {
        let e = l.entry(it);
        for v in l.item_values(it).into_iter().chain(l.long_values(it)) {
            st.states += 1;
            st.transitions += 2;
            st.traces += 1;
            match real_encode(&e, &v) {
                Err(p) => st.violation(format!("{}: encoding or size panicked", it.name), || format!("{}\n{p}", show(&l, it, &v, &[]))),
                Ok((b, n)) if b.len() == n => {}
                Ok((b, n)) => {
                    if n == l.size_q(&it.ty, &v) && b.len() == l.enc_q(&it.ty, &v).len() {
                        st.known("tuple-field-size", || format!("{}; size {n}", show(&l, it, &v, &b).replace('\n', "; ")));
                    } else {
                        st.violation(format!("{}: size {n}, encoded length {}", it.name, b.len()), || show(&l, it, &v, &b));
                    }
                }
            }
            st.sample(|| format!("{}; {}", l.describe(it), v.short()));
        }
    });
    rep.stats.merge(s);
    direct_sizes(&mut rep.stats);
    wrappers(&mut rep.stats);
    rep.note("bounds", BOUNDS);
    rep.finish()
}

/// The runtime's size functions called directly next to their encoding counterparts, on
/// collections whose content length crosses the length-prefix boundaries.
fn direct_sizes(st: &mut Stats) {
    use mabo::buf::*;
    use std::collections::{HashMap, HashSet};
    let check = |st: &mut Stats, name: &str, n: usize, f: &dyn Fn() -> (usize, Vec<u8>)| {
        st.states += 1;
        st.transitions += 2;
        st.traces += 1;
        match quiet(f) {
            Ok((s, b)) if s == b.len() => {}
            Ok((s, b)) => st.violation(format!("{name} of {n}: size {s}, encoded length {}", b.len()), || hex(&b[..b.len().min(40)])),
            Err(p) => st.violation(format!("{name} of {n} panicked"), || p),
        }
    };
    let lens: Vec<usize> = (0..140).chain([255, 256, 1000, 5461, 5462, 8191, 8192, 8193, 16383, 16384, 16385, 20000]).collect();
    for &n in &lens {
        let strs: Vec<String> = (0..n).map(|i| "x".repeat(i % 5)).collect();
        let nums: Vec<u64> = (0..n as u64).map(|i| i * i * i).collect();
        check(st, "vec<u64>", n, &|| {
            let mut o = vec![];
            encode_vec(&mut o, &nums, |v| size_u64(*v), |w, v| encode_u64(w, *v));
            (size_vec(&nums, |v| size_u64(*v)), o)
        });
        check(st, "vec<string>", n, &|| {
            let mut o = vec![];
            encode_vec(&mut o, &strs, |v| size_string(v), |w, v| encode_string(w, v));
            (size_vec(&strs, |v| size_string(v)), o)
        });
        let set: HashSet<u64> = nums.iter().copied().collect();
        check(st, "hash_set<u64>", n, &|| {
            let mut o = vec![];
            encode_hash_set(&mut o, &set, |v| size_u64(*v), |w, v| encode_u64(w, *v));
            (size_hash_set(&set, |v| size_u64(*v)), o)
        });
        let map: HashMap<u64, String> = nums.iter().copied().zip(strs.iter().cloned()).collect();
        check(st, "hash_map<u64, string>", n, &|| {
            let mut o = vec![];
            encode_hash_map(&mut o, &map, |v| size_u64(*v), |v| size_string(v), |w, v| encode_u64(w, *v), |w, v| encode_string(w, v));
            (size_hash_map(&map, |v| size_u64(*v), |v| size_string(v)), o)
        });
        let text = "é".repeat(n);
        check(st, "string", n, &|| {
            let mut o = vec![];
            encode_string(&mut o, &text);
            (size_string(&text), o)
        });
        let raw = vec![0xa5u8; n];
        check(st, "bytes", n, &|| {
            let mut o = vec![];
            encode_bytes_std(&mut o, &raw);
            (size_bytes_std(&raw), o)
        });
        let b = mabo::Bytes::from(raw.clone());
        check(st, "Bytes", n, &|| {
            let mut o = vec![];
            encode_bytes_bytes(&mut o, &b);
            (size_bytes_bytes(&b), o)
        });
        check(st, "option", n, &|| {
            let mut o = vec![];
            let v = if n % 2 == 0 { None } else { Some(n as u32) };
            encode_option(&mut o, &v, |w, v| encode_u32(w, *v));
            (size_option(v.as_ref(), |v| size_u32(*v)), o)
        });
    }
    let mut ids: Vec<u32> = (0..=40).collect();
    for s in 4..=28 {
        ids.extend([(1u32 << s) - 1, 1 << s, (1 << s) + 1]);
    }
    ids.push((1 << 29) - 1);
    for id in ids {
        for enc in [mabo::FieldEncoding::Varint, mabo::FieldEncoding::LengthPrefixed, mabo::FieldEncoding::Fixed1, mabo::FieldEncoding::Fixed4, mabo::FieldEncoding::Fixed8] {
            check(st, "field id", id as usize, &|| {
                let mut o = vec![];
                encode_id(&mut o, mabo::FieldId::new(id, enc));
                let mut r = &o[..];
                let back = decode_id(&mut r).expect("field id");
                assert!(back.value == id && back.encoding == enc && r.is_empty(), "field id {id} came back as {}", back.value);
                (size_field_id(id), o)
            });
        }
        for id in [id, u32::MAX - id] {
            check(st, "variant id", id as usize, &|| {
                let mut o = vec![];
                encode_variant_id(&mut o, mabo::VariantId::new(id));
                let mut r = &o[..];
                assert!(decode_variant_id(&mut r).expect("variant id").value == id && r.is_empty());
                (size_variant_id(id), o)
            });
        }
        check(st, "field", id as usize, &|| {
            let mut o = vec![];
            encode_field(&mut o, mabo::FieldId::new(id, mabo::FieldEncoding::Varint), |w| encode_u32(w, id));
            (size_field(id, || size_u32(id)), o)
        });
        for v in [None, Some(id)] {
            check(st, "optional field", id as usize, &|| {
                let mut o = vec![];
                encode_field_option(&mut o, mabo::FieldId::new(id, mabo::FieldEncoding::Varint), &v, |w, v| encode_u32(w, *v));
                (size_field_option(id, v.as_ref(), |v| size_u32(*v)), o)
            });
        }
    }
}

// ---- C04 ------------------------------------------------------------------------------------------
/// One arbitrary input: no panic, no hang, bounded memory, the model's verdict, stable re-encoding.
fn arbitrary(l: &Loaded, it: &Item, e: &bridge::Entry, data: &[u8], st: &mut Stats) {
    st.states += 1;
    st.transitions += 1;
    let desc = || format!("{}\ninput: {}", l.describe(it), hex(data));
    let (r, peak) = peak(desc, || real(e, data, &[]));
    let limit = (1 << 20) + 4096 * data.len() as isize;
    if peak > limit {
        st.violation(format!("{}: decoding {} bytes used {peak} bytes of memory", it.name, data.len()), desc);
    }
    let got = match r.res {
        Err(p) => {
            st.violation(format!("{}: decoding panicked: {p}", it.name), || format!("{}\n{p}", desc()));
            return;
        }
        Ok(g) => g,
    };
    let m = l.dec(&it.ty, data);
    if !m.loose {
        st.traces += 1;
        let same = match (&got, &m.res) {
            (Ok(a), Ok(b)) => a == b && r.used == m.used,
            (Err(_), Err(_)) => true,
            _ => false,
        };
        if !same {
            st.violation(format!("{}: wrong verdict on malformed input", it.name), || {
                format!("{}\nexpected {:?}\ngot {:?} after {} bytes", desc(), m.res, got, r.used)
            });
            return;
        }
    }
    if let Ok(v) = got {
        st.count("accepted_inputs", 1);
        // what was accepted survives another trip
        st.transitions += 2;
        let again = real_encode(e, &v).map(|(b, _)| (real(e, &b, &[]), b));
        match again {
            Ok((r2, b)) => {
                if r2.res != Ok(Ok(v.clone())) && !l.affected_by_tuple(&it.ty, &v) && !zero_size_elements(l, &it.ty, &v) {
                    st.violation(format!("{}: accepted value does not survive re-encoding", it.name), || {
                        format!("{}\nvalue {}\nre-encoded {}\ndecoded {:?}", desc(), v.short(), hex(&b), r2.res)
                    });
                }
            }
            Err(p) => st.violation(format!("{}: re-encoding panicked", it.name), || format!("{}\n{p}", desc())),
        }
    } else {
        st.count("rejected_inputs", 1);
    }
}

/// A field that no type declares, well-formed or not, with all kinds of lengths and values.
fn unknown_payloads() -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut push = |class: u8, p: Vec<u8>| {
        let mut f = vec![];
        model::codec::put_varint(1000 << 3 | class as u128, &mut f);
        f.extend(p);
        out.push(f);
    };
    for n in [0usize, 1, 3] {
        for high in [0u128, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63] {
            let mut p = vec![];
            model::codec::put_varint(high + n as u128, &mut p);
            p.extend(vec![0; n]);
            push(1, p);
        }
        // more bytes than needed
        for pad in [1, 4, 7, 8, 9] {
            let mut p = vec![0x80 | n as u8];
            p.extend(vec![0x80; pad]);
            p.push(0);
            p.extend(vec![0; n]);
            push(1, p);
        }
    }
    for n in [0, 1, 9, 10, 18, 19] {
        push(0, [vec![0x80; n], vec![1]].concat());
    }
    for n in [0, 1, 3, 4, 7, 8] {
        for class in 2..8 {
            push(class, vec![0; n]);
        }
    }
    out
}

pub fn c04() -> i32 {
    let l = load();
    let th = thorough();
    let mut rep = Report::new("C04");
    let subst: Vec<u8> = if th {
        (0..=255).collect()
    } else {
        vec![0, 1, 2, 3, 9, 0x11, 0x7f, 0x80, 0x81, 0xc3, 0xfe, 0xff]
    };
    let huge: Vec<Vec<u8>> = vec![
        vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1],
        vec![0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
        vec![0x80, 0x80, 0x80, 0x80, 0x10],
        vec![0xff, 0xff, 0xff, 0xff, 7],
        vec![0x80, 0x80, 4],
    ];
    let s = parallel(&l.plan.items, |it, st| {
        let e = l.entry(it);
        let mut vals = l.item_values(it);
        if vals.len() > 24 && !th {
            // every value for short encodings, a fixed selection otherwise
            let step = vals.len().div_ceil(24);
            vals = vals.into_iter().step_by(step).collect();
        }
        let mut seen = std::collections::HashSet::new();
        let mut run = |d: &[u8], st: &mut Stats| {
            if seen.insert(d.to_vec()) {
                arbitrary(&l, it, &e, d, st);
            }
        };
        for v in &vals {
            let b = l.enc(&it.ty, v);
            run(&b, st);
            if b.len() > 64 {
                // long encodings: truncations around both ends only
                for n in (0..40).chain(b.len() - 20..b.len()) {
                    run(&b[..n], st);
                }
                continue;
            }
            // every truncation
            for n in 0..b.len() {
                run(&b[..n], st);
            }
            let mut x = b.clone();
            for i in 0..b.len() {
                // every substitution
                for s in subst.iter().copied().chain([b[i] ^ 1, b[i].wrapping_add(1), b[i].wrapping_sub(1), b[i] ^ 0x80]) {
                    x[i] = s;
                    run(&x, st);
                }
                x[i] = b[i];
                // every deletion, duplication and insertion of a huge length
                let mut y = b.clone();
                y.remove(i);
                run(&y, st);
                let mut y = b.clone();
                y.insert(i, b[i]);
                run(&y, st);
                for h in &huge {
                    let mut y = b[..i].to_vec();
                    y.extend(h);
                    y.extend(&b[i + 1..]);
                    run(&y, st);
                }
                // a number that is the same to whoever reads it with too few bits
                for bits in [16, 32, 63].into_iter().filter(|_| b[i] < 0x80) {
                    let mut y = b[..i].to_vec();
                    model::codec::put_varint((1 << bits) + b[i] as u128, &mut y);
                    y.extend(&b[i + 1..]);
                    run(&y, st);
                }
            }
        }
        // an unknown field with every kind of payload in front of the known ones and behind them
        if it.role == Role::Struct {
            for v in vals.iter().take(2) {
                let b = l.enc(&it.ty, v);
                for f in unknown_payloads() {
                    run(&[&f[..], &b].concat(), st);
                    run(&[&b[..b.len() - 1], &f[..], &[0]].concat(), st);
                }
            }
        }
        // every short token string, alone and as the payload of the shape's own field
        let tokens: Vec<Vec<u8>> = [vec![0u8], vec![1], vec![2], vec![3], vec![0x41], vec![0x80], vec![0xff]]
            .into_iter()
            .chain([huge[0].clone(), huge[3].clone()])
            .collect();
        let depth = if th { 5 } else { 3 };
        let mut prefixes: Vec<(Vec<u8>, Vec<u8>)> = vec![(vec![], vec![])];
        if it.role == Role::Struct {
            let fld = Field { name: None, ty: it.shape.clone(), id: 2, explicit: true };
            let (inner, _) = field_inner(&fld);
            prefixes = vec![(vec![0x0a, 7, 2 << 3 | class(inner)], vec![0x20, 1, 0])];
        }
        for (pre, post) in prefixes {
            let mut idx = vec![0usize; 0];
            loop {
                let mut d = pre.clone();
                idx.iter().for_each(|i| d.extend(&tokens[*i]));
                run(&d, st);
                d.extend(&post);
                run(&d, st);
                // next string in length-lexicographic order
                let mut k = idx.len();
                loop {
                    if k == 0 {
                        idx = vec![0; idx.len() + 1];
                        break;
                    }
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < tokens.len() {
                        break;
                    }
                    idx[k] = 0;
                }
                if idx.len() > depth {
                    break;
                }
            }
        }
        st.sample(|| format!("{}: {} distinct inputs", l.describe(it), seen.len()));
    });
    rep.stats.merge(s);
    rep.note("bounds", format!("per type: every truncation, single-byte substitution ({} values), deletion, duplication and huge-length insertion of boundary encodings, and every token string up to length {}; {BOUNDS}", subst.len(), if th { 5 } else { 3 }));
    rep.assumptions.push("memory limit 1 MiB + 4096 bytes per input byte; progress limit 200000 + 2000 buffer calls per byte".into());
    rep.finish()
}

// ---- C05 ------------------------------------------------------------------------------------------
/// Expected result of reading `v` of type `w` as type `r`, computed on values, not on bytes.
fn evolve(env: &Env, w: &Def, r: &Def, v: &Val) -> Result<Val, DecErr> {
    let pick = |wf: &Fields, rf: &Fields, vs: &[Val]| -> Result<Vec<Val>, DecErr> {
        rf.list
            .iter()
            .map(|f| {
                let opt = field_inner(f).1;
                match wf.list.iter().position(|x| x.id == f.id) {
                    Some(i) => {
                        // optional and required share the same payload
                        let wopt = field_inner(&wf.list[i]).1;
                        match (wopt, opt, &vs[i]) {
                            (true, true, v) => Ok(v.clone()),
                            (false, false, v) => Ok(v.clone()),
                            (false, true, v) => Ok(Val::some(v.clone())),
                            (true, false, Val::Opt(Some(v))) => Ok((**v).clone()),
                            (true, false, _) => Err(DecErr::Missing(f.id, f.name.clone())),
                        }
                    }
                    None if opt => Ok(Val::none()),
                    None => Err(DecErr::Missing(f.id, f.name.clone())),
                }
            })
            .collect()
    };
    let _ = env;
    match (&w.body, &r.body, v) {
        (Body::Struct(wf), Body::Struct(rf), Val::Struct(vs)) => pick(wf, rf, vs).map(Val::Struct),
        (Body::Enum(wv), Body::Enum(rv), Val::Enum(i, vs)) => {
            match rv.iter().position(|x| x.id == wv[*i].id) {
                Some(j) if rv[j].fields.kind == Kind::Unit => Ok(Val::Enum(j, vec![])),
                Some(j) => pick(&wv[*i].fields, &rv[j].fields, vs).map(|f| Val::Enum(j, f)),
                None => Err(DecErr::Variant(wv[*i].id)),
            }
        }
        _ => panic!("incompatible bodies"),
    }
}

fn evolution_case(l: &Loaded, w: &Item, r: &Item, v: &Val, bytes: &[u8], st: &mut Stats) {
    let (wd, rd) = (l.env().get(&w.name), l.env().get(&r.name));
    let want = evolve(l.env(), wd, rd, v).map(|v| v.canon());
    let got = real(&l.entry(r), bytes, &[]);
    st.states += 1;
    st.transitions += 1;
    st.traces += 1;
    let ok = match &got.res {
        Ok(g) => *g == want && (want.is_err() || got.used == bytes.len()),
        Err(_) => false,
    };
    match &want {
        Ok(_) => st.count("expected_values", 1),
        Err(DecErr::Missing(..)) => st.count("expected_missing_field", 1),
        Err(_) => st.count("expected_unknown_variant", 1),
    }
    if ok {
        return;
    }
    let detail = || {
        format!(
            "writer: {}\nreader: {}\nvalue: {}\nbytes: {}\nexpected {want:?}\ngot {:?} after {} of {} bytes",
            l.describe(w), l.describe(r), v.short(), hex(bytes), got.res, got.used, bytes.len()
        )
    };
    // Recorded finding: user types and nested options are tagged as length-prefixed but carry none.
    let unframed = |f: &Fields| {
        f.list.iter().any(|f| matches!(field_inner(f).0, Ty::Ext(..) | Ty::Gen(_) | Ty::Opt(_)))
    };
    let has_unframed = match &wd.body {
        Body::Struct(f) => unframed(f),
        Body::Enum(vs) => vs.iter().any(|v| unframed(&v.fields)),
        Body::Alias(_) => false,
    };
    // Recorded finding: prefixes around tuple fields are too small.
    let tuple = l.affected_by_tuple(&w.ty, v);
    if has_unframed || tuple {
        let m = l.dec(&r.ty, bytes);
        let same = match (&got.res, &m.res) {
            (Ok(Ok(a)), Ok(b)) => a == b && got.used == m.used,
            (Ok(Err(_)), Err(_)) => true,
            // An error in the middle of misread bytes may be of any kind.
            (Ok(_), _) => m.loose,
            (Err(_), _) => false,
        };
        if same {
            st.known(if tuple { "tuple-field-size" } else { "unframed-field-skip" }, || detail().replace('\n', "; "));
            return;
        }
    }
    st.violation(format!("{} read as {}", w.name, r.name), detail);
}

pub fn c05() -> i32 {
    let l = load();
    let mut rep = Report::new("C05");
    let find = |n: &str| l.plan.items.iter().find(|i| i.name == n).unwrap();
    let (read_ab, read_t, read_e, read_few) = (find("ReadAb"), find("ReadT"), find("ReadE"), find("ReadFew"));
    // (a) skipping and missing fields of every shape
    let s = parallel(&l.plan.items, |it, st| {
        let readers: Vec<&Item> = match it.role {
            Role::Struct => vec![read_ab],
            Role::Tuple => vec![read_t],
            Role::Enum => vec![read_e, read_few],
            _ => return,
        };
        for v in l.item_values(it).into_iter().chain(l.long_values(it)) {
            let bytes = match real_encode(&l.entry(it), &v) {
                Ok((b, _)) => b,
                Err(p) => {
                    st.violation(format!("{}: encoding panicked", it.name), || p);
                    continue;
                }
            };
            for r in &readers {
                evolution_case(&l, it, r, &v, &bytes, st);
            }
            st.sample(|| format!("{} read as {}: {}", l.describe(it), l.describe(readers[0]), hex(&bytes[..bytes.len().min(24)])));
        }
        // data of the smaller schema read with the larger one
        for r in readers {
            for v in values(l.env(), &r.ty, 0) {
                match real_encode(&l.entry(r), &v) {
                    Ok((b, _)) => evolution_case(&l, r, it, &v, &b, st),
                    Err(p) => st.violation(format!("{}: encoding panicked", r.name), || p),
                }
            }
        }
    });
    rep.stats.merge(s);
    // (b) every pair of the families
    let group = |n: &str| ["FamE", "Fam", "WideE", "Wide"].into_iter().position(|p| n.starts_with(p));
    let fam: Vec<&Item> = l.plan.items.iter().filter(|i| group(&i.name).is_some()).collect();
    let s = parallel(&fam, |w, st| {
        for v in values(l.env(), &w.ty, 0) {
            let Ok((bytes, _)) = real_encode(&l.entry(w), &v) else {
                st.violation(format!("{}: encoding panicked", w.name), || v.short());
                continue;
            };
            for r in fam.iter().filter(|r| group(&r.name) == group(&w.name)) {
                evolution_case(&l, w, r, &v, &bytes, st);
            }
        }
    });
    rep.stats.merge(s);
    // (c) a longer array read with a shorter definition keeps its leading elements
    let pairs: Vec<(&Item, &Item)> = l
        .plan
        .items
        .iter()
        .filter(|i| i.role == Role::Struct)
        .filter_map(|w| match &w.shape {
            Ty::Array(t, 3) => l
                .plan
                .items
                .iter()
                .find(|r| r.role == Role::Struct && r.bytes_repr == w.bytes_repr && r.shape == arr((**t).clone(), 1))
                .map(|r| (w, r)),
            _ => None,
        })
        .collect();
    let s = parallel(&pairs, |(w, r), st| {
        for v in l.item_values(w) {
            let Ok((bytes, _)) = real_encode(&l.entry(w), &v) else { continue };
            let cut = |v: &Val| match v {
                Val::List(x) => Val::List(x[..1].to_vec()),
                Val::Opt(Some(x)) => match &**x {
                    Val::List(x) => Val::some(Val::List(x[..1].to_vec())),
                    _ => panic!(),
                },
                v => v.clone(),
            };
            let Val::Struct(f) = &v else { panic!() };
            let want = Val::Struct(f.iter().map(cut).collect()).canon();
            let got = real(&l.entry(r), &bytes, &[]);
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            st.count("array_shrink_cases", 1);
            if got.res != Ok(Ok(want.clone())) || got.used != bytes.len() {
                if l.affected_by_tuple(&w.ty, &v) {
                    let m = l.dec(&r.ty, &bytes);
                    if got.res.as_ref().is_ok_and(|g| *g == m.res || m.loose) {
                        st.known("tuple-field-size", || format!("{} read as {}", l.describe(w), l.describe(r)));
                        continue;
                    }
                }
                st.violation(format!("{} read as {}", w.name, r.name), || {
                    format!("writer {}\nreader {}\n{}\nbytes {}\nexpected {want:?}\ngot {:?}", l.describe(w), l.describe(r), v.short(), hex(&bytes), got.res)
                });
            }
        }
    });
    rep.stats.merge(s);
    // (d) unknown fields of every skip class and size in front of, between and behind known ones
    let s = unknown_fields(&l, find("FamN01"));
    rep.stats.merge(s);
    rep.note("bounds", format!("every type shape skipped and missing, all ordered selections of up to 3 of 4 fields (4 in thorough) pairwise, all variant subsets pairwise, hand-made unknown fields of every class; {BOUNDS}"));
    rep.finish()
}

fn unknown_fields(l: &Loaded, it: &Item) -> Stats {
    let d = l.env().get(&it.name);
    let Body::Struct(f) = &d.body else { panic!() };
    let ctx = Ctx { env: l.env(), q: NONE };
    let mut payloads: Vec<(u8, Vec<u8>)> = vec![(2, vec![0]), (2, vec![0xff]), (3, vec![0xff; 4]), (3, vec![0; 4]), (4, vec![0x80; 8]), (4, vec![0; 8])];
    for n in uints(128, 0) {
        let mut b = vec![];
        model::codec::put_varint(n, &mut b);
        payloads.push((0, b));
    }
    for n in [0usize, 1, 2, 127, 128, 129, 16383, 16384] {
        let mut b = vec![];
        model::codec::put_varint(n as u128, &mut b);
        b.extend(vec![0x80; n]);
        payloads.push((1, b));
    }
    let vals = values(l.env(), &it.ty, 0);
    parallel(&payloads, |(cl, p), st| {
        for id in [3u32, 15, 17, 2047, 100_000, (1 << 29) - 1] {
            for v in &vals {
                let Val::Struct(vs) = v else { panic!() };
                for at in 0..=f.list.len() {
                    for twice in [false, true] {
                        let mut b = vec![];
                        for i in 0..=f.list.len() {
                            if i == at {
                                for _ in 0..=twice as usize {
                                    model::codec::put_varint((id as u128) << 3 | *cl as u128, &mut b);
                                    b.extend(p);
                                }
                            }
                            if i < f.list.len() {
                                ctx.encode_field(d, &[], &f.list[i], &vs[i], &mut b);
                            }
                        }
                        b.push(0);
                        let got = real(&l.entry(it), &b, &[]);
                        st.states += 1;
                        st.transitions += 1;
                        st.traces += 1;
                        if got.res != Ok(Ok(v.canon())) || got.used != b.len() {
                            st.violation("unknown field disturbs known ones", || {
                                format!("{}\nunknown field id {id} class {cl}\ninput {}\nexpected {}\ngot {:?} after {} of {}", l.describe(it), hex(&b[..b.len().min(200)]), v.short(), got.res, got.used, b.len())
                            });
                        }
                    }
                }
            }
        }
    })
}

// ---- C06 ------------------------------------------------------------------------------------------
fn chunkings(n: usize, th: bool) -> Vec<Vec<usize>> {
    let mut out = vec![];
    if n <= if th { 14 } else { 9 } {
        for m in 1u32..1 << n.saturating_sub(1) {
            out.push((1..n).filter(|i| m >> (i - 1) & 1 == 1).collect());
        }
        return out;
    }
    if n <= 400 {
        for i in 1..n {
            out.push(vec![i]);
        }
    }
    if n <= if th { 60 } else { 24 } {
        for i in 1..n {
            for j in i + 1..n {
                out.push(vec![i, j]);
            }
        }
    }
    let big: &[usize] = if th { &[16, 63, 64, 65, 127, 128, 255, 256, 1000, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536] } else { &[64, 1000, 4096, 8192, 65536] };
    for k in (1..=8).chain(big.iter().copied()) {
        // byte-wise reading of huge inputs tells nothing new
        if n > 1000 && k < n && (k > 8 || n < 70_000 && (th || k == 1 || k == 7)) || n <= 1000 && k <= 8 || k < n && k > 8 {
            out.push((1..n).filter(|i| i % k == 0).collect());
        }
    }
    if n > 400 {
        for i in [1, 5, 6, 7, 8, 9, n / 2, n - 1] {
            out.push(vec![i]);
        }
    }
    out
}

pub fn c06() -> i32 {
    let l = load();
    let th = thorough();
    let mut rep = Report::new("C06");
    let s = parallel(&l.plan.items, |it, st| {
        let e = l.entry(it);
        let mut vals = l.item_values(it);
        let keep = if th { 200 } else { 20 };
        let step = vals.len().div_ceil(keep).max(1);
        vals = vals.into_iter().step_by(step).collect();
        let mut inputs: Vec<Vec<u8>> = vec![];
        for v in &vals {
            let b = l.enc(&it.ty, v);
            // valid, truncated and corrupted
            if b.len() > 1 {
                inputs.push(b[..b.len() - 1].to_vec());
                inputs.push(b[..b.len() / 2].to_vec());
                let mut x = b.clone();
                let k = x.len() / 2;
                x[k] ^= 0x80;
                inputs.push(x);
            }
            inputs.push(b);
            // chunked output: the same bytes whatever the output buffer
            if let Ok((whole, _)) = real_encode(&e, v) {
                if !has_hash(v) && whole.len() <= 64 {
                    for k in 0..=whole.len() {
                        let mut head = vec![0u8; k];
                        let mut tail: Vec<u8> = vec![];
                        let r = quiet(|| {
                            let mut w = (&mut head[..]).chain_mut(&mut tail);
                            (e.encode_into)(v, &mut w);
                        });
                        head.extend(&tail);
                        st.transitions += 1;
                        st.traces += 1;
                        if r.is_err() || head != whole {
                            st.violation(format!("{}: output depends on the output buffer", it.name), || {
                                format!("{}\nsplit after {k} bytes: {} {r:?}", show(&l, it, v, &whole), hex(&head))
                            });
                        }
                    }
                    let mut bm = bytes::BytesMut::new();
                    let r = quiet(|| (e.encode_into)(v, &mut bm));
                    if r.is_err() || bm[..] != whole[..] {
                        st.violation(format!("{}: output depends on the output buffer", it.name), || show(&l, it, v, &whole));
                    }
                }
            }
        }
        for (i, v) in l.long_values(it).into_iter().enumerate() {
            let b = l.enc(&it.ty, &v);
            if th || i % 3 == 1 {
                inputs.push(b[..b.len() - 1].to_vec());
            }
            if th || i % 3 == 0 {
                inputs.push(b);
            }
        }
        inputs.sort();
        inputs.dedup();
        for b in inputs {
            let base = real(&e, &b, &[]);
            for cuts in chunkings(b.len(), th) {
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
                let r = real(&e, &b, &cuts);
                let same = match (&base.res, &r.res) {
                    (Ok(Ok(a)), Ok(Ok(b))) => a == b && base.used == r.used,
                    (Ok(Err(a)), Ok(Err(b))) => a == b,
                    _ => false,
                };
                if !same {
                    st.violation(format!("{}: result depends on the input's chunks", it.name), || {
                        format!("{}\ninput {}\nchunks end at {cuts:?}\nwhole: {:?} after {}\nchunked: {:?} after {}", l.describe(it), hex(&b), base.res, base.used, r.res, r.used)
                    });
                }
            }
            st.sample(|| format!("{}: {} in {} chunkings", l.describe(it), hex(&b[..b.len().min(20)]), chunkings(b.len(), th).len()));
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", format!("all 2^(n-1) chunkings of inputs up to {} bytes, all one- and two-cut chunkings and chunk sizes 1..8 of longer ones; valid, truncated and corrupted inputs; {BOUNDS}", if th { 14 } else { 9 }));
    rep.finish()
}

// ---- C07 ------------------------------------------------------------------------------------------
pub fn c07() -> i32 {
    let l = load();
    let mut rep = Report::new("C07");
    let s = parallel(&l.plan.items, |it, st| {
        let e = l.entry(it);
        let d = l.env().defs.get(&it.name);
        for (vi, v) in l.item_values(it).iter().enumerate() {
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            let expect = l.enc(&it.ty, v);
            match real_encode(&e, v) {
                Err(p) => st.violation(format!("{}: encoding panicked", it.name), || p),
                Ok((b, _)) => {
                    if !same_encoding(&l, &it.ty, v, &b, &expect) && !(zero_size_elements(&l, &it.ty, v) && same_multiset(v, &b, &expect)) {
                        if l.affected_by_tuple(&it.ty, v) && same_multiset(v, &b, &l.enc_q(&it.ty, v)) {
                            st.known("tuple-field-size", || format!("{}; expected {}", show(&l, it, v, &b).replace('\n', "; "), hex(&expect)));
                        } else {
                            st.violation(format!("{}: bytes differ from the wire format", it.name), || {
                                format!("{}\nexpected: {}", show(&l, it, v, &b), hex(&expect))
                            });
                        }
                    }
                }
            }
            // the reference's bytes are understood
            let mut inputs = vec![expect];
            // other field orders, repeated fields
            let ctx = Ctx { env: l.env(), q: NONE };
            let parts = d.and_then(|d| match (&d.body, v) {
                (Body::Struct(f), Val::Struct(vs)) => Some((d, f, vs, vec![])),
                (Body::Enum(vars), Val::Enum(i, vs)) => {
                    let mut p = vec![];
                    model::codec::put_varint(vars[*i].id as u128, &mut p);
                    Some((d, &vars[*i].fields, vs, p))
                }
                _ => None,
            });
            if let (Some((d, f, vs, pre)), true) = (parts, vi < 60) {
                if f.kind != Kind::Unit {
                    let n = f.list.len();
                    let mut perms = vec![];
                    permute(&mut (0..n).collect::<Vec<_>>(), 0, &mut perms);
                    for p in perms {
                        let mut b = pre.clone();
                        ctx.encode_fields(d, &[], f, vs, &p, &mut b);
                        inputs.push(b);
                    }
                    // every field first with another value, then the real one (last wins)
                    for i in 0..n {
                        let (inner, _) = field_inner(&f.list[i]);
                        if matches!(vs[i], Val::Opt(None)) {
                            continue;
                        }
                        for alt in values(l.env(), inner, 2).iter().take(2) {
                            let alt = if field_inner(&f.list[i]).1 { Val::some(alt.clone()) } else { alt.clone() };
                            let mut b = pre.clone();
                            ctx.encode_field(d, &[], &f.list[i], &alt, &mut b);
                            let order: Vec<usize> = (0..n).collect();
                            ctx.encode_fields(d, &[], f, vs, &order, &mut b);
                            inputs.push(b);
                        }
                    }
                }
            }
            for b in inputs {
                st.transitions += 1;
                st.traces += 1;
                let got = real(&e, &b, &[]);
                if got.res == Ok(Ok(v.canon())) && got.used == b.len() {
                    continue;
                }
                if zero_size_elements(&l, &it.ty, v) {
                    let m = l.dec(&it.ty, &b);
                    if got.res.as_ref().is_ok_and(|g| *g == m.res) {
                        st.known("zero-size-elements", || show(&l, it, v, &b).replace('\n', "; "));
                        continue;
                    }
                }
                st.violation(format!("{}: conforming encoding not understood", it.name), || {
                    format!("{}\ngot {:?} after {} of {} bytes", show(&l, it, v, &b), got.res, got.used, b.len())
                });
            }
            st.sample(|| show(&l, it, v, &l.enc(&it.ty, v)).replace('\n', "; "));
        }
    });
    rep.stats.merge(s);
    rep.note("bounds", format!("{BOUNDS}; all field permutations, every field repeated with two other values"));
    rep.assumptions.push("reference written from book/src/reference/wire-format.md; where that page is silent (framing of tuples and arrays as fields, end markers) from the runtime's own documentation".into());
    rep.finish()
}

fn permute(p: &mut Vec<usize>, k: usize, out: &mut Vec<Vec<usize>>) {
    let n = p.len();
    if n > 6 {
        out.push((0..n).rev().collect());
        for i in [1, 2, 3, n / 2, n - 1] {
            out.push((0..n).map(|x| (x + i) % n).collect());
        }
        for i in 0..n - 1 {
            out.push((0..n).map(|x| if x == i { i + 1 } else if x == i + 1 { i } else { x }).collect());
        }
        return;
    }
    if k == n {
        out.push(p.clone());
        return;
    }
    for i in k..p.len() {
        p.swap(k, i);
        permute(p, k + 1, out);
        p.swap(k, i);
    }
}

// ---- C08 ------------------------------------------------------------------------------------------
pub fn c08() -> i32 {
    let l = load();
    let mut rep = Report::new("C08");
    let items: Vec<&Item> = l
        .plan
        .items
        .iter()
        .filter(|i| i.role != Role::Direct && i.shape.any(&mut |t| matches!(t, Ty::NonZero(_))))
        .collect();
    let s = parallel(&items, |it, st| {
        let e = l.entry(it);
        let d = l.env().get(&it.name);
        // the same definition with non_zero removed, zero values included
        let strip = |t: &Ty| strip_nz(t);
        let mut plain = (*d).clone();
        plain.name = format!("Plain{}", d.name);
        match &mut plain.body {
            Body::Struct(f) => f.list.iter_mut().for_each(|f| f.ty = strip(&f.ty)),
            Body::Enum(vs) => vs.iter_mut().for_each(|v| v.fields.list.iter_mut().for_each(|f| f.ty = strip(&f.ty))),
            Body::Alias(_) => {}
        }
        let mut env = l.env().clone();
        env.extend(&[plain.clone()]);
        let pty = ext(&plain.name);
        let ctx = Ctx { env: &env, q: NONE };
        let mut vals = match it.role {
            Role::Struct => {
                let s = strip(&it.shape);
                let mut out = vec![];
                for lvl in [0, 1, 2] {
                    for x in values(&env, &s, lvl) {
                        out.push(Val::Struct(vec![Val::U(1), x.clone(), Val::U(2), Val::none()]));
                        out.push(Val::Struct(vec![Val::U(1), values(&env, &s, 2).last().unwrap().clone(), Val::U(2), Val::some(x)]));
                    }
                }
                out
            }
            _ => values(&env, &pty, 0),
        };
        vals.extend(l.long_values(it));
        vals.dedup();
        for v in vals {
            let b = ctx.to_bytes(&pty, &v);
            st.states += 1;
            st.transitions += 1;
            let m = l.dec(&it.ty, &b);
            let got = real(&e, &b, &[]);
            match &m.res {
                Err(DecErr::Zero) => st.count("zero_payloads", 1),
                Ok(_) => st.count("non_zero_payloads", 1),
                Err(_) => st.count("other_payloads", 1),
            }
            st.traces += 1;
            let same = match (&got.res, &m.res) {
                (Ok(Ok(a)), Ok(b)) => a == b && got.used == m.used,
                (Ok(Err(a)), Err(b)) => a == b || (*b != DecErr::Zero && *a != DecErr::Zero),
                _ => false,
            };
            if !same && !m.loose {
                st.violation(format!("{}: non-zero rule broken on decoding", it.name), || {
                    format!("{}\nexpected {:?}\ngot {:?}", show(&l, it, &v, &b), m.res, got.res)
                });
                continue;
            }
            if let (Ok(Ok(w)), false) = (&got.res, m.loose) {
                // encoding a non-zero value gives the plain bytes
                if let Ok((b2, _)) = real_encode(&e, w) {
                    st.transitions += 1;
                    if m.used == b.len() && !l.affected_by_tuple(&it.ty, w) && w.canon() == v.canon() && !same_multiset(w, &b2, &b) {
                        st.violation(format!("{}: non-zero value encodes differently", it.name), || {
                            format!("{}\nencoded {}", show(&l, it, &v, &b), hex(&b2))
                        });
                    }
                }
            }
            st.sample(|| show(&l, it, &v, &b).replace('\n', "; "));
            // the same payload cut short must never become an accepted value by way of the zero rule
            for n in 0..b.len().min(24) {
                let got = real(&e, &b[..n], &[]);
                let m = l.dec(&it.ty, &b[..n]);
                st.transitions += 1;
                if !m.loose && got.res.as_ref().map(|r| r.is_ok()) != Ok(m.res.is_ok()) {
                    st.violation(format!("{}: non-zero rule broken on short input", it.name), || {
                        format!("{}\nexpected {:?}\ngot {:?}", show(&l, it, &v, &b[..n]), m.res, got.res)
                    });
                }
            }
        }
    });
    rep.stats.merge(s);
    constructors(&mut rep.stats);
    routes::all(&mut rep.stats);
    rep.stats.count("types", items.len() as u64);
    rep.note("bounds", "every non_zero shape of the universe with every boundary payload of the plain type, zero and empty included, every prefix of each payload; every constructor on every boundary value");
    rep.finish()
}

fn strip_nz(t: &Ty) -> Ty {
    match t {
        Ty::NonZero(t) => strip_nz(t),
        Ty::Vec(t) => vec(strip_nz(t)),
        Ty::Opt(t) => opt(strip_nz(t)),
        Ty::Set(t) => set(strip_nz(t)),
        Ty::Map(k, v) => map(strip_nz(k), strip_nz(v)),
        Ty::Array(t, n) => arr(strip_nz(t), *n),
        Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(strip_nz).collect()),
        t => t.clone(),
    }
}

fn constructors(st: &mut Stats) {
    use mabo::NonZero;
    use std::collections::{HashMap, HashSet};
    macro_rules! case {
        ($t:ty, $v:expr) => {{
            let v: $t = $v;
            let empty = v.is_empty();
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            let r = quiet(|| {
                let n = NonZero::<$t>::new(v.clone());
                let kept = n.as_ref().map(|n| *n.get() == v && n.len() == v.len());
                (kept, n.map(|n| n.into_inner()))
            });
            let ok = match r {
                Ok((None, None)) => empty,
                Ok((Some(true), Some(w))) => !empty && w == v,
                _ => false,
            };
            if !ok {
                st.violation(concat!("NonZero constructor of ", stringify!($t)), || format!("{v:?}"));
            }
        }};
    }
    for n in [0usize, 1, 2, 3, 127, 128, 300] {
        case!(String, "a".repeat(n));
        case!(String, "\0".repeat(n));
        case!(Vec<u8>, vec![0; n]);
        case!(Vec<String>, vec![String::new(); n]);
        case!(Vec<()>, vec![(); n]);
        case!(mabo::Bytes, mabo::Bytes::from(vec![0u8; n]));
        case!(HashMap<u32, u8>, (0..n as u32).map(|i| (i, 0)).collect());
        case!(HashSet<u32>, (0..n as u32).collect());
    }
    // the integers' own decoders
    macro_rules! ints {
        ($($t:ty, $enc:ident, $dec:ident);* $(;)?) => {$({
            let mut vals: Vec<$t> = vec![0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX / 2, <$t>::MIN / 2];
            vals.extend((0..<$t>::BITS).map(|s| (1 as $t) << s));
            for v in vals {
                st.states += 1; st.transitions += 1; st.traces += 1;
                let mut b = vec![];
                mabo::buf::$enc(&mut b, v);
                let r = quiet(|| mabo::buf::$dec(&mut &b[..]));
                let ok = match r {
                    Ok(Ok(n)) => v != 0 && n.get() == v,
                    Ok(Err(mabo::buf::Error::Zero)) => v == 0,
                    _ => false,
                };
                if !ok { st.violation(concat!("non-zero decoding of ", stringify!($t)), || v.to_string()); }
            }
        })*};
    }
    ints! {
        u8, encode_u8, decode_non_zero_u8; u16, encode_u16, decode_non_zero_u16; u32, encode_u32, decode_non_zero_u32;
        u64, encode_u64, decode_non_zero_u64; u128, encode_u128, decode_non_zero_u128;
        i8, encode_i8, decode_non_zero_i8; i16, encode_i16, decode_non_zero_i16; i32, encode_i32, decode_non_zero_i32;
        i64, encode_i64, decode_non_zero_i64; i128, encode_i128, decode_non_zero_i128;
    }
}

/// Other ways than the constructor that could lead to a non-zero value: every conversion trait of the
/// standard library, and access to the inner value. Those that the type doesn't offer fall through to
/// a stand-in that gives nothing.
mod routes {
    use std::{
        borrow::BorrowMut,
        collections::{HashMap, HashSet},
        fmt::Debug,
        marker::PhantomData,
        ops::DerefMut,
        str::FromStr,
    };

    use mabo::NonZero;
    use model::report::{Stats, quiet};

    struct W<N, X>(PhantomData<(N, X)>);
    macro_rules! route {
        ($yes:ident, $no:ident, $f:ident, [$($bound:tt)*], $make:expr) => {
            trait $yes<N, X> {
                fn $f(&self, start: Option<N>) -> Option<N>;
            }
            impl<N, X: Default> $yes<N, X> for W<N, X> where $($bound)* {
                fn $f(&self, start: Option<N>) -> Option<N> {
                    let make: fn(Option<N>) -> Option<N> = $make;
                    make(start)
                }
            }
            trait $no<N> {
                fn $f(&self, start: Option<N>) -> Option<N>;
            }
            impl<N, X> $no<N> for &W<N, X> {
                fn $f(&self, _: Option<N>) -> Option<N> {
                    None
                }
            }
        };
    }
    route!(Y1, N1, by_default, [N: Default], |_| Some(N::default()));
    route!(Y2, N2, by_from, [N: From<X>], |_| Some(N::from(X::default())));
    route!(Y3, N3, by_try_from, [N: TryFrom<X>], |_| N::try_from(X::default()).ok());
    route!(Y4, N4, by_from_iter, [X: IntoIterator, N: FromIterator<X::Item>], |_| Some(X::default().into_iter().collect()));
    route!(Y5, N5, by_deref_mut, [N: DerefMut<Target = X>], |n| n.map(|mut n| { *n = X::default(); n }));
    route!(Y6, N6, by_as_mut, [N: AsMut<X>], |n| n.map(|mut n| { *n.as_mut() = X::default(); n }));
    route!(Y7, N7, by_borrow_mut, [N: BorrowMut<X>], |n| n.map(|mut n| { *BorrowMut::<X>::borrow_mut(&mut n) = X::default(); n }));
    route!(Y8, N8, by_from_str, [N: FromStr], |_| "".parse().ok());
    route!(Y9, N9, by_chars, [N: FromIterator<char>], |_| Some(std::iter::empty().collect()));
    route!(Y10, N10, by_str, [N: for<'a> From<&'a str>], |_| Some("".into()));
    route!(Y11, N11, by_slice, [N: for<'a> From<&'a [u8]>], |_| Some((&[][..]).into()));

    route!(Y12, N12, by_decode, [N: mabo::Decode], |_| N::decode(&mut &[0u8, 0, 0][..]).ok());

    /// What a method that the type doesn't have returns.
    struct Nothing;
    trait Fallback {
        fn get_mut(&mut self) -> Nothing {
            Nothing
        }
        fn inner_mut(&mut self) -> Nothing {
            Nothing
        }
        fn as_inner_mut(&mut self) -> Nothing {
            Nothing
        }
        fn value_mut(&mut self) -> Nothing {
            Nothing
        }
        fn clear(&mut self) -> Nothing {
            Nothing
        }
    }
    impl<T> Fallback for NonZero<T> {}
    /// What such a method returned, if that is a reference to the inner value.
    struct Inner<T>(T);
    trait Empty {
        fn empty(&mut self);
    }
    impl<X: Default> Empty for Inner<&mut X> {
        fn empty(&mut self) {
            *self.0 = X::default();
        }
    }
    impl<X: Default> Empty for Inner<Option<&mut X>> {
        fn empty(&mut self) {
            if let Some(x) = &mut self.0 {
                **x = X::default();
            }
        }
    }
    trait Other {
        fn empty(&mut self) {}
    }
    impl<T> Other for &mut Inner<T> {}

    fn judge<N: Debug>(st: &mut Stats, what: &str, r: Result<Option<N>, impl Debug>, empty: impl Fn(&N) -> bool) {
        st.states += 1;
        st.transitions += 1;
        st.traces += 1;
        match r {
            Ok(Some(n)) if empty(&n) => st.violation(format!("an empty non-zero value through {what}"), || format!("{n:?}")),
            _ => {}
        }
    }

    macro_rules! each {
        ($st:ident, $x:ty, $v:expr, $($f:ident)*) => {$(
            let r = quiet(|| (&W::<NonZero<$x>, $x>(PhantomData)).$f(NonZero::<$x>::new($v)));
            judge($st, concat!(stringify!($f), " of ", stringify!($x)), r, |n| n.get().is_empty());
        )*};
    }
    macro_rules! method {
        ($st:ident, $x:ty, $v:expr, $($f:ident)*) => {$(
            let r = quiet(|| {
                let mut n = NonZero::<$x>::new($v)?;
                (&mut Inner(n.$f())).empty();
                Some(n)
            });
            judge($st, concat!(stringify!($f), " of ", stringify!($x)), r, |n| n.get().is_empty());
        )*};
    }
    macro_rules! check {
        ($st:ident, $x:ty, $v:expr) => {
            each!($st, $x, $v, by_default by_from by_try_from by_from_iter by_deref_mut by_as_mut by_borrow_mut by_from_str by_chars by_str by_slice by_decode);
            method!($st, $x, $v, get_mut inner_mut as_inner_mut value_mut clear);
        };
    }
    pub fn all(st: &mut Stats) {
        check!(st, String, "a".to_owned());
        check!(st, Vec<u8>, vec![0]);
        check!(st, Vec<String>, vec![String::new()]);
        check!(st, mabo::Bytes, mabo::Bytes::from(vec![0]));
        check!(st, HashMap<u32, u8>, [(0, 0)].into());
        check!(st, HashSet<u32>, [0].into());
    }
}
