use bridge::Entry;
use bytes::Buf;
use model::codec::{Ctx, Dec, DecErr, NONE, TUPLE};
use model::report::{hex, quiet};
use model::ty::*;
use model::universe::*;
use model::val::Val;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

// ---- allocation accounting --------------------------------------------------------------------
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CASE: RefCell<Option<String>> = const { RefCell::new(None) };
}
struct Counting;
const SINGLE_LIMIT: usize = 1 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
fn note(d: isize) {
    if d > SINGLE_LIMIT as isize {
        giant(d as usize);
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
/// A single request far beyond any input size: report it and stop, the process would die anyway.
fn giant(n: usize) {
    let case = CASE.try_with(|c| c.try_borrow().ok().and_then(|c| c.clone())).ok().flatten();
    if let Some(c) = case {
        let _ = CASE.try_with(|c| c.try_borrow_mut().map(|mut c| *c = None));
        let mut r = model::report::Report::new("C04");
        r.exhaustive = false;
        r.stats.states = 1;
        r.stats.violation(format!("decoding requested {n} bytes of memory at once"), || c);
        std::process::exit(r.finish());
    }
}
#[global_allocator]
static A: Counting = Counting;

/// Peak additional memory while running `f`. `case` names the input for fatal requests.
pub fn peak<T>(case: impl FnOnce() -> String, f: impl FnOnce() -> T) -> (T, isize) {
    CASE.with(|c| *c.borrow_mut() = Some(case()));
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let r = f();
    let p = PEAK.with(Cell::get) - base;
    CASE.with(|c| *c.borrow_mut() = None);
    (r, p)
}

// ---- input buffer under the explorer's control -------------------------------------------------
/// A buffer presenting `data` in chunks that end at the positions of `cuts`. Every call costs
/// fuel, so that a decoder making no progress is stopped.
pub struct FragBuf<'a> {
    pub data: &'a [u8],
    pub cuts: &'a [usize],
    pub pos: usize,
    pub fuel: Cell<u64>,
}
pub const OUT_OF_FUEL: &str = "no progress: buffer polled without consuming input";
impl<'a> FragBuf<'a> {
    pub fn new(data: &'a [u8], cuts: &'a [usize]) -> Self {
        let fuel = Cell::new(200_000 + 2_000 * data.len() as u64);
        FragBuf { data, cuts, pos: 0, fuel }
    }
    fn burn(&self) {
        let f = self.fuel.get();
        if f == 0 {
            panic!("{OUT_OF_FUEL}");
        }
        self.fuel.set(f - 1);
    }
}
impl Buf for FragBuf<'_> {
    fn remaining(&self) -> usize {
        self.burn();
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        self.burn();
        let end = self.cuts.get(self.cuts.partition_point(|c| *c <= self.pos)).copied().unwrap_or(self.data.len());
        &self.data[self.pos..end.min(self.data.len())]
    }
    fn advance(&mut self, n: usize) {
        self.burn();
        assert!(n <= self.data.len() - self.pos, "advance past the end of the buffer");
        self.pos += n;
    }
}

// ---- loaded plan --------------------------------------------------------------------------------
pub struct Loaded {
    pub plan: Plan,
    pub entries: BTreeMap<&'static str, Entry>,
}
pub fn load() -> Loaded {
    let plan = plan(model::report::thorough(), 8);
    let mut entries = BTreeMap::new();
    for t in [
        shard0::table(),
        shard1::table(),
        shard2::table(),
        shard3::table(),
        shard4::table(),
        shard5::table(),
        shard6::table(),
        shard7::table(),
    ] {
        for e in t {
            assert!(entries.insert(e.name, e).is_none(), "duplicate entry {}", e.name);
        }
    }
    assert_eq!(entries.len(), plan.items.len(), "generated table does not match the plan");
    Loaded { plan, entries }
}

impl Loaded {
    pub fn env(&self) -> &Env {
        &self.plan.env
    }
    pub fn entry(&self, it: &Item) -> Entry {
        self.entries[it.name.as_str()]
    }
    pub fn describe(&self, it: &Item) -> String {
        match it.role {
            Role::Direct => format!("Rust type {}", rust_ty(&it.ty, it.bytes_repr)),
            _ => format!(
                "{}{}",
                def_text(self.env().get(&it.name)).split_whitespace().collect::<Vec<_>>().join(" "),
                if it.bytes_repr { " (bytes as Bytes)" } else { "" }
            ),
        }
    }
    /// Values of an item: the shape's full boundary set in each position in turn.
    pub fn item_values(&self, it: &Item) -> Vec<Val> {
        let env = self.env();
        match it.role {
            Role::Struct => {
                let full = values(env, &it.shape, 0);
                let few = values(env, &it.shape, 1);
                let mut out = vec![];
                let mk = |a: u128, x: &Val, b: u128, z: Val| {
                    Val::Struct(vec![Val::U(a), x.clone(), Val::U(b), z])
                };
                for x in &full {
                    out.push(mk(7, x, 300, Val::none()));
                }
                for x in few.iter().take(3) {
                    for z in &few {
                        out.push(mk(0, x, 65535, Val::some(z.clone())));
                    }
                }
                out
            }
            _ => values(env, &it.ty, 0),
        }
    }
    /// Collections, strings and bytes far longer than the boundary values of the universe.
    pub fn long_values(&self, it: &Item) -> Vec<Val> {
        let env = self.env();
        let shape = match &it.shape {
            Ty::NonZero(t) => t,
            t => t,
        };
        if it.role != Role::Struct {
            return vec![];
        }
        let flat = |t: &Ty| t.children().is_empty();
        let limit = |t: &Ty| match t {
            Ty::Bool => 2usize,
            Ty::U(8) | Ty::I(8) => 256,
            Ty::U(16) | Ty::I(16) => 65536,
            _ => usize::MAX,
        };
        let key = |t: &Ty, i: usize| match t {
            Ty::Bool => Some(Val::Bool(i % 2 == 1)),
            Ty::U(_) => Some(Val::U(i as u128)),
            Ty::I(8) => Some(Val::I(i as u8 as i8 as i128)),
            Ty::I(16) => Some(Val::I(i as u16 as i16 as i128)),
            Ty::I(_) => Some(Val::I(i as i128 * if i % 2 == 0 { 1 } else { -1 })),
            Ty::Str => Some(Val::Str(format!("{i}"))),
            Ty::Bytes => Some(Val::bytes(&(i as u32).to_le_bytes())),
            _ => None,
        };
        let elem = |t: &Ty| values(env, t, 1);
        let make = |n: usize| -> Option<Val> {
            Some(match shape {
                Ty::Str | Ty::StrRef | Ty::BoxStr => Val::Str((0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect()),
                Ty::Bytes | Ty::BytesRef | Ty::BoxBytes => Val::List((0..n).map(|i| Val::U((i * 31 % 256) as u128)).collect()),
                Ty::Vec(t) if flat(t) => Val::List(elem(t).into_iter().cycle().take(n).collect()),
                Ty::Set(t) if flat(t) && n <= limit(t) => Val::Set((0..n).map(|i| key(t, i)).collect::<Option<_>>()?).canon(),
                Ty::Map(k, t) if flat(k) && flat(t) && n <= limit(k) => {
                    Val::Map((0..n).map(|i| key(k, i)).collect::<Option<Vec<_>>>()?.into_iter().zip(elem(t).into_iter().cycle()).collect()).canon()
                }
                _ => return None,
            })
        };
        let mut lens: Vec<usize> = (120..=135).chain([255, 256, 257, 300, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 65535, 65536, 65537]).collect();
        if matches!(shape, Ty::Str | Ty::Bytes) {
            lens.extend([(1 << 21) - 1, 1 << 21]);
        }
        if model::report::thorough() {
            lens.extend(0..120);
            lens.extend(136..600);
        }
        let mut out = vec![];
        for n in lens {
            if matches!(it.shape, Ty::NonZero(_)) && n == 0 {
                continue;
            }
            if let Some(v) = make(n) {
                out.push(Val::Struct(vec![Val::U(7), v, Val::U(300), Val::none()]));
            }
        }
        if let Some(v) = make(200) {
            out.push(Val::Struct(vec![Val::U(7), v.clone(), Val::U(300), Val::some(v)]));
        }
        out
    }
    pub fn dec(&self, t: &Ty, bytes: &[u8]) -> Model {
        let mut d = Dec::new(self.env(), bytes);
        let r = d.decode(t).map(|v| v.canon());
        Model { res: r, used: d.pos, loose: d.loose }
    }
    pub fn enc(&self, t: &Ty, v: &Val) -> Vec<u8> {
        Ctx { env: self.env(), q: NONE }.to_bytes(t, v)
    }
    pub fn enc_q(&self, t: &Ty, v: &Val) -> Vec<u8> {
        Ctx { env: self.env(), q: TUPLE }.to_bytes(t, v)
    }
    pub fn size_q(&self, t: &Ty, v: &Val) -> usize {
        Ctx { env: self.env(), q: TUPLE }.size(t, v)
    }
    pub fn affected_by_tuple(&self, t: &Ty, v: &Val) -> bool {
        self.size_q(t, v) != Ctx { env: self.env(), q: NONE }.size(t, v)
            || self.enc(t, v) != self.enc_q(t, v)
    }
}

pub struct Model {
    pub res: Result<Val, DecErr>,
    pub used: usize,
    pub loose: bool,
}

pub struct Real {
    /// Outer error: panic message.
    pub res: Result<Result<Val, DecErr>, String>,
    pub used: usize,
}
pub fn real(e: &Entry, data: &[u8], cuts: &[usize]) -> Real {
    let mut b = FragBuf::new(data, cuts);
    let res = quiet(|| (e.decode)(&mut b)).map(|r| r.map(|v| v.canon()));
    Real { res, used: b.pos }
}
pub fn real_encode(e: &Entry, v: &Val) -> Result<(Vec<u8>, usize), String> {
    quiet(|| (e.encode)(v))
}

/// Whether `bytes` is `t`'s encoding of `v` under the given quirks in some order of hash elements.
pub fn same_encoding(l: &Loaded, t: &Ty, v: &Val, bytes: &[u8], expect: &[u8]) -> bool {
    if bytes == expect {
        return true;
    }
    if bytes.len() != expect.len() || !has_hash(v) {
        return false;
    }
    // The order of hash elements is free: read them in wire order and encode in that order.
    let mut d = Dec::new(l.env(), bytes);
    if let Ok(w) = d.decode(t) {
        if w.canon() == v.canon() && d.pos == bytes.len() && l.enc(t, &w) == bytes {
            return true;
        }
    }
    false
}
/// Same bytes up to order; only used to recognise a recorded finding.
pub fn same_multiset(v: &Val, a: &[u8], b: &[u8]) -> bool {
    if !has_hash(v) {
        return a == b;
    }
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    a.sort();
    b.sort();
    a == b
}
pub fn has_hash(v: &Val) -> bool {
    match v {
        Val::Set(s) => s.len() > 1 || s.iter().any(has_hash),
        Val::Map(m) => m.len() > 1 || m.iter().any(|(a, b)| has_hash(a) || has_hash(b)),
        Val::List(l) | Val::Struct(l) | Val::Enum(_, l) => l.iter().any(has_hash),
        Val::Opt(Some(v)) => has_hash(v),
        _ => false,
    }
}
pub fn show(l: &Loaded, it: &Item, v: &Val, bytes: &[u8]) -> String {
    format!("{}\nvalue: {}\nbytes: {}{}", l.describe(it), v.short(), hex(&bytes[..bytes.len().min(4096)]), if bytes.len() > 4096 { format!("… ({} bytes)", bytes.len()) } else { String::new() })
}
