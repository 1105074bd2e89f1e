//! Evidence, violations and known findings.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::time::Instant;

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| "/verif".into(), PathBuf::from)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough")
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ")
}

/// Results of one worker (or of the whole run).
#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<(String, String)>,
    pub nviol: u64,
    pub known: BTreeMap<String, (u64, String)>,
}

impl Stats {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, what: impl Into<String>, detail: impl FnOnce() -> String) {
        self.nviol += 1;
        let what = what.into();
        if self.violations.len() < 12 && self.violations.iter().filter(|v| v.0 == what).count() < 2 {
            self.violations.push((what, detail()));
        }
    }
    /// A deviation that equals, exactly, the predicted effect of the finding `key`.
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> String) {
        let e = self.known.entry(key.into()).or_default();
        e.0 += 1;
        if e.1.is_empty() {
            e.1 = detail();
        }
    }
    pub fn merge(&mut self, o: Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
        for (w, d) in o.violations {
            if self.violations.iter().filter(|v| v.0 == w).count() < 6 {
                self.violations.push((w, d));
            }
        }
        self.nviol += o.nviol;
        for (k, (n, s)) in o.known {
            let e = self.known.entry(k).or_default();
            e.0 += n;
            if e.1.is_empty() {
                e.1 = s;
            }
        }
    }
}

pub struct Report {
    pub property: String,
    start: Instant,
    pub stats: Stats,
    pub notes: Vec<(String, String)>,
    pub assumptions: Vec<String>,
    pub exhaustive: bool,
}

impl Report {
    pub fn new(property: &str) -> Self {
        *PROPERTY.lock().unwrap() = property.into();
        Report {
            property: property.into(),
            start: Instant::now(),
            stats: Stats::default(),
            notes: vec![],
            assumptions: vec![],
            exhaustive: true,
        }
    }
    pub fn note(&mut self, k: &str, v: impl Into<String>) {
        self.notes.push((k.into(), v.into()));
    }
    fn listed(&self) -> Vec<(String, String)> {
        let f = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
        let pre = format!("known: property={} key=", self.property);
        f.lines()
            .filter_map(|l| l.strip_prefix(&pre))
            .map(|l| {
                let (k, t) = l.split_once(' ').unwrap_or((l, ""));
                (k.to_string(), t.to_string())
            })
            .collect()
    }
    /// Write the evidence, print the verdict and return the exit status.
    pub fn finish(mut self) -> i32 {
        let listed = self.listed();
        let known = std::mem::take(&mut self.stats.known);
        let mut known_out = vec![];
        for (k, (n, s)) in known {
            match listed.iter().find(|(l, _)| *l == k) {
                Some((_, text)) => {
                    println!("KNOWN-FINDING: property={} {k}: {text} ({n} cases, e.g. {s})", self.property);
                    known_out.push(format!("{k}: {n} cases"));
                }
                None => {
                    self.stats.nviol += n;
                    self.stats.violations.push((format!("unlisted deviation {k}"), s));
                }
            }
        }
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        let tier = if thorough() { "thorough" } else { "quick" };
        // stop counterexamples of an earlier run from looking current
        if let Ok(rd) = std::fs::read_dir(dir.join("replay")) {
            for e in rd.flatten() {
                if e.file_name().to_string_lossy().starts_with(&format!("{}-", self.property)) {
                    let _ = std::fs::remove_file(e.path());
                }
            }
        }
        for (i, (what, detail)) in self.stats.violations.iter().take(24).enumerate() {
            let p: PathBuf = dir.join("replay").join(format!("{}-{i}.txt", self.property));
            let _ = std::fs::write(&p, format!("{what}\n\n{detail}\n"));
            println!("VIOLATION property={} replay={}", self.property, p.display());
            println!("  {}", what.lines().next().unwrap_or(""));
        }
        let s = &self.stats;
        let mut j = String::from("{\n");
        writeln!(j, " \"property\": {},", esc(&self.property)).unwrap();
        writeln!(j, " \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",", seed()).unwrap();
        writeln!(j, " \"coverage\": {{").unwrap();
        writeln!(j, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},", s.states, s.transitions, s.traces).unwrap();
        writeln!(j, "  \"exhaustive\": {},", self.exhaustive).unwrap();
        for (k, v) in &s.counters {
            writeln!(j, "  {}: {v},", esc(k)).unwrap();
        }
        for (k, v) in &self.notes {
            writeln!(j, "  {}: {},", esc(k), esc(v)).unwrap();
        }
        writeln!(j, "  \"known_findings_reproduced\": [{}],", known_out.iter().map(|k| esc(k)).collect::<Vec<_>>().join(", ")).unwrap();
        let samples: Vec<_> = s.samples.iter().take(12).map(|s| esc(s)).collect();
        writeln!(j, "  \"samples\": [{}]\n }},", samples.join(",\n   ")).unwrap();
        writeln!(j, " \"assumptions\": [{}],", self.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")).unwrap();
        writeln!(j, " \"wall_s\": {:.2},\n \"violations\": {}\n}}", self.start.elapsed().as_secs_f64(), s.nviol).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.property)), j).unwrap();
        println!(
            "{} {tier}: states={} transitions={} traces={} violations={} wall={:.1}s",
            self.property,
            s.states,
            s.transitions,
            s.traces,
            s.nviol,
            self.start.elapsed().as_secs_f64()
        );
        if s.nviol > 0 {
            1
        } else if s.states == 0 {
            eprintln!("nothing explored");
            3
        } else {
            0
        }
    }
}

static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
static PROPERTY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn job_limit() -> u64 {
    if thorough() { 1800 } else { 240 }
}
/// End the whole check with a violation that leaves no way to go on.
pub fn give_up(what: &str) -> ! {
    let id = PROPERTY.lock().map(|p| p.clone()).unwrap_or_default();
    let dir = root().join("evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-hang.txt"));
    let _ = std::fs::write(&p, format!("{what}\n"));
    println!("VIOLATION property={id} replay={}\n  {what}", p.display());
    std::process::exit(1);
}

/// Run `f` over all jobs on all cores; results are merged in job order (deterministic).
pub fn parallel<J: Sync, F: Fn(&J, &mut Stats) + Sync>(jobs: &[J], f: F) -> Stats {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    // A job that never ends (the code under test hangs) is a violation, not a check without an answer.
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let current: std::sync::Arc<Vec<std::sync::Mutex<(usize, Option<Instant>)>>> =
        std::sync::Arc::new((0..n).map(|_| std::sync::Mutex::new((0, None))).collect());
    {
        let (done, current) = (done.clone(), current.clone());
        std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(200));
                for c in current.iter() {
                    let (i, t) = *c.lock().unwrap();
                    if t.is_some_and(|t| t.elapsed().as_secs() > job_limit()) && !done.load(Ordering::Relaxed) {
                        give_up(&format!("job {i} did not end within {} s: the code under test hangs", job_limit()));
                    }
                }
            }
        });
    }
    let mut parts: Vec<(usize, Stats)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|w| {
                let (next, f, cur) = (&next, &f, &current[w]);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut out = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= jobs.len() {
                                return out;
                            }
                            let mut st = Stats::default();
                            *cur.lock().unwrap() = (i, Some(Instant::now()));
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&jobs[i], &mut st)));
                            *cur.lock().unwrap() = (i, None);
                            if r.is_err() {
                                st.violation(format!("job {i} panicked outside of the observed calls"), || LAST_PANIC.lock().unwrap().clone());
                            }
                            out.push((i, st));
                        }
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("worker")).collect()
    });
    done.store(true, std::sync::atomic::Ordering::Relaxed);
    parts.sort_by_key(|p| p.0);
    let mut out = Stats::default();
    for (_, p) in parts {
        out.merge(p);
    }
    // Spread the samples over the run.
    if out.samples.len() > 12 {
        let step = out.samples.len() / 12;
        out.samples = out.samples.into_iter().step_by(step.max(1)).take(12).collect();
    }
    out
}

/// Run `f`, turning a panic into an error. Panics are not printed.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    static HOOK: std::sync::Once = std::sync::Once::new();
    thread_local!(static Q: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !Q.with(|q| q.get()) {
                *LAST_PANIC.lock().unwrap() = i.to_string();
            }
            if !Q.with(|q| q.get()) {
                old(i);
            }
        }));
    });
    Q.with(|q| q.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    Q.with(|q| q.set(false));
    r.map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_else(|e| panic!("{}: {e}", p.display()))
}
